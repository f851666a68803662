//! One run of a check: scenarios, verdict, evidence; and the process supervising it.
use crate::explore::{self, Body, Choices, Collected, Limits, RunOutcome};
use crate::inflight::Inflight;
use crate::json;
use crate::scratch::{self, Scratch};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Level {
    ModelChecking,
    Exploration,
    FaultEnumeration,
}

struct Report {
    name: String,
    bound: String,
    col: Collected,
    capped: bool,
    secs: f64,
    samples: Vec<Vec<String>>,
}

struct Replay {
    scenario: String,
    choices: Choices,
}

pub struct Run {
    id: &'static str,
    level: Level,
    rule: &'static str,
    pub thorough: bool,
    tier: String,
    seed: u64,
    workers: usize,
    inflight: Inflight,
    replay: Option<Replay>,
    replay_hit: Option<Result<(), String>>,
    reports: Vec<Report>,
    violation: Option<String>,
    started: Instant,
    deadline: Duration,
    scenario_index: u32,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    findings: u64,
    only: Option<String>,
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok()
}

fn env_path(k: &str, default: &str) -> PathBuf {
    PathBuf::from(env(k).unwrap_or_else(|| default.into()))
}

fn write_replay(id: &str, scenario: &str, choices: &[(u32, u32)], tier: &str, extra: &str) -> PathBuf {
    let dir = env_path("MC_REPLAYS", "replays");
    let _ = std::fs::create_dir_all(&dir);
    let build = env("MC_BUILD").unwrap_or_else(|| "checked".into());
    let mut text = format!("property {}\ntier {}\nbuild {}\nscenario {}\nchoices", id, tier, build, scenario);
    for (c, n) in choices {
        let _ = write!(text, " {}/{}", c, n);
    }
    text.push('\n');
    for l in extra.lines() {
        let _ = writeln!(text, "# {}", l);
    }
    let h = explore::hash_of(&(scenario, choices, build));
    let path = dir.join(format!("{}-{:016x}.txt", id, h));
    std::fs::write(&path, text).expect("cannot write the replay file");
    path
}

/// (tier, scenario, choices) of a replay file
fn read_replay(path: &str) -> (String, String, Choices) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", path, e);
        exit(2)
    });
    let (mut tier, mut scenario, mut choices) = ("quick".to_string(), String::new(), Vec::new());
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("tier ") {
            tier = x.into();
        } else if let Some(x) = l.strip_prefix("scenario ") {
            scenario = x.into();
        } else if let Some(x) = l.strip_prefix("choices") {
            for p in x.split_whitespace() {
                let (a, b) = p.split_once('/').expect("bad replay file");
                choices.push((a.parse().unwrap(), b.parse().unwrap()));
            }
        }
    }
    (tier, scenario, choices)
}

const MAX_SAMPLE_LINES: usize = 30;

impl Run {
    /// Explores every execution of the scenario with at most `dev_bound` deviations.
    pub fn explore<F>(&mut self, name: &str, bound: &str, dev_bound: u32, body: F)
    where
        F: Fn(&mut crate::Ch) -> Result<(), String> + Sync,
    {
        self.explore_with(name, bound, dev_bound, self.workers, &body)
    }

    /// As `explore`, with so many workers (for scenarios that need much memory).
    pub fn explore_with(&mut self, name: &str, bound: &str, dev_bound: u32, workers: usize, body: &Body) {
        let index = self.scenario_index;
        self.scenario_index += 1;
        if let Some(only) = &self.only {
            if !name.contains(only.as_str()) {
                return;
            }
        }
        let lim = Limits {
            dev_bound,
            workers,
            thorough: self.thorough,
            deadline: Some(self.started + self.deadline),
        };
        self.inflight.set_scenario(index);
        if let Some(r) = &self.replay {
            if r.scenario != name && r.scenario != format!("#{}", index) {
                return;
            }
            println!("scenario: {}", name);
            let mut col = Collected::default();
            let sc = Scratch::new(0);
            self.inflight.begin(0, &r.choices);
            let strict_prefix = r.choices.clone();
            let res = explore::run_once(body, &strict_prefix, false, true, dev_bound, self.thorough, 0, &mut col, &sc);
            self.inflight.end(0);
            for l in &res.trace {
                println!("  {}", l);
            }
            self.replay_hit = Some(match res.outcome {
                RunOutcome::Ok => Ok(()),
                RunOutcome::Violation(m) => Err(m),
                RunOutcome::Diverged(m) => {
                    eprintln!("replay diverged: {}", m);
                    exit(2)
                }
            });
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        let ex = explore::explore(body, &lim, &self.inflight);
        if let Some(e) = ex.error {
            eprintln!("{}: scenario {}: the harness is not deterministic: {}", self.id, name, e);
            exit(2);
        }
        let sc = Scratch::new(0);
        if let Some((choices, msg)) = ex.violation {
            let small = explore::minimise(body, choices.clone(), &lim, &sc, &self.inflight);
            // replayed from the recorded choices, it must fail every time
            let mut confirmed: Option<(Choices, String, Vec<String>)> = None;
            let first = choices.clone();
            for cand in [small, choices] {
                let mut fails = 0;
                let mut last = None;
                for _ in 0..2 {
                    let mut col = Collected::default();
                    self.inflight.begin(0, &cand);
                    let r = explore::run_once(body, &cand, false, true, dev_bound, self.thorough, 0, &mut col, &sc);
                    self.inflight.end(0);
                    if let RunOutcome::Violation(m) = r.outcome {
                        fails += 1;
                        last = Some((r.choices, m, r.trace));
                    }
                }
                if fails == 2 {
                    confirmed = last;
                    break;
                }
            }
            match confirmed {
                Some((c, m, trace)) => {
                    let extra = format!("violation: {}\ntrace:\n  {}", m, trace.join("\n  "));
                    let path = write_replay(self.id, name, &c, &self.tier, &extra);
                    println!("{}: scenario {}: {}", self.id, name, m);
                    for l in &trace {
                        println!("    {}", l);
                    }
                    println!("VIOLATION property={} replay={}", self.id, path.display());
                    self.violation = Some(m);
                }
                None => {
                    // observed once, so it happened, but it depends on more than the choices,
                    // e.g. on addresses or the contents of memory
                    let m = format!("{} (not every time)", msg);
                    let path = write_replay(self.id, name, &first, &self.tier, &format!("violation: {}", m));
                    println!("{}: scenario {}: {}", self.id, name, m);
                    println!("VIOLATION property={} replay={}", self.id, path.display());
                    self.violation = Some(m);
                }
            }
        }
        // samples: re-run a few executions with tracing
        let mut samples = Vec::new();
        if self.violation.is_none() {
            let k = ex.samples.len();
            let mut picks: Vec<usize> = vec![0, k / 2, k.saturating_sub(1)];
            picks.dedup();
            for i in picks {
                if let Some(c) = ex.samples.get(i) {
                    let mut col = Collected::default();
                    self.inflight.begin(0, c);
                    let r = explore::run_once(body, c, false, true, dev_bound, self.thorough, 0, &mut col, &sc);
                    self.inflight.end(0);
                    let mut t = r.trace;
                    if t.is_empty() {
                        continue;
                    }
                    if t.len() > MAX_SAMPLE_LINES {
                        let rest = t.len() - MAX_SAMPLE_LINES;
                        t.truncate(MAX_SAMPLE_LINES);
                        t.push(format!("... {} more steps", rest));
                    }
                    samples.push(t);
                }
            }
        }
        let secs = t0.elapsed().as_secs_f64();
        println!(
            "{} {}: executions={} states={} transitions={} evaluations={} outcomes={} depth<={} {:.1}s{}",
            self.id,
            name,
            ex.collected.executions,
            ex.collected.states.len(),
            ex.collected.transitions,
            ex.collected.evals,
            ex.collected.outcomes.len(),
            ex.collected.max_depth,
            secs,
            if ex.capped { " (CAPPED)" } else { "" }
        );
        self.reports.push(Report {
            name: name.into(),
            bound: bound.into(),
            col: ex.collected,
            capped: ex.capped,
            secs,
            samples,
        });
    }

    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.into());
    }

    /// A defect the check observed in this run; `key` identifies it in the file of known findings.
    pub fn finding(&mut self, key: &str, what: &str) {
        if self.replay.is_some() {
            return;
        }
        if self.known.iter().any(|(p, k)| p == self.id && k == key) {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, what, key);
            self.findings += 1;
        } else if self.violation.is_none() {
            let path = write_replay(self.id, key, &[], &self.tier, what);
            println!("{}: {}", self.id, what);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            self.violation = Some(what.into());
        }
    }

    /// Ends the run as a violation found outside of a scenario.
    pub fn violation(&mut self, scenario: &str, what: &str) {
        if self.violation.is_none() {
            let path = write_replay(self.id, scenario, &[], &self.tier, what);
            println!("{}: scenario {}: {}", self.id, scenario, what);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            self.violation = Some(what.into());
        }
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    fn finish(mut self) -> ! {
        if self.replay.is_some() {
            match self.replay_hit.take() {
                None => {
                    eprintln!("no such scenario");
                    exit(2)
                }
                Some(Ok(())) => {
                    println!("replay: the property holds on this execution");
                    exit(0)
                }
                Some(Err(m)) => {
                    println!("replay: {}", m);
                    exit(1)
                }
            }
        }
        let mut total = Collected::default();
        let mut scenarios = Vec::new();
        let mut samples = Vec::new();
        let mut exhaustive = true;
        for r in std::mem::take(&mut self.reports) {
            exhaustive &= !r.capped;
            let mut o = vec![
                ("name".into(), json::s(&r.name)),
                ("bound".into(), json::s(&r.bound)),
                ("executions".into(), r.col.executions.to_string()),
                ("states".into(), r.col.states.len().to_string()),
                ("transitions".into(), r.col.transitions.to_string()),
                ("evaluations".into(), r.col.evals.to_string()),
                ("distinct_outcomes".into(), r.col.outcomes.len().to_string()),
                ("completed".into(), (!r.capped).to_string()),
                ("wall_s".into(), format!("{:.2}", r.secs)),
            ];
            for (k, v) in &r.col.counters {
                o.push((k.to_string(), v.to_string()));
            }
            if r.col.states_capped {
                o.push(("state_count_capped".into(), "true".into()));
            }
            scenarios.push(json::obj(&o));
            for t in r.samples.iter().take(2) {
                samples.push(json::obj(&[
                    ("scenario".into(), json::s(&r.name)),
                    ("steps".into(), json::arr(&t.iter().map(|l| json::s(l)).collect::<Vec<_>>())),
                ]));
            }
            // states of different scenarios are different states
            let salt = explore::hash_of(&r.name);
            let mut c = r.col;
            c.states = c.states.iter().map(|x| explore::hash_of(&(salt, *x))).collect();
            c.outcomes = c.outcomes.iter().map(|x| explore::hash_of(&(salt, *x))).collect();
            total.merge(c);
        }
        samples.truncate(12);
        let mut cov: Vec<(String, String)> = Vec::new();
        let level = match self.level {
            Level::ModelChecking => {
                cov.push(("states".into(), total.states.len().to_string()));
                cov.push(("transitions".into(), total.transitions.to_string()));
                cov.push(("traces_validated_against_impl".into(), total.executions.to_string()));
                cov.push(("distinct_outcomes".into(), total.outcomes.len().to_string()));
                if total.evals > 0 {
                    cov.push(("evaluations".into(), total.evals.to_string()));
                }
                "model_checking"
            }
            l => {
                let ev = if total.evals > 0 { total.evals } else { total.executions };
                cov.push(("evaluations".into(), ev.to_string()));
                cov.push(("distinct_nontrivial".into(), total.outcomes.len().to_string()));
                cov.push(("rule".into(), json::s(self.rule)));
                cov.push(("executions".into(), total.executions.to_string()));
                cov.push(("transitions".into(), total.transitions.to_string()));
                if l == Level::Exploration {
                    "exploration"
                } else {
                    "fault_enumeration"
                }
            }
        };
        if self.level == Level::ModelChecking {
            cov.push(("rule".into(), json::s(self.rule)));
        }
        cov.push(("exhaustive".into(), (exhaustive && self.violation.is_none()).to_string()));
        cov.push(("samples".into(), json::arr(&samples)));
        cov.push(("scenarios".into(), json::arr(&scenarios)));
        cov.push(("known_findings_seen".into(), self.findings.to_string()));
        cov.push(("build".into(), json::s(&env("MC_BUILD").unwrap_or_else(|| "checked".into()))));
        if let Some(t) = env("MC_EMBED").and_then(|p| std::fs::read_to_string(p).ok()) {
            cov.push(("same_exploration_of_release_build".into(), t.trim().into()));
        }
        let text = json::obj(&[
            ("property".into(), json::s(self.id)),
            ("tier".into(), json::s(&self.tier)),
            ("seed".into(), self.seed.to_string()),
            ("level".into(), json::s(level)),
            ("coverage".into(), json::obj(&cov)),
            ("assumptions".into(), json::arr(&self.assumptions.iter().map(|a| json::s(a)).collect::<Vec<_>>())),
            ("wall_s".into(), format!("{:.2}", self.started.elapsed().as_secs_f64())),
            ("violations".into(), (self.violation.is_some() as u32).to_string()),
        ]);
        let path = env_path("MC_EVIDENCE", "evidence.json");
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&path, text + "\n") {
            eprintln!("cannot write {}: {}", path.display(), e);
            exit(2);
        }
        exit(if self.violation.is_some() { 1 } else { 0 })
    }
}

fn known_findings() -> Vec<(String, String)> {
    let mut r = Vec::new();
    if let Some(p) = env("MC_KNOWN") {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("finding:") {
                    let mut kv = BTreeMap::new();
                    for w in x.split_whitespace() {
                        if let Some((k, v)) = w.split_once('=') {
                            kv.entry(k.to_string()).or_insert(v.to_string());
                        }
                    }
                    if let (Some(p), Some(k)) = (kv.get("property"), kv.get("key")) {
                        r.push((p.clone(), k.clone()));
                    }
                }
            }
        }
    }
    r
}

/// Milliseconds after which one execution counts as hanging.
fn hang_ms() -> u64 {
    env("MC_HANG_MS").and_then(|x| x.parse().ok()).unwrap_or(60_000)
}

const EXIT_HANG: i32 = 97;

fn child(id: &'static str, level: Level, rule: &'static str, f: fn(&mut Run)) -> ! {
    crate::interpose::force_link();
    crate::panics::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = args.first().cloned().unwrap_or_else(|| "quick".into());
    let mut replay = None;
    if tier == "replay" {
        let (t, s, c) = read_replay(args.get(1).map(|s| s.as_str()).unwrap_or(""));
        tier = t;
        replay = Some(Replay { scenario: s, choices: c });
    }
    let thorough = tier == "thorough";
    let inflight = Inflight::open(env("MC_INFLIGHT").as_deref());
    let run = Run {
        id,
        level,
        rule,
        thorough,
        tier: tier.clone(),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        workers: env("MC_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
        }),
        inflight,
        replay,
        replay_hit: None,
        reports: Vec::new(),
        violation: None,
        started: Instant::now(),
        deadline: Duration::from_secs(
            env("MC_DEADLINE_S").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 }),
        ),
        scenario_index: 0,
        assumptions: Vec::new(),
        known: known_findings(),
        findings: 0,
        only: env("MC_ONLY"),
    };
    let mut run = Box::new(run);
    // watches for executions that do not end
    let infl: &'static Inflight = unsafe { &*(&run.inflight as *const Inflight) };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
            if infl.oldest_age_ms() > hang_ms() {
            eprintln!("an execution does not end");
            unsafe { libc::_exit(EXIT_HANG) }
        }
    });
    f(&mut run);
    // the watcher keeps a reference: never drop
    let run: &'static mut Run = Box::leak(run);
    let run = unsafe { std::ptr::read(run) };
    run.finish()
}

fn spawn(args: &[String], inflight: &str, scratch: &str, quiet: bool, limit: Duration) -> (Option<i32>, Option<i32>, bool) {
    let mut c = Command::new(std::env::current_exe().expect("current_exe"));
    c.args(args).env("MC_CHILD", "1").env("MC_INFLIGHT", inflight).env("MC_SCRATCH", scratch);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start: {}", e);
            exit(2)
        }
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return (st.code(), st.signal(), false),
            Ok(None) => {}
            Err(e) => {
                eprintln!("cannot wait: {}", e);
                exit(2)
            }
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, None, true);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Entry point of a check's binary: `quick`, `thorough`, or `replay FILE`.
pub fn main(id: &'static str, level: Level, rule: &'static str, f: fn(&mut Run)) -> ! {
    if env("MC_CHILD").is_some() {
        child(id, level, rule, f);
    }
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = args.first().cloned().unwrap_or_else(|| "quick".into());
    let scratch = scratch::default_root(std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let inflight = scratch.join("inflight");
    let infl = inflight.to_string_lossy().into_owned();
    let sc = scratch.to_string_lossy().into_owned();
    let done = |code: i32| -> ! {
        if scratch.to_string_lossy().contains("mc-flatdata-") {
            let _ = std::fs::remove_dir_all(&scratch);
        }
        exit(code)
    };
    let limit = Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 850 });
    let (code, signal, timeout) = spawn(&args, &infl, &sc, false, limit);
    if timeout {
        eprintln!("{}: out of time", id);
        done(2);
    }
    match (code, signal) {
        (Some(EXIT_HANG), _) | (None, Some(_)) => {
            let how = match signal {
                Some(s) => format!("killed by signal {}", s),
                None => "does not end".to_string(),
            };
            if signal == Some(libc::SIGKILL) || signal == Some(libc::SIGTERM) || signal == Some(libc::SIGINT) {
                eprintln!("{}: {}", id, how);
                done(2);
            }
            if args.first().map(|s| s.as_str()) == Some("replay") {
                println!("replay: {}", how);
                done(1);
            }
            // which execution was it?
            let slots = Inflight::open(Some(&infl)).active();
            for s in &slots {
                let scenario = format!("#{}", s.scenario);
                let path = write_replay(id, &scenario, &s.choices, &tier, &how);
                let a = vec!["replay".to_string(), path.to_string_lossy().into_owned()];
                let infl2 = scratch.join("inflight2").to_string_lossy().into_owned();
                let mut bad = 0;
                let mut h = String::new();
                for _ in 0..2 {
                    let (c, sig, t) = spawn(&a, &infl2, &sc, true, Duration::from_millis(2 * hang_ms() + 5000));
                    if t || c == Some(EXIT_HANG) || sig.is_some() || c == Some(1) {
                        bad += 1;
                        h = match sig {
                            Some(s) => format!("the process is killed by signal {}", s),
                            None if c == Some(1) => "fails".into(),
                            None => "the execution does not end".into(),
                        };
                    }
                }
                if bad == 2 {
                    println!("{}: scenario {}: {}", id, scenario, h);
                    println!("VIOLATION property={} replay={}", id, path.display());
                    let path = env_path("MC_EVIDENCE", "evidence.json");
                    let level = match level {
                        Level::ModelChecking => "model_checking",
                        Level::Exploration => "exploration",
                        Level::FaultEnumeration => "fault_enumeration",
                    };
                    let text = json::obj(&[
                        ("property".into(), json::s(id)),
                        ("tier".into(), json::s(&tier)),
                        ("seed".into(), env("VERIF_SEED").unwrap_or_else(|| "1".into())),
                        ("level".into(), json::s(level)),
                        ("coverage".into(), json::obj(&[("explanation".into(), json::s(&h))])),
                        ("wall_s".into(), format!("{:.2}", t0.elapsed().as_secs_f64())),
                        ("violations".into(), "1".into()),
                    ]);
                    let _ = std::fs::write(path, text + "\n");
                    done(1);
                }
                let _ = std::fs::remove_file(&path);
            }
            eprintln!("{}: {}, and no execution that was under way reproduces it", id, how);
            done(2);
        }
        (Some(c), _) => done(if c == 0 || c == 1 { c } else { 2 }),
        _ => done(2),
    }
}
