//! Stateless exhaustive explorer: a scenario body is a deterministic function of the choices it asks
//! for; every choice sequence (with at most `dev_bound` deviations at deviation points) is executed.
use crate::panics;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// Hasher for sets of values that are hashes already.
#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// Deterministic 64 bit hasher (FNV-1a with a final mix).
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^ (x >> 33)
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

pub type Choices = Vec<(u32, u32)>; // (chosen, number of alternatives)

#[derive(Clone, Copy)]
struct Point {
    n: u32,
    chosen: u32,
}

/// Thrown (as a panic payload) when a replayed prefix does not fit the execution.
pub struct Diverged(pub String);

#[derive(Default)]
pub struct Collected {
    pub states: U64Set,
    pub outcomes: U64Set,
    pub evals: u64,
    pub transitions: u64,
    pub executions: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub max_depth: usize,
    pub states_capped: bool,
}

const STATE_CAP: usize = 6_000_000; // per worker

impl Collected {
    pub fn merge(&mut self, o: Collected) {
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        self.evals += o.evals;
        self.transitions += o.transitions;
        self.executions += o.executions;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.states_capped |= o.states_capped;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
    }
}

/// The choices of one execution.
pub struct Ch<'a> {
    prefix: &'a [(u32, u32)],
    lenient: bool,
    points: Vec<Point>,
    dev_bound: u32,
    devs: u32,
    pub col: &'a mut Collected,
    trace: Option<Vec<String>>,
    pub thorough: bool,
    pub worker: usize,
    pub scratch: &'a crate::scratch::Scratch,
}

impl<'a> Ch<'a> {
    fn point(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        // what the explorer keeps is never guarded
        crate::falloc::unguarded(|| self.point_(n))
    }
    fn point_(&mut self, n: usize) -> usize {
        let i = self.points.len();
        let mut c = 0u32;
        if i < self.prefix.len() {
            let (pc, pn) = self.prefix[i];
            if self.lenient {
                c = if (pc as usize) < n { pc } else { 0 };
            } else {
                if pn as usize != n {
                    std::panic::panic_any(Diverged(format!(
                        "choice point {} has {} alternatives on replay, had {}",
                        i, n, pn
                    )));
                }
                c = pc;
            }
        }
        self.points.push(Point { n: n as u32, chosen: c });
        c as usize
    }
    /// One of `n` alternatives, all of which are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.point(n)
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'b, T>(&mut self, alternatives: &'b [T]) -> &'b T {
        let i = self.choose(alternatives.len());
        &alternatives[i]
    }
    /// One of `n` alternatives; everything but 0 is a deviation, of which an execution has at most
    /// the bound.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.devs >= self.dev_bound {
            return 0;
        }
        let c = self.point(n);
        if c != 0 {
            self.devs += 1;
        }
        c
    }
    pub fn deviations(&self) -> u32 {
        self.devs
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    /// Records a step of the execution (one operation on the real code, compared with the model).
    pub fn step<F: FnOnce() -> String>(&mut self, f: F) {
        self.col.transitions += 1;
        if let Some(t) = self.trace.as_mut() {
            crate::falloc::unguarded(|| t.push(f()));
        }
    }
    /// Adds a line to the trace without counting a step.
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = self.trace.as_mut() {
            crate::falloc::unguarded(|| t.push(f()));
        }
    }
    /// Records the (canonical) state that was reached.
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        if self.col.states.len() < STATE_CAP {
            let h = hash_of(s);
            crate::falloc::unguarded(|| self.col.states.insert(h));
        } else {
            self.col.states_capped = true;
        }
    }
    /// Records what was observed, for counting distinct outcomes.
    pub fn outcome<T: Hash + ?Sized>(&mut self, s: &T) {
        if self.col.outcomes.len() < STATE_CAP {
            let h = hash_of(s);
            crate::falloc::unguarded(|| self.col.outcomes.insert(h));
        } else {
            self.col.states_capped = true;
        }
    }
    pub fn evals(&mut self, n: u64) {
        self.col.evals += n;
    }
    pub fn count(&mut self, key: &'static str, n: u64) {
        crate::falloc::unguarded(|| *self.col.counters.entry(key).or_insert(0) += n);
    }
}

pub type Body<'b> = dyn Fn(&mut Ch) -> Result<(), String> + Sync + 'b;

pub enum RunOutcome {
    Ok,
    Violation(String),
    Diverged(String),
}

pub struct RunResult {
    pub outcome: RunOutcome,
    pub choices: Choices,
    pub trace: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
pub fn run_once(
    body: &Body,
    prefix: &[(u32, u32)],
    lenient: bool,
    tracing: bool,
    dev_bound: u32,
    thorough: bool,
    worker: usize,
    col: &mut Collected,
    scratch: &crate::scratch::Scratch,
) -> RunResult {
    let mut ch = Ch {
        prefix,
        lenient,
        points: Vec::new(),
        dev_bound,
        devs: 0,
        col,
        trace: if tracing { Some(Vec::new()) } else { None },
        thorough,
        worker,
        scratch,
    };
    let r = {
        let c = &mut ch;
        catch_unwind(AssertUnwindSafe(move || body(c)))
    };
    crate::after_execution();
    let outcome = match r {
        Ok(Ok(())) => {
            if !lenient && ch.points.len() < prefix.len() {
                RunOutcome::Diverged(format!(
                    "execution ended after {} choices, prefix has {}",
                    ch.points.len(),
                    prefix.len()
                ))
            } else {
                RunOutcome::Ok
            }
        }
        Ok(Err(e)) => RunOutcome::Violation(e),
        Err(p) => match p.downcast::<Diverged>() {
            Ok(d) => RunOutcome::Diverged(d.0),
            Err(p) => RunOutcome::Violation(format!("unexpected panic: {}", panics::message(&*p))),
        },
    };
    ch.col.executions += 1;
    ch.col.max_depth = ch.col.max_depth.max(ch.points.len());
    RunResult {
        outcome,
        choices: ch.points.iter().map(|p| (p.chosen, p.n)).collect(),
        trace: ch.trace.unwrap_or_default(),
    }
}

pub struct Exploration {
    pub collected: Collected,
    pub violation: Option<(Choices, String)>,
    pub capped: bool,
    pub error: Option<String>,
    /// choice sequences kept for the samples
    pub samples: Vec<Choices>,
}

pub struct Limits {
    pub dev_bound: u32,
    pub workers: usize,
    pub thorough: bool,
    pub deadline: Option<std::time::Instant>,
}

/// What one worker found.
#[derive(Default)]
struct Found {
    col: Collected,
    violation: Option<(Choices, String)>,
    error: Option<String>,
    samples: Vec<Choices>,
    capped: bool,
}

/// Work shared by the workers, in memory that survives a fork: a stack of prefixes.
struct Shared {
    base: *mut u32,
}
unsafe impl Sync for Shared {}

const LOCK: usize = 0;
const IDLE: usize = 1;
const HUNGRY: usize = 2;
const STOP: usize = 3;
const CAPPED: usize = 4;
const TOP: usize = 5; // words in use
const EXECUTIONS: usize = 6;
const STACK: usize = 16;
const SHARED_WORDS: usize = 64 << 20;

impl Shared {
    fn new() -> Shared {
        let p = unsafe {
            libc::syscall(
                libc::SYS_mmap,
                0usize,
                SHARED_WORDS * 4,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1i64,
                0usize,
            )
        };
        assert!(p > 0, "no shared memory");
        Shared { base: p as *mut u32 }
    }
    fn word(&self, i: usize) -> &AtomicU32 {
        unsafe { &*(self.base.add(i) as *const AtomicU32) }
    }
    fn get(&self, i: usize) -> u32 {
        self.word(i).load(SeqCst)
    }
    fn stop(&self) {
        self.word(STOP).store(1, SeqCst)
    }
    fn lock<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.word(LOCK).compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            std::thread::yield_now();
        }
        let r = f();
        self.word(LOCK).store(0, SeqCst);
        r
    }
    /// Whether there was room.
    fn push(&self, c: &Choices) -> bool {
        self.lock(|| {
            let top = self.get(TOP) as usize;
            let need = 2 * c.len() + 1;
            if STACK + top + need > SHARED_WORDS {
                return false;
            }
            let at = STACK + top;
            for (i, x) in c.iter().enumerate() {
                self.word(at + 2 * i).store(x.0, SeqCst);
                self.word(at + 2 * i + 1).store(x.1, SeqCst);
            }
            self.word(at + need - 1).store(c.len() as u32, SeqCst);
            self.word(TOP).store((top + need) as u32, SeqCst);
            true
        })
    }
    fn pop(&self) -> Option<Choices> {
        self.lock(|| {
            let top = self.get(TOP) as usize;
            if top == 0 {
                return None;
            }
            let n = self.get(STACK + top - 1) as usize;
            let at = STACK + top - 1 - 2 * n;
            self.word(TOP).store((at - STACK) as u32, SeqCst);
            Some((0..n).map(|i| (self.get(at + 2 * i), self.get(at + 2 * i + 1))).collect())
        })
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_munmap, self.base, SHARED_WORDS * 4) };
    }
}

fn work(w: usize, nw: usize, body: &Body, lim: &Limits, shared: &Shared, inflight: &crate::inflight::Inflight) -> Found {
    crate::falloc::set_worker(w);
    let scratch = crate::scratch::Scratch::new(w);
    let mut f = Found::default();
    let mut local: Vec<Choices> = Vec::new();
    let mut idle = false;
    loop {
        if shared.get(STOP) != 0 {
            break;
        }
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                // popping and not being idle any more happen at once: the others do not leave early
                if !idle {
                    idle = true;
                    shared.word(IDLE).fetch_add(1, SeqCst);
                    shared.word(HUNGRY).fetch_add(1, SeqCst);
                }
                let all_idle = shared.get(IDLE) as usize == nw;
                if shared.get(TOP) != 0 {
                    shared.word(IDLE).fetch_sub(1, SeqCst);
                    if let Some(p) = shared.pop() {
                        shared.word(HUNGRY).fetch_sub(1, SeqCst);
                        idle = false;
                        local.push(p);
                    } else {
                        shared.word(IDLE).fetch_add(1, SeqCst);
                    }
                    continue;
                }
                if all_idle && shared.get(TOP) == 0 && shared.get(IDLE) as usize == nw {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
                continue;
            }
        };
        inflight.begin(w, &prefix);
        let r = run_once(body, &prefix, false, false, lim.dev_bound, lim.thorough, w, &mut f.col, &scratch);
        inflight.end(w);
        let n = shared.word(EXECUTIONS).fetch_add(1, SeqCst) as u64;
        // keep a few choice sequences, spread over the run, as samples
        if (n + 1).is_power_of_two() && f.samples.len() < 40 {
            f.samples.push(r.choices.clone());
        }
        match r.outcome {
            RunOutcome::Ok => {}
            RunOutcome::Violation(msg) => {
                f.violation = Some((r.choices, msg));
                shared.stop();
                break;
            }
            RunOutcome::Diverged(msg) => {
                f.error = Some(msg);
                shared.stop();
                break;
            }
        }
        // alternatives, deepest last so that they are explored first; the order
        // within one point is reversed so that alternative 1 comes first
        for i in prefix.len()..r.choices.len() {
            let (_, n) = r.choices[i];
            for alt in (1..n).rev() {
                let mut p = Vec::with_capacity(i + 1);
                p.extend_from_slice(&r.choices[..i]);
                p.push((alt, n));
                local.push(p);
            }
        }
        if shared.get(HUNGRY) > 0 && local.len() > 1 {
            let give = local.len() / 2;
            let mut given = 0;
            while given < give && shared.push(&local[given]) {
                given += 1;
            }
            local.drain(..given);
        }
        if n % 64 == 0 {
            if let Some(d) = lim.deadline {
                if std::time::Instant::now() > d {
                    f.capped = true;
                    shared.word(CAPPED).store(1, SeqCst);
                    shared.stop();
                    break;
                }
            }
        }
    }
    f
}

// results of a worker process, as they are passed on
fn put_n(o: &mut Vec<u8>, x: u64) {
    o.extend_from_slice(&x.to_le_bytes());
}
fn put_s(o: &mut Vec<u8>, s: &str) {
    put_n(o, s.len() as u64);
    o.extend_from_slice(s.as_bytes());
}
fn put_c(o: &mut Vec<u8>, c: &Choices) {
    put_n(o, c.len() as u64);
    for x in c {
        put_n(o, x.0 as u64 | (x.1 as u64) << 32);
    }
}
struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn n(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        let mut x = [0; 8];
        x.copy_from_slice(a);
        Some(u64::from_le_bytes(x))
    }
    fn s(&mut self) -> Option<String> {
        let n = self.n()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8(a.to_vec()).ok()
    }
    fn c(&mut self) -> Option<Choices> {
        let n = self.n()?;
        (0..n).map(|_| self.n().map(|x| (x as u32, (x >> 32) as u32))).collect()
    }
}
impl Found {
    fn pack(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for set in [&self.col.states, &self.col.outcomes] {
            put_n(&mut o, set.len() as u64);
            for x in set.iter() {
                put_n(&mut o, *x);
            }
        }
        for x in [self.col.evals, self.col.transitions, self.col.executions, self.col.max_depth as u64, self.col.states_capped as u64, self.capped as u64] {
            put_n(&mut o, x);
        }
        put_n(&mut o, self.col.counters.len() as u64);
        for (k, v) in &self.col.counters {
            put_s(&mut o, k);
            put_n(&mut o, *v);
        }
        put_n(&mut o, self.violation.is_some() as u64);
        if let Some((c, m)) = &self.violation {
            put_c(&mut o, c);
            put_s(&mut o, m);
        }
        put_n(&mut o, self.error.is_some() as u64);
        if let Some(m) = &self.error {
            put_s(&mut o, m);
        }
        put_n(&mut o, self.samples.len() as u64);
        for c in &self.samples {
            put_c(&mut o, c);
        }
        put_n(&mut o, 0x600d);
        o
    }
    fn unpack(b: &[u8]) -> Option<Found> {
        let mut i = In(b);
        let mut f = Found::default();
        for _ in 0..i.n()? {
            f.col.states.insert(i.n()?);
        }
        for _ in 0..i.n()? {
            f.col.outcomes.insert(i.n()?);
        }
        f.col.evals = i.n()?;
        f.col.transitions = i.n()?;
        f.col.executions = i.n()?;
        f.col.max_depth = i.n()? as usize;
        f.col.states_capped = i.n()? != 0;
        f.capped = i.n()? != 0;
        for _ in 0..i.n()? {
            let k = i.s()?;
            let v = i.n()?;
            f.col.counters.insert(Box::leak(k.into_boxed_str()), v);
        }
        if i.n()? != 0 {
            f.violation = Some((i.c()?, i.s()?));
        }
        if i.n()? != 0 {
            f.error = Some(i.s()?);
        }
        for _ in 0..i.n()? {
            f.samples.push(i.c()?);
        }
        if i.n()? != 0x600d {
            return None;
        }
        Some(f)
    }
}

/// Explores everything in worker processes (the address space is a resource that threads would wait
/// for each other on).
pub fn explore(body: &Body, lim: &Limits, inflight: &crate::inflight::Inflight) -> Exploration {
    let shared = Shared::new();
    shared.push(&Vec::new());
    let nw = lim.workers.max(1);
    let mut founds: Vec<Found> = Vec::new();
    if nw == 1 {
        founds.push(on_big_stack(|| work(0, 1, body, lim, &shared, inflight)));
    } else {
        let dir = crate::scratch::root();
        let _ = std::fs::create_dir_all(&dir);
        let result = |w: usize| dir.join(format!("result{}", w));
        let me = unsafe { libc::getpid() };
        let mut pids = Vec::new();
        for w in 0..nw {
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "cannot fork");
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != me {
                        libc::_exit(3);
                    }
                }
                let f = on_big_stack(|| work(w, nw, body, lim, &shared, inflight));
                let ok = std::fs::write(result(w), f.pack()).is_ok();
                unsafe { libc::_exit(if ok { 0 } else { 3 }) }
            }
            pids.push(pid);
        }
        let mut died = None;
        for _ in 0..nw {
            let mut st = 0;
            let pid = loop {
                let p = unsafe { libc::waitpid(-1, &mut st, 0) };
                if p >= 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                    break p;
                }
            };
            let fine = pid > 0 && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
            if !fine && died.is_none() {
                died = Some(st);
                shared.stop();
                for p in &pids {
                    if *p != pid {
                        unsafe { libc::kill(*p, libc::SIGKILL) };
                    }
                }
            }
        }
        if let Some(st) = died {
            // die the same way: the supervisor looks into it
            if libc::WIFSIGNALED(st) {
                unsafe {
                    libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                    libc::kill(libc::getpid(), libc::WTERMSIG(st));
                    libc::sleep(1);
                }
            }
            eprintln!("a worker ended with status {}", st);
            std::process::exit(2);
        }
        for w in 0..nw {
            match std::fs::read(result(w)).ok().and_then(|b| Found::unpack(&b)) {
                Some(f) => founds.push(f),
                None => {
                    eprintln!("the result of a worker is missing");
                    std::process::exit(2);
                }
            }
            let _ = std::fs::remove_file(result(w));
        }
    }
    let mut ex = Exploration { collected: Collected::default(), violation: None, capped: shared.get(CAPPED) != 0, error: None, samples: Vec::new() };
    for f in founds {
        if let Some((c, m)) = f.violation {
            if ex.violation.as_ref().map_or(true, |v| c.len() < v.0.len()) {
                ex.violation = Some((c, m));
            }
        }
        ex.error = ex.error.or(f.error);
        ex.capped |= f.capped;
        ex.samples.extend(f.samples);
        ex.collected.merge(f.col);
    }
    ex.samples.sort_by_key(|c| c.len());
    ex.samples.dedup();
    ex
}

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap();
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

/// Shrinks a violating choice sequence: truncation, then each choice lowered.
#[allow(clippy::too_many_arguments)]
pub fn minimise(
    body: &Body,
    start: Choices,
    lim: &Limits,
    scratch: &crate::scratch::Scratch,
    inflight: &crate::inflight::Inflight,
) -> Choices {
    let mut best = start;
    let mut tries = 0;
    let t0 = std::time::Instant::now();
    let mut attempt = |cand: &[(u32, u32)]| -> Option<Choices> {
        let mut col = Collected::default();
        inflight.begin(0, cand);
        let r = run_once(body, cand, true, false, lim.dev_bound, lim.thorough, 0, &mut col, scratch);
        inflight.end(0);
        match r.outcome {
            RunOutcome::Violation(_) => Some(r.choices),
            _ => None,
        }
    };
    let weight = |c: &Choices| -> (usize, u64) {
        (
            c.iter().filter(|p| p.0 != 0).count(),
            c.iter().map(|p| p.0 as u64).sum::<u64>() + c.len() as u64,
        )
    };
    let mut changed = true;
    while changed && tries < 4000 && t0.elapsed().as_secs() < 20 {
        changed = false;
        let mut i = 0;
        while i < best.len() && tries < 4000 && t0.elapsed().as_secs() < 20 {
            let orig = best[i].0;
            let mut cands: Vec<u32> = vec![0, orig / 2, orig.saturating_sub(1)];
            cands.dedup();
            for v in cands {
                if v >= orig {
                    continue;
                }
                let mut c = best.clone();
                c[i].0 = v;
                tries += 1;
                if let Some(full) = attempt(&c) {
                    if weight(&full) < weight(&best) {
                        best = full;
                        changed = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
