//! C15: every file system call of a writing history fails, is cut short or is interrupted.
use checks::drive::*;
use checks::fat::*;
use checks::*;
use libc::{EACCES, EINTR, EIO, ENOMEM, ENOSPC};
use mccore::interpose::{far, with_plan, with_stat, Action, Call, Kind as K};
use std::collections::{BTreeMap, BTreeSet};

/// What can happen to a call: how, and whether it is no failure.
fn faults(c: &Call, thorough: bool) -> Vec<(String, Action, bool)> {
    let fail = |e: i32| (format!("fails with {}", std::io::Error::from_raw_os_error(e)), Action::Fail(e), false);
    match c.kind {
        K::Write => {
            let n = c.len;
            let mut r = vec![
                fail(EIO),
                fail(ENOSPC),
                ("is interrupted".into(), Action::Fail(EINTR), true),
                ("writes nothing".into(), Action::Short(0), n == 0),
            ];
            let mut ks: Vec<usize> = if n <= 64 && thorough { (1..n).collect() } else { vec![1, n / 2, n.max(1) - 1] };
            ks.retain(|k| *k > 0 && *k < n);
            ks.dedup();
            for k in &ks {
                r.push((format!("writes {} of {} bytes", k, n), Action::Short(*k), true));
            }
            for k in &ks {
                r.push((format!("writes {} of {} bytes, and the next write fails", k, n), Action::WriteThenFail(*k, ENOSPC), false));
            }
            r
        }
        K::Open => vec![fail(EACCES), fail(ENOSPC), ("is interrupted".into(), Action::Fail(EINTR), true)],
        K::Mmap => vec![fail(ENOMEM)],
        K::Munmap => vec![],
        K::Read => {
            let mut r = vec![fail(EIO), ("is interrupted".into(), Action::Fail(EINTR), true)];
            for k in &[1, c.len / 2] {
                if *k > 0 && *k < c.len {
                    r.push((format!("reads {} of {} bytes", k, c.len), Action::Short(*k), true));
                }
            }
            r
        }
        K::Mkdir | K::Unlink => vec![fail(EACCES), fail(EIO)],
        _ => vec![fail(EIO)],
    }
}

/// Runs f; every call it makes may fail. Returns what happened as well, and whether it was no failure.
/// How calls are treated.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// any failure, within the bound
    Any,
    /// only what is no failure, within the bound
    Soft,
    /// every write takes at most so many bytes, and every other one is interrupted
    Slow(usize),
}

fn faulty<R>(ch: &mut Ch, full: &mut bool, mode: Mode, f: impl FnOnce() -> R) -> (R, Vec<String>, bool) {
    let mut what = Vec::new();
    let mut harmless = true;
    let thorough = ch.thorough;
    let mut odd = false;
    let r = with_plan(
        Box::new(|c: &Call| {
            let path = c.path.unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
            if *full && c.kind == K::Write && c.len > 0 {
                harmless = false;
                return Action::Fail(ENOSPC);
            }
            if let Mode::Slow(k) = mode {
                if c.kind != K::Write || c.len == 0 {
                    return Action::Pass;
                }
                odd = !odd;
                return if odd { Action::Fail(EINTR) } else { Action::Short(k.min(c.len)) };
            }
            if far(c, 30) {
                return Action::Pass;
            }
            let mut fs = faults(c, thorough);
            if mode == Mode::Soft {
                fs.retain(|f| f.2);
            }
            if fs.is_empty() {
                return Action::Pass;
            }
            // writing: also, the disk is full from now on
            let extra = c.kind == K::Write && c.len > 0 && mode == Mode::Any;
            let k = ch.dev(1 + fs.len() + extra as usize);
            if k == 0 {
                return Action::Pass;
            }
            if k > fs.len() {
                *full = true;
                harmless = false;
                what.push(format!("{:?} of {} bytes and all later ones fail", c.kind, c.len));
                ch.step(|| what.last().unwrap().clone());
                return Action::Fail(ENOSPC);
            }
            let (name, action, ok) = fs.swap_remove(k - 1);
            harmless &= ok;
            what.push(format!("{:?} {} {}", c.kind, path, name));
            ch.step(|| what.last().unwrap().clone());
            action
        }),
        || with_stat(f),
    );
    (r, what, harmless)
}

struct Story {
    /// parts and archives of which nothing is known
    unsure: BTreeSet<usize>,
    unsure_archives: BTreeSet<usize>,
    /// what an unsure part may be
    may: BTreeMap<usize, Vec<Content>>,
    log: Vec<String>,
    /// the disk is full
    full: bool,
    mode: Mode,
}

impl Story {
    fn new(mode: Mode) -> Story {
        Story { unsure: BTreeSet::new(), unsure_archives: BTreeSet::new(), may: BTreeMap::new(), log: vec![], full: false, mode }
    }
    /// Takes a step of thread i; true: it worked.
    fn step(&mut self, d: &mut Drive, i: usize, ch: &mut Ch) -> Result<bool, String> {
        let what = d.describe(i);
        ch.step(|| what.clone());
        if let Some(p) = d.threads[i].part {
            if let Some(old) = d.done.get(&p) {
                self.may.entry(p).or_default().push(old.clone());
            }
            self.may.entry(p).or_default().push(d.threads[i].content.clone());
        }
        let (r, faults, harmless) = faulty(ch, &mut self.full, self.mode, || catch(|| d.step(i)));
        self.log.push(format!("{}{}", what, faults.iter().map(|f| format!(" [{}]", f)).collect::<String>()));
        let at = || self.log.join("; ");
        let r = r.map_err(|p| format!("{}: panics: {}", at(), p))?;
        match (&r, harmless) {
            (Err(e), true) => return Err(format!("{}: returns an error ({}), although nothing failed", at(), e)),
            (Err(e), false) => {
                if e.contains("instead of") {
                    return Err(format!("{}: {}", at(), e));
                }
                match d.threads[i].part {
                    Some(p) => {
                        self.unsure.insert(p);
                    }
                    None => {
                        self.unsure_archives.insert(d.threads[i].archive);
                    }
                }
                self.log.push("error".into());
            }
            (Ok(()), _) => match d.threads[i].part {
                Some(p) => {
                    let started = d.writing(i);
                    if !started {
                        self.unsure.remove(&p);
                        self.may.remove(&p);
                    }
                }
                None => {
                    self.unsure_archives.remove(&d.threads[i].archive);
                }
            },
        }
        let pcs: Vec<usize> = d.threads.iter().map(|t| t.pc).collect();
        let threads: Vec<_> = d.threads.iter().map(|t| (t.part, t.archive, &t.content, t.way)).collect();
        ch.state(&(threads, pcs, &self.log));
        Ok(r.is_ok())
    }

    /// What a reader sees afterwards.
    fn judge(&self, d: &Drive, ch: &mut Ch) -> Result<(), String> {
        let ps = parts();
        let ctx = self.log.join("; ");
        let fresh = storage(false, &d.dir);
        for root in 0..5 {
            for s in &[storage(false, &d.dir), d.root.clone()] {
                let got = open_and_see(root, s);
                let seen = match &got {
                    Ok(Ok(s)) => s.parts.clone(),
                    _ => BTreeMap::new(),
                };
                let pre = ARCHIVES[root].0;
                let intact = |path: &str| -> bool {
                    for (n, a) in ARCHIVES.iter().enumerate() {
                        if join(a.0, &format!("{}.archive", a.1)) == path {
                            return if self.unsure_archives.contains(&n) { catch(|| fresh.read(path, a.2).is_ok()).unwrap_or(false) } else { d.created.contains(&n) };
                        }
                    }
                    let i = ps.iter().position(|p| p.paths().iter().any(|x| x.0 == path)).unwrap();
                    if self.unsure.contains(&i) {
                        let schema = ps[i].paths().into_iter().find(|x| x.0 == path).unwrap().1;
                        return catch(|| fresh.read(path, &schema).map_or(false, |b| b.len() >= ps[i].min_size)).unwrap_or(false);
                    }
                    d.done.contains_key(&i)
                };
                let val = |p: &Part| -> Val {
                    let i = ps.iter().position(|q| q.path == p.path).unwrap();
                    if !self.unsure.contains(&i) {
                        return p.val(&d.done[&i]);
                    }
                    let may: Vec<Val> = self.may[&i].iter().map(|c| p.val(c)).collect();
                    let rel = if pre.is_empty() { p.path.to_string() } else { p.path.trim_start_matches(&format!("{}/", pre)).to_string() };
                    match seen.get(&rel) {
                        Some(v) if may.contains(v) => v.clone(),
                        _ => may[0].clone(),
                    }
                };
                let want = expect(pre, &intact, &val);
                ch.evals(1);
                compare(got, want, &format!("{}: opening {:?} afterwards", ctx, pre))?;
            }
        }
        Ok(())
    }
}

/// One part that is written while calls fail, everything else being complete.
fn part(ch: &mut Ch, mode: Mode) -> Result<(), String> {
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let kinds = kinds_of(p.path);
    let c = match (p.kind, ch.choose(2)) {
        (Kind::Vector, 0) => Content::Vector(vec![8, 9]),
        (Kind::Vector, _) => Content::Vector(vec![]),
        (Kind::Multi, 0) => Content::Multi(vec![vec![(0, 8), (kinds - 1, 9)], vec![]]),
        (Kind::Multi, _) => Content::Multi(vec![]),
        (k, n) => sample(k, 9 + n as u64, kinds),
    };
    let way = ch.choose(match p.kind {
        Kind::Struct => 1,
        Kind::Vector => 2,
        _ => 1,
    }) * 2;
    let version = ch.choose(3);
    let earlier = version > 0;
    let mut d = Drive::new(false, ch.scratch.fresh())?;
    for a in archives_for(Builders::archive_of(p.path)) {
        d.threads.push(Thread::create(*a));
    }
    if !d.threads.iter().any(|t| t.archive == 1) {
        d.threads.push(Thread::create(1));
    }
    for (j, q) in ps.iter().enumerate() {
        let a = Builders::archive_of(q.path);
        if j != i && !q.optional && (a < 2 || archives_for(Builders::archive_of(p.path)).contains(&a)) {
            d.threads.push(Thread::write(j, sample(q.kind, j as u64 + 3, kinds_of(q.path)), 0));
        }
    }
    if earlier {
        d.threads.push(Thread::write(i, sample(p.kind, 6, kinds), 0));
    }
    d.finish()?;
    if earlier {
        // the storage has it mapped
        let _ = open_and_see(0, &d.root);
    }
    if version == 2 {
        // it was written with another schema
        d.outdate(i);
    }
    d.threads.push(Thread::write(i, c, way));
    let t = d.threads.len() - 1;
    let mut story = Story::new(mode);
    let mut tries = 0;
    while d.enabled().contains(&t) {
        if !story.step(&mut d, t, ch)? {
            tries += 1;
            // nothing more, the same call again, everything again
            let closed = !d.writing(t);
            match ch.choose(if tries > 2 { 1 } else { 3 }) {
                0 => d.give_up(t),
                1 if !closed => d.again(t),
                _ => d.restart(t),
            }
            story.judge(&d, ch)?;
        }
    }
    ch.outcome(&(i, tries, story.unsure.len()));
    story.judge(&d, ch)
}

/// A program that writes a whole archive and goes on whatever happens.
fn whole(ch: &mut Ch, mode: Mode) -> Result<(), String> {
    let tmp = ch.scratch.fresh();
    let rich = ch.flag();
    let in_turn = ch.flag();
    let mut d = Drive::new(false, tmp)?;
    for a in 1..5 {
        if a == 1 || rich {
            d.threads.push(Thread::create(a));
        }
    }
    for (i, p) in parts().iter().enumerate() {
        let a = Builders::archive_of(p.path);
        if (rich || a < 2) && (rich || !p.optional) {
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, kinds_of(p.path)), 2 * (i % 2)));
        }
    }
    let mut story = Story::new(mode);
    let mut errors = 0;
    loop {
        let e = d.enabled();
        if e.is_empty() {
            break;
        }
        let t = if in_turn { *e.iter().min_by_key(|t| d.threads[**t].pc).unwrap() } else { e[0] };
        if !story.step(&mut d, t, ch)? {
            errors += 1;
            if d.writing(t) && errors < 4 {
                d.again(t);
            } else {
                d.give_up(t);
            }
        }
    }
    ch.outcome(&(rich, errors, story.unsure.len()));
    story.judge(&d, ch)
}

/// Creating archives while calls fail, which is tried again or not.
fn create(ch: &mut Ch, mode: Mode) -> Result<(), String> {
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.clone();
    let root = storage(false, &dir);
    let mut b = Builders::default();
    let mut story = Story::new(mode);
    // an existing directory or none
    if ch.flag() {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    }
    let mut created = BTreeSet::new();
    for n in 0..5usize {
        let parent = match n {
            0 => true,
            1 | 3 => b.exists(0),
            2 => b.exists(1),
            _ => b.exists(3),
        };
        if !parent {
            continue;
        }
        for attempt in 0..3 {
            let (r, faults, harmless) = faulty(ch, &mut story.full, story.mode, || catch(|| b.create(n, &root).map_err(|e| e.to_string())));
            story.log.push(format!("create {:?}{}", ARCHIVES[n].0, faults.iter().map(|f| format!(" [{}]", f)).collect::<String>()));
            let at = story.log.join("; ");
            let r = r.map_err(|p| format!("{}: panics: {}", at, p))?;
            ch.state(&(&story.log, n, attempt));
            let (dir_n, name, schema, _) = ARCHIVES[n];
            let sig = join(dir_n, &format!("{}.archive", name));
            let there = catch(|| storage(false, &dir).read(&sig, schema).map(|b| b.len()).map_err(|e| e.to_string())).map_err(|p| format!("{}: reading the signature panics: {}", at, p))?;
            match (r, harmless) {
                (Ok(()), _) => {
                    if there != Ok(0) {
                        return Err(format!("{}: succeeds, but reading the signature gives {:?}", at, there));
                    }
                    created.insert(n);
                    break;
                }
                (Err(e), true) if attempt == 0 => return Err(format!("{}: returns an error ({}), although nothing failed", at, e)),
                (Err(_), _) => {
                    if let Ok(n) = there {
                        if n != 0 {
                            return Err(format!("{}: failed and leaves a signature with {} bytes", at, n));
                        }
                    }
                    story.log.push("error".into());
                }
            }
            if ch.flag() {
                break;
            }
        }
    }
    ch.outcome(&(created, story.full));
    Ok(())
}

/// What a program does with a writer whose grow failed.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum After {
    Again,
    Skip,
    Close,
}

/// Writers whose data is flushed while they are used.
fn flushing(ch: &mut Ch, multi: bool, mode: Mode) -> Result<(), String> {
    let n = 1 + ch.choose(if ch.thorough { 4 } else { 3 });
    let after = if mode == Mode::Any { *ch.pick(&[After::Again, After::Skip, After::Close]) } else { After::Close };
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let mut full = false;
    let mut log: Vec<String> = Vec::new();
    let (mut data, mut index): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let mut harmless = true;
    let mut closed = None;
    enum W<'a> {
        V(flatdata::ExternalVector<'a, F16>),
        M(flatdata::MultiVector<'a, Idx40, VarF>),
    }
    let (w, f, h) = faulty(ch, &mut full, mode, || {
        catch(|| {
            if multi {
                create_multi_vector::<Idx40, VarF>(&*s, "x", "schema").map(W::M)
            } else {
                create_external_vector::<F16>(&*s, "x", "schema").map(W::V)
            }
        })
    });
    log.push(format!("create {:?}", f));
    harmless &= h;
    let mut errors = 0;
    match w.map_err(|p| format!("{}: panics: {}", log.join("; "), p))? {
        Err(e) => {
            if harmless {
                return Err(format!("{}: returns an error ({}), although nothing failed", log.join("; "), e));
            }
            errors = 1;
        }
        Ok(mut w) => {
            let mut k = 0;
            let mut tries = 0;
            while k < n {
                let kind = k % 2;
                let at = data.len() as u64;
                let (r, f, h) = faulty(ch, &mut full, mode, || {
                    catch(|| match &mut w {
                        W::V(v) => v.grow().map(|mut x| F16::set(&mut x, k as u64 + 5)),
                        W::M(m) => m.grow().map(|mut x| VarF::add(&mut x, kind, k as u64 + 5)),
                    })
                });
                log.push(format!("grow {:?}", f));
                harmless &= h;
                let r = match r {
                    Ok(r) => r,
                    Err(p) => {
                        let _ = catch(|| drop(w));
                        return Err(format!("{}: panics: {}", log.join("; "), p));
                    }
                };
                if let W::V(v) = &w {
                    let want = data.len() / <F16 as Elem>::SIZE + r.is_ok() as usize;
                    if v.len() != want || v.is_empty() != (want == 0) || !v.is_open() {
                        let e = format!("{}: {}: the writer has {} elements instead of {}, open {}", log.join("; "), if r.is_ok() { "succeeds" } else { "fails" }, v.len(), want, v.is_open());
                        let _ = catch(|| drop(w));
                        return Err(e);
                    }
                }
                match r {
                    Ok(()) => {
                        if multi {
                            index.extend(Idx40::bytes(at));
                            data.extend(VarF::bytes(kind, k as u64 + 5));
                        } else {
                            data.extend(F16::bytes(k as u64 + 5));
                        }
                        k += 1;
                    }
                    Err(e) => {
                        log.push("error".into());
                        errors += 1;
                        if harmless {
                            let _ = catch(|| drop(w));
                            return Err(format!("{}: returns an error ({}), although nothing failed", log.join("; "), e));
                        }
                        tries += 1;
                        match after {
                            After::Again if tries < 3 => (),
                            After::Skip if tries < 3 => k += 1,
                            _ => break,
                        }
                    }
                }
            }
            index.extend(Idx40::bytes(data.len() as u64));
            let (r, f, h) = faulty(ch, &mut full, mode, || {
                catch(|| match w {
                    W::V(v) => v.close().map(|a| (a.len(), vec![])).map_err(|e| e.to_string()),
                    W::M(m) => m
                        .close()
                        .map(|a| {
                            // nothing the caller does with it makes calls that can fail
                            (a.len(), vec![])
                        })
                        .map_err(|e| e.to_string()),
                })
            });
            let r: Result<(usize, Vec<u8>), String> = r.map_err(|p| format!("{}: close {:?}: panics: {}", log.join("; "), f, p))?;
            log.push(format!("close {:?}", f));
            harmless &= h;
            match r {
                Ok((len, _)) => {
                    let want = if multi { index.len() / Idx40::bytes(0).len() - 1 } else { data.len() / <F16 as Elem>::SIZE };
                    if len != want {
                        return Err(format!("{}: close returns {} instead of {}", log.join("; "), len, want));
                    }
                    closed = Some(true)
                }
                Err(e) => {
                    errors += 1;
                    if harmless {
                        return Err(format!("{}: close returns an error ({}), although nothing failed", log.join("; "), e));
                    }
                    closed = Some(false)
                }
            }
        }
    }
    let ctx = format!("multi {}, {:?} after an error: {}", multi, after, log.join("; "));
    ch.step(|| ctx.clone());
    ch.state(&(multi, n, after, &log));
    ch.outcome(&(multi, errors, closed));
    for st in &[storage(false, &tmp.path), s.clone()] {
        let d = catch(|| st.read("x", "schema").map(|b| b == &data[..]).map_err(|e| e.to_string())).map_err(|p| format!("{}: reading panics: {}", ctx, p))?;
        let i = if multi {
            catch(|| st.read("x_index", "index(schema)").map(|b| b == &index[..]).map_err(|e| e.to_string())).map_err(|p| format!("{}: reading panics: {}", ctx, p))?
        } else {
            Ok(true)
        };
        match (d, i) {
            (Ok(a), Ok(b)) if !(a && b) => return Err(format!("{}: reads as valid, but data is {} and index {}", ctx, if a { "right" } else { "wrong" }, if b { "right" } else { "wrong" })),
            (Ok(_), Ok(_)) => (),
            (d, i) if closed == Some(true) => return Err(format!("{}: closed with success, but reading gives {:?} and {:?}", ctx, d, i)),
            _ => (),
        }
    }
    Ok(())
}

/// A part of several megabytes that is written at once, first or over another one, twice if it fails.
fn large(ch: &mut Ch, mode: Mode) -> Result<(), String> {
    ch.evals(1);
    let k = 17 + ch.choose(8);
    let n = (1usize << k) - 16 + *ch.pick(&[0usize, 16, 70_000]);
    let earlier = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let old = if earlier > 0 { Some(big::fill([0, 100, n][earlier], 77)) } else { None };
    if let Some(o) = &old {
        s.write("x", "schema", o).map_err(|e| e.to_string())?;
        s.read("x", "schema").map_err(|e| e.to_string())?;
    }
    let data = big::fill(n, 3);
    let ctx = format!("{} bytes at once, earlier {:?}", n, old.as_ref().map(|o| o.len()));
    ch.step(|| ctx.clone());
    let mut full = false;
    let mut log = vec![ctx];
    let mut ok = false;
    for _ in 0..2 {
        let (r, f, harmless) = faulty(ch, &mut full, mode, || catch(|| s.write("x", "schema", &data)));
        log.push(format!("write {:?}", f));
        match r {
            Err(p) => return Err(format!("{}: panics: {}", log.join("; "), p)),
            Ok(Ok(())) => {
                ok = true;
                break;
            }
            Ok(Err(e)) if harmless => return Err(format!("{}: returns an error ({}), although nothing failed", log.join("; "), e)),
            Ok(Err(_)) => full = false,
        }
    }
    ch.state(&(n, earlier, &log));
    ch.outcome(&(earlier, ok));
    for (who, from) in &[("the same storage", s.clone()), ("a new storage", storage(false, &tmp.path))] {
        match catch(|| from.read("x", "schema").ok()) {
            Err(p) => return Err(format!("{}: reading through {} panics: {}", log.join("; "), who, p)),
            Ok(Some(g)) if g == &data[..] => (),
            Ok(None) if !ok => (),
            Ok(Some(g)) if !ok && old.as_ref().map_or(false, |o| g == &o[..]) => (),
            Ok(g) => return Err(format!("{}: writing {}, but {} reads {:?} bytes", log.join("; "), if ok { "succeeds" } else { "fails" }, who, g.map(|g| g.len()))),
        }
    }
    Ok(())
}

fn main() {
    mccore::main("C15", Level::FaultEnumeration, "every execution runs a writing history on real files in which each call may fail (within the bound on failures); states are (contents, progress of every writer, what happened so far)", |run| {
        if let Err(e) = mccore::interpose::self_test() {
            run.violation("self test", &e);
            return;
        }
        let t = run.thorough;
        let two = if t { 2 } else { 1 };
        run.explore("create", "all archives created, up to 2 failing calls, each creation tried up to 3 times", 2, |ch| create(ch, Mode::Any));
        run.explore("part-1", "any part, written over an earlier version, one of another schema or none, one failing call or a full disk at every call; given up, continued or started again", 1, |ch| part(ch, Mode::Any));
        run.explore("whole-1", "a whole archive in two orders, one failing call or a full disk at every call", 1, |ch| whole(ch, Mode::Any));
        let soft = if t { 3 } else { 2 };
        run.explore("part-soft", &format!("any part, up to {} interrupted or short calls in any combination, one after the other on the same data as well: no error, right data", soft), soft, |ch| part(ch, Mode::Soft));
        run.explore("create-soft", &format!("all archives created, up to {} interrupted or short calls", soft), soft, |ch| create(ch, Mode::Soft));
        run.explore("slow", "creating all archives, any part, a whole archive: every write takes 1, 2, 3, 5 or 8 bytes at most, and every other one is interrupted", 0, |ch| {
            let mode = Mode::Slow(*ch.pick(&[1, 2, 3, 5, 8]));
            match ch.choose(3) {
                0 => create(ch, mode),
                1 => part(ch, mode),
                _ => whole(ch, mode),
            }
        });
        let l = if t { 2 } else { 1 };
        run.explore("large", &format!("parts of sizes around powers of two to 2^24 written at once, first or over others, up to {} failing calls, written again after a failure", l), l, |ch| large(ch, Mode::Any));
        run.explore("large-soft", "the same with up to 2 interrupted or short calls", 2, |ch| large(ch, Mode::Soft));
        run.explore_with("vector-flushing", &format!("1..=4 elements of 16 MiB, up to {} failures", two), two, 6, &|ch: &mut Ch| flushing(ch, false, Mode::Any));
        run.explore_with("multivector-flushing", &format!("1..=4 buckets of an element of up to 32 MiB, up to {} failures", two), two, 6, &|ch: &mut Ch| flushing(ch, true, Mode::Any));
        run.explore_with("vector-flushing-soft", "1..=4 elements of 16 MiB, up to 2 interrupted or short calls", 2, 6, &|ch: &mut Ch| flushing(ch, false, Mode::Soft));
        if t {
            run.explore("part-2", "the same as part-1 with two failures", 2, |ch| part(ch, Mode::Any));
            run.explore("whole-soft", "a whole archive in two orders, up to 2 interrupted or short calls", 2, |ch| whole(ch, Mode::Soft));
            run.explore_with("multivector-flushing-soft", "1..=4 buckets of an element of up to 32 MiB, up to 2 interrupted or short calls", 2, 6, &|ch: &mut Ch| flushing(ch, true, Mode::Soft));
            run.explore("whole-2", "the same as whole-1 with two failures", 2, |ch| whole(ch, Mode::Any));
        }
        run.assume("failing calls have no other effect than the ones described");
    })
}
