//! C14: every prefix of the file system effects of writing histories, cut at every byte of every
//! write, opened by a reader with a storage of its own.
use checks::drive::*;
use checks::fat::*;
use checks::*;
use mccore::interpose::{with_plan, Action, Call, Kind as K};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Reader {
    /// a new process at every point
    Fresh,
    /// one process that keeps its storage and tries again and again
    Polling,
}

/// Cuts of a write of n bytes: all of them, for long writes those near the ends and page ends.
fn cuts(n: usize) -> Vec<usize> {
    if n <= 4096 {
        return (1..n).collect();
    }
    let mut r: Vec<usize> = (1..=64).collect();
    let mut k = 4096;
    while k < n {
        r.extend(&[k - 1, k, k + 1]);
        k += if n > 1 << 20 { 1 << 20 } else { 4096 };
    }
    r.extend(n - 64..n);
    r.retain(|k| *k > 0 && *k < n);
    r.sort();
    r.dedup();
    r
}

/// Runs f, calling `judge` before and after each of its effects on files, and within writes.
fn every_effect<R>(judge: &dyn Fn(&str) -> Result<(), String>, points: &Cell<u64>, f: impl FnOnce() -> R) -> (R, Result<(), String>) {
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let at = |what: &dyn Fn() -> String| {
        if bad.borrow().is_none() {
            points.set(points.get() + 1);
            if let Err(e) = judge("") {
                *bad.borrow_mut() = Some(format!("interrupted {}: {}", what(), e));
            }
        }
    };
    let n = Cell::new(0);
    let plan = |c: &Call| -> Action {
        if !c.mutating {
            return Action::Pass;
        }
        n.set(n.get() + 1);
        let what = || format!("at effect {} ({:?} {} len {})", n.get(), c.kind, c.path.map_or("", |p| p.rsplit("/work/").next().unwrap_or(p)), c.len);
        at(&|| format!("{}, before it", what()));
        let d = match (c.kind, c.data) {
            (K::Write, Some(d)) => d,
            _ => return Action::Pass,
        };
        let mut done = 0;
        // code that writes in many pieces is stopped between them, and within the short ones
        let mut to: Vec<usize> = if n.get() > 256 && d.len() > 64 { vec![] } else { cuts(d.len()) };
        to.push(d.len());
        for k in to {
            while done < k {
                let w = unsafe { libc::syscall(libc::SYS_write, c.fd as i64, d.as_ptr().add(done), k - done) };
                assert!(w > 0, "writing to the scratch directory fails");
                done += w as usize;
            }
            if k < d.len() {
                at(&|| format!("{}, after {} bytes", what(), k));
            }
        }
        Action::Skip(d.len() as i64)
    };
    let r = with_plan(Box::new(plan), f);
    at(&|| format!("after effect {}", n.get()));
    let bad = bad.into_inner();
    (r, bad.map_or(Ok(()), Err))
}

/// What parts may show.
type Allowed = BTreeMap<String, Vec<Val>>;

fn allowed(d: &Drive) -> Allowed {
    let ps = parts();
    let mut r: Allowed = BTreeMap::new();
    for (p, c) in &d.done {
        r.entry(ps[*p].path.into()).or_default().push(ps[*p].val(c));
    }
    for t in &d.threads {
        if let Some(p) = t.part {
            r.entry(ps[p].path.into()).or_default().push(ps[p].val(&t.content));
        }
    }
    r
}

/// Opens the archive in ARCHIVES[root].
fn look_at(root: usize, s: &Storage, ok: &Allowed, opened: &Cell<u64>) -> Result<(), String> {
    match open_and_see(root, s) {
        Err(p) => Err(format!("opening or reading {:?} panics: {}", ARCHIVES[root].0, p)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(seen)) => {
            opened.set(opened.get() + 1);
            for (k, v) in &seen.parts {
                let path = join(ARCHIVES[root].0, k);
                if !ok.get(&path).map_or(false, |l| l.contains(v)) {
                    return Err(format!("archive {:?} opens and shows {} as {:.300}, meant to be {:.300}", ARCHIVES[root].0, path, format!("{:?}", v), format!("{:?}", ok.get(&path))));
                }
            }
            Ok(())
        }
    }
}

/// An archive and those it is in.
fn with_parents(a: usize) -> &'static [usize] {
    match a {
        0 => &[0],
        1 => &[1, 0],
        2 => &[2, 1, 0],
        3 => &[3, 0],
        _ => &[4, 3, 0],
    }
}

/// Takes the next step of a thread, interrupted everywhere.
fn step(d: &mut Drive, i: usize, reader: Reader, poll: &Storage, ch: &mut Ch) -> Result<(), String> {
    let ok = allowed(d);
    let dir = d.dir.clone();
    let what = d.describe(i);
    ch.step(|| what.clone());
    let roots = with_parents(d.threads[i].archive);
    let opened = Cell::new(0);
    let points = Cell::new(0);
    let judge = |_: &str| -> Result<(), String> {
        for root in roots {
            let s = match reader {
                Reader::Fresh => storage(false, &dir),
                Reader::Polling => poll.clone(),
            };
            look_at(*root, &s, &ok, &opened)?;
        }
        Ok(())
    };
    let (r, j) = every_effect(&judge, &points, || d.step(i));
    ch.evals(points.get() * roots.len() as u64);
    ch.count("archives that opened", opened.get());
    r?;
    j.map_err(|e| format!("{} {}", what, e))?;
    let pcs: Vec<usize> = d.threads.iter().map(|t| t.pc).collect();
    let all: Vec<_> = d.threads.iter().map(|t| (t.part, t.archive, &t.content, t.way)).collect();
    ch.state(&(reader, all, pcs));
    Ok(())
}

/// In the end everything is there.
fn complete_now(d: &mut Drive, reader: Reader, poll: &Storage) -> Result<(), String> {
    for root in d.created.clone() {
        let s = match reader {
            Reader::Fresh => storage(false, &d.dir),
            Reader::Polling => poll.clone(),
        };
        compare(open_and_see(root, &s), d.expected(root), &format!("opening {:?} after everything was written", ARCHIVES[root].0))?;
    }
    Ok(())
}

fn start(ch: &mut Ch) -> Result<Drive, String> {
    Drive::new(false, ch.scratch.fresh())
}

/// Writes everything but some parts; `rich`: also what is optional.
fn all_but(d: &mut Drive, but: &[usize], rich: bool) -> Result<(), String> {
    let ps = parts();
    for a in 1..5 {
        let needed = a == 1 || rich || but.iter().any(|i| with_parents(Builders::archive_of(ps[*i].path)).contains(&a));
        if needed {
            d.threads.push(Thread::create(a));
        }
    }
    d.finish()?;
    for (i, p) in ps.iter().enumerate() {
        if !but.contains(&i) && d.created.contains(&Builders::archive_of(p.path)) && (rich || !p.optional) {
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, kinds_of(p.path)), i % 3));
        }
    }
    d.finish()
}

/// The last part to be written.
fn last_part(ch: &mut Ch, reader: Reader) -> Result<(), String> {
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let cs = contents(p.kind, kinds_of(p.path), false);
    let short: Vec<Content> = if ch.thorough { cs } else { cs.into_iter().step_by(if p.kind == Kind::Multi { 7 } else { 2 }).collect() };
    let c = ch.pick(&short).clone();
    let way = ch.choose(match p.kind {
        Kind::Struct => 2,
        Kind::Vector => 3,
        _ => 1,
    });
    // over an earlier version, which the polling reader has read
    let version = ch.choose(4);
    let earlier = match version {
        0 => None,
        1 => Some(short[0].clone()),
        _ => Some(sample(p.kind, 7, kinds_of(p.path))),
    };
    let mut d = start(ch)?;
    all_but(&mut d, &[i], ch.thorough && ch.flag())?;
    if let Some(c) = earlier {
        d.threads.push(Thread::write(i, c, (way + 1) % 3));
        d.finish()?;
    }
    let poll = storage(false, &d.dir);
    // or over one of another schema, which it has tried to read
    if version == 3 {
        d.outdate(i);
        let ok = allowed(&d);
        for root in with_parents(Builders::archive_of(p.path)) {
            look_at(*root, &poll, &ok, &Cell::new(0))?;
        }
    }
    if reader == Reader::Polling && d.done.iter().any(|(p, _)| *p == i) {
        complete_now(&mut d, reader, &poll)?;
    }
    d.threads.push(Thread::write(i, c, way));
    let t = d.threads.len() - 1;
    while d.enabled().contains(&t) {
        step(&mut d, t, reader, &poll, ch)?;
    }
    ch.outcome(&(i, way));
    complete_now(&mut d, reader, &poll)
}

/// Everything, in one of a few orders.
fn whole(ch: &mut Ch, reader: Reader) -> Result<(), String> {
    let rich = ch.flag();
    let tmp = ch.scratch.fresh();
    if rich && ch.flag() {
        // where all parts are left of an archive that had other schemas and was removed
        for p in parts() {
            for r in p.resources(&sample(p.kind, 7, kinds_of(p.path))) {
                let to = tmp.path.join(&r.path);
                std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                std::fs::write(&to, framed(&r.payload)).unwrap();
                std::fs::write(tmp.path.join(format!("{}.schema", r.path)), format!("once {}", r.schema)).unwrap();
            }
        }
    }
    let mut d = Drive::new(false, tmp)?;
    let poll = storage(false, &d.dir);
    let way = ch.choose(3);
    let order = ch.choose(4);
    for a in 1..5 {
        if a == 1 || rich {
            d.threads.push(Thread::create(a));
        }
    }
    for (i, p) in parts().iter().enumerate() {
        let a = Builders::archive_of(p.path);
        if (rich || a < 2) && (rich || !p.optional) {
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, kinds_of(p.path)), (i + way) % 3));
        }
    }
    loop {
        let e = d.enabled();
        if e.is_empty() {
            break;
        }
        // one after the other, last first, in turn, in turn from the end
        let t = match order {
            0 => e[0],
            1 => e[e.len() - 1],
            2 => *e.iter().min_by_key(|t| d.threads[**t].pc).unwrap(),
            _ => *e.iter().rev().min_by_key(|t| d.threads[**t].pc).unwrap(),
        };
        step(&mut d, t, reader, &poll, ch)?;
    }
    ch.outcome(&(rich, order));
    complete_now(&mut d, reader, &poll)
}

/// The last two parts to be written, in all interleavings.
fn last_two(ch: &mut Ch, reader: Reader) -> Result<(), String> {
    let ps = parts();
    let i = ch.choose(ps.len() - 1);
    let j = i + 1 + ch.choose(ps.len() - 1 - i);
    let mut d = start(ch)?;
    all_but(&mut d, &[i, j], false)?;
    let poll = storage(false, &d.dir);
    let content = |k: usize, base: u64| match ps[k].kind {
        Kind::Vector => Content::Vector(vec![k as u64 + base]),
        Kind::Multi => Content::Multi(vec![vec![(0, k as u64 + base)]]),
        kind => sample(kind, k as u64 + base, 1),
    };
    // over earlier versions of the same size
    if reader == Reader::Polling && ch.flag() {
        for k in &[i, j] {
            d.threads.push(Thread::write(*k, content(*k, 41), 0));
        }
        d.finish()?;
        complete_now(&mut d, reader, &poll)?;
    }
    let from = d.threads.len();
    for k in &[i, j] {
        d.threads.push(Thread::write(*k, content(*k, 9), 2));
    }
    loop {
        let e: Vec<usize> = d.enabled().into_iter().filter(|t| *t >= from).collect();
        if e.is_empty() {
            break;
        }
        let t = *ch.pick(&e);
        step(&mut d, t, reader, &poll, ch)?;
    }
    ch.outcome(&(i, j));
    complete_now(&mut d, reader, &poll)
}

/// A writer in a thread of its own, which performs one effect at a time when told to.
struct Stepped {
    go: Option<std::sync::mpsc::Sender<()>>,
    at: std::sync::mpsc::Receiver<Result<(), String>>,
    thread: Option<std::thread::JoinHandle<()>>,
    granted: usize,
    end: Option<Result<(), String>>,
}

impl Stepped {
    /// Prepares something, and goes on up to the first effect of what is to be run.
    fn start<D>(prepare: impl FnOnce() -> Result<D, String> + Send + 'static, run: impl FnOnce(&mut D) -> Result<(), String> + Send + 'static) -> Stepped {
        let (go, wait) = std::sync::mpsc::channel::<()>();
        let (tell, at) = std::sync::mpsc::channel();
        let thread = std::thread::spawn(move || {
            let plan = |c: &Call| {
                if c.mutating {
                    let _ = tell.send(Ok(()));
                    let _ = wait.recv();
                }
                Action::Pass
            };
            let mut d = None;
            let r = catch(|| {
                let d = d.get_or_insert(prepare()?);
                with_plan(Box::new(plan), || run(d))
            });
            let r = r.unwrap_or_else(|p| Err(format!("the writer panics: {}", p)));
            let _ = tell.send(r.and(Err(String::new())));
            // the directory is kept until the reader is done
            let _ = wait.recv();
        });
        let mut s = Stepped { go: Some(go), at, thread: Some(thread), granted: 0, end: None };
        s.wait();
        s
    }
    fn wait(&mut self) {
        match self.at.recv() {
            Ok(Ok(())) => (),
            Ok(Err(e)) => self.end = Some(if e.is_empty() { Ok(()) } else { Err(e) }),
            Err(_) => self.end = Some(Err("the writer is gone".into())),
        }
    }
    /// Performs the next effects.
    fn grant(&mut self, n: usize) {
        for _ in 0..n {
            if self.end.is_some() {
                return;
            }
            let _ = self.go.as_ref().unwrap().send(());
            self.granted += 1;
            self.wait();
        }
    }
    fn finish(&mut self) -> Result<(), String> {
        self.grant(usize::max_value());
        self.end.clone().unwrap()
    }
}

impl Drop for Stepped {
    fn drop(&mut self) {
        self.go = None;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// A writer of a part, over another version of it or not, and what may be seen.
fn writing(tmp: mccore::scratch::TempDir, i: usize, way: usize, over: usize) -> Result<(Stepped, Allowed), String> {
    let (tell, expected) = std::sync::mpsc::channel();
    let prepare = move || {
        let p = &parts()[i];
        let (old, new) = (sample(p.kind, 7, kinds_of(p.path)), sample(p.kind, 3, kinds_of(p.path)));
        let mut d = Drive::new(false, tmp)?;
        all_but(&mut d, &[i], false)?;
        if over > 0 {
            d.threads.push(Thread::write(i, old, way));
            d.finish()?;
        }
        if over > 1 {
            d.outdate(i);
        }
        let mut ok = allowed(&d);
        d.threads.push(Thread::write(i, new, way));
        for (k, v) in allowed(&d) {
            ok.entry(k).or_default().extend(v);
        }
        let _ = tell.send(ok);
        Ok(d)
    };
    let mut w = Stepped::start(prepare, |d: &mut Drive| d.finish());
    match expected.recv() {
        Ok(ok) => Ok((w, ok)),
        Err(_) => Err(format!("{:?}", w.finish())),
    }
}

/// How many effects that has.
fn effects_of(ch: &mut Ch, i: usize, way: usize, over: usize) -> Result<usize, String> {
    static KNOWN: std::sync::Mutex<BTreeMap<(usize, usize, usize), usize>> = std::sync::Mutex::new(BTreeMap::new());
    if let Some(n) = KNOWN.lock().unwrap().get(&(i, way, over)) {
        return Ok(*n);
    }
    let (mut w, _) = writing(ch.scratch.fresh(), i, way, over)?;
    w.finish()?;
    KNOWN.lock().unwrap().insert((i, way, over), w.granted);
    Ok(w.granted)
}

/// 0 to n; of many those near the ends and powers of two.
fn some_of(n: usize) -> Vec<usize> {
    (0..=n).filter(|k| n <= 20 || *k <= 5 || n - k <= 5 || k.is_power_of_two()).collect()
}

/// Another process opens the archive in the midst of writing: its calls and the effects of the writer are interleaved.
fn interleaved(ch: &mut Ch, rich: bool) -> Result<(), String> {
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let kinds = kinds_of(p.path);
    let way = ch.choose(match p.kind {
        Kind::Struct => 2,
        Kind::Vector => 3,
        _ => 1,
    });
    // a part of two resources that is written anew may be seen half: only one of one resource is
    let over = *ch.pick(if p.kind == Kind::Multi { &[0, 2][..] } else { &[0, 1, 2] });
    let polled = ch.flag();
    let roots = with_parents(Builders::archive_of(p.path));
    let root = if rich { *ch.pick(roots) } else { roots[0] };
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.clone();
    let total = effects_of(ch, i, way, over)?;
    let (mut writer, ok) = writing(tmp, i, way, over)?;
    let s = storage(false, &dir);
    let opened = Cell::new(0);
    let mut log = vec![];
    if polled {
        look_at(root, &s, &ok, &opened)?;
    }
    // some before, some between two calls of the reader, the rest afterwards
    let first = if total == 0 { 0 } else { *ch.pick(&some_of(total - 1)) };
    writer.grant(first);
    let r = {
        let (w, l, c) = (&mut writer, &mut log, &mut *ch);
        with_plan(
            Box::new(move |call: &Call| {
                let left = total.saturating_sub(w.granted);
                if left > 0 && call.kind != K::Munmap {
                    let some = some_of(left);
                    let k = some[c.dev(some.len())];
                    if k > 0 {
                        w.grant(k);
                        l.push(format!("{} effects before {:?} {}", k, call.kind, call.path.map_or("", |p| p.rsplit('/').next().unwrap_or(p))));
                    }
                }
                Action::Pass
            }),
            || mccore::interpose::with_stat(|| look_at(root, &s, &ok, &opened)),
        )
    };
    let ctx = |e: String| format!("{} (way {}, over {}, read before {}), {} effects, then the reader of {:?} begins, {}: {}", p.path, way, over, polled, first, ARCHIVES[root].0, log.join(", "), e);
    ch.step(|| ctx(format!("{:?}", r)));
    r.map_err(&ctx)?;
    let seen = opened.get();
    let granted = writer.granted;
    writer.finish().map_err(&ctx)?;
    if writer.granted != total {
        return Err(ctx(format!("{} effects instead of {}", writer.granted, total)));
    }
    // now everything is there, also for this reader
    for s in &[s, storage(false, &dir)] {
        look_at(root, s, &ok, &opened).map_err(&ctx)?;
        match open_and_see(root, s) {
            Ok(Ok(x)) => {
                let prefix = ARCHIVES[root].0;
                let here = x.parts.iter().find(|(k, _)| join(prefix, k) == p.path);
                if here.map(|h| h.1) != Some(&p.val(&sample(p.kind, 3, kinds))) {
                    return Err(ctx(format!("in the end it shows {:?}", here)));
                }
            }
            r => return Err(ctx(format!("in the end it does not open: {:?}", r.map(|x| x.err())))),
        }
    }
    ch.evals(1);
    ch.state(&(i, way, over, polled, root, first, granted));
    ch.outcome(&(i, way, over, seen));
    Ok(())
}

fn read_all(dir: &Path, poll: Option<&Storage>, multi: bool) -> Result<Option<(Vec<u8>, Vec<u8>)>, String> {
    let own;
    let s = match poll {
        Some(s) => s,
        None => {
            own = storage(false, dir);
            &own
        }
    };
    catch(|| {
        let d = s.read("x", "schema").ok().map(|d| d.to_vec());
        let i = if multi { s.read("x_index", "index(schema)").ok().map(|d| d.to_vec()) } else { Some(vec![]) };
        match (d, i) {
            (Some(d), Some(i)) => Some((d, i)),
            _ => None,
        }
    })
}

/// Writers whose data is flushed several times.
fn long(ch: &mut Ch) -> Result<(), String> {
    let multi = ch.flag();
    let polling = ch.flag();
    let n = 1 + ch.choose(if ch.thorough { 4 } else { 2 });
    let earlier = ch.flag();
    // elements of 16 or 32 MiB or a little less or more, set or not
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let poll = storage(false, &tmp.path);
    let dir = tmp.path.clone();
    let old: RefCell<Option<(Vec<u8>, Vec<u8>)>> = RefCell::new(None);
    let expect: RefCell<Option<(Vec<u8>, Vec<u8>)>> = RefCell::new(None);
    let judge = |_: &str| -> Result<(), String> {
        let got = read_all(&dir, if polling { Some(&poll) } else { None }, multi).map_err(|p| format!("reading panics: {}", p))?;
        match (got, &*expect.borrow()) {
            (None, _) => Ok(()),
            (Some(ref g), _) if old.borrow().as_ref() == Some(g) => Ok(()),
            (Some(g), Some(e)) if g == *e => Ok(()),
            (Some(g), _) => Err(format!("can be read ({} bytes) before it is complete", g.0.len())),
        }
    };
    let points = Cell::new(0);
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let write = |base: u64| -> Result<(), String> {
        if multi {
            let mut w = create_multi_vector::<Idx40, VarF>(&*s, "x", "schema").map_err(|x| e(&x))?;
            let (mut data, mut index) = (Vec::new(), Vec::new());
            for b in 0..n {
                index.extend(Idx40::bytes(data.len() as u64));
                let mut x = w.grow().map_err(|x| e(&x))?;
                let kind = (b + n) % VarF::tags().len();
                VarF::add(&mut x, kind, b as u64 + base);
                data.extend(VarF::bytes(kind, b as u64 + base));
            }
            index.extend(Idx40::bytes(data.len() as u64));
            *expect.borrow_mut() = Some((data, index));
            w.close().map_err(|x| e(&x))?;
        } else {
            let mut w = create_external_vector::<F16>(&*s, "x", "schema").map_err(|x| e(&x))?;
            let mut data = Vec::new();
            for b in 0..2 * n {
                let mut x = w.grow().map_err(|x| e(&x))?;
                F16::set(&mut x, b as u64 + base);
                data.extend(F16::bytes(b as u64 + base));
            }
            *expect.borrow_mut() = Some((data, vec![]));
            w.close().map_err(|x| e(&x))?;
        }
        Ok(())
    };
    if earlier {
        write(100)?;
        *old.borrow_mut() = expect.borrow_mut().take();
        if read_all(&dir, Some(&poll), multi)? != *old.borrow() {
            return Err("what was written at first cannot be read".into());
        }
    }
    let (r, j) = every_effect(&judge, &points, || write(5));
    ch.step(|| format!("multi {} polling {} n {} earlier {}", multi, polling, n, earlier));
    ch.evals(points.get());
    ch.state(&(multi, polling, n, earlier));
    ch.outcome(&(multi, n));
    r?;
    j?;
    let got = read_all(&dir, if polling { Some(&poll) } else { None }, multi).map_err(|p| format!("reading panics: {}", p))?;
    if got.is_none() || got != *expect.borrow() {
        return Err("cannot be read when everything was written".into());
    }
    Ok(())
}

/// A part of several megabytes that is written at once, first or over another one.
fn large(ch: &mut Ch) -> Result<(), String> {
    let polling = ch.flag();
    let k = 17 + ch.choose(if ch.thorough { 9 } else { 8 });
    let n = (1usize << k) - 16 + *ch.pick(&[0usize, 3, 16, 17, 70_000]);
    let earlier = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let poll = storage(false, &tmp.path);
    let old = if earlier > 0 { Some(big::fill([0, 100, n][earlier], 77)) } else { None };
    if let Some(o) = &old {
        s.write("x", "schema", o).map_err(|e| e.to_string())?;
        poll.read("x", "schema").map_err(|e| e.to_string())?;
    }
    let data = big::fill(n, 3);
    let dir = tmp.path.clone();
    let judge = |_: &str| -> Result<(), String> {
        let own;
        let from = if polling {
            &poll
        } else {
            own = storage(false, &dir);
            &own
        };
        match catch(|| from.read("x", "schema").ok()) {
            Err(p) => Err(format!("reading panics: {}", p)),
            Ok(Some(g)) if g != &data[..] && old.as_ref().map_or(true, |o| g != &o[..]) => Err(format!("{} bytes can be read that are neither the old nor the new contents", g.len())),
            Ok(_) => Ok(()),
        }
    };
    let points = Cell::new(0);
    let (r, j) = every_effect(&judge, &points, || catch(|| s.write("x", "schema", &data)));
    let ctx = format!("{} bytes at once, earlier {:?}, polling {}", n, old.as_ref().map(|o| o.len()), polling);
    ch.step(|| ctx.clone());
    ch.evals(points.get());
    ch.state(&(polling, n, earlier));
    ch.outcome(&(polling, earlier));
    match r {
        Ok(Ok(())) => (),
        x => return Err(format!("{}: writing gives {:?}", ctx, x)),
    }
    j.map_err(|e| format!("{}: {}", ctx, e))?;
    let from = if polling { &poll } else { &s };
    match catch(|| from.read("x", "schema")) {
        Ok(Ok(g)) if g == &data[..] => Ok(()),
        _ => Err(format!("{}: cannot be read when everything was written", ctx)),
    }
}

fn main() {
    mccore::main("C14", Level::FaultEnumeration, "points are the states of the directory between any two effects and within every write, each opened by a reader with a storage of its own; states are (contents, progress of every writer)", |run| {
        if let Err(e) = mccore::interpose::self_test() {
            run.violation("self test", &e);
            return;
        }
        let t = run.thorough;
        let every = "interrupted between all effects and at every byte of every write";
        for (r, name) in &[(Reader::Fresh, "fresh"), (Reader::Polling, "polling")] {
            let r = *r;
            run.explore(&format!("last-part-{}", name), &format!("any part as the last one, many contents, all ways of writing, {}", every), 0, move |ch| last_part(ch, r));
            run.explore(&format!("whole-{}", name), &format!("a whole archive in four orders and three ways, in an empty directory or over what is left of another, {}", every), 0, move |ch| whole(ch, r));
            run.explore(&format!("last-two-{}", name), &format!("any two parts as the last ones, or written anew, all interleavings, {}", every), 0, move |ch| last_two(ch, r));
        }
        run.explore("interleaved", "any part written, first or over another version, while a reader opens the archive: the writer performs some effects before, any number between any two calls of the reader (thorough: at two places), the rest afterwards", if t { 2 } else { 1 }, move |ch| interleaved(ch, t));
        run.explore_with("long", "elements of 16 MiB and more, so that data is flushed several times; long writes are cut near their ends and at page ends", 0, 4, &|ch: &mut Ch| long(ch));
        run.explore("large", "parts of sizes around powers of two to 2^24 (thorough 2^25) written at once, first or over others; interrupted at the ends and around every page or MiB", 0, large);
        run.assume("effects reach the files in the order of the calls (the process dies, not the machine)");
    })
}
