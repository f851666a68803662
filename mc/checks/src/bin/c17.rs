//! C17: histories of writers that end in closing, dropping or unwinding.
use checks::drive::*;
use checks::fat::*;
use checks::*;
use flatdata::{ExternalVector, MultiVector};
use libc::{EACCES, EIO, ENOSPC};
use mccore::interpose::{far, with_plan, Action, Call, Kind as K};

/// Runs f; calls may fail, within the bound.
fn faulty<R>(ch: &mut Ch, failed: &mut bool, f: impl FnOnce() -> R) -> R {
    with_plan(
        Box::new(|c: &Call| {
            let a: Vec<Action> = match c.kind {
                _ if far(c, 16) => return Action::Pass,
                K::Write => vec![Action::Fail(EIO), Action::WriteThenFail(c.len / 2, ENOSPC), Action::Short(0)],
                K::Munmap => return Action::Pass,
                _ => vec![Action::Fail(EACCES)],
            };
            let k = ch.dev(1 + a.len());
            if k == 0 {
                return Action::Pass;
            }
            ch.step(|| format!("{:?} fails ({})", c.kind, k));
            *failed = true;
            a.into_iter().nth(k - 1).unwrap()
        }),
        f,
    )
}

/// A writer of one kind or another.
enum W<'a> {
    Vector(ExternalVector<'a, E4>),
    Fat(ExternalVector<'a, F16>),
    Multi(MultiVector<'a, Idx32, Var3>),
    FatMulti(MultiVector<'a, Idx40, VarF>),
}

const KINDS: [&str; 4] = ["vector", "vector of 16 MiB elements", "multivector", "multivector of 16 MiB elements"];

fn create<'a>(kind: usize, s: &'a Storage, name: &str) -> std::io::Result<W<'a>> {
    Ok(match kind {
        0 => W::Vector(create_external_vector(&**s, name, "schema")?),
        1 => W::Fat(create_external_vector(&**s, name, "schema")?),
        2 => W::Multi(create_multi_vector(&**s, name, "schema")?),
        _ => W::FatMulti(create_multi_vector(&**s, name, "schema")?),
    })
}

impl<'a> W<'a> {
    fn grow(&mut self, v: u64, set: bool) -> Result<(), String> {
        match self {
            W::Vector(w) => w.grow().map(|mut x| if set { E4::set(&mut x, v) }),
            W::Fat(w) => w.grow().map(|mut x| if set { F16::set(&mut x, v) }),
            W::Multi(w) => w.grow().map(|mut x| if set { Var3::add(&mut x, v as usize % 3, v) }),
            W::FatMulti(w) => w.grow().map(|mut x| if set { VarF::add(&mut x, v as usize % 2, v) }),
        }
        .map_err(|e| e.to_string())
    }
    fn close(self) -> Result<(), String> {
        match self {
            W::Vector(w) => w.close().map(|_| ()).map_err(|e| e.to_string()),
            W::Fat(w) => w.close().map(|_| ()).map_err(|e| e.to_string()),
            W::Multi(w) => w.close().map(|_| ()).map_err(|e| e.to_string()),
            W::FatMulti(w) => w.close().map(|_| ()).map_err(|e| e.to_string()),
        }
    }
    fn look(&self) -> String {
        match self {
            W::Vector(w) => format!("{:?} {} {} {}", w, w.len(), w.is_empty(), w.is_open()),
            W::Fat(w) => format!("{:?} {} {} {}", w, w.len(), w.is_empty(), w.is_open()),
            W::Multi(w) => format!("{:?}", w),
            W::FatMulti(w) => format!("{:?}", w),
        }
    }
}

fn readable(s: &Storage, name: &str, multi: bool) -> Result<bool, String> {
    catch(|| s.read(name, "schema").is_ok() && (!multi || s.read(&format!("{}_index", name), "index(schema)").is_ok()))
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum End {
    Drop,
    Close,
    Unwind,
    /// dropped by the drop of something else while unwinding
    UnwindDeep,
    /// dropped together with another writer
    Two,
}

struct Holder<'a> {
    _w: Box<dyn Fn() + 'a>,
}

fn history(ch: &mut Ch, kinds: &[usize], ops: usize, with_faults: bool) -> Result<(), String> {
    let memory = !with_faults && ch.flag();
    let kind = *ch.pick(kinds);
    let fat = kind == 1 || kind == 3;
    let multi = kind == 2 || kind == 3;
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut log = vec![format!("{} memory {}", KINDS[kind], memory)];
    if ch.flag() {
        // an earlier version
        log.push("earlier version".into());
        let mut w = create(kind, &s, "x").map_err(|e| e.to_string())?;
        if !fat {
            w.grow(3, true)?;
        }
        w.close()?;
    }
    let mut failed = false;
    let w = if with_faults { faulty(ch, &mut failed, || catch(|| create(kind, &s, "x"))) } else { catch(|| create(kind, &s, "x")) };
    let mut w = match w {
        Err(p) => return Err(format!("{}: creating panics: {}", log.join(", "), p)),
        Ok(Err(e)) if failed => {
            ch.state(&(kind, memory, &log, "not created"));
            ch.outcome(&(kind, "not created"));
            for st in &[s.clone(), storage(false, &tmp.path)] {
                let _ = readable(st, "x", multi).map_err(|p| format!("{}: creating failed ({}), reading panics: {}", log.join(", "), e, p))?;
            }
            return Ok(());
        }
        Ok(Err(e)) => return Err(format!("{}: creating fails: {}", log.join(", "), e)),
        Ok(Ok(w)) => w,
    };
    for i in 0..ops {
        let op = ch.choose(if fat { 2 } else { 5 });
        match op {
            0 => break,
            1 | 2 => {
                log.push(if op == 1 { "grow" } else { "grow, not set" }.into());
                ch.step(|| log.last().unwrap().clone());
                let r = if with_faults { faulty(ch, &mut failed, || catch(|| w.grow(i as u64 + 3, op == 1))) } else { catch(|| w.grow(i as u64 + 3, op == 1)) };
                match r {
                    Err(p) => {
                        let _ = catch(|| drop(w));
                        return Err(format!("{}: panics: {}", log.join(", "), p));
                    }
                    Ok(Err(e)) => {
                        log.push(format!("error {}", e));
                        if !failed {
                            let _ = catch(|| drop(w));
                            return Err(format!("{}: although nothing failed", log.join(", ")));
                        }
                    }
                    Ok(Ok(())) => (),
                }
            }
            3 => {
                log.push(w.look());
            }
            _ => {
                log.push("read".into());
                for st in &[s.clone(), storage(false, &tmp.path)] {
                    if readable(st, "x", multi) != Ok(false) {
                        let _ = catch(|| drop(w));
                        return Err(format!("{}: reads as valid while it is open", log.join(", ")));
                    }
                }
            }
        }
    }
    let end = *ch.pick(&[End::Drop, End::Close, End::Unwind, End::UnwindDeep, End::Two]);
    log.push(format!("{:?}", end));
    ch.step(|| format!("{:?}", end));
    ch.state(&(kind, memory, &log));
    let at = log.join(", ");
    let mut closed = false;
    match end {
        End::Drop => {
            if catch(|| drop(w)).is_ok() {
                return Err(format!("{}: does not panic", at));
            }
        }
        End::Two => {
            // the other one is of another kind, and goes first or last
            let other = create(if kind == 0 { 2 } else { 0 }, &s, "y").map_err(|e| e.to_string())?;
            let order = ch.flag();
            let r = catch(|| {
                let (_a, _b) = if order { (w, other) } else { (other, w) };
            });
            if r.is_ok() {
                return Err(format!("{}: does not panic", at));
            }
            for st in &[s.clone(), storage(false, &tmp.path)] {
                if readable(st, "y", false).map_err(|p| format!("{}: reading panics: {}", at, p))? {
                    return Err(format!("{}: the other writer's resource can be read", at));
                }
            }
        }
        End::Close => {
            let r = if with_faults {
                faulty(ch, &mut failed, || catch(|| w.close()))
            } else {
                catch(|| w.close())
            };
            let r = r.map_err(|p| format!("{}: panics: {}", at, p))?;
            ch.outcome(&(kind, r.is_ok()));
            match &r {
                Ok(()) => closed = true,
                Err(e) if !failed => return Err(format!("{}: close fails: {}", at, e)),
                Err(_) => (),
            }
        }
        End::Unwind => match catch(|| {
            let _w = w;
            if true {
                panic!("the original panic")
            }
        }) {
            Err(p) if p.contains("the original panic") => (),
            r => return Err(format!("{}: unwinding ends with {:?}", at, r)),
        },
        End::UnwindDeep => {
            // the writer lives in a box in a closure in a struct
            match catch(|| {
                let _h = Holder { _w: Box::new(move || { let _ = &w; }) };
                if true {
                    panic!("the original panic")
                }
            }) {
                Err(p) if p.contains("the original panic") => (),
                r => return Err(format!("{}: unwinding ends with {:?}", at, r)),
            }
        }
    }
    ch.outcome(&(kind, end, failed));
    for st in &[s.clone(), storage(false, &tmp.path)] {
        let got = readable(st, "x", multi).map_err(|p| format!("{}: reading panics: {}", at, p))?;
        if memory && !Rc::ptr_eq(st, &s) {
            continue;
        }
        if closed && !got {
            return Err(format!("{}: closed, but it cannot be read", at));
        }
        if end != End::Close && got {
            return Err(format!("{}: not closed, but it can be read", at));
        }
    }
    Ok(())
}

/// Writers of archives.
fn in_archive(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let ps = parts();
    let of: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].kind == Kind::Vector || ps[*i].kind == Kind::Multi).collect();
    let i = *ch.pick(&of);
    let p = &ps[i];
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let mine = Builders::archive_of(p.path);
    for a in archives_for(mine) {
        d.threads.push(Thread::create(*a));
    }
    if !archives_for(mine).contains(&1) {
        d.threads.push(Thread::create(1));
    }
    d.finish()?;
    for (j, q) in ps.iter().enumerate() {
        if j != i && !q.optional && d.created.contains(&Builders::archive_of(q.path)) {
            d.threads.push(Thread::write(j, sample(q.kind, j as u64 + 3, kinds_of(q.path)), 0));
        }
    }
    let earlier = ch.choose(3);
    if earlier > 0 {
        d.threads.push(Thread::write(i, sample(p.kind, 6, kinds_of(p.path)), 2));
    }
    d.finish()?;
    if earlier == 2 {
        let _ = open_and_see(0, &d.root);
    }
    let n = ch.choose(4) as u64;
    let c = sample(p.kind, n, kinds_of(p.path));
    d.threads.push(Thread::write(i, c, 2));
    let t = d.threads.len() - 1;
    let steps = 1 + ch.choose(1 + count(&d.threads[t].content));
    for _ in 0..steps {
        d.step(t)?;
    }
    let ctx = format!("{} dropped after {} steps, memory {}, earlier {}", p.path, steps, memory, earlier);
    ch.step(|| ctx.clone());
    ch.state(&(memory, i, n, steps, earlier));
    match d.drop_writer(t) {
        Some(Err(_)) => (),
        r => return Err(format!("{}: gives {:?} instead of a panic", ctx, r)),
    }
    for n in d.created.clone() {
        compare(open_and_see(n, &d.root), d.expected(n), &format!("{}: opening {:?}", ctx, ARCHIVES[n].0))?;
        if !memory {
            compare(open_and_see(n, &storage(false, &d.dir)), d.expected(n), &format!("{}: opening {:?} anew", ctx, ARCHIVES[n].0))?;
        }
    }
    // and it can be written after all
    d.restart(t);
    d.finish()?;
    ch.outcome(&(i, earlier));
    for n in d.created.clone() {
        compare(open_and_see(n, &d.root), d.expected(n), &format!("{}, written anew: opening {:?}", ctx, ARCHIVES[n].0))?;
    }
    Ok(())
}

fn main() {
    mccore::main("C17", Level::ModelChecking, "states are (kind of writer, storage, history); every history ends in closing, dropping or unwinding", |run| {
        let t = run.thorough;
        let n = if t { 7 } else { 5 };
        run.explore("histories", &format!("all histories of up to {} operations on vectors and multivectors in both storages, over an earlier version or not, five endings", n), 0, move |ch| history(ch, &[0, 2], n, false));
        run.explore_with("fat", "up to 4 elements of 16 MiB and more, so that data is flushed", 0, 4, &|ch: &mut Ch| history(ch, &[1, 3], 4, false));
        let (m, f) = if t { (5, 2) } else { (3, 2) };
        run.explore("failures", &format!("up to {} operations, up to {} failing calls anywhere", m, f), f, move |ch| history(ch, &[0, 2], m, true));
        run.explore_with("fat-failures", "up to 4 elements of 16 MiB and more, one failing call", 1, 5, &|ch: &mut Ch| history(ch, &[1, 3], if ch.thorough { 4 } else { 3 }, true));
        run.explore("archives", "all vectors and multivectors of the archives dropped after every step, over an earlier version or not", 0, in_archive);
    })
}
