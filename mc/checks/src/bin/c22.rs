//! C22: errors say which resource failed and why.
use checks::damage::*;
use checks::drive::{archives_for, open_and_see};
use checks::fat::*;
use checks::*;
use flatdata::{Archive, ResourceStorageError as E};
use libc::{EACCES, EDQUOT, EFBIG, EIO, EMFILE, EINVAL, ELOOP, ENFILE, ENODEV, ENOMEM, ENOSPC, EOVERFLOW, EPERM, EROFS};
use mccore::interpose::{far, with_plan, with_stat, Action, Call, Kind as K};
use std::collections::{BTreeMap, BTreeSet};
use std::io;

// ---- what is true of a resource ----

/// What is the matter with a resource.
#[derive(Clone, Debug, PartialEq)]
enum Truth {
    NoData,
    NoSchema,
    Size,
    /// the expected diff is not judged here
    Schema,
    /// valid up to
    Utf8(usize),
    /// cannot be read, whatever the reason
    Unreadable,
}

/// All that is the matter, given what is stored.
fn truths(data: Option<&[u8]>, stored: Option<&[u8]>, schema: &str, min: usize) -> Vec<Truth> {
    let mut r = vec![];
    match data {
        None => r.push(Truth::NoData),
        Some(d) => {
            let n = d.len();
            let ok = n >= 16 && {
                let mut h = [0; 8];
                h.copy_from_slice(&d[..8]);
                u64::from_le_bytes(h) == (n - 16) as u64 && n - 16 >= min
            };
            if !ok {
                r.push(Truth::Size);
            }
        }
    }
    match stored {
        None => r.push(Truth::NoSchema),
        Some(s) => match std::str::from_utf8(s) {
            Err(e) => r.push(Truth::Utf8(e.valid_up_to())),
            Ok(s) if s != schema => r.push(Truth::Schema),
            _ => (),
        },
    }
    r
}

fn is_name(got: &str, name: &str, schema_too: bool) -> bool {
    got == name || schema_too && got.ends_with(".schema") && &got[..got.len() - 7] == name
}

fn says(e: &E, name: &str, t: &Truth) -> bool {
    match (e, t) {
        (E::Io(e, n), Truth::NoData) => e.kind() == io::ErrorKind::NotFound && n == name,
        (E::Io(e, n), Truth::NoSchema) => e.kind() == io::ErrorKind::NotFound && is_name(n, name, true),
        (E::MissingSchema(n), Truth::NoSchema) => is_name(n, name, true),
        (E::UnexpectedDataSize, Truth::Size) => true,
        (E::WrongSignature { resource_name, .. }, Truth::Schema) => resource_name == name,
        (E::Utf8Error(e), Truth::Utf8(k)) => e.valid_up_to() == *k,
        (E::Io(_, n), Truth::Unreadable) => n == name,
        _ => false,
    }
}

/// The texts of an error.
fn texts(e: &E, ctx: &dyn Fn() -> String) -> Result<(), String> {
    let (display, debug) = (e.to_string(), format!("{:?}", e));
    #[allow(deprecated)]
    let d = std::error::Error::description(e);
    let name = match e {
        E::Io(_, n) | E::MissingSchema(n) => n,
        E::WrongSignature { resource_name, .. } => resource_name,
        _ => "",
    };
    if !display.contains(name) || !debug.contains(name) || d.is_empty() || display.is_empty() {
        return Err(format!("{}: the texts of the error do not name {:?}: {:?}, {:?}, {:?}", ctx(), name, display, debug, d));
    }
    Ok(())
}

// ---- reading one resource ----

fn conditions(payload: &[u8]) -> Vec<(&'static str, Option<Vec<u8>>)> {
    let good = framed(payload);
    let n = payload.len() as u64;
    let header = |h: u64| {
        let mut b = good.clone();
        b[..8].copy_from_slice(&h.to_le_bytes());
        Some(b)
    };
    vec![
        ("intact", Some(good.clone())),
        ("missing", None),
        ("empty", Some(vec![])),
        ("one byte", Some(good[..1].to_vec())),
        ("15 bytes", Some(good[..15].to_vec())),
        ("cut", Some(good[..good.len() - 1].to_vec())),
        ("longer", Some([&good[..], &[0]].concat())),
        ("small size", header(n.wrapping_sub(1))),
        ("large size", header(n + 1)),
        ("unfinished", header(u64::max_value())),
    ]
}

fn schemas(schema: &str) -> Vec<(String, Option<Vec<u8>>)> {
    let mut r = vec![("intact".to_string(), Some(schema.as_bytes().to_vec())), ("missing".into(), None), ("empty".into(), Some(vec![]))];
    r.push(("longer".into(), Some(format!("{}\n", schema).into_bytes())));
    r.push(("different".into(), Some(b"archive Other {}\n x : y;".to_vec())));
    for k in 0..=schema.len() {
        let mut b = schema.as_bytes().to_vec();
        b.insert(k, 0x80 + (k as u8 & 0x7f));
        r.push((format!("not UTF-8 at {}", k), Some(b)));
    }
    let mut b = schema.as_bytes().to_vec();
    b.extend(b"\xe2\x82"); // a character that is cut
    r.push(("a cut character".into(), Some(b)));
    r
}

fn one_resource(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let (dir, name) = *ch.pick(&[("", "res"), ("", "a.b"), ("", "sub/res"), ("d", "res"), ("d/e", "f/res"), ("", "Top.archive"), ("", "res_index"), ("", "x.schema")]);
    let schema = "sch\nema";
    let tmp = ch.scratch.fresh();
    let root = storage(memory, &tmp.path);
    let s = if dir.is_empty() { root.clone() } else { root.subdir(dir) };
    let payload = if ch.flag() { &b"payload"[..] } else { &b""[..] };
    let cs = conditions(payload);
    let (cname, data) = ch.pick(&cs).clone();
    let ss = schemas(schema);
    let (sname, stored) = ch.pick(&ss).clone();
    if let Some(b) = &data {
        put(&s, name, b);
    }
    if let Some(b) = &stored {
        put(&s, &format!("{}.schema", name), b);
    }
    // another resource that is intact
    put(&s, "other", &framed(b"1"));
    put(&s, "other.schema", schema.as_bytes());
    let asked = s.clone();
    let want = truths(data.as_ref().map(|b| &b[..]), stored.as_ref().map(|b| &b[..]), schema, 0);
    let ctx = || format!("{}, {:?} in {:?}, data {}, schema {}", if memory { "memory" } else { "files" }, name, dir, cname, sname);
    ch.step(&ctx);
    ch.state(&(memory, dir, name, payload, cname, &sname));
    for again in 0..2 {
        let r = catch(|| asked.read(name, schema).map(|b| b.to_vec())).map_err(|p| format!("{}: panics: {}", ctx(), p))?;
        ch.evals(1);
        match r {
            Ok(b) => {
                if !want.is_empty() || b != payload {
                    return Err(format!("{}: reading succeeds and gives {:?}", ctx(), b));
                }
                ch.outcome(&0);
            }
            Err(e) => {
                if !want.iter().any(|t| says(&e, name, t)) {
                    return Err(format!("{}: the error is {:?}, but what is the matter with {:?} is {:?}{}", ctx(), e, name, want, if again == 1 { ", asked once more" } else { "" }));
                }
                texts(&e, &ctx)?;
                ch.outcome(&std::mem::discriminant(&e));
            }
        }
    }
    Ok(())
}

// ---- opening archives ----

type Opened = Result<(), E>;

fn open(root: usize, s: &Storage) -> Result<Opened, String> {
    catch(|| match ARCHIVES[root].1 {
        "Top" => Top::open(s.clone()).map(|_| ()),
        "Sub" => Sub::open(s.subdir(ARCHIVES[root].0)).map(|_| ()),
        _ => Leaf::open(s.subdir(ARCHIVES[root].0)).map(|_| ()),
    })
}

/// Paths of the resources without which an archive does not open.
fn mandatory(root: usize) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    let base = ARCHIVES[root].0;
    // archives that are part of it, and only through mandatory ones
    let mut dirs = vec![];
    for (d, n, _, opt) in ARCHIVES.iter() {
        let parent = match d.rfind('/') {
            Some(i) => &d[..i],
            None => "",
        };
        if *d == base || !d.is_empty() && !opt && dirs.contains(&parent) {
            dirs.push(d);
            r.insert(join(d, &format!("{}.archive", n)));
        }
    }
    for p in parts() {
        let d = ARCHIVES[Builders::archive_of(p.path)].0;
        if dirs.contains(&d) && !p.optional {
            r.extend(p.paths().into_iter().map(|x| x.0));
        }
    }
    r
}

fn local(path: &str) -> &str {
    path.rsplit('/').next().unwrap()
}

fn damaged(ch: &mut Ch, res: &[Resource], ps: &[Part], kinds: &[Status]) -> Result<(), String> {
    ch.evals(1);
    let memory = ch.flag();
    let root = ch.dev(5);
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let must = mandatory(root);
    let mut want: Vec<(String, Truth)> = vec![];
    let mut bad = vec![];
    let mut statuses = vec![];
    for r in res {
        let all: &[Status] = if !kinds.is_empty() {
            kinds
        } else if r.is_struct {
            &STRUCTS
        } else {
            &COMMON
        };
        let mut st = all[ch.dev(all.len())];
        if st == Directory && memory || st == EmptyStruct && !r.is_struct {
            st = Intact;
        }
        place(&tmp.path, &s, memory, r, st, true);
        if st != Intact {
            bad.push(format!("{} {:?}", r.path, st));
            statuses.push((r.path.clone(), st));
        }
        if must.contains(&r.path) {
            if st == Directory {
                want.push((local(&r.path).into(), Truth::Unreadable));
            } else {
                let (d, sch) = stored(r, st);
                let min = if r.is_struct { ps.iter().find(|p| p.path == r.path).unwrap().min_size } else { 0 };
                for t in truths(d.as_ref().map(|b| &b[..]), sch.as_ref().map(|b| &b[..]), &r.schema, min) {
                    want.push((local(&r.path).into(), t));
                }
            }
        }
    }
    let ctx = || format!("{}, {:?} with {:?}", if memory { "memory" } else { "files" }, ARCHIVES[root].0, bad);
    ch.step(|| format!("open: {}", ctx()));
    ch.state(&(memory, root, &statuses));
    match open(root, &s).map_err(|p| format!("{}: panics: {}", ctx(), p))? {
        Ok(()) => {
            if !want.is_empty() {
                return Err(format!("{}: opens", ctx()));
            }
            ch.outcome(&0);
        }
        Err(e) => {
            if !want.iter().any(|(n, t)| says(&e, n, t)) {
                return Err(format!("{}: the error is {:?}, but what is the matter is {:?}", ctx(), e, want));
            }
            texts(&e, &ctx)?;
            ch.outcome(&std::mem::discriminant(&e));
        }
    }
    Ok(())
}

// ---- failing calls ----

#[derive(Clone, Debug)]
struct Fault {
    kind: K,
    /// name of the file in its directory
    file: String,
    /// None: a write that writes nothing
    errno: Option<i32>,
}

fn errnos(k: K) -> &'static [i32] {
    match k {
        K::Open => &[EACCES, EIO, EMFILE, ENFILE, ENOSPC, EROFS, ELOOP, EPERM, EOVERFLOW],
        K::Write => &[EIO, ENOSPC, EDQUOT, EFBIG, EPERM],
        K::Mmap => &[ENOMEM, ENODEV, EACCES, EMFILE, EPERM],
        K::Mkdir | K::Unlink => &[EACCES, EIO, EROFS, ENOSPC, EPERM],
        K::Seek => &[EIO, EINVAL],
        // what can be the matter with something that is there
        K::Stat => &[EACCES, EIO, ELOOP],
        K::Munmap | K::Time => &[],
        _ => &[EIO],
    }
}

/// Runs f with failing calls (within the bound); which ones failed.
fn faulty<R>(ch: &mut Ch, f: impl FnOnce() -> R) -> (R, Vec<Fault>) {
    ch.evals(1);
    let mut faults = vec![];
    let r = with_plan(
        Box::new(|c: &Call| {
            let es = errnos(c.kind);
            let zero = c.kind == K::Write && c.len > 0;
            if es.is_empty() || far(c, 30) {
                return Action::Pass;
            }
            let k = ch.dev(1 + es.len() + zero as usize);
            if k == 0 {
                return Action::Pass;
            }
            let path = match c.path {
                Some(p) if !p.is_empty() => p.to_string(),
                _ => std::fs::read_link(format!("/proc/self/fd/{}", c.fd)).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default(),
            };
            let errno = es.get(k - 1).cloned();
            faults.push(Fault { kind: c.kind, file: local(&path).into(), errno });
            ch.step(|| format!("{:?}", faults.last().unwrap()));
            match errno {
                Some(e) => Action::Fail(e),
                None => Action::Short(0),
            }
        }),
        f,
    );
    (r, faults)
}

fn is_cause(e: &io::Error, f: &Fault) -> bool {
    match f.errno {
        None => e.kind() == io::ErrorKind::WriteZero,
        Some(n) => {
            let os = io::Error::from_raw_os_error(n);
            e.raw_os_error() == Some(n) || e.raw_os_error().is_none() && e.kind() == os.kind() && e.to_string().contains(&os.to_string())
        }
    }
}

/// Whether an error with a name is one of the faults.
fn is_named_cause(e: &E, faults: &[Fault]) -> bool {
    match e {
        // a directory is not part of a single resource
        E::Io(e, n) => faults.iter().any(|f| is_cause(e, f) && (f.kind == K::Mkdir || is_name(&f.file, n, true))),
        _ => false,
    }
}

fn judge_plain(e: &io::Error, faults: &[Fault], ctx: &dyn Fn() -> String) -> Result<(), String> {
    if !faults.is_empty() && !faults.iter().any(|f| is_cause(e, f)) {
        return Err(format!("{}: the error is {:?}, but what failed is {:?}", ctx(), e, faults));
    }
    Ok(())
}

fn judge_named(e: &E, faults: &[Fault], ctx: &dyn Fn() -> String) -> Result<(), String> {
    if !faults.is_empty() && !is_named_cause(e, faults) {
        return Err(format!("{}: the error is {:?}, but what failed is {:?}", ctx(), e, faults));
    }
    texts(e, ctx)
}

/// Any call fails while a part is written.
fn writing(ch: &mut Ch) -> Result<(), String> {
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let kinds = kinds_of(p.path);
    let c = match (p.kind, ch.flag()) {
        (Kind::Vector, false) => Content::Vector(vec![]),
        (Kind::Vector, true) => Content::Vector(vec![8, 9]),
        (Kind::Multi, false) => Content::Multi(vec![]),
        (Kind::Multi, true) => Content::Multi(vec![vec![(0, 8), (kinds - 1, 9)], vec![]]),
        (k, n) => sample(k, 9 + n as u64, kinds),
    };
    let incremental = p.kind == Kind::Multi || p.kind == Kind::Vector && ch.flag();
    let earlier = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let mut b = Builders::default();
    b.create(0, &s).map_err(|e| e.to_string())?;
    for a in archives_for(Builders::archive_of(p.path)) {
        if !b.exists(*a) {
            b.create(*a, &s).map_err(|e| e.to_string())?;
        }
    }
    if earlier {
        b.write(p.path, p.kind, &sample(p.kind, 6, kinds), 2)?;
        let _ = open_and_see(0, &s);
    }
    let mut log: Vec<String> = vec![format!("{} over an earlier one: {}", p.path, earlier)];
    let mut all = vec![];
    let outcome;
    if !incremental {
        let (r, f) = faulty(ch, || catch(|| b.set(p.path, &c, 0)));
        log.push(format!("set {:?}", f));
        let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
        outcome = (0, r.is_ok());
        if let Err(e) = r {
            judge_plain(&e, &f, &|| log.join("; "))?;
        }
        all.push(f);
    } else {
        let (r, f) = faulty(ch, || catch(|| b.start(p.path)));
        log.push(format!("start {:?}", f));
        match r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))? {
            Err(e) => {
                judge_plain(&e, &f, &|| log.join("; "))?;
                outcome = (1, false);
            }
            Ok(mut w) => {
                for k in 0..checks::arch::count(&c) {
                    let (r, f) = faulty(ch, || catch(|| w.push(&c, k)));
                    log.push(format!("grow {:?}", f));
                    match r {
                        Err(p) => {
                            let _ = catch(|| drop(w));
                            return Err(format!("{}: panics: {}", log.join("; "), p));
                        }
                        Ok(Err(e)) => judge_plain(&e, &f, &|| log.join("; "))?,
                        Ok(Ok(())) => (),
                    }
                    all.push(f);
                }
                let (r, f) = faulty(ch, || catch(|| w.close()));
                log.push(format!("close {:?}", f));
                let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
                outcome = (2, r.is_ok());
                if let Err(e) = r {
                    judge_named(&e, &f, &|| log.join("; "))?;
                }
                all.push(f);
            }
        }
    }
    ch.state(&(i, &c, incremental, earlier, &log));
    ch.outcome(&(i, incremental, outcome));
    Ok(())
}

/// Any call fails while a writer flushes in between.
fn flushing(ch: &mut Ch) -> Result<(), String> {
    let multi = ch.flag();
    let n = 1 + ch.choose(3);
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    enum W<'a> {
        V(flatdata::ExternalVector<'a, F16>),
        M(flatdata::MultiVector<'a, Idx40, VarF>),
    }
    let mut log = vec![format!("multi {}, {} elements", multi, n)];
    let mut w = if multi { W::M(create_multi_vector::<Idx40, VarF>(&*s, "x", "schema").map_err(|e| e.to_string())?) } else { W::V(create_external_vector::<F16>(&*s, "x", "schema").map_err(|e| e.to_string())?) };
    let mut failed = 0;
    for k in 0..n {
        let (r, f) = faulty(ch, || {
            catch(|| match &mut w {
                W::V(v) => v.grow().map(|_| ()),
                W::M(m) => m.grow().map(|mut x| VarF::add(&mut x, k % 2, 1)),
            })
        });
        log.push(format!("grow {:?}", f));
        match r {
            Err(p) => {
                let _ = catch(|| drop(w));
                return Err(format!("{}: panics: {}", log.join("; "), p));
            }
            Ok(Err(e)) => {
                failed += 1;
                if let Err(x) = judge_plain(&e, &f, &|| log.join("; ")) {
                    let _ = catch(|| drop(w));
                    return Err(x);
                }
            }
            Ok(Ok(())) => (),
        }
    }
    let (r, f) = faulty(ch, || {
        catch(|| match w {
            W::V(v) => v.close().map(|_| ()),
            W::M(m) => m.close().map(|_| ()),
        })
    });
    log.push(format!("close {:?}", f));
    let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
    ch.state(&(multi, n, &log));
    ch.outcome(&(multi, failed, r.is_ok()));
    if let Err(e) = r {
        judge_named(&e, &f, &|| log.join("; "))?;
    }
    Ok(())
}

/// Any call fails while archives are created.
fn creating(ch: &mut Ch) -> Result<(), String> {
    let tmp = ch.scratch.fresh();
    if ch.flag() {
        std::fs::create_dir_all(&tmp.path).map_err(|e| e.to_string())?;
    }
    let s = storage(false, &tmp.path);
    let mut b = Builders::default();
    let mut log = vec![];
    for n in 0..5usize {
        let parent = [true, b.exists(0), b.exists(1), b.exists(0), b.exists(3)][n];
        if !parent {
            continue;
        }
        let (r, f) = faulty(ch, || catch(|| b.create(n, &s)));
        log.push(format!("create {:?} {:?}", ARCHIVES[n].0, f));
        let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
        ch.state(&(n, &log));
        ch.outcome(&(n, r.is_ok(), f.is_empty()));
        if let Err(e) = r {
            let sig = format!("{}.archive", ARCHIVES[n].1);
            match &e {
                E::Io(_, name) if *name == sig => judge_named(&e, &f, &|| log.join("; "))?,
                _ => return Err(format!("{}: the error {:?} does not name {:?}", log.join("; "), e, sig)),
            }
            if f.is_empty() && b.exists(n) {
                return Err(format!("{}: {:?}, although nothing failed", log.join("; "), e));
            }
        }
    }
    Ok(())
}

/// Creating over something.
fn existing(ch: &mut Ch) -> Result<(), String> {
    ch.evals(1);
    let memory = ch.flag();
    let n = ch.choose(ARCHIVES.len());
    let (dir, name, schema, _) = ARCHIVES[n];
    let sig = join(dir, &format!("{}.archive", name));
    let cs = conditions(b"");
    let (cname, data) = ch.pick(&cs).clone();
    let ss = schemas(schema);
    let (sname, stored) = ch.pick(&ss[..6]).clone();
    let via_parent = n != 0 && ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut b = Builders::default();
    if via_parent {
        for a in 0..n {
            if a == 0 || dir.starts_with(&format!("{}/", ARCHIVES[a].0)) {
                b.create(a, &s).map_err(|e| e.to_string())?;
            }
        }
    }
    if let Some(x) = &data {
        put(&s, &sig, x);
    }
    if let Some(x) = &stored {
        put(&s, &format!("{}.schema", sig), x);
    }
    let r = catch(|| {
        use flatdata::ArchiveBuilder;
        if via_parent {
            return b.create(n, &s);
        }
        let s = if dir.is_empty() { s.clone() } else { s.subdir(dir) };
        match name {
            "Top" => TopBuilder::new(s).map(|_| ()),
            "Sub" => SubBuilder::new(s).map(|_| ()),
            _ => LeafBuilder::new(s).map(|_| ()),
        }
    });
    let ctx = || format!("{}, creating {:?} by its parent: {}, over a signature with data {}, schema {}", if memory { "memory" } else { "files" }, dir, via_parent, cname, sname);
    ch.step(&ctx);
    ch.state(&(memory, n, cname, &sname, via_parent));
    let r = r.map_err(|p| format!("{}: panics: {}", ctx(), p))?;
    ch.outcome(&r.is_ok());
    match (r, &data) {
        (Ok(()), None) => Ok(()),
        (Err(e), Some(_)) => match &e {
            E::Io(x, name) if x.kind() == io::ErrorKind::AlreadyExists && *name == local(&sig) => texts(&e, &ctx),
            _ => Err(format!("{}: the error is {:?}", ctx(), e)),
        },
        (r, _) => Err(format!("{}: {:?}", ctx(), r)),
    }
}

/// Any call fails while archives are opened or resources are read, for the first time or once more.
fn reading(ch: &mut Ch) -> Result<(), String> {
    let root = ch.choose(5);
    let direct = ch.flag();
    let tmp = ch.scratch.fresh();
    {
        let s = storage(false, &tmp.path);
        let mut b = Builders::default();
        for n in 0..5 {
            b.create(n, &s).map_err(|e| e.to_string())?;
        }
        for (i, p) in parts().iter().enumerate() {
            b.write(p.path, p.kind, &sample(p.kind, i as u64 + 3, kinds_of(p.path)), 0)?;
        }
    }
    let s = storage(false, &tmp.path);
    let mut log = vec![];
    let must: BTreeSet<String> = mandatory(root);
    let all: Vec<(String, String)> = parts().iter().flat_map(|p| p.paths()).collect();
    for attempt in 0..2 {
        if direct {
            for (path, schema) in &all {
                let dir = ARCHIVES[root].0;
                let rel = if dir.is_empty() { &path[..] } else if path.starts_with(&format!("{}/", dir)) { &path[dir.len() + 1..] } else { continue };
                let sub = s.subdir(dir);
                let (r, f) = faulty(ch, || with_stat(|| catch(|| sub.read(rel, schema).map(|_| ()))));
                log.push(format!("read {:?} in {:?} {:?}", rel, dir, f));
                let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
                ch.outcome(&(path, r.is_ok()));
                match r {
                    Ok(()) if f.is_empty() => (),
                    Ok(()) => return Err(format!("{}: succeeds", log.join("; "))),
                    Err(e) => {
                        let named = match &e {
                            E::Io(x, n) => is_name(n, rel, true) && f.iter().any(|f| is_cause(x, f)),
                            _ => false,
                        };
                        if !named {
                            return Err(format!("{}: the error is {:?}", log.join("; "), e));
                        }
                        texts(&e, &|| log.join("; "))?;
                    }
                }
            }
        } else {
            let (r, f) = faulty(ch, || with_stat(|| open(root, &s)));
            log.push(format!("open {:?} {:?}", ARCHIVES[root].0, f));
            let r = r.map_err(|p| format!("{}: panics: {}", log.join("; "), p))?;
            ch.outcome(&(attempt, r.is_ok()));
            match r {
                Ok(()) => {
                    // names are unique among the optional and among the mandatory resources
                    if f.iter().any(|f| must.iter().any(|m| is_name(&f.file, local(m), true)) && !all.iter().any(|a| !must.contains(&a.0) && is_name(&f.file, local(&a.0), true)) && !f.file.contains(".archive")) {
                        return Err(format!("{}: succeeds", log.join("; ")));
                    }
                }
                Err(e) => {
                    if !is_named_cause(&e, &f) || !f.iter().any(|f| must.iter().any(|m| is_name(&f.file, local(m), true))) {
                        return Err(format!("{}: the error is {:?}", log.join("; "), e));
                    }
                    texts(&e, &|| log.join("; "))?;
                }
            }
        }
        ch.state(&(root, direct, &log));
    }
    Ok(())
}

/// Directories whose name is no UTF-8, lead nowhere or cannot be entered.
fn places(ch: &mut Ch) -> Result<(), String> {
    ch.evals(1);
    use std::os::unix::ffi::OsStrExt;
    let tmp = ch.scratch.fresh();
    std::fs::create_dir_all(&tmp.path).map_err(|e| e.to_string())?;
    std::fs::write(tmp.path.join("file"), b"x").map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink("nowhere", tmp.path.join("dangling")).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink("loop", tmp.path.join("loop")).map_err(|e| e.to_string())?;
    let long = "n".repeat(300);
    let names: [&[u8]; 7] = [b"\xff\xfe", b"plain", b"file", b"dangling/x", b"loop", b"not/there", long.as_bytes()];
    let n = ch.choose(names.len());
    let dir = tmp.path.join(std::ffi::OsStr::from_bytes(names[n]));
    let s = storage(false, &dir);
    let sig = "Leaf.archive";
    let ctx = |what: &str| format!("directory {:?}: {}", String::from_utf8_lossy(names[n]), what);
    let mut seen = vec![];
    for _ in 0..1 + ch.choose(2) {
        use flatdata::ArchiveBuilder;
        let op = ch.choose(3);
        ch.step(|| ctx(["open", "create", "read"][op]));
        let r = match op {
            0 => catch(|| Leaf::open(s.clone()).map(|_| ())),
            1 => catch(|| LeafBuilder::new(s.clone()).map(|_| ())),
            _ => catch(|| s.read(sig, LEAF_SCHEMA).map(|_| ())),
        };
        let c = || ctx(["open", "create", "read"][op]);
        let r = r.map_err(|p| format!("{}: panics: {}", c(), p))?;
        seen.push((op, r.is_ok()));
        ch.state(&(n, &seen));
        if let Err(e) = r {
            match &e {
                E::Io(x, name) if name == sig || op == 0 && (name == "lraw") => {
                    let created = seen.contains(&(1, true));
                    if op == 1 && created && x.kind() != io::ErrorKind::AlreadyExists {
                        return Err(format!("{} once more: the error is {:?}", c(), e));
                    }
                    if op == 1 && !created && x.raw_os_error().is_none() {
                        return Err(format!("{}: the error does not tell why: {:?}", c(), e));
                    }
                    texts(&e, &c)?;
                }
                _ => return Err(format!("{}: the error is {:?}", c(), e)),
            }
        }
    }
    ch.outcome(&(n, seen));
    Ok(())
}

fn main() {
    mccore::main("C22", Level::FaultEnumeration, "every execution damages resources or lets calls fail and judges every error that is returned; states are (what is stored, what failed so far)", |run| {
        if let Err(e) = mccore::interpose::self_test() {
            run.violation("self test", &e);
            return;
        }
        let (res, _): (Vec<Resource>, BTreeMap<_, _>) = resources();
        let ps = parts();
        let t = run.thorough;
        run.explore("read", "one resource under 8 names, 10 conditions of its data, 14 of its schema (not UTF-8 at every position), both storages", 0, one_resource);
        run.explore("open", "any <=2 of the 27 resources of five nested archives (or the archive that is opened) in any of 14 or 17 conditions", 2, |ch| damaged(ch, &res, &ps, &[]));
        run.explore("existing", "creating each archive, directly or by its parent, over a signature in 10 conditions with a schema in 6", 0, existing);
        run.explore("create-fault", "creating all archives, every call fails with every error of its kind, up to 2 of them", 2, creating);
        run.explore("write-fault", "any part, over an earlier version or not, every call fails with every error of its kind", if t { 2 } else { 1 }, writing);
        run.explore_with("flush-fault", "1..=3 elements of 16 MiB in writers, every call fails with every error of its kind", if t { 2 } else { 1 }, 6, &|ch: &mut Ch| flushing(ch));
        run.explore("read-fault", "opening any archive and reading every resource, twice, every call fails with every error of its kind", if t { 2 } else { 1 }, reading);
        run.explore("places", "directories that are no UTF-8, files, dangling or circular links, not there, too long; up to 2 operations", 0, places);
        if t {
            let some = [Intact, Missing, NoSchema, WrongSchema, NotUtf8, HeaderHigh, EmptyStruct];
            run.explore("open-3", "any <=3 of them in any of 6 conditions", 3, |ch| damaged(ch, &res, &ps, &some));
        }
        run.assume("failures of stat calls are enumerated for reading only");
    })
}
