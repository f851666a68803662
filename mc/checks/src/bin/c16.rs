//! C16: creating archives over every state of a storage.
use checks::drive::*;
use checks::*;
use flatdata::{ArchiveBuilder, ResourceStorageError};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type Files = BTreeMap<String, Vec<u8>>;

/// Everything the storage holds; directories are left out.
fn contents_of(memory: bool, root: &Storage, dir: &Path, also: &Files) -> Files {
    if !memory {
        return mccore::scratch::snapshot(dir).into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect();
    }
    let mut names: BTreeSet<String> = also.keys().cloned().collect();
    for (d, n, _, _) in ARCHIVES.iter() {
        names.insert(join(d, &format!("{}.archive", n)));
    }
    for n in &["Sub.archive", "Leaf.archive", "sub/Leaf.archive", "sub/Top.archive", "Top", "Top.archive2", "other"] {
        names.insert(n.to_string());
    }
    for p in parts() {
        for (n, _) in p.paths() {
            names.insert(n);
        }
    }
    let mut r = Files::new();
    for n in names {
        for n in &[format!("{}.schema", n), n] {
            if root.exists(n) {
                r.insert(n.clone(), root.read_resource(n).expect("exists, but cannot be read").to_vec());
            }
        }
    }
    r
}

/// Creates archives of the type with this number in ARCHIVES in any directory.
fn create(kind: usize, dir: &str, root: &Storage) -> Result<Result<(), ResourceStorageError>, String> {
    let s = if dir.is_empty() { root.clone() } else { root.subdir(dir) };
    catch(|| match kind {
        0 => TopBuilder::new(s).map(|_| ()),
        1 | 3 => SubBuilder::new(s).map(|_| ()),
        _ => LeafBuilder::new(s).map(|_| ()),
    })
}

fn differences(a: &Files, b: &Files) -> String {
    let mut r = vec![];
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        if a.get(k) != b.get(k) {
            r.push(format!("{}: {:?} instead of {:?}", k, b.get(k).map(|x| String::from_utf8_lossy(x).into_owned()), a.get(k).map(|x| String::from_utf8_lossy(x).into_owned())));
        }
    }
    r.join(", ")
}

fn judge(r: Result<Result<(), ResourceStorageError>, String>, existed: bool, sig: &str, schema: &str, before: &Files, after: &Files, ctx: &str) -> Result<(), String> {
    let r = r.map_err(|p| format!("{}: panics: {}", ctx, p))?;
    let mut want = before.clone();
    match (&r, existed) {
        (Ok(()), true) => return Err(format!("{}: succeeds, although there is an archive", ctx)),
        (Err(e), false) => return Err(format!("{}: fails: {}", ctx, e)),
        (Err(ResourceStorageError::Io(e, _)), true) if e.kind() == std::io::ErrorKind::AlreadyExists => (),
        (Err(e), true) => return Err(format!("{}: fails with another error: {}", ctx, e)),
        (Ok(()), false) => {
            want.insert(sig.into(), framed(&[]));
            want.insert(format!("{}.schema", sig), schema.as_bytes().to_vec());
        }
    }
    if want != *after {
        return Err(format!("{}: changes what is stored: {}", ctx, differences(&want, after)));
    }
    Ok(())
}

/// What may be where the signature is. None: not there.
fn states(schema: &str) -> Vec<(&'static str, Option<Vec<u8>>, Option<Vec<u8>>)> {
    let s = |x: &str| Some(x.as_bytes().to_vec());
    let mut long = framed(&[]);
    long.push(0);
    let mut huge = vec![255u8; 8];
    huge.extend([0; 8].iter());
    vec![
        ("absent", None, None),
        ("intact", Some(framed(&[])), s(schema)),
        ("other schema", Some(framed(&[])), s("archive Other { }")),
        ("schema of other length", Some(framed(&[])), s(&schema[..schema.len() - 1])),
        ("empty schema", Some(framed(&[])), s("")),
        ("schema is not UTF-8", Some(framed(&[])), Some(vec![0xff, 0xfe])),
        ("no schema", Some(framed(&[])), None),
        ("empty", Some(vec![]), s(schema)),
        ("empty, no schema", Some(vec![]), None),
        ("one byte", Some(vec![0]), s(schema)),
        ("cut", Some(framed(&[])[..12].to_vec()), s(schema)),
        ("longer", Some(long), s(schema)),
        ("with a payload", Some(framed(b"payload")), s(schema)),
        ("unfinished", Some(huge), s(schema)),
        ("only a schema", None, s(schema)),
        ("only another schema", None, s("other")),
    ]
}

fn existing(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let n = ch.choose(ARCHIVES.len());
    let (adir, name, schema, _) = ARCHIVES[n];
    let st = states(schema);
    let (what, sig_bytes, schema_bytes) = ch.pick(&st).clone();
    let sig = join(adir, &format!("{}.archive", name));
    // 0: nothing else, 1: parents, 2: a complete archive, 3: things with similar names
    let around = ch.choose(4);
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.clone();
    let mut d = Drive::new(memory, tmp)?;
    let root = d.root.clone();
    let mut via_parent = false;
    match around {
        0 if n != 0 => via_parent = false,
        1 | 2 if n != 0 => {
            if n == 2 {
                d.threads.push(Thread::create(1));
            }
            if n == 4 {
                d.threads.push(Thread::create(3));
            }
            d.finish()?;
            via_parent = ch.flag();
        }
        _ => (),
    }
    if around == 2 {
        // everything but the archive itself
        for (i, p) in parts().iter().enumerate() {
            let ready = d.created.contains(&Builders::archive_of(p.path));
            if ready {
                d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, kinds_of(p.path)), i % 3));
            }
        }
        d.finish()?;
        for p in parts() {
            if p.path.starts_with(&join(adir, "")) && !d.created.contains(&Builders::archive_of(p.path)) {
                for r in p.resources(&sample(p.kind, 5, kinds_of(p.path))) {
                    put(&root, &r.path, &framed(&r.payload));
                    put(&root, &format!("{}.schema", r.path), r.schema.as_bytes());
                }
            }
        }
    }
    if around == 3 {
        for x in &["Top", "Top.archive2", "other"] {
            put(&root, x, b"x");
        }
        if n != 2 {
            put(&root, "Leaf.archive", &framed(&[]));
        }
    }
    if n == 0 {
        // there is one already: take it over
        if let Some(b) = &sig_bytes {
            put(&root, &sig, b);
        }
        if let Some(b) = &schema_bytes {
            put(&root, &format!("{}.schema", sig), b);
        }
        if sig_bytes.is_none() || schema_bytes.is_none() {
            if memory {
                return Ok(());
            }
            for (gone, f) in &[(sig_bytes.is_none(), sig.clone()), (schema_bytes.is_none(), format!("{}.schema", sig))] {
                if *gone {
                    std::fs::remove_file(dir.join(f)).map_err(|e| e.to_string())?;
                }
            }
        }
    } else {
        if let Some(b) = &sig_bytes {
            put(&root, &sig, b);
        }
        if let Some(b) = &schema_bytes {
            put(&root, &format!("{}.schema", sig), b);
        }
    }
    // how the storage was used
    let before_use = ch.choose(if memory { 2 } else { 3 });
    let root = match before_use {
        0 => root,
        1 => {
            let _ = open_and_see(0, &root);
            let _ = open_and_see(n, &root);
            root
        }
        _ => storage(false, &dir),
    };
    let before = contents_of(memory, &root, &dir, &Files::new());
    let ctx = format!("creating {:?} where the signature is {} (memory {}, around {}, storage {}, by its parent's builder {})", ARCHIVES[n].0, what, memory, around, before_use, via_parent);
    ch.step(|| ctx.clone());
    ch.state(&(memory, n, what, around, before_use, via_parent));
    ch.outcome(&(n, what, sig_bytes.is_some()));
    for round in 0..3 {
        let before = contents_of(memory, &root, &dir, &before);
        let r = if via_parent { catch(|| d.create_again(n)) } else { create(n, adir, &root) };
        let after = contents_of(memory, &root, &dir, &before);
        judge(r, sig_bytes.is_some() || round > 0, &sig, schema, &before, &after, &format!("{}, time {}", ctx, round + 1))?;
    }
    Ok(())
}

/// Writers and readers of an archive are not disturbed.
fn in_use(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let mine = Builders::archive_of(p.path);
    for a in archives_for(mine) {
        d.threads.push(Thread::create(*a));
    }
    d.finish()?;
    let c = match p.kind {
        Kind::Vector => Content::Vector(vec![3, 4]),
        Kind::Multi => Content::Multi(vec![vec![(0, 4)], vec![]]),
        k => sample(k, 4, 1),
    };
    d.threads.push(Thread::write(i, c, 2));
    let t = d.threads.len() - 1;
    let steps = ch.choose(6);
    for _ in 0..steps {
        if d.enabled().contains(&t) {
            d.step(t)?;
        }
    }
    let ctx = format!("creating archives again while {} is being written ({} steps), memory {}", p.path, steps, memory);
    ch.step(|| ctx.clone());
    ch.state(&(memory, i, steps));
    let root = if !memory && ch.flag() { storage(false, &d.dir) } else { d.root.clone() };
    for n in d.created.clone() {
        let (adir, name, schema, _) = ARCHIVES[n];
        let before = contents_of(memory, &root, &d.dir, &Files::new());
        let r = create(n, adir, &root);
        let after = contents_of(memory, &root, &d.dir, &before);
        judge(r, true, &join(adir, &format!("{}.archive", name)), schema, &before, &after, &ctx)?;
    }
    complete(&mut d)?;
    ch.outcome(&mine);
    for n in d.created.clone() {
        compare(open_and_see(n, &d.root), d.expected(n), &format!("{}: opening {:?} afterwards", ctx, ARCHIVES[n].0))?;
    }
    Ok(())
}

/// All sequences of operations.
fn sequences(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let memory = ch.flag();
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.clone();
    let root = storage(memory, &dir);
    let mut model = Files::new();
    let mut log: Vec<String> = vec![];
    // (type, directory)
    let places: [(usize, &str); 6] = [(0, ""), (2, ""), (1, "sub"), (2, "sub"), (2, "sub/leaf"), (0, "sub")];
    for _ in 0..depth {
        let k = ch.choose(1 + places.len() + 3 + 2);
        if k == 0 {
            break;
        }
        if k <= places.len() {
            let (kind, d) = places[k - 1];
            let sig = join(d, &format!("{}.archive", ARCHIVES[kind].1));
            log.push(format!("create {}", sig));
            let r = create(kind, d, &root);
            let after = contents_of(memory, &root, &dir, &model);
            judge(r, model.contains_key(&sig), &sig, ARCHIVES[kind].2, &model, &after, &format!("memory {}: {}", memory, log.join(", ")))?;
            model = after;
        } else if k <= places.len() + 3 {
            // something by the name of a signature
            let sig = ["Top.archive", "sub/Sub.archive", "sub/leaf/Leaf.archive"][k - places.len() - 1];
            log.push(format!("put {}", sig));
            put(&root, sig, b"junk");
            model.insert(sig.into(), b"junk".to_vec());
        } else if k == places.len() + 4 {
            log.push("put sub/Leaf.archive.schema".into());
            put(&root, "sub/Leaf.archive.schema", b"old");
            model.insert("sub/Leaf.archive.schema".into(), b"old".to_vec());
        } else {
            log.push("open".into());
            for n in 0..3 {
                let _ = open_and_see(n, &root);
            }
        }
        ch.step(|| log.last().unwrap().clone());
        ch.state(&(memory, &model));
    }
    ch.outcome(&model.keys().collect::<Vec<_>>());
    Ok(())
}

/// Creating where there is an archive, while calls fail: whatever cannot be found out, nothing is replaced.
fn failing(ch: &mut Ch) -> Result<(), String> {
    use mccore::interpose::{with_plan, with_stat, Action, Call, Kind as K};
    let n = ch.choose(ARCHIVES.len());
    let (adir, name, schema, _) = ARCHIVES[n];
    let st: Vec<_> = states(schema).into_iter().filter(|s| s.1.is_some()).collect();
    let (what, sig_bytes, schema_bytes) = ch.pick(&st).clone();
    let sig = join(adir, &format!("{}.archive", name));
    let used = ch.flag();
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.clone();
    let root = storage(false, &dir);
    let mut b = Builders::default();
    for k in 0..5 {
        b.create(k, &root).map_err(|e| e.to_string())?;
    }
    for (i, p) in parts().iter().enumerate() {
        b.write(p.path, p.kind, &sample(p.kind, i as u64 + 3, kinds_of(p.path)), 0)?;
    }
    let root = storage(false, &dir);
    if used {
        let _ = open_and_see(n, &root);
    }
    for (name, bytes) in &[(sig.clone(), sig_bytes), (format!("{}.schema", sig), schema_bytes)] {
        std::fs::remove_file(dir.join(name)).map_err(|e| e.to_string())?;
        if let Some(b) = bytes {
            std::fs::write(dir.join(name), b).map_err(|e| e.to_string())?;
        }
    }
    let before = contents_of(false, &root, &dir, &Files::new());
    let mut faults: Vec<String> = vec![];
    let mut errnos: Vec<i32> = vec![];
    let r = with_plan(
        Box::new(|c: &Call| {
            if c.kind == K::Munmap {
                return Action::Pass;
            }
            let e = [libc::EIO, libc::EACCES];
            let k = ch.dev(3);
            if k == 0 {
                return Action::Pass;
            }
            faults.push(format!("{:?} {} fails with {}", c.kind, c.path.map_or("", |p| p.rsplit('/').next().unwrap_or(p)), std::io::Error::from_raw_os_error(e[k - 1])));
            errnos.push(e[k - 1]);
            Action::Fail(e[k - 1])
        }),
        || with_stat(|| create(n, adir, &root)),
    );
    let ctx = format!("creating {:?} over one whose signature is {:?}, storage {}, {}", sig, what, if used { "used" } else { "new" }, faults.join(", "));
    ch.step(|| ctx.clone());
    let after = contents_of(false, &root, &dir, &before);
    match &r {
        Ok(Err(ResourceStorageError::Io(e, _))) if e.raw_os_error().map_or(false, |e| errnos.contains(&e)) => {
            if after != before {
                return Err(format!("{}: changes what is stored: {}", ctx, differences(&before, &after)));
            }
        }
        _ => judge(r, true, &sig, schema, &before, &after, &ctx)?,
    }
    let again = create(n, adir, &root);
    judge(again, true, &sig, schema, &before, &contents_of(false, &root, &dir, &before), &format!("{}; then again", ctx))?;
    ch.state(&(n, what, used, &faults));
    ch.outcome(&(n, what, faults.len()));
    Ok(())
}

fn main() {
    mccore::main("C16", Level::ModelChecking, "states are (storage, what is stored, how it was used); every creation is compared with what was stored before, byte by byte", |run| {
        let t = run.thorough;
        run.explore("existing", "all five archives over 16 states of the signature, four surroundings, storage used before or not, created directly or by the parent's builder, three times", 0, existing);
        run.explore("in-use", "all archives created again after every step of writing any part", 0, in_use);
        let f = if t { 3 } else { 2 };
        run.explore("failing", &format!("all archives created over one with any signature while up to {} of all calls (asking for files included) fail", f), f, failing);
        let n = if t { 6 } else { 5 };
        run.explore("sequences", &format!("all sequences of up to {} creations, damages and reads in three directories", n), 0, move |ch| sequences(ch, n));
        run.assume("creations in one storage by several processes at the same time are not considered");
    })
}
