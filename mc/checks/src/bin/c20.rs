//! C20: opening and reading leaves everything as it is.
use checks::*;
use flatdata::{Archive, FileResourceStorage};
use libc::{EACCES, EIO, ENOMEM};
use mccore::interpose::{suspended, with_plan, with_stat, Action, Call, Kind as K};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

/// An archive of the same name and another schema, and one that is not there.
mod other {
    use checks::*;
    pub mod renamed {
        use super::*;
        define_archive!(Sub, SubBuilder, "another schema";
            ;
            (svec, set_svec, start_svec, E7, "svec schema", true);
            ;
            ;
        );
    }
    define_archive!(Absent, AbsentBuilder, "absent schema";
        ;
        (svec, set_svec, start_svec, E7, "svec schema", true);
        ;
        ;
    );
    // requires what is not there
    define_archive!(Leaf, LeafBuilder, checks::arch::LEAF_SCHEMA;
        ;
        ;
        ;
        (lraw, set_lraw, "lraw schema", false),
        (another, set_another, "schema", false);
        (deeper, Absent, AbsentBuilder, "schema", false)
    );
}

type Files = BTreeMap<String, Vec<u8>>;

/// The files of an archive with everything there is.
fn intact() -> Files {
    let mut r = Files::new();
    for (dir, name, schema, _) in ARCHIVES.iter() {
        let path = join(dir, &format!("{}.archive", name));
        r.insert(format!("{}.schema", path), schema.as_bytes().to_vec());
        r.insert(path, framed(&[]));
    }
    for (i, p) in parts().iter().enumerate() {
        for x in p.resources(&sample(p.kind, i as u64 + 3, kinds_of(p.path))) {
            r.insert(format!("{}.schema", x.path), x.schema.into_bytes());
            r.insert(x.path, framed(&x.payload));
        }
    }
    r
}

/// Contents and what the file system says about them, apart from times of access.
type Look = BTreeMap<String, (Option<Vec<u8>>, [u64; 8])>;
fn look(dir: &Path) -> Look {
    fn rec(base: &Path, p: &Path, out: &mut Look) {
        if let Ok(m) = std::fs::symlink_metadata(p) {
            let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let meta = [m.ino(), u64::from(m.mode()), m.nlink(), m.size(), m.mtime() as u64, m.mtime_nsec() as u64, m.ctime() as u64, m.ctime_nsec() as u64];
            if m.is_dir() {
                out.insert(name, (None, meta));
                for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                    rec(base, &e.path(), out);
                }
            } else {
                out.insert(name, (Some(std::fs::read(p).unwrap_or_default()), meta));
            }
        }
    }
    let mut out = Look::new();
    suspended(|| rec(dir.parent().unwrap(), dir, &mut out));
    out
}
fn difference(a: &Look, b: &Look) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        match (a.get(k), b.get(k)) {
            (Some(_), None) => return Some(format!("{:?} is gone", k)),
            (None, Some(_)) => return Some(format!("{:?} is new", k)),
            (Some(x), Some(y)) if x.0 != y.0 => return Some(format!("{:?} has changed", k)),
            (Some(x), Some(y)) if x.1 != y.1 => return Some(format!("{:?} was written to or replaced: {:?}, {:?}", k, x.1, y.1)),
            _ => (),
        }
    }
    None
}

const DAMAGES: [&str; 6] = ["removed", "empty", "cut by one byte", "longer by one byte", "garbled", "a directory"];
fn damage(files: &mut Files, dirs: &mut Vec<String>, name: &str, how: usize) {
    match how {
        0 => {
            files.remove(name);
        }
        1 => files.get_mut(name).unwrap().clear(),
        2 => {
            files.get_mut(name).unwrap().pop();
        }
        3 => files.get_mut(name).unwrap().push(0),
        4 => {
            for b in files.get_mut(name).unwrap().iter_mut() {
                *b ^= 0xff;
            }
        }
        _ => {
            files.remove(name);
            dirs.push(name.into());
        }
    }
}

/// Open archives of one kind.
#[derive(Default)]
struct Held {
    tops: Vec<Top>,
    subs: Vec<Sub>,
    leaves: Vec<Leaf>,
}

const OPS: usize = 12;
fn op_name(op: usize) -> &'static str {
    ["open Top", "open Sub in sub", "open Sub in osub", "open Leaf in osub/leaf", "open archives that are not there", "exists", "read", "read_resource", "sub-directories", "print", "a new storage", "drop the archives"][op]
}

/// Does it and says what it saw.
fn operate(op: usize, s: &mut Storage, names: &[(String, String)], held: &mut Held, again: &dyn Fn() -> Storage) -> String {
    let r = catch(|| match op {
        0 => match Top::open(s.clone()) {
            Ok(a) => {
                held.tops.push(a);
                format!("{:?}", see(&held.tops[held.tops.len() - 1]))
            }
            Err(e) => e.to_string(),
        },
        1 | 2 => match Sub::open(s.subdir(if op == 1 { "sub" } else { "osub" })) {
            Ok(a) => {
                held.subs.push(a);
                format!("{:?}", see_a_sub(&held.subs[held.subs.len() - 1]))
            }
            Err(e) => e.to_string(),
        },
        3 => match Leaf::open(s.subdir("osub").subdir("leaf")) {
            Ok(a) => {
                held.leaves.push(a);
                format!("{:?}", see_a_leaf(&held.leaves[held.leaves.len() - 1]))
            }
            Err(e) => e.to_string(),
        },
        4 => {
            let mut r = Vec::new();
            for dir in &["sub", "osub", "nowhere", "nowhere/deeper", "osub/leaf", "sub/nowhere", "head", ".."] {
                let d = s.subdir(dir);
                r.push(other::renamed::Sub::open(d.clone()).map(|_| ()).map_err(|e| e.to_string()));
                r.push(other::Absent::open(d.clone()).map(|_| ()).map_err(|e| e.to_string()));
                r.push(other::Leaf::open(d.clone()).map(|_| ()).map_err(|e| e.to_string()));
                r.push(Top::open(d).map(|_| ()).map_err(|e| e.to_string()));
            }
            format!("{:?}", r)
        }
        5 => {
            let more = ["", "x", "x/y", "sub/x", "osub/leaf/x", "sub/leaf/x/y/z"];
            let all = names.iter().map(|n| &n.0[..]).chain(more.iter().cloned());
            format!("{:?}", all.map(|n| s.exists(n)).collect::<Vec<_>>())
        }
        6 => {
            let more = [("x".to_string(), "schema".to_string()), ("x/y".to_string(), "".to_string())];
            let r: Vec<_> = names
                .iter()
                .chain(more.iter())
                .map(|(n, schema)| {
                    let a = s.read(n, schema).map(|x| x.to_vec()).map_err(|e| e.to_string());
                    let b = s.read(n, "no such schema").map(|x| x.to_vec()).map_err(|e| e.to_string());
                    (a, b)
                })
                .collect();
            format!("{:?}", r)
        }
        7 => {
            let r: Vec<_> = names
                .iter()
                .map(|(n, _)| match n.rfind('/') {
                    Some(i) => s.subdir(&n[..i]).read_resource(&n[i + 1..]).map(|x| x.to_vec()).map_err(|e| e.to_string()),
                    None => s.read_resource(n).map(|x| x.to_vec()).map_err(|e| e.to_string()),
                })
                .collect();
            format!("{:?}", r)
        }
        8 => {
            let r: Vec<_> = ["sub", "sub/leaf", "x", "x/y", "head", "osub/leaf/x", "."].iter().map(|d| {
                let d = s.subdir(d);
                (d.exists("leaf"), d.exists("x"), d.subdir("y").exists("z"), d.read("x", "").is_ok())
            }).collect();
            format!("{:?}", r)
        }
        9 => {
            let a: Vec<String> = held.tops.iter().map(|a| format!("{:?}", a)).collect();
            let b: Vec<String> = held.subs.iter().map(|a| format!("{:?}", a)).collect();
            // addresses may differ
            drop((a, b));
            let c: Vec<_> = held.tops.iter().map(|a| format!("{:?} {:?} {:?} {:?}", a.head(), a.vec(), a.mv(), see(a))).collect();
            drop(c);
            String::new()
        }
        10 => {
            *s = again();
            String::new()
        }
        _ => {
            *held = Held::default();
            String::new()
        }
    });
    match r {
        Ok(x) => x,
        Err(_) => "a panic".into(),
    }
}

fn names() -> Vec<(String, String)> {
    let mut r = Vec::new();
    for (dir, name, schema, _) in ARCHIVES.iter() {
        r.push((join(dir, &format!("{}.archive", name)), schema.to_string()));
    }
    for p in parts() {
        r.extend(p.paths());
    }
    let schemas: Vec<_> = r.iter().map(|x: &(String, String)| (format!("{}.schema", x.0), String::new())).collect();
    r.extend(schemas);
    r
}

#[derive(Clone, Copy, PartialEq)]
enum Faults {
    None,
    Any,
}

/// Sequences of reading operations on an archive in a state that is chosen.
fn sequence(ch: &mut Ch, memory: bool, damages: usize, depth: usize, faults: Faults) -> Result<(), String> {
    let mut files = intact();
    let mut dirs: Vec<String> = Vec::new();
    let mut what = vec![format!("memory {}", memory)];
    // 0: damaged files; then: the whole archive, a directory gone or in the way
    let whole = ch.choose(8);
    let all: Vec<String> = files.keys().cloned().collect();
    match whole {
        0 => {
            let mut from = 0;
            for _ in 0..damages {
                let k = ch.choose(all.len() + 1 - from);
                if k == 0 {
                    break;
                }
                let name = &all[from + k - 1];
                from += k;
                let how = ch.choose(if memory { 5 } else { 6 });
                damage(&mut files, &mut dirs, name, how);
                what.push(format!("{} {}", name, DAMAGES[how]));
            }
        }
        1 | 2 | 3 | 4 => {
            let dir = ["sub", "sub/leaf", "osub", "osub/leaf"][whole - 1];
            files.retain(|n, _| !n.starts_with(&format!("{}/", dir)));
            what.push(format!("{} removed", dir));
            if !memory {
                match ch.choose(3) {
                    0 => (),
                    1 => {
                        what.push("and empty".into());
                        dirs.push(dir.into())
                    }
                    _ => {
                        what.push("and a file".into());
                        files.insert(dir.into(), vec![1, 2, 3]);
                    }
                }
            }
        }
        5 => {
            files.clear();
            what.push("nothing there".into());
        }
        6 => {
            files.clear();
            what.push("an empty directory".into());
            dirs.push("".into());
        }
        _ => {
            files.retain(|n, _| n.starts_with("Top.archive"));
            what.push("only the signature".into());
        }
    }
    ch.note(|| what.join(", "));
    let tmp = ch.scratch.fresh();
    // the storage may be in a directory that does not exist, below one that does not exist
    let dir = tmp.path.join("storage");
    if !memory {
        std::fs::create_dir(&tmp.path).map_err(|e| e.to_string())?;
        for d in &dirs {
            std::fs::create_dir_all(dir.join(d)).map_err(|e| e.to_string())?;
        }
        for (n, b) in &files {
            let p = dir.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
            std::fs::write(&p, b).map_err(|e| e.to_string())?;
        }
    }
    let names = names();
    let the_memory = storage(true, &dir);
    if memory {
        for (n, b) in &files {
            put(&the_memory, n, b);
        }
    }
    let fresh = || -> Storage {
        if memory {
            the_memory.clone()
        } else {
            FileResourceStorage::new(dir.clone())
        }
    };
    let before = look(&tmp.path);
    let mut s = fresh();
    let mut held = Held::default();
    let mut saw: BTreeMap<usize, String> = BTreeMap::new();
    let mut hist = what;
    for _ in 0..depth {
        let k = ch.choose(OPS + 1);
        if k == 0 {
            break;
        }
        let op = k - 1;
        hist.push(op_name(op).into());
        ch.step(|| op_name(op).into());
        let mutated = RefCell::new(None);
        let failed = RefCell::new(None);
        let text = {
            let mut pieces = false;
            let (mutated, failed, ch) = (&mutated, &failed, RefCell::new(&mut *ch));
            with_plan(
                Box::new(move |c: &Call| {
                    if c.mutating && mutated.borrow().is_none() {
                        *mutated.borrow_mut() = Some(format!("{:?} {:?} {:?} flags {:#o}", c.kind, c.path, c.path2, c.flags));
                    }
                    if faults == Faults::Any {
                        // a file that cannot be mapped is read in pieces
                        if c.kind == K::Read && pieces {
                            return Action::Short(c.len.min(c.len / 2 + 1));
                        }
                        let (n, e) = match c.kind {
                            K::Open => (2, [EACCES, EIO]),
                            K::Mmap => (1, [ENOMEM, 0]),
                            K::Read | K::Seek | K::Stat => (1, [EIO, 0]),
                            _ => (0, [0, 0]),
                        };
                        if n > 0 {
                            let k = ch.borrow_mut().dev(n + 1);
                            if k > 0 {
                                pieces |= c.kind == K::Mmap;
                                *failed.borrow_mut() = Some(format!("{:?} fails with {}", c.kind, std::io::Error::from_raw_os_error(e[k - 1])));
                                return Action::Fail(e[k - 1]);
                            }
                        }
                    }
                    Action::Pass
                }),
                || with_stat(|| operate(op, &mut s, &names, &mut held, &fresh)),
            )
        };
        if let Some(f) = failed.borrow().as_ref() {
            hist.push(f.clone());
            ch.step(|| f.clone());
        }
        if let Some(m) = mutated.borrow().as_ref() {
            return Err(format!("{}: calls {}", hist.join(", "), m));
        }
        if let Some(d) = difference(&before, &look(&tmp.path)) {
            return Err(format!("{}: {}", hist.join(", "), d));
        }
        if memory {
            for (n, _) in &names {
                let want = files.get(n);
                let got = the_memory.read_resource(n).ok();
                if got != want.map(|x| &x[..]) || the_memory.exists(n) != want.is_some() {
                    return Err(format!("{}: {} is {:02x?} instead of {:02x?}", hist.join(", "), n, got, want));
                }
            }
            for n in &["", "x", "x/y", "sub", "nowhere/x", "sub/x", "schema"] {
                if the_memory.exists(n) {
                    return Err(format!("{}: {:?} exists", hist.join(", "), n));
                }
            }
        }
        if failed.borrow().is_none() {
            if let Some(earlier) = saw.get(&op) {
                if earlier != &text {
                    return Err(format!("{}: shows {:.400}, earlier {:.400}", hist.join(", "), text, earlier));
                }
            }
            ch.outcome(&(op, text.len()));
            saw.insert(op, text);
        }
        ch.state(&(memory, &hist[1..hist.len() - 1], saw.keys().collect::<Vec<_>>(), held.tops.len(), held.subs.len()));
    }
    // what is still open shows what it showed
    for t in &held.tops {
        let text = catch(|| format!("{:?}", see(t))).unwrap_or_else(|_| "a panic".into());
        if saw.get(&0).map_or(false, |e| *e != text) {
            return Err(format!("{}: at the end shows {:.400}, earlier {:.400}", hist.join(", "), text, saw[&0]));
        }
    }
    drop(held);
    drop(s);
    if let Some(d) = difference(&before, &look(&tmp.path)) {
        return Err(format!("{}, dropped: {}", hist.join(", "), d));
    }
    Ok(())
}

fn main() {
    mccore::main("C20", Level::ModelChecking, "every execution reads an archive in some state with the file system calls watched; states are (archive, what was done)", |run| {
        let t = run.thorough;
        let d = if t { 3 } else { 2 };
        run.explore("file", &format!("archive with all parts, any one of its 46 files removed, empty, cut, longer, garbled or a directory, directories missing; {} operations of 12", d), 0, move |ch| {
            sequence(ch, false, 1, d, Faults::None)
        });
        run.explore("memory", &format!("the same in memory; {} operations", d), 0, move |ch| sequence(ch, true, 1, d, Faults::None));
        if t {
            run.explore("file-two", "any two files damaged, one operation", 0, move |ch| sequence(ch, false, 2, 1, Faults::None));
        }
        run.explore("fault", "the same archives, one operation, any one file system call fails", 1, move |ch| sequence(ch, false, if ch.thorough { 1 } else { 0 }, 1, Faults::Any));
    })
}
