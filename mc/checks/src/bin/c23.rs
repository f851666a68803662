//! C23: what was opened stays as it was.
use checks::*;
use flatdata::{create_external_vector, create_multi_vector, Archive, ArrayView, MultiArrayView};
use mccore::falloc;
use std::collections::{BTreeMap, BTreeSet};

enum Shown {
    Top(Top),
    Sub(Sub),
    Leaf(Leaf),
    /// what closing a writer returned
    Vector(ArrayView<'static, E4>),
    Multi(MultiArrayView<'static, Idx32, Var3>),
}

struct Handle {
    shown: Shown,
    want: Seen,
    what: String,
}

impl Handle {
    fn look(&self) -> Seen {
        let one = |v: Val| Seen { archives: vec![], parts: std::iter::once((String::new(), v)).collect() };
        match &self.shown {
            Shown::Top(a) => see(a),
            Shown::Sub(a) => see_a_sub(a),
            Shown::Leaf(a) => see_a_leaf(a),
            Shown::Vector(v) => one(Val::Vector(array_vals(v))),
            Shown::Multi(v) => one(Val::Multi(view_vals(v))),
        }
    }
}

/// What a part of a view of an archive shows.
fn below(s: &Seen, dir: &str) -> Seen {
    let cut = |x: &String| -> Option<String> {
        if x == dir {
            Some(String::new())
        } else if x.starts_with(&format!("{}/", dir)) {
            Some(x[dir.len() + 1..].to_string())
        } else {
            None
        }
    };
    Seen { archives: s.archives.iter().filter_map(|x| cut(x)).collect(), parts: s.parts.iter().filter_map(|(k, v)| cut(k).map(|k| (k, v.clone()))).collect() }
}

/// 0: as at first, 1: other values, 2: more, 3: nothing, 4: other values, more than a page
fn content(kind: Kind, kinds: usize, variant: usize) -> Content {
    let n = [4, 4, 7, 0, 1400][variant];
    let base = [3u64, 50, 90, 0, 700][variant];
    match kind {
        Kind::Struct => Content::Struct(base),
        Kind::Vector => Content::Vector((0..n).map(|i| base + i).collect()),
        Kind::Multi => Content::Multi((0..n).map(|i| (0..i % 3).map(|j| ((i + j) as usize % kinds, base + i * 3 + j)).collect()).collect()),
        Kind::Raw => Content::Raw((0..n * 5).map(|i| (i * 7 + base) as u8).collect()),
    }
}

struct World {
    memory: bool,
    dir: std::path::PathBuf,
    /// storage and builders
    own: Option<(Storage, Builders)>,
    other: Option<Storage>,
    contents: BTreeMap<&'static str, Content>,
    unfinished: BTreeSet<&'static str>,
    writer: Option<Box<dyn Writer>>,
    removed: bool,
    held: Vec<Handle>,
}

impl Drop for World {
    fn drop(&mut self) {
        self.held.clear();
        if let Some(w) = self.writer.take() {
            let _ = catch(|| drop(w));
        }
    }
}

const OPS: usize = 19;

fn fill(s: &Storage, contents: &BTreeMap<&'static str, Content>) -> Result<Builders, String> {
    let mut b = Builders::default();
    for n in 0..5 {
        b.create(n, s).map_err(|e| e.to_string())?;
    }
    for p in parts() {
        if let Some(c) = contents.get(p.path) {
            b.write(p.path, p.kind, c, 0)?;
        }
    }
    Ok(b)
}

impl World {
    fn new(memory: bool, dir: std::path::PathBuf, vary: usize, missing: bool) -> Result<World, String> {
        let s = storage(memory, &dir);
        let mut contents = BTreeMap::new();
        for (i, p) in parts().iter().enumerate() {
            if i == vary && missing {
                continue;
            }
            let c = if i == vary { content(p.kind, kinds_of(p.path), 0) } else { sample(p.kind, i as u64 + 3, kinds_of(p.path)) };
            contents.insert(p.path, c);
        }
        let b = fill(&s, &contents)?;
        Ok(World { memory, dir, own: Some((s, b)), other: None, contents, unfinished: BTreeSet::new(), writer: None, removed: false, held: vec![] })
    }
    fn now(&self, root: usize) -> Option<Seen> {
        if self.removed {
            return None;
        }
        let ps = parts();
        let intact = |path: &str| -> bool {
            match ps.iter().find(|p| p.paths().iter().any(|x| x.0 == path)) {
                None => true, // signatures
                Some(p) => self.contents.contains_key(p.path) && !self.unfinished.contains(p.path),
            }
        };
        expect(ARCHIVES[root].0, &intact, &|p| p.val(&self.contents[p.path]))
    }
    fn open(&mut self, root: usize, s: &Storage, how: &str) -> Result<(), String> {
        let want = self.now(root);
        let what = format!("{} opened by {}", ARCHIVES[root].1, how);
        let sub = |dir: &str| if dir.is_empty() { s.clone() } else { s.subdir(dir) };
        let dir = ARCHIVES[root].0;
        let r = falloc::guarded(|| catch(|| match ARCHIVES[root].1 {
            "Top" => Top::open(sub(dir)).map(Shown::Top),
            "Sub" => Sub::open(sub(dir)).map(Shown::Sub),
            _ => Leaf::open(sub(dir)).map(Shown::Leaf),
        }))
        .map_err(|p| format!("{}: panics: {}", what, p))?;
        match (r, want) {
            (Ok(shown), Some(want)) => self.held.push(Handle { shown, want, what }),
            (Err(_), None) => (),
            (Ok(_), None) => return Err(format!("{}: opens", what)),
            (Err(e), Some(_)) => return Err(format!("{}: does not open: {}", what, e)),
        }
        Ok(())
    }
    fn check(&self) -> Result<(), String> {
        for h in &self.held {
            let got = catch(|| h.look()).map_err(|p| format!("{}: panics: {}", h.what, p))?;
            if got != h.want {
                return Err(format!("{}: shows {:?} instead of {:?}", h.what, got, h.want));
            }
        }
        Ok(())
    }
    /// Which operations make sense.
    fn possible(&self, p: &Part, op: usize) -> bool {
        let files = !self.memory;
        let own = self.own.is_some();
        let variant = |i: usize| p.kind != Kind::Struct || i < 1;
        match op {
            0 | 1 => own,
            2 => files,
            3 | 4 => self.held.iter().any(|h| match h.shown {
                Shown::Top(_) => true,
                Shown::Sub(_) => true,
                _ => op == 3,
            }),
            5 => !self.held.is_empty(),
            6 => own && self.writer.is_none(),
            // by the builder, in two ways
            7..=9 => own && self.writer.is_none() && !self.removed && variant(op - 7),
            10..=12 => own && self.writer.is_none() && !self.removed && p.kind != Kind::Raw && p.kind != Kind::Struct && variant(op - 10),
            // by another storage
            13 | 14 => files && self.writer.is_none() && !self.removed && variant(op - 13),
            15 => own && self.writer.is_none() && !self.removed && (p.kind == Kind::Vector || p.kind == Kind::Multi),
            16 => files && !self.removed && self.writer.is_none(),
            // files and directories moved into place
            17 => files && !self.removed && self.writer.is_none(),
            _ => files && self.writer.is_none(),
        }
    }
    fn apply(&mut self, p: &Part, op: usize) -> Result<String, String> {
        let kinds = kinds_of(p.path);
        // never the same contents again
        let pick = |i: usize, own: &World| {
            let v = [1, 4, 3][i];
            let c = content(p.kind, kinds, v);
            if own.contents.get(p.path) == Some(&c) {
                content(p.kind, kinds, [0, 2, 2][i])
            } else {
                c
            }
        };
        Ok(match op {
            0 | 1 => {
                let s = self.own.as_ref().unwrap().0.clone();
                let root = if op == 0 { 0 } else { Builders::archive_of(p.path).max(1) };
                self.open(root, &s, "the storage")?;
                format!("open {}", ARCHIVES[root].0)
            }
            2 => {
                let s = storage(false, &self.dir);
                self.open(0, &s, "a new storage")?;
                "open by a new storage".into()
            }
            3 => {
                let h = match self.held.iter().rev().find(|h| !matches!(h.shown, Shown::Vector(_) | Shown::Multi(_))) {
                    Some(h) => h,
                    None => return Ok("nothing to copy".into()),
                };
                let shown = match &h.shown {
                    Shown::Top(a) => Shown::Top(a.clone()),
                    Shown::Sub(a) => Shown::Sub(a.clone()),
                    Shown::Leaf(a) => Shown::Leaf(a.clone()),
                    _ => unreachable!(),
                };
                let new = Handle { shown, want: h.want.clone(), what: format!("a copy of {}", h.what) };
                self.held.push(new);
                "copy the newest".into()
            }
            4 => {
                let want_dir = ARCHIVES[Builders::archive_of(p.path).max(1)].0;
                let mut new = None;
                for h in self.held.iter().rev() {
                    match &h.shown {
                        Shown::Top(a) => {
                            let osub = want_dir.starts_with("osub");
                            let dir = if osub { "osub" } else { "sub" };
                            let sub = if osub { a.osub().as_ref() } else { Some(a.sub()) };
                            if let Some(x) = sub {
                                new = Some(Handle { shown: Shown::Sub(x.clone()), want: below(&h.want, dir), what: format!("{} of {}", dir, h.what) });
                            } else if h.want.archives.iter().any(|x| x == dir) {
                                return Err(format!("{}: {} is not there", h.what, dir));
                            }
                            break;
                        }
                        Shown::Sub(a) => {
                            if let Some(x) = a.leaf() {
                                new = Some(Handle { shown: Shown::Leaf(x.clone()), want: below(&h.want, "leaf"), what: format!("leaf of {}", h.what) });
                            }
                            break;
                        }
                        _ => (),
                    }
                }
                self.held.extend(new);
                "copy an archive in it".into()
            }
            5 => {
                let h = self.held.remove(0);
                let r = format!("drop {}", h.what);
                drop(h);
                r
            }
            6 => {
                self.held.retain(|h| !matches!(h.shown, Shown::Vector(_) | Shown::Multi(_)));
                self.own = None;
                "drop the storage and builders".into()
            }
            7..=9 => {
                let c = pick(op - 7, self);
                self.own.as_ref().unwrap().1.write(p.path, p.kind, &c, 0)?;
                self.unfinished.remove(p.path);
                self.contents.insert(p.path, c);
                format!("write {} anew ({})", p.path, op - 7)
            }
            10..=12 => {
                let c = pick(op - 10, self);
                let s = self.own.as_ref().unwrap().0.clone();
                // the storage is alive as long as the views are kept
                let st: &'static flatdata::ResourceStorage = unsafe { &*(&*s as *const flatdata::ResourceStorage) };
                let what = format!("what closing a writer of {} returned", p.path);
                let one = |v: Val| Seen { archives: vec![], parts: std::iter::once((String::new(), v)).collect() };
                match (p.path, &c) {
                    ("vec", Content::Vector(l)) => {
                        let mut w = create_external_vector::<E4>(st, p.path, p.schema).map_err(|e| e.to_string())?;
                        for x in l {
                            E4::set(&mut w.grow().map_err(|e| e.to_string())?, *x);
                        }
                        let v = falloc::guarded(|| w.close()).map_err(|e| e.to_string())?;
                        self.held.push(Handle { shown: Shown::Vector(v), want: one(p.val(&c)), what });
                    }
                    ("mv", Content::Multi(b)) => {
                        let mut w = create_multi_vector::<Idx32, Var3>(st, p.path, p.schema).map_err(|e| e.to_string())?;
                        for b in b {
                            let mut x = w.grow().map_err(|e| e.to_string())?;
                            for (k, v) in b {
                                Var3::add(&mut x, *k, *v);
                            }
                        }
                        let v = falloc::guarded(|| w.close()).map_err(|e| e.to_string())?;
                        self.held.push(Handle { shown: Shown::Multi(v), want: one(p.val(&c)), what });
                    }
                    _ => self.own.as_ref().unwrap().1.write(p.path, p.kind, &c, 2)?,
                }
                self.unfinished.remove(p.path);
                self.contents.insert(p.path, c);
                format!("write {} anew by a writer ({})", p.path, op - 10)
            }
            13 | 14 => {
                let c = pick(op - 13, self);
                let s = match &self.other {
                    Some(s) => s.clone(),
                    None => storage(false, &self.dir),
                };
                for r in p.resources(&c) {
                    s.write(&r.path, &r.schema, &r.payload).map_err(|e| e.to_string())?;
                }
                self.other = Some(s);
                self.unfinished.remove(p.path);
                self.contents.insert(p.path, c);
                format!("another storage writes {} anew ({})", p.path, op - 13)
            }
            15 => {
                let w = self.own.as_ref().unwrap().1.start(p.path).map_err(|e| e.to_string())?;
                self.writer = Some(w);
                self.contents.insert(p.path, content(p.kind, kinds, 1));
                self.unfinished.insert(p.path);
                format!("begin to write {} anew", p.path)
            }
            16 => {
                self.removed = true;
                std::fs::remove_dir_all(&self.dir).map_err(|e| e.to_string())?;
                "remove the directory".into()
            }
            17 => {
                let c = pick(0, self);
                let next = self.dir.with_extension("next");
                let s = storage(false, &next);
                for r in p.resources(&c) {
                    s.write(&r.path, &r.schema, &r.payload).map_err(|e| e.to_string())?;
                    for name in &[r.path.clone(), format!("{}.schema", r.path)] {
                        let to = self.dir.join(name);
                        std::fs::create_dir_all(to.parent().unwrap()).map_err(|e| e.to_string())?;
                        std::fs::rename(next.join(name), to).map_err(|e| e.to_string())?;
                    }
                }
                std::fs::remove_dir_all(&next).map_err(|e| e.to_string())?;
                self.unfinished.remove(p.path);
                self.contents.insert(p.path, c);
                format!("files of {} are moved into place", p.path)
            }
            _ => {
                let c = pick(0, self);
                self.contents.insert(p.path, c);
                self.unfinished.clear();
                self.removed = false;
                let next = self.dir.with_extension("next");
                fill(&storage(false, &next), &self.contents)?;
                if self.dir.exists() {
                    std::fs::rename(&self.dir, self.dir.with_extension("old")).map_err(|e| e.to_string())?;
                }
                std::fs::rename(&next, &self.dir).map_err(|e| e.to_string())?;
                let _ = std::fs::remove_dir_all(&self.dir.with_extension("old"));
                "the directory is replaced by one with other contents".into()
            }
        })
    }
}

fn history(ch: &mut Ch, memory: bool, depth: usize, which: &[&str], few: bool) -> Result<(), String> {
    let ps = parts();
    let all: Vec<usize> = (0..ps.len()).filter(|i| which.is_empty() || which.contains(&ps[*i].path)).collect();
    let i = *ch.pick(&all);
    let p = &ps[i];
    let missing = !few && p.optional && ch.flag();
    let tmp = ch.scratch.fresh();
    let mut hist: Vec<String> = vec![];
    ch.step(|| format!("{}, {} {}", if memory { "memory" } else { "files" }, p.path, if missing { "not there at first" } else { "there" }));
    let r = (|| -> Result<(), String> {
        let mut w = World::new(memory, tmp.path.join("a"), i, missing)?;
        // something is open already, or nothing has been read yet
        if few || ch.flag() {
            w.apply(p, 0)?;
            hist.push("open".into());
        }
        let mut ops: Vec<usize> = vec![];
        for _ in 0..depth {
            let can: Vec<usize> = (0..OPS).filter(|op| w.possible(p, *op) && (!few || [0, 3, 4, 5, 6, 7, 8, 10, 13, 15, 18].contains(op))).collect();
            if can.is_empty() {
                break;
            }
            let op = *ch.pick(&can);
            let at = |h: &Vec<String>, e: String| format!("{}, {:?}: {}: {}", if memory { "memory" } else { "files" }, p.path, h.join(", "), e);
            let d = match w.apply(p, op) {
                Ok(d) => d,
                Err(e) => return Err(at(&hist, format!("operation {}: {}", op, e))),
            };
            hist.push(d);
            ch.step(|| hist.last().unwrap().clone());
            w.check().map_err(|e| at(&hist, e))?;
            ops.push(op);
            ch.state(&(memory, i, missing, &w.contents, w.own.is_some(), w.removed, w.held.iter().map(|h| (&h.want, &h.what)).collect::<Vec<_>>()));
            ch.evals(w.held.len() as u64);
        }
        // what is left when everything else is gone
        let n = w.held.len();
        if n > 0 && w.writer.is_none() {
            let keep = ch.choose(n);
            let h = w.held.swap_remove(keep);
            let own = w.own.is_some() && matches!(h.shown, Shown::Vector(_) | Shown::Multi(_));
            w.held.clear();
            w.other = None;
            if !own {
                w.own = None;
            }
            w.held.push(h);
            w.check().map_err(|e| format!("{}, {:?}: {}, everything else dropped: {}", if memory { "memory" } else { "files" }, p.path, hist.join(", "), e))?;
        }
        ch.outcome(&(i, n, w.removed, w.other.is_some(), w.own.is_some()));
        Ok(())
    })();
    falloc::recycle();
    r
}

/// A part written anew, any call failing: what is open is not affected.
fn failed(ch: &mut Ch) -> Result<(), String> {
    use mccore::interpose::{far, with_plan, Action, Call, Kind as K};
    let ps = parts();
    let all: Vec<usize> = (0..ps.len()).collect();
    let i = *ch.pick(&all);
    let p = &ps[i];
    let missing = p.optional && ch.flag();
    let tmp = ch.scratch.fresh();
    let mut w = World::new(false, tmp.path.join("a"), i, missing)?;
    let before = ch.choose(3);
    match before {
        0 => (),
        1 => drop(w.apply(p, 0)?),
        _ => drop(w.apply(p, 2)?),
    }
    let can: Vec<usize> = [7, 8, 10, 11, 13, 14].iter().cloned().filter(|op| w.possible(p, *op)).collect();
    let op = *ch.pick(&can);
    let mut what = vec![format!("{} at first {}, opened before {}, operation {}", p.path, if missing { "missing" } else { "there" }, before, op)];
    let r = with_plan(
        Box::new(|c: &Call| {
            let n = match c.kind {
                _ if far(c, 16) => return Action::Pass,
                K::Write if c.len > 0 => 3,
                K::Write | K::Munmap => return Action::Pass,
                _ => 2,
            };
            let a = match ch.dev(n) {
                0 => return Action::Pass,
                1 => Action::Fail(libc::EIO),
                _ => Action::WriteThenFail(c.len / 2, libc::ENOSPC),
            };
            what.push(format!("{:?} {} fails", c.kind, c.path.unwrap_or("").rsplit('/').next().unwrap_or("")));
            a
        }),
        // whether it panics is judged by C15
        || catch(|| w.apply(p, op).is_ok()),
    );
    what.push(format!("{:?}", r));
    ch.step(|| what.join(", "));
    let ctx = |e: String| format!("{}: {}", what.join(", "), e);
    w.check().map_err(&ctx)?;
    // opening, whatever it gives, changes nothing either
    let s = w.own.as_ref().unwrap().0.clone();
    let now = catch(|| Top::open(s).map(|a| (format!("{:?}", a), a)));
    w.check().map_err(&ctx)?;
    w.removed = false;
    w.apply(p, 9).or_else(|_| w.apply(p, 7)).map_err(&ctx)?;
    w.apply(p, 0).map_err(&ctx)?;
    w.check().map_err(&ctx)?;
    if let Ok(Ok((text, a))) = now {
        if format!("{:?}", a) != text {
            return Err(ctx("what was opened after the failure changes when the part is written again".into()));
        }
    }
    ch.evals(w.held.len() as u64);
    ch.state(&(i, missing, before, op, &what));
    ch.outcome(&(i, before, op, r.ok()));
    Ok(())
}

/// One part written anew again and again while everything that was opened stays open.
fn often(ch: &mut Ch, memory: bool, max: usize) -> Result<(), String> {
    let ps = parts();
    let all: Vec<usize> = (0..ps.len()).collect();
    let i = *ch.pick(&all);
    let p = &ps[i];
    // by the builder alone, with a writer, with another storage, by files moved into place
    let way = ch.choose(4);
    let every = 1 + ch.choose(2);
    let tmp = ch.scratch.fresh();
    let ctx = format!("{}, {:?} written anew often (way {}), opened after every {}", if memory { "memory" } else { "files" }, p.path, way, every);
    ch.step(|| ctx.clone());
    let r = (|| -> Result<(), String> {
        let mut w = World::new(memory, tmp.path.join("a"), i, false)?;
        w.apply(p, 0)?;
        for n in 0..max {
            let op = match way {
                1 if w.possible(p, 10 + n % 3) => 10 + n % 3,
                2 if n % 5 > 1 && w.possible(p, 13) => 13 + n % 2,
                3 if w.possible(p, 18) => [17, 18, 17, 7][n % 4],
                _ => 7 + n % 3,
            };
            let op = if w.possible(p, op) { op } else { 7 };
            w.apply(p, op).map_err(|e| format!("{} times: operation {}: {}", n, op, e))?;
            if n % every == 0 {
                w.apply(p, 0).map_err(|e| format!("{} times: opening: {}", n, e))?;
            }
            if n & (n + 1) == 0 || n + 1 == max {
                w.check().map_err(|e| format!("{} times: {}", n + 1, e))?;
            }
        }
        ch.evals(w.held.len() as u64);
        ch.state(&(memory, i, way, every, &w.contents));
        ch.outcome(&(i, way, w.held.len()));
        Ok(())
    })();
    falloc::recycle();
    r.map_err(|e| format!("{}: {}", ctx, e))
}

fn main() {
    mccore::main("C23", Level::ModelChecking, "every execution keeps archives open while their parts are written anew, handles dropped and archives opened again; states are (contents now, what is open and what it should show)", |run| {
        let t = run.thorough;
        let d = if t { 4 } else { 3 };
        run.explore("memory", &format!("any part, {} of 15 operations, in memory", d), 0, move |ch| history(ch, true, d, &[], false));
        let d = if t { 3 } else { 2 };
        run.explore("files", &format!("any part, {} of 19 operations, in files", d), 0, move |ch| history(ch, false, d, &[], false));
        let d = if t { 6 } else { 5 };
        run.explore("memory-deep", &format!("4 parts, {} of 9 operations, in memory", d), 0, move |ch| history(ch, true, d, &["vec", "mv", "sub/leaf/lmv", "osub/svec"], true));
        let d = if t { 5 } else { 4 };
        run.explore("files-deep", &format!("5 parts, {} of 11 operations, in files", d), 0, move |ch| history(ch, false, d, &["head", "vec", "omv", "sub/sraw", "osub/leaf/lraw"], true));
        run.explore("failed", "any part written anew in files in any way, one failing call (thorough: two), archives open before, then written again", if t { 2 } else { 1 }, failed);
        let n = if t { 300 } else { 70 };
        run.explore("often-memory", &format!("any part written anew {} times, in four ways, with everything opened in between kept, in memory", n), 0, move |ch| often(ch, true, n));
        run.explore("often-files", &format!("any part written anew {} times, in four ways, with everything opened in between kept, in files", n), 0, move |ch| often(ch, false, n));
        run.assume("files are not changed in place: writers make new ones");
    })
}
