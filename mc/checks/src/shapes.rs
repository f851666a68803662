//! Archives with all combinations of few resources. Included by the checks that use it, because it
//! takes a while to compile.
use checks::damage::*;
use checks::*;
use flatdata::{define_archive, Archive, ArchiveBuilder, ArrayView, ExternalVector, MultiVector, ResourceStorageError, StructBuf, Vector};
use flatdata::{check_resource, define_struct, intersperse, opt, static_if};
use std::collections::BTreeMap;

// its parts are private to where it is defined
elem!(Ea, RefEa, MutEa, "Ea", 9, (a, set_a, u8, 0, 3), (b, set_b, u64, 3, 64), (c, set_c, i8, 67, 5));

pub trait View: std::fmt::Debug {
    fn part(&self, i: usize) -> Option<Val>;
    fn sub(&self, i: usize) -> Option<&dyn View>;
    fn copy(&self) -> Box<dyn View>;
}
pub trait Build {
    /// `way`: 0 at once, 1 by a writer
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String>;
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, ResourceStorageError>;
}
pub struct Shape {
    pub name: &'static str,
    pub schema: &'static str,
    /// name, kind, optional
    pub parts: &'static [(&'static str, Kind, bool)],
    /// name, optional, shape
    pub subs: &'static [(&'static str, bool, usize)],
    pub open: fn(&Storage) -> Result<Box<dyn View>, ResourceStorageError>,
    pub create: fn(&Storage) -> Result<Box<dyn Build>, ResourceStorageError>,
}

type IoRes<T> = std::io::Result<T>;

fn set_struct(c: &Content, f: &dyn Fn(<Ea as flatdata::Struct>::Item) -> IoRes<()>) -> Result<(), String> {
    let mut b = StructBuf::<Ea>::new();
    match c {
        Content::Struct(v) => Ea::set(&mut b.get_mut(), *v),
        _ => unreachable!(),
    }
    f(b.get()).map_err(|e| e.to_string())
}
fn set_vector<'a>(c: &Content, way: usize, f: &dyn Fn(&ArrayView<E7>) -> IoRes<()>, start: &dyn Fn() -> IoRes<ExternalVector<'a, E7>>) -> Result<(), String> {
    let l = match c {
        Content::Vector(l) => l,
        _ => unreachable!(),
    };
    if way == 0 {
        let mut v = Vector::<E7>::new();
        for x in l {
            E7::set(&mut v.grow(), *x);
        }
        f(&v.as_view()).map_err(|e| e.to_string())
    } else {
        let mut w = start().map_err(|e| e.to_string())?;
        for x in l {
            E7::set(&mut w.grow().map_err(|e| e.to_string())?, *x);
        }
        w.close().map(|_| ()).map_err(|e| e.to_string())
    }
}
fn set_multi<'a>(c: &Content, start: &dyn Fn() -> IoRes<MultiVector<'a, Idx24, Var3>>) -> Result<(), String> {
    let l = match c {
        Content::Multi(l) => l,
        _ => unreachable!(),
    };
    let mut w = start().map_err(|e| e.to_string())?;
    for b in l {
        let mut x = w.grow().map_err(|e| e.to_string())?;
        for (k, v) in b {
            Var3::add(&mut x, *k, *v);
        }
    }
    w.close().map(|_| ()).map_err(|e| e.to_string())
}
fn set_raw(c: &Content, f: &dyn Fn(&[u8]) -> IoRes<()>) -> Result<(), String> {
    match c {
        Content::Raw(b) => f(b).map_err(|e| e.to_string()),
        _ => unreachable!(),
    }
}

fn payloads(kind: Kind, c: &Content) -> Vec<(&'static str, Vec<u8>)> {
    match c {
        Content::Struct(v) => vec![("", Ea::bytes(*v))],
        Content::Vector(l) => vec![("", l.iter().flat_map(|v| E7::bytes(*v)).collect())],
        Content::Multi(b) => {
            let (i, d) = multi_bytes::<Idx24, Var3>(b);
            vec![("_index", i), ("", d)]
        }
        Content::Raw(b) => {
            assert!(kind == Kind::Raw);
            vec![("", b.clone())]
        }
    }
}
fn value(c: &Content) -> Val {
    match c {
        Content::Struct(v) => Val::Struct(Ea::values(*v)),
        Content::Vector(l) => Val::Vector(l.iter().map(|v| E7::values(*v)).collect()),
        Content::Multi(b) => Val::Multi(multi_vals::<Var3>(b)),
        Content::Raw(b) => Val::Raw(b.clone()),
    }
}
fn schema_of(kind: Kind) -> &'static str {
    match kind {
        Kind::Struct => "struct schema",
        Kind::Vector => "vector schema",
        Kind::Multi => "multivector schema",
        Kind::Raw => "raw schema",
    }
}

impl Shape {
    /// Calls `f` with the directory of each archive in it, from the top, and its shape.
    pub fn archives(&'static self, dir: &str, f: &mut dyn FnMut(&str, &'static Shape)) {
        f(dir, self);
        for (n, _, i) in self.subs {
            SHAPES[*i].archives(&join(dir, n), f);
        }
    }
    /// paths of all parts
    pub fn paths(&'static self) -> Vec<(String, Kind)> {
        let mut r = vec![];
        self.archives("", &mut |dir, s| r.extend(s.parts.iter().map(|(n, k, _)| (join(dir, n), *k))));
        r
    }
    /// all resources
    pub fn resources(&'static self, contents: &BTreeMap<String, Content>) -> Vec<Resource> {
        let mut r = vec![];
        self.archives("", &mut |dir, s| {
            r.push(Resource { path: join(dir, &format!("{}.archive", s.name)), schema: s.schema.into(), payload: vec![], is_struct: false });
            for (n, k, _) in s.parts {
                let p = join(dir, n);
                let c = match contents.get(&p) {
                    Some(c) => c,
                    None => continue,
                };
                for (suffix, payload) in payloads(*k, c) {
                    let schema = if suffix.is_empty() { schema_of(*k).to_string() } else { format!("index({})", schema_of(*k)) };
                    r.push(Resource { path: format!("{}{}", p, suffix), schema, payload, is_struct: *k == Kind::Struct });
                }
            }
        });
        r
    }
    /// What opening shows; None: does not open.
    pub fn expect(&'static self, dir: &str, contents: &BTreeMap<String, Content>, intact: &dyn Fn(&str) -> bool) -> Option<Seen> {
        if !intact(&join(dir, &format!("{}.archive", self.name))) {
            return None;
        }
        let mut r = Seen::default();
        r.archives.push(dir.into());
        for (n, k, optional) in self.parts {
            let p = join(dir, n);
            let there = contents.contains_key(&p) && intact(&p) && (*k != Kind::Multi || intact(&format!("{}_index", p)));
            if there {
                let v = value(&contents[&p]);
                r.parts.insert(p, v);
            } else if !optional {
                return None;
            }
        }
        for (n, optional, i) in self.subs {
            match SHAPES[*i].expect(&join(dir, n), contents, intact) {
                Some(s) => {
                    r.archives.extend(s.archives);
                    r.parts.extend(s.parts);
                }
                None if !optional => return None,
                _ => (),
            }
        }
        Some(r)
    }
    pub fn see(&'static self, v: &dyn View, dir: &str) -> Seen {
        let mut r = Seen::default();
        r.archives.push(dir.into());
        for (i, (n, ..)) in self.parts.iter().enumerate() {
            if let Some(x) = v.part(i) {
                r.parts.insert(join(dir, n), x);
            }
        }
        for (i, (n, _, k)) in self.subs.iter().enumerate() {
            if let Some(x) = v.sub(i) {
                let s = SHAPES[*k].see(x, &join(dir, n));
                r.archives.extend(s.archives);
                r.parts.extend(s.parts);
            }
        }
        r
    }
    /// Opens, reads everything, and reads it again from a copy.
    pub fn judge(&'static self, s: &Storage, want: Option<Seen>, ctx: &str) -> Result<bool, String> {
        let got = catch(|| match (self.open)(s) {
            Err(e) => Err(e.to_string()),
            Ok(a) => {
                let x = self.see(&*a, "");
                let b = a.copy();
                drop(a);
                if self.see(&*b, "") != x {
                    return Ok(Err("a copy shows something else".to_string()));
                }
                Ok(Ok(x))
            }
        });
        match (got.map_err(|p| format!("{}: panics: {}", ctx, p))?, want) {
            (Err(_), None) => Ok(false),
            (Ok(Ok(x)), Some(w)) if x == w => Ok(true),
            (Ok(Ok(x)), Some(w)) => Err(format!("{}: shows {:?} instead of {:?}", ctx, x, w)),
            (Ok(Ok(x)), None) => Err(format!("{}: opens and shows {:?}", ctx, x)),
            (Ok(Err(e)), _) => Err(format!("{}: {}", ctx, e)),
            (Err(e), Some(_)) => Err(format!("{}: does not open: {}", ctx, e)),
        }
    }
}

/// Contents of all parts of a shape.
pub fn fill(shape: &'static Shape, n: u64) -> BTreeMap<String, Content> {
    let mut r = BTreeMap::new();
    for (i, (p, k)) in shape.paths().into_iter().enumerate() {
        // never empty but for one of them
        let mut m = n + i as u64;
        if k != Kind::Struct && m % 5 == 4 && i > 0 {
            m += 1;
        }
        r.insert(p, sample(k, m, 3));
    }
    r
}

/// Called after everything was written; what was written, and in which storage.
pub type Judge = fn(&mut Ch, &'static Shape, bool, &std::path::Path, &Storage, &BTreeMap<String, Content>, &dyn Fn(&str) -> bool, &str) -> Result<(), String>;

/// All subsets of the parts and archives of every shape, written in all orders.
pub fn written(ch: &mut Ch, judge: Judge) -> Result<(), String> {
    let shape = &SHAPES[ch.choose(SHAPES.len())];
    let memory = ch.flag();
    let way = ch.choose(2);
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut ctx = format!("{} {}, way {}", shape.schema, if memory { "memory" } else { "files" }, way);
    let n = shape.parts.len() + shape.subs.len();
    let all = fill(shape, ch.choose(2) as u64 + 3);
    let mut there: BTreeMap<String, Content> = BTreeMap::new();
    let mut dirs = vec![String::new()];
    let b = (shape.create)(&s).map_err(|e| format!("{}: {}", ctx, e))?;
    // in any order; of many things only a few orders
    let mut left: Vec<usize> = (0..n).collect();
    loop {
        let sigs: Vec<String> = dirs.clone();
        let shape_at = |d: &str| -> String {
            let mut r = String::new();
            shape.archives("", &mut |dir, s| {
                if dir == d {
                    r = format!("{}.archive", s.name);
                }
            });
            join(d, &r)
        };
        let names: Vec<String> = sigs.iter().map(|d| shape_at(d)).collect();
        let have: Vec<String> = there.keys().cloned().collect();
        let intact = |p: &str| names.iter().any(|x| x == p) || have.iter().any(|x| x == p || format!("{}_index", x) == p);
        judge(ch, shape, memory, &tmp.path, &s, &there, &intact, &ctx)?;
        ch.evals(1);
        ch.state(&(shape.name, memory, &there, &dirs));
        if left.is_empty() {
            break;
        }
        let k = match n {
            0..=3 => ch.choose(left.len() + 1),
            _ => ch.choose(2.min(left.len()) + 1),
        };
        if k == left.len().min(if n <= 3 { 9 } else { 2 }) {
            break;
        }
        let i = if n > 3 && k == 1 { left.remove(left.len() - 1) } else { left.remove(k) };
        if i < shape.parts.len() {
            let name = shape.parts[i].0;
            ctx += &format!(", write {}", name);
            ch.step(|| format!("write {}", name));
            b.write(i, &all[name], way).map_err(|e| format!("{}: {}", ctx, e))?;
            there.insert(name.to_string(), all[name].clone());
        } else {
            let (name, _, inner) = shape.subs[i - shape.parts.len()];
            ctx += &format!(", create and fill {}", name);
            ch.step(|| format!("create and fill {}", name));
            let x = b.sub(i - shape.parts.len()).map_err(|e| format!("{}: {}", ctx, e))?;
            write_all(&SHAPES[inner], &*x, name, &all, way, &mut there, &mut dirs).map_err(|e| format!("{}: {}", ctx, e))?;
        }
    }
    ch.outcome(&(shape.name, there.keys().collect::<Vec<_>>()));
    Ok(())
}

fn write_all(shape: &'static Shape, b: &dyn Build, dir: &str, all: &BTreeMap<String, Content>, way: usize, there: &mut BTreeMap<String, Content>, dirs: &mut Vec<String>) -> Result<(), String> {
    dirs.push(dir.to_string());
    for (i, (n, ..)) in shape.parts.iter().enumerate() {
        let p = join(dir, n);
        b.write(i, &all[&p], way)?;
        there.insert(p.clone(), all[&p].clone());
    }
    for (i, (n, _, k)) in shape.subs.iter().enumerate() {
        let x = b.sub(i).map_err(|e| e.to_string())?;
        write_all(&SHAPES[*k], &*x, &join(dir, n), all, way, there, dirs)?;
    }
    Ok(())
}

include!("shapes_gen.rs");
