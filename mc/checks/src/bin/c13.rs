//! C13: the files and bytes of written archives.
#[path = "../shapes.rs"]
mod shapes;
use checks::drive::*;
use checks::*;
use mccore::scratch::snapshot;
use std::collections::BTreeMap;

fn hex(b: Option<&Vec<u8>>) -> String {
    match b {
        None => "missing".to_string(),
        Some(b) => format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(64)]),
    }
}

fn compare_files(got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>, ctx: &str) -> Result<(), String> {
    for k in want.keys().chain(got.keys()) {
        let (g, w) = (got.get(k), want.get(k));
        if g != w {
            let at = match (g, w) {
                (Some(g), Some(w)) => g.iter().zip(w.iter()).position(|(a, b)| a != b),
                _ => None,
            };
            return Err(format!("{}: {} is {} instead of {}, first difference at {:?}", ctx, k, hex(g), hex(w), at));
        }
    }
    Ok(())
}

/// Everything there is: for files what is on disk, for memory all names an archive could use.
fn stored(memory: bool, dir: &std::path::Path, s: &Storage, names: &[String]) -> BTreeMap<String, Vec<u8>> {
    let mut r = BTreeMap::new();
    if memory {
        for n in names {
            let there = s.exists(n);
            match s.read_resource(n) {
                Ok(b) => {
                    r.insert(n.clone(), b.to_vec());
                }
                Err(_) => {
                    if there {
                        r.insert(format!("{} which exists but cannot be read", n), vec![]);
                    }
                }
            }
        }
    } else {
        for (k, v) in snapshot(dir) {
            if let Some(v) = v {
                r.insert(k, v);
            }
        }
    }
    r
}

fn judge(d: &mut Drive, _ch: &mut Ch, ctx: &str) -> Result<(), String> {
    let want = d.files();
    let mut names = Vec::new();
    for (dir, name, _, _) in ARCHIVES.iter() {
        names.push(join(dir, &format!("{}.archive", name)));
    }
    for p in parts() {
        for (n, _) in p.paths() {
            names.push(n);
        }
    }
    for n in names.clone() {
        names.push(format!("{}.schema", n));
    }
    let got = stored(d.memory, &d.dir, &d.root, &names);
    compare_files(&got, &want, ctx)?;
    // directories are those of the archives
    if !d.memory {
        let dirs: Vec<String> = snapshot(&d.dir).into_iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        let mut expected: Vec<String> = d.created.iter().map(|n| ARCHIVES[*n].0.to_string()).filter(|x| !x.is_empty()).collect();
        expected.sort();
        if dirs != expected {
            return Err(format!("{}: directories {:?} instead of {:?}", ctx, dirs, expected));
        }
    }
    Ok(())
}

/// Multivectors with every index type, written to a storage directly.
fn multi<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let kinds = V::tags().len();
    let cs = contents(Kind::Multi, kinds, ch.thorough);
    let b = match ch.pick(&cs) {
        Content::Multi(b) => b.clone(),
        _ => unreachable!(),
    };
    let (i, d) = multi_bytes::<I, V>(&b);
    if I::BITS < 64 && d.len() as u64 > mask(I::BITS) {
        return Ok(());
    }
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} {} {:.200}, memory {}", I::NAME, V::NAME, format!("{:?}", b), memory);
    ch.step(|| ctx.clone());
    let mut w = create_multi_vector::<I, V>(&*s, "dir/mv", "a schema").map_err(|e| format!("{}: {}", ctx, e))?;
    for bucket in &b {
        let mut x = w.grow().map_err(|e| format!("{}: {}", ctx, e))?;
        for (k, v) in bucket {
            V::add(&mut x, *k, *v);
        }
    }
    w.close().map_err(|e| format!("{}: close: {}", ctx, e))?;
    let mut want = BTreeMap::new();
    want.insert("dir/mv".to_string(), framed(&d));
    want.insert("dir/mv.schema".to_string(), b"a schema".to_vec());
    want.insert("dir/mv_index".to_string(), framed(&i));
    want.insert("dir/mv_index.schema".to_string(), b"index(a schema)".to_vec());
    let names: Vec<String> = want.keys().cloned().collect();
    ch.state(&(I::NAME, V::NAME, memory, &b));
    ch.outcome(&(I::NAME, V::NAME));
    compare_files(&stored(memory, &tmp.path, &s, &names), &want, &ctx)
}

/// Vectors of all element types, three ways.
fn vector<T: Elem>(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let n = ch.choose(5) as u64;
    let way = ch.choose(3);
    let untouched = ch.flag();
    let value = |i: u64| if untouched && i % 2 == 0 { 0 } else { i + 1 };
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} elements of {}, way {}, memory {}", n, T::NAME, way, memory);
    ch.step(|| ctx.clone());
    let err = |e: std::io::Error| format!("{}: {}", ctx, e);
    match way {
        0 => {
            let mut v = Vector::<T>::new();
            for i in 0..n {
                let mut e = v.grow();
                if value(i) != 0 {
                    T::set(&mut e, value(i));
                }
            }
            s.write("v", "a\nschema", v.as_bytes()).map_err(err)?;
        }
        1 => {
            let mut v = Vector::<T>::with_len(n as usize);
            for i in 0..n {
                if value(i) != 0 {
                    T::set(&mut v.at_mut(i as usize), value(i));
                }
            }
            s.write("v", "a\nschema", v.as_ref()).map_err(err)?;
        }
        _ => {
            let mut v = create_external_vector::<T>(&*s, "v", "a\nschema").map_err(err)?;
            for i in 0..n {
                let mut e = v.grow().map_err(err)?;
                if value(i) != 0 {
                    T::set(&mut e, value(i));
                }
            }
            v.close().map_err(|e| format!("{}: close: {}", ctx, e))?;
        }
    }
    let mut want = BTreeMap::new();
    want.insert("v".to_string(), framed(&(0..n).flat_map(|i| T::bytes(value(i))).collect::<Vec<_>>()));
    want.insert("v.schema".to_string(), b"a\nschema".to_vec());
    let names: Vec<String> = want.keys().cloned().collect();
    ch.state(&(T::NAME, n, way, memory, untouched));
    ch.outcome(&T::NAME);
    compare_files(&stored(memory, &tmp.path, &s, &names), &want, &ctx)
}

fn each<T: Elem>(run: &mut Run) {
    run.explore(&format!("vector-{}", T::NAME), "0..=4 elements, set or left zero, three ways, both storages", 0, |ch| vector::<T>(ch));
}

/// What is stored after some parts of an archive were written.
fn shape_bytes(_: &mut Ch, shape: &'static shapes::Shape, memory: bool, dir: &std::path::Path, s: &Storage, there: &BTreeMap<String, Content>, intact: &dyn Fn(&str) -> bool, ctx: &str) -> Result<(), String> {
    let mut want = BTreeMap::new();
    for r in shape.resources(there) {
        if intact(&r.path) {
            want.insert(format!("{}.schema", r.path), r.schema.into_bytes());
            want.insert(r.path, framed(&r.payload));
        }
    }
    let mut names: Vec<String> = vec![];
    for r in shape.resources(&shapes::fill(shape, 3)) {
        names.push(format!("{}.schema", r.path));
        names.push(r.path);
    }
    compare_files(&stored(memory, dir, s, &names), &want, ctx)
}

fn main() {
    mccore::main("C13", Level::ModelChecking, "states are (storage, parts with contents, progress of every writer); every execution is judged by all stored bytes", |run| {
        let t = run.thorough;
        run.explore("contents", "every part with all contents up to a size and of sizes around powers of two to 2^16, all ways of writing, first or over an earlier content", 0, |ch| one_part(ch, judge));
        run.explore("presence", "every set of the optional parts of Top, sub and its leaf", 0, |ch| presence(ch, judge));
        run.explore("interleavings-2", "all interleavings of writing any two parts (incrementally where possible, 0..=2 elements) and creating their archives", 0, move |ch| interleavings(ch, 2, 2, false, judge));
        run.explore("orders", "all orders of creating and writing everything in a sub-archive and its leaf", 0, |ch| orders(ch, judge));
        let bits = if run.thorough { 28 } else { 26 };
        run.explore("large", &format!("raw data and vectors of sizes around powers of two to 2^{}, set at once, first or over another content", bits), 0, move |ch| big::large(ch, bits, big::judge_stored));
        run.explore_with("huge", "raw data and vectors of 2, 4 and 8 GiB in files with holes", 0, 2, &|ch: &mut Ch| big::huge(ch, &[31, 32, 33], big::judge_stored));
        run.explore("shapes", "95 archives: all with up to 2 resources, many with 3 or 5, in any order, compared after each", 0, |ch| shapes::written(ch, shape_bytes));
        run.explore("multivector", "all index types, all lists of <=2 or 3 buckets of <=2 elements", 0, |ch| match ch.choose(9) {
            0 => multi::<Idx4, Var1>(ch),
            1 => multi::<Idx8, Var3>(ch),
            2 => multi::<Idx12, Var3>(ch),
            3 => multi::<Idx24, VarT>(ch),
            4 => multi::<Idx32, VarT>(ch),
            5 => multi::<Idx40, Var3>(ch),
            6 => multi::<Idx64, Var3>(ch),
            7 => multi::<Idx64, VarT>(ch),
            _ => multi::<Idx12, Var1>(ch),
        });
        each::<E1>(run);
        each::<E2>(run);
        each::<E7>(run);
        each::<E9>(run);
        each::<E13>(run);
        each::<E16>(run);
        all_layouts!(each, run);
        if t {
            run.explore("interleavings-3", "all interleavings of writing any three parts with <=1 element", 0, move |ch| interleavings(ch, 3, 1, false, judge));
        }
    })
}
