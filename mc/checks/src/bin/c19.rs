//! C19: a storage next to a map; what was returned stays valid.
use checks::*;
use flatdata::create_external_vector;
use mccore::falloc;
use std::collections::BTreeMap;

struct Key {
    /// ways to name it: handle (0: root, 1: "d", 2: "d/e") and name there
    via: &'static [(usize, &'static str)],
}
const KEYS: [Key; 4] = [
    Key { via: &[(0, "a")] },
    Key { via: &[(0, "d/a"), (1, "a")] },
    Key { via: &[(0, "d/e/a"), (1, "e/a"), (2, "a")] },
    Key { via: &[(0, "d/aa"), (1, "aa")] },
];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Value {
    schema: &'static str,
    data: Vec<u8>,
}
/// the third has the length of the second, the fourth is longer than a page
fn value(i: usize) -> Value {
    let (schema, len) = [("one", 0), ("two\nlines", 8), ("two\nlines", 8), ("three", 5000), ("two\nlines", 9)][i];
    Value { schema, data: (0..len).map(|k| (k * 7 + i * 31 + 1) as u8).collect() }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum State {
    Written(Value),
    /// a stream was created and not everything is written
    Partial,
    /// writing failed: nothing readable, or one of these
    Unsure(Vec<Value>),
}
type Map = BTreeMap<usize, State>;

struct Held {
    ptr: *const u8,
    len: usize,
    bytes: Vec<u8>,
    handle: usize,
    what: String,
}

fn check_held(held: &[Held]) -> Result<(), String> {
    for h in held {
        let now = unsafe { std::slice::from_raw_parts(h.ptr, h.len) };
        if now != &h.bytes[..] {
            return Err(format!("what {} returned has changed", h.what));
        }
    }
    Ok(())
}

fn kind_of(e: &flatdata::ResourceStorageError) -> &'static str {
    use flatdata::ResourceStorageError::*;
    match e {
        Io(e, _) if e.kind() == std::io::ErrorKind::NotFound => "missing",
        Io(..) => "io",
        Utf8Error(_) => "utf8",
        MissingSchema(_) => "missing schema",
        WrongSignature { .. } => "wrong signature",
        UnexpectedDataSize => "size",
    }
}

/// Reads a key and compares; the returned data is held if asked for.
fn read(handles: &[Storage], map: &Map, key: usize, via: usize, hold: Option<&mut Vec<Held>>) -> Result<(), String> {
    let (h, name) = KEYS[key].via[via];
    let what = format!("reading {} through handle {}", name, h);
    let s = &handles[h];
    match map.get(&key) {
        None => {
            for schema in &["one", ""] {
                match s.read(name, schema) {
                    Ok(d) => return Err(format!("{}: {} bytes, although never written", what, d.len())),
                    Err(ref e) if kind_of(e) != "missing" => return Err(format!("{}: {:?}, although never written", what, e)),
                    _ => (),
                }
            }
        }
        Some(State::Partial) => {
            if let Ok(d) = s.read(name, "two\nlines") {
                return Err(format!("{}: {} bytes, although not completely written", what, d.len()));
            }
        }
        Some(State::Unsure(vs)) => {
            if let Ok(d) = s.read(name, "two\nlines") {
                if !vs.iter().any(|v| v.data == d) {
                    return Err(format!("{}: {} bytes that were never written", what, d.len()));
                }
                if let Some(held) = hold {
                    held.push(Held { ptr: d.as_ptr(), len: d.len(), bytes: d.to_vec(), handle: h, what: what.clone() });
                }
            }
        }
        Some(State::Written(v)) => {
            let d = s.read(name, v.schema).map_err(|e| format!("{}: {:?}", what, e))?;
            if d != &v.data[..] {
                return Err(format!("{}: {} bytes {:02x?} instead of the {} bytes {:02x?} last written", what, d.len(), &d[..d.len().min(16)], v.data.len(), &v.data[..v.data.len().min(16)]));
            }
            let r = s.read_resource(name).map_err(|e| format!("{}: {:?}", what, e))?;
            if r != &framed(&v.data)[..] {
                return Err(format!("{}: the resource is {:02x?}", what, &r[..r.len().min(32)]));
            }
            if let Some(held) = hold {
                held.push(Held { ptr: d.as_ptr(), len: d.len(), bytes: v.data.clone(), handle: h, what: what.clone() });
                held.push(Held { ptr: r.as_ptr(), len: r.len(), bytes: framed(&v.data), handle: h, what: what.clone() });
            }
            let other = if v.schema == "one" { "three" } else { "one" };
            match s.read(name, other) {
                Ok(_) => return Err(format!("{}: another schema is accepted", what)),
                Err(ref e) if kind_of(e) != "wrong signature" => return Err(format!("{}: another schema gives {:?}", what, e)),
                _ => (),
            }
        }
    }
    Ok(())
}

fn exists(handles: &[Storage], map: &Map) -> Result<(), String> {
    for (i, k) in KEYS.iter().enumerate() {
        for (h, name) in k.via {
            let s = &handles[*h];
            for n in &[name.to_string(), format!("{}.schema", name)] {
                let got = s.exists(n);
                let want = match map.get(&i) {
                    None => false,
                    Some(State::Written(_)) => true,
                    Some(State::Partial) | Some(State::Unsure(_)) => got,
                };
                if got != want {
                    return Err(format!("exists({}) through handle {} is {}", n, h, got));
                }
            }
        }
    }
    for (h, s) in handles.iter().enumerate() {
        for n in &["b", "d", "e", "d/b", "d/e", "", "a/a", "d/e/b", "a_index", "schema", "aa.schema.schema"] {
            if KEYS.iter().any(|k| k.via.contains(&(h, *n))) {
                continue;
            }
            if s.exists(n) {
                return Err(format!("exists({:?}) through handle {} although never written", n, h));
            }
            match s.read(n, "one") {
                Err(ref e) if kind_of(e) == "missing" || *n == "a/a" => (),
                r => return Err(format!("reading {:?} through handle {} although never written: {:?}", n, h, r)),
            }
        }
    }
    Ok(())
}

/// Everything, through every handle.
fn look(handles: &[Storage], map: &Map) -> Result<(), String> {
    for k in 0..KEYS.len() {
        for v in 0..KEYS[k].via.len() {
            read(handles, map, k, v, None)?;
        }
    }
    exists(handles, map)
}

fn write(s: &Storage, name: &str, v: &Value, way: usize) -> Result<(), String> {
    let e = |e: std::io::Error| format!("writing {}: {}", name, e);
    match way {
        0 => s.write(name, v.schema, &v.data).map_err(e),
        1 => {
            // by elements of four bytes, if possible
            if v.data.len() % 4 != 0 {
                return write(s, name, v, 0);
            }
            let mut w = create_external_vector::<E4>(&**s, name, v.schema).map_err(e)?;
            for c in v.data.chunks(4) {
                let mut x = w.grow().map_err(e)?;
                x.set_x(u32::from(c[0]) | u32::from(c[1]) << 8);
                x.set_y(u32::from(c[2]) | u32::from(c[3]) << 8);
            }
            w.close().map(|_| ()).map_err(|e| format!("writing {}: {}", name, e))
        }
        _ => {
            use std::io::Write;
            for (n, bytes) in &[(format!("{}.schema", name), v.schema.as_bytes().to_vec()), (name.to_string(), framed(&v.data))] {
                let st = s.create_output_stream(n).map_err(e)?;
                for c in bytes.chunks(7) {
                    st.borrow_mut().write_all(c).map_err(e)?;
                }
            }
            Ok(())
        }
    }
}

fn handles(memory: bool, dir: &std::path::Path) -> Vec<Storage> {
    let root = storage(memory, dir);
    let d = root.subdir("d");
    let e = d.subdir("e");
    vec![root, d, e]
}

/// Sequences of operations through any handle, with everything returned so far compared after each.
fn history(ch: &mut Ch, depth: usize, keys: &[usize], values: &[usize], ways: &[usize], vias: bool, partial: bool) -> Result<(), String> {
    let memory = ch.flag();
    let tmp = ch.scratch.fresh();
    let mut hist = vec![format!("memory {}", memory)];
    let r = falloc::guarded(|| -> Result<(), String> {
        let mut hs = handles(memory, &tmp.path);
        let mut map = Map::new();
        let mut held: Vec<Held> = Vec::new();
        let mut open: BTreeMap<usize, _> = BTreeMap::new();
        for _ in 0..depth {
            // an operation is a number: stop, read a key, write a key, begin or finish a key
            let mut ops: Vec<(usize, usize, usize, usize, usize)> = vec![(0, 0, 0, 0, 0)];
            for k in keys {
                for via in 0..if vias { KEYS[*k].via.len() } else { 1 } {
                    ops.push((1, *k, via, 0, 0));
                    if !open.contains_key(k) {
                        for v in values {
                            for w in ways {
                                ops.push((2, *k, via, *v, *w));
                            }
                        }
                        if partial {
                            ops.push((3, *k, via, 0, 0));
                        }
                    } else if partial {
                        ops.push((4, *k, via, 0, 0));
                    }
                }
            }
            let (op, k, via, v, way) = ops[ch.choose(ops.len())];
            if op == 0 {
                break;
            }
            let (h, name) = KEYS[k].via[via];
            let text = match op {
                1 => format!("read {} through {}", name, h),
                2 => format!("write value {} to {} through {} (way {})", v, name, h, way),
                3 => format!("begin to write {} through {}", name, h),
                _ => format!("finish writing {}", name),
            };
            falloc::unguarded(|| {
                hist.push(text.clone());
                ch.step(|| text.clone());
            });
            let ctx = |e: String| falloc::unguarded(|| format!("{}: {}", hist.join(", "), e));
            match op {
                1 => read(&hs, &map, k, via, Some(&mut held)).map_err(&ctx)?,
                2 => {
                    let v = value(v);
                    write(&hs[h], name, &v, way).map_err(&ctx)?;
                    map.insert(k, State::Written(v));
                }
                3 => {
                    use std::io::Write;
                    let st = hs[h].create_output_stream(&format!("{}.schema", name)).map_err(|e| ctx(e.to_string()))?;
                    st.borrow_mut().write_all(value(4).schema.as_bytes()).map_err(|e| ctx(e.to_string()))?;
                    let st = hs[h].create_output_stream(name).map_err(|e| ctx(e.to_string()))?;
                    st.borrow_mut().write_all(&framed(&value(4).data)[..13]).map_err(|e| ctx(e.to_string()))?;
                    open.insert(k, st);
                    map.insert(k, State::Partial);
                }
                _ => {
                    use std::io::Write;
                    let st = open.remove(&k).unwrap();
                    st.borrow_mut().write_all(&framed(&value(4).data)[13..]).map_err(|e| ctx(e.to_string()))?;
                    map.insert(k, State::Written(value(4)));
                }
            }
            check_held(&held).map_err(&ctx)?;
            falloc::unguarded(|| ch.state(&(memory, &map, held.iter().map(|h| (h.bytes.len(), h.handle)).collect::<Vec<_>>())));
        }
        let ctx = |e: String| falloc::unguarded(|| format!("{}, then {}", hist.join(", "), e));
        look(&hs, &map).map_err(&ctx)?;
        check_held(&held).map_err(&ctx)?;
        if !memory {
            look(&handles(false, &tmp.path), &map).map_err(|e| ctx(format!("anew, {}", e)))?;
        }
        ch.evals(20);
        // what was returned through a handle lives as long as this handle
        if vias && !held.is_empty() {
            let keep = ch.choose(3);
            open.clear();
            for i in 0..3 {
                if i != keep {
                    hs[i] = storage(true, "unused".as_ref());
                }
            }
            held.retain(|h| h.handle == keep);
            check_held(&held).map_err(|e| ctx(format!("other handles dropped, {}", e)))?;
        }
        falloc::unguarded(|| ch.outcome(&(map.len(), held.len(), map.values().map(|s| s == &State::Partial).collect::<Vec<_>>())));
        Ok(())
    });
    falloc::recycle();
    r
}

/// Several storages of one directory, files moved into place and removed by others.
fn shared(ch: &mut Ch, depth: usize, keys: &[usize]) -> Result<(), String> {
    let tmp = ch.scratch.fresh();
    let dir = tmp.path.join("a");
    let mut hist: Vec<String> = vec![];
    let r = falloc::guarded(|| -> Result<(), String> {
        let hs = [handles(false, &dir), handles(false, &dir)];
        let mut map = Map::new();
        let mut held: Vec<Held> = Vec::new();
        for _ in 0..depth {
            let mut ops: Vec<(usize, usize, usize, usize)> = vec![(0, 0, 0, 0)];
            for k in keys {
                for s in 0..2 {
                    ops.push((1, *k, s, 0));
                    for v in 1..4 {
                        ops.push((2, *k, s, v));
                    }
                }
                for v in 1..3 {
                    ops.push((3, *k, 0, v));
                }
                if map.contains_key(k) {
                    ops.push((4, *k, 0, 0));
                }
            }
            let (op, k, s, v) = ops[ch.choose(ops.len())];
            if op == 0 {
                break;
            }
            let path = KEYS[k].via[0].1;
            let via = s.min(KEYS[k].via.len() - 1);
            let (h, name) = KEYS[k].via[via];
            let text = match op {
                1 => format!("read {} through storage {}", path, s),
                2 => format!("write value {} to {} through storage {}", v, path, s),
                3 => format!("files of value {} are moved to {}", v, path),
                _ => format!("the files of {} are removed", path),
            };
            falloc::unguarded(|| {
                hist.push(text.clone());
                ch.step(|| text.clone());
            });
            let ctx = |e: String| falloc::unguarded(|| format!("{}: {}", hist.join(", "), e));
            match op {
                1 => read(&hs[s], &map, k, via, Some(&mut held)).map_err(&ctx)?,
                2 => {
                    let v = value(v);
                    write(&hs[s][h], name, &v, 0).map_err(&ctx)?;
                    map.insert(k, State::Written(v));
                }
                3 => {
                    let v = value(v);
                    let next = tmp.path.join("next");
                    write(&storage(false, &next), "x", &v, 0).map_err(&ctx)?;
                    let to = dir.join(path);
                    (|| {
                        std::fs::create_dir_all(to.parent().unwrap())?;
                        std::fs::rename(next.join("x"), &to)?;
                        std::fs::rename(next.join("x.schema"), dir.join(format!("{}.schema", path)))
                    })()
                    .map_err(|e: std::io::Error| ctx(e.to_string()))?;
                    map.insert(k, State::Written(v));
                }
                _ => {
                    std::fs::remove_file(dir.join(path)).and_then(|_| std::fs::remove_file(dir.join(format!("{}.schema", path)))).map_err(|e| ctx(e.to_string()))?;
                    map.remove(&k);
                }
            }
            check_held(&held).map_err(&ctx)?;
            falloc::unguarded(|| ch.state(&(&map, held.iter().map(|h| h.bytes.len()).collect::<Vec<_>>())));
        }
        let ctx = |e: String| falloc::unguarded(|| format!("{}, then {}", hist.join(", "), e));
        for (s, h) in hs.iter().enumerate() {
            look(h, &map).map_err(|e| ctx(format!("through storage {}, {}", s, e)))?;
        }
        check_held(&held).map_err(&ctx)?;
        ch.evals(40);
        falloc::unguarded(|| ch.outcome(&(map.len(), held.len())));
        Ok(())
    });
    falloc::recycle();
    r
}

/// A long history of one key: many snapshots or mappings at once.
fn many(ch: &mut Ch, max: usize) -> Result<(), String> {
    let memory = ch.flag();
    let values = 1 + ch.choose(4);
    let reads = 1 + ch.choose(3);
    let tmp = ch.scratch.fresh();
    let ctx = format!("memory {}, {} values in turn, read {} times", memory, values, reads);
    ch.step(|| ctx.clone());
    let r = falloc::guarded_strict(|| -> Result<(), String> {
        let hs = handles(memory, &tmp.path);
        let mut map = Map::new();
        let mut held = Vec::new();
        for i in 0..max {
            let v = value(1 + i % values);
            let k = i % 2 + 1;
            write(&hs[KEYS[k].via[0].0], KEYS[k].via[0].1, &v, 0)?;
            map.insert(k, State::Written(v));
            for r in 0..reads {
                read(&hs, &map, k, r % KEYS[k].via.len(), Some(&mut held)).map_err(|e| format!("write {}: {}", i, e))?;
            }
            check_held(&held).map_err(|e| format!("write {}: {}", i, e))?;
        }
        look(&hs, &map)
    });
    falloc::recycle();
    ch.evals((max * reads) as u64);
    ch.state(&(memory, values, reads));
    ch.outcome(&(memory, values));
    r.map_err(|e| format!("{}: {}", ctx, e))
}

const SCHEMA: &str = "some schema";
/// Values of many sizes, written again with a difference in one place.
fn large(ch: &mut Ch, bits: u32) -> Result<(), String> {
    let memory = ch.flag();
    let k = 6 + ch.choose(bits as usize - 5);
    let n = (1usize << k) - 17 + *ch.pick(&[0usize, 1, 2, 16, 17, 18]);
    // in whole or in pieces through a stream
    let way = ch.choose(2);
    let mut at = big::places(n);
    if k > 20 {
        let last = at.len() - 1;
        at = vec![at[0], at[last / 2], 4096, 65_536, n / 2, n - 9, n - 1];
    }
    let at = at[ch.choose(at.len())];
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} bytes written twice (way {}) that differ in byte {}, memory {}", n, way, at, memory);
    ch.step(|| ctx.clone());
    ch.state(&(memory, n, at, way));
    ch.outcome(&(memory, k));
    let mut data = big::fill(n, 5);
    let mut held: Option<&[u8]> = None;
    let mut first = Vec::new();
    for round in 0..3 {
        if way == 0 {
            s.write("res", SCHEMA, &data).map_err(|e| format!("{}: {}", ctx, e))?;
        } else {
            let all = framed(&data);
            let w = s.create_output_stream("res").map_err(|e| format!("{}: {}", ctx, e))?;
            for piece in all.chunks((n / 3).max(7)) {
                w.borrow_mut().write_all(piece).map_err(|e| format!("{}: {}", ctx, e))?;
            }
            drop(w);
            let w = s.create_output_stream("res.schema").map_err(|e| format!("{}: {}", ctx, e))?;
            w.borrow_mut().write_all(SCHEMA.as_bytes()).map_err(|e| format!("{}: {}", ctx, e))?;
        }
        let got = s.read("res", SCHEMA).map_err(|e| format!("{}, round {}: {}", ctx, round, e))?;
        if let Some(d) = big::differs(got, &data) {
            return Err(format!("{}, round {}: {}", ctx, round, d));
        }
        ch.evals(1);
        match held {
            None => {
                held = Some(unsafe { std::slice::from_raw_parts(got.as_ptr(), got.len()) });
                first = data.clone();
            }
            Some(h) => {
                if let Some(d) = big::differs(h, &first) {
                    return Err(format!("{}, round {}: what was read at first has changed: {}", ctx, round, d));
                }
            }
        }
        data[at] ^= 1 << (at % 8);
    }
    Ok(())
}

/// Names that look alike or unusual; none is another one's directory or schema.
fn names() -> Vec<String> {
    let mut r: Vec<String> = [
        "a", "A", "aa", "a.b", "a.c", "a.b.c", ".a", "a.", "a b", " a", "a ", "a\u{e9}", "a\u{e8}", "\u{65e5}", "a_index", "a-b", "schema", "a.schema2", "schema.a", "x.archive", "y.archive", "archive", "0", "d1/a", "d1/b", "d1/a.b", "d1.x/a",
        "d2/d1/a", "d2/d1.a", "a\\b", "*", "%61", "a:b", "~", "..a", "a..b", "a\n", "a\t",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for n in &[63, 64, 127, 128, 200, 239, 240] {
        r.push("n".repeat(*n));
    }
    r.push("n".repeat(239) + "m");
    r.push("long/".repeat(100) + "x");
    r.push("long/".repeat(99) + "x");
    r
}

/// Every pair of names, in the root or below.
fn named(ch: &mut Ch, names: &[String]) -> Result<(), String> {
    let memory = ch.flag();
    let below = ch.flag();
    let a = ch.choose(names.len());
    let way = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let root = storage(memory, &tmp.path);
    for b in 0..names.len() {
        if a == b {
            continue;
        }
        let dir = format!("p{}", b);
        let s = root.subdir(&dir);
        let (s, pre) = if below { (s.subdir("q.r"), "q.r/") } else { (s, "") };
        let (x, y) = (&names[a][..], &names[b][..]);
        let ctx = |e: String| format!("memory {}, {:?} and {:?} in {:?}, way {}: {}", memory, x, y, pre, way, e);
        ch.step(|| format!("{:?} and {:?} in {:?}, memory {}, way {}", x, y, pre, memory, way));
        let check = |n: &str, want: Option<&Value>| -> Result<(), String> {
            for (st, n) in &[(s.clone(), n.to_string()), (root.subdir(&dir), format!("{}{}", pre, n))] {
                let got = catch(|| st.read(n, want.map_or("one", |v| v.schema)).map(|d| d.to_vec())).map_err(|p| ctx(format!("reading {:?} panics: {}", n, p)))?;
                match (got, want) {
                    (Ok(d), Some(v)) if d == v.data => (),
                    (Err(ref e), None) if kind_of(e) == "missing" => (),
                    (r, _) => return Err(ctx(format!("reading {:?} gives {:?} instead of {:?} bytes", n, r.map(|d| d.len()), want.map(|v| v.data.len())))),
                }
                for m in &[n.to_string(), format!("{}.schema", n)] {
                    if st.exists(m) != want.is_some() {
                        return Err(ctx(format!("exists({:?}) is {}", m, st.exists(m))));
                    }
                }
            }
            Ok(())
        };
        let (v1, v2, v3) = (value(1), value(2), value(3));
        write(&s, x, &v1, way).map_err(&ctx)?;
        check(x, Some(&v1))?;
        check(y, None)?;
        write(&s, y, &v2, way).map_err(&ctx)?;
        check(x, Some(&v1))?;
        check(y, Some(&v2))?;
        write(&s, x, &v3, way).map_err(&ctx)?;
        check(x, Some(&v3))?;
        check(y, Some(&v2))?;
        ch.evals(1);
    }
    ch.state(&(memory, below, a, way));
    ch.outcome(&(memory, a));
    Ok(())
}

/// As above with failing calls: only the key that was written may suffer.
fn faults(ch: &mut Ch, depth: usize) -> Result<(), String> {
    use mccore::interpose::{far, with_plan, Action, Call, Kind};
    let tmp = ch.scratch.fresh();
    let mut hist = vec![];
    let hs = handles(false, &tmp.path);
    let mut map = Map::new();
    let mut held: Vec<Held> = Vec::new();
    for k in 0..2 {
        write(&hs[0], KEYS[k].via[0].1, &value(1), 0)?;
        map.insert(k, State::Written(value(1)));
    }
    for _ in 0..depth {
        let k = ch.choose(3);
        let via = ch.choose(KEYS[k].via.len().min(2));
        let op = ch.choose(4);
        let (h, name) = KEYS[k].via[via];
        let v = value([1, 2, 4, 4][op]);
        hist.push(if op == 0 { format!("read {} through {}", name, h) } else { format!("write {} bytes to {} through {} in way {}", v.data.len(), name, h, op % 2) });
        ch.step(|| hist.last().unwrap().clone());
        let mut failed = vec![];
        let mut pieces = false;
        let r = with_plan(
            Box::new(|c: &Call| {
                let n = match c.kind {
                    _ if far(c, 16) => return Action::Pass,
                    Kind::Write if c.len > 0 => 3,
                    // a file that cannot be mapped is read in pieces
                    Kind::Read if pieces => return Action::Short(c.len.min(c.len / 2 + 1)),
                    Kind::Write | Kind::Munmap => return Action::Pass,
                    _ => 2,
                };
                let a = match ch.dev(n) {
                    0 => return Action::Pass,
                    1 => Action::Fail(libc::EIO),
                    _ => Action::WriteThenFail(c.len / 2, libc::ENOSPC),
                };
                pieces |= c.kind == Kind::Mmap;
                failed.push(format!("{:?} fails", c.kind));
                a
            }),
            || {
                catch(|| {
                    if op == 0 {
                        hs[h].read(name, "two\nlines").map(|_| ()).map_err(|e| e.to_string())
                    } else {
                        write(&hs[h], name, &v, op % 2)
                    }
                })
            },
        );
        if !failed.is_empty() {
            hist.push(failed.join(", "));
            ch.step(|| failed.join(", "));
        }
        let ctx = |e: String| format!("{}: {}", hist.join(", "), e);
        let r = r.map_err(|p| ctx(format!("panics: {}", p)))?;
        if op > 0 {
            match (r, failed.is_empty()) {
                (Ok(()), _) => {
                    map.insert(k, State::Written(v));
                }
                (Err(e), true) => return Err(ctx(e)),
                (Err(_), false) => {
                    let mut vs = vec![v];
                    match map.remove(&k) {
                        Some(State::Written(o)) => vs.push(o),
                        Some(State::Unsure(o)) => vs.extend(o),
                        _ => (),
                    }
                    map.insert(k, State::Unsure(vs));
                }
            }
        }
        check_held(&held).map_err(&ctx)?;
        for k in 0..3 {
            for v in 0..KEYS[k].via.len() {
                read(&hs, &map, k, v, Some(&mut held)).map_err(&ctx)?;
            }
        }
        exists(&hs, &map).map_err(&ctx)?;
        look(&handles(false, &tmp.path), &map).map_err(|e| ctx(format!("anew, {}", e)))?;
        ch.state(&(&map, held.iter().map(|h| (h.bytes.len(), h.handle)).collect::<Vec<_>>()));
    }
    check_held(&held).map_err(|e| format!("{}: {}", hist.join(", "), e))?;
    ch.evals(depth as u64);
    ch.outcome(&(map.len(), held.len()));
    Ok(())
}

/// Many keys at once.
fn crowd(ch: &mut Ch, max: usize) -> Result<(), String> {
    let memory = ch.flag();
    let nested = ch.choose(3);
    let order = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let ctx = format!("memory {}, {} keys, nested {}, order {}", memory, max, nested, order);
    ch.step(|| ctx.clone());
    let name = |i: usize| match nested {
        0 => format!("k{}", i),
        1 => format!("d{}/e{}/k", i % 10, i),
        _ => format!("d{}/k{}", i % 2, i),
    };
    let data = |i: usize, g: usize| -> Vec<u8> { (0..i % 20 + 1).map(|k| (k * 3 + i + i / 256 + g * 100) as u8).collect() };
    let at = |k: usize| match order {
        0 => k,
        1 => max - 1 - k,
        _ => (k * 7919) % max,
    };
    let s = storage(memory, &tmp.path);
    let subs: Vec<Storage> = (0..2).map(|i| s.subdir(&format!("d{}", i))).collect();
    let mut held: Vec<Held> = vec![];
    let look = |i: usize, g: Option<usize>, held: &mut Vec<Held>| -> Result<(), String> {
        let n = name(i);
        let ways: Vec<(&Storage, String)> = if nested == 2 && i % 3 == 0 { vec![(&subs[i % 2], format!("k{}", i)), (&s, n)] } else { vec![(&s, n)] };
        for (s, n) in ways {
            match (s.read(&n, "schema"), g) {
                (Ok(d), Some(g)) if d == &data(i, g)[..] => held.push(Held { ptr: d.as_ptr(), len: d.len(), bytes: data(i, g), handle: 0, what: format!("reading {}", n) }),
                (Err(ref e), None) if kind_of(e) == "missing" => (),
                (r, _) => return Err(format!("{}: reading {} gives {:02x?} instead of {:02x?}", ctx, n, r, g.map(|g| data(i, g)))),
            }
            if s.exists(&n) != g.is_some() {
                return Err(format!("{}: exists({}) is {}", ctx, n, s.exists(&n)));
            }
        }
        Ok(())
    };
    for k in 0..max {
        s.write(&name(at(k)), "schema", &data(at(k), 0)).map_err(|e| e.to_string())?;
        if k % 2 == 0 {
            look(at(k), Some(0), &mut held)?;
        }
        if k + 1 < max {
            look(at(max - 1), None, &mut held)?;
        }
    }
    for k in 0..max {
        look(k, Some(0), &mut held)?;
    }
    // a third of them again
    for k in (0..max).filter(|k| k % 3 == 1) {
        s.write(&name(k), "schema", &data(k, 1)).map_err(|e| e.to_string())?;
    }
    for round in 0..2 {
        for k in 0..max {
            let k = if round == 1 { at(k) } else { k };
            look(k, Some((k % 3 == 1) as usize), &mut held)?;
        }
    }
    check_held(&held)?;
    ch.evals(held.len() as u64);
    ch.state(&(memory, nested, order));
    ch.outcome(&(memory, nested));
    Ok(())
}

/// The same storage by differently written roots, seen from different working directories.
fn roots(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let tmp = ch.scratch.fresh();
    let base = &tmp.path;
    let rooted = |r: &str| -> std::path::PathBuf {
        match r {
            "/" => base.join("w/r"),
            "//" => format!("{}/w//r", base.display()).into(),
            "/." => format!("{}/./w/./r/.", base.display()).into(),
            "/.." => base.join("w/o/../r"),
            "/end/" => format!("{}/w/r/", base.display()).into(),
            "link" => base.join("link"),
            "below link" => base.join("wlink/r"),
            _ => r.into(),
        }
    };
    // (root, working directory)
    const ROOTS: [(&str, &str); 15] = [
        ("/", "w/r"),
        ("//", "w"),
        ("/.", "w/r"),
        ("/..", "w"),
        ("/end/", "w/r"),
        ("link", "w"),
        ("below link", "w/r"),
        ("r", "w"),
        ("./r", "w"),
        ("r/", "w"),
        ("../w/r", "w"),
        ("", "w/r"),
        (".", "w/r"),
        ("..", "w/r/d"),
        ("./.", "w/r"),
    ];
    std::fs::create_dir_all(base.join("w/o")).map_err(|e| e.to_string())?;
    std::os::unix::fs::symlink("w", base.join("wlink")).map_err(|e| e.to_string())?;
    let a = ch.choose(ROOTS.len());
    let there = ROOTS[a].1 != "w" || ROOTS[a].0 == "link" || ch.flag();
    if there {
        std::fs::create_dir_all(base.join("w/r/d")).map_err(|e| e.to_string())?;
    }
    std::os::unix::fs::symlink("w/r", base.join("link")).map_err(|e| e.to_string())?;
    let mut hist = vec![format!("root {:?} in {:?}{}", ROOTS[a].0, ROOTS[a].1, if there { "" } else { ", not there" })];
    ch.step(|| hist[0].clone());
    let r = (|| -> Result<(), String> {
        std::env::set_current_dir(base.join(ROOTS[a].1)).map_err(|e| e.to_string())?;
        let s: Storage = flatdata::FileResourceStorage::new(rooted(ROOTS[a].0));
        let hs = vec![s.clone(), s.subdir("d"), s.subdir("d").subdir("e")];
        let mut map = Map::new();
        let mut held = vec![];
        for _ in 0..depth {
            let k = ch.choose(3);
            let via = ch.choose(KEYS[k].via.len());
            let (h, name) = KEYS[k].via[via];
            let v = value(1 + ch.choose(3));
            let way = ch.choose(2);
            hist.push(format!("write {} through {} (way {})", name, h, way));
            ch.step(|| hist.last().unwrap().clone());
            write(&hs[h], name, &v, way)?;
            map.insert(k, State::Written(v));
            read(&hs, &map, k, via, Some(&mut held))?;
            look(&hs, &map)?;
            check_held(&held)?;
        }
        // by every other root
        for (root, wd) in &ROOTS {
            std::fs::create_dir_all(base.join(wd)).map_err(|e| e.to_string())?;
            std::env::set_current_dir(base.join(wd)).map_err(|e| e.to_string())?;
            let s: Storage = flatdata::FileResourceStorage::new(rooted(root));
            let hs = vec![s.clone(), s.subdir("d"), s.subdir("d").subdir("e")];
            look(&hs, &map).map_err(|e| format!("by root {:?} in {:?}: {}", root, wd, e))?;
        }
        check_held(&held)?;
        ch.evals(15);
        ch.state(&(a, there, &map));
        ch.outcome(&(a, map.len()));
        Ok(())
    })();
    std::env::set_current_dir("/").map_err(|e| e.to_string())?;
    r.map_err(|e| format!("{}: {}", hist.join(", "), e))
}

fn main() {
    mccore::main("C19", Level::ModelChecking, "every execution runs a real storage next to a map; states are (storage, map, what was returned so far)", |run| {
        let t = run.thorough;
        let d = if t { 5 } else { 4 };
        run.explore("few-keys", &format!("{} operations on 2 keys: read, write 4 values (two of equal length, an empty one and one longer than a page), begin and finish a stream", d), 0, move |ch| {
            history(ch, d, &[0, 1], &[0, 1, 2, 3], &[0], false, true)
        });
        let d = if t { 4 } else { 3 };
        run.explore("more-keys", &format!("{} operations on 4 keys with common parts of their names, 3 values", d), 0, move |ch| history(ch, d, &[0, 1, 2, 3], &[1, 2, 3], &[0], false, true));
        run.explore("handles", &format!("{} operations through root and sub-directory handles, 2 values, written at once, by vectors and streams; then all handles but one dropped", d), 0, move |ch| {
            history(ch, d, &[1, 2], &[1, 2], &[0, 1, 2], true, false)
        });
        let d = if t { 9 } else { 6 };
        run.explore("one-key", &format!("{} operations on one key: read, write 2 values of equal length and a longer one, begin and finish", d), 0, move |ch| history(ch, d, &[1], &[1, 2, 3], &[0], false, true));
        let d = if t { 5 } else { 4 };
        run.explore("shared", &format!("{} operations through two storages of one directory: read, write, files moved into place or removed by others, on 2 keys", d), 0, move |ch| shared(ch, d, &[0, 1]));
        let d = if t { 7 } else { 5 };
        run.explore("shared-one", &format!("{} such operations on one key", d), 0, move |ch| shared(ch, d, &[2]));
        let n = if t { 300 } else { 60 };
        let ns = names();
        run.explore("names", &format!("every pair of {} names, alike, unusual, long or deep, in two directories, written in three ways", ns.len()), 0, |ch| named(ch, &ns));
        let (d, f) = if t { (4, 2) } else { (3, 1) };
        run.explore("faults", &format!("{} reads and writes in files, up to {} failing calls", d, f), f, move |ch| faults(ch, d));
        let k = if t { 6000 } else { 1500 };
        run.explore("crowd", &format!("{} keys at once, in one or many directories, three orders; a third written again", k), 0, move |ch| crowd(ch, k));
        let d = if t { 3 } else { 2 };
        run.explore("roots", &format!("{} writes below 15 forms of the root (relative, with dots, slashes, links, empty), read by every other form", d), 0, move |ch| roots(ch, d));
        let b = if run.thorough { 26 } else { 24 };
        run.explore("large", &format!("values of sizes around powers of two to 2^{}, written three times with a difference in any one place around powers of two", b), 0, move |ch| large(ch, b));
        run.explore("many", &format!("{} writes of two keys with reads in between, everything returned is compared after each", n), 0, move |ch| many(ch, n));
    })
}
