//! C06: histories of multivector writers next to lists of buckets, and damaged stored elements.
use checks::fat::*;
use checks::huge::*;
use checks::*;
use flatdata::{ArrayView, MultiArrayView, MultiVector, VariadicStruct};
use mccore::falloc;
use std::path::Path;

const SCHEMA: &str = "mv\nschema";

/// Elements with their bytes; None for the value: not set.
type Elements = Vec<(usize, Option<u64>)>;

fn element_bytes<V: Var>(kind: usize, v: Option<u64>) -> Vec<u8> {
    match v {
        Some(v) => V::bytes(kind, v),
        None => {
            let mut b = vec![V::tags()[kind]];
            b.resize(1 + V::sizes()[kind], 0);
            b
        }
    }
}
fn element_vals<V: Var>(kind: usize, v: Option<u64>) -> Vals {
    V::values_of_bytes(kind, &element_bytes::<V>(kind, v)[1..])
}

fn earlier<I: Idx, V: Var>(s: &Storage, name: &str) -> Result<(), String> {
    let mut w = create_multi_vector::<I, V>(&**s, name, SCHEMA).map_err(|e| e.to_string())?;
    V::add(&mut w.grow().map_err(|e| e.to_string())?, 0, 60);
    w.grow().map_err(|e| e.to_string())?;
    w.close().map(|_| ()).map_err(|e| e.to_string())
}

fn same<I: Idx, V: Var>(view: &MultiArrayView<I, V>, m: &[Elements], ctx: &str) -> Result<(), String> {
    if view.len() != m.len() {
        return Err(format!("{} has {} buckets instead of {}", ctx, view.len(), m.len()));
    }
    for (i, b) in m.iter().enumerate() {
        if m.len() > 2000 && i > 20 && i < m.len() - 20 && i % 1000 != 0 {
            continue;
        }
        if b.len() > 20_000 {
            // the bytes are compared anyway; values near the ends
            let n = view.at(i).count();
            if n != b.len() {
                return Err(format!("{}: bucket {} has {} elements instead of {}", ctx, i, n, b.len()));
            }
        }
        let near = |j: usize| b.len() <= 20_000 || j < 2000 || j + 2000 >= b.len();
        let got: Vec<(usize, Vals)> = view.at(i).enumerate().filter(|(j, _)| near(*j)).map(|(_, x)| V::get(&x)).collect();
        let want: Vec<(usize, Vals)> = b.iter().enumerate().filter(|(j, _)| near(*j)).map(|(_, (k, v))| (*k, element_vals::<V>(*k, *v))).collect();
        if got != want {
            return Err(format!("{}: bucket {} is {:?} instead of {:?}", ctx, i, got, want));
        }
    }
    Ok(())
}

/// Checks what closing returns and what reading gives.
fn finish<I: Idx, V: Var>(w: MultiVector<I, V>, s: &Storage, memory: bool, dir: &Path, name: &str, m: &[Elements], ctx: &str) -> Result<(), String> {
    let view = match w.close() {
        Ok(v) => v,
        Err(e) => return Err(format!("{}: close fails: {}", ctx, e)),
    };
    let judge = |what: &str, view: &MultiArrayView<I, V>| match catch(|| same(view, m, &format!("{}, {}", ctx, what))) {
        Ok(r) => r,
        Err(p) => Err(format!("{}: reading {} panics: {}", ctx, what, p)),
    };
    judge("closed", &view)?;
    let (mut index, mut data) = (Vec::new(), Vec::new());
    let mut cache = std::collections::HashMap::new();
    for b in m {
        index.extend(I::bytes(data.len() as u64));
        for x in b {
            data.extend(cache.entry(*x).or_insert_with(|| element_bytes::<V>(x.0, x.1)).iter());
        }
    }
    index.extend(I::bytes(data.len() as u64));
    let index_name = format!("{}_index", name);
    for fresh in &[false, true] {
        if memory && *fresh {
            continue;
        }
        let st = if *fresh { storage(false, dir) } else { s.clone() };
        let i = st.read(&index_name, &format!("index({})", SCHEMA)).map_err(|e| format!("{}: reading the index: {}", ctx, e))?;
        let d = st.read(name, SCHEMA).map_err(|e| format!("{}: reading the data: {}", ctx, e))?;
        if i != &index[..] {
            return Err(format!("{}: the index is {:.400} instead of {:.400}", ctx, format!("{:02x?}", i), format!("{:02x?}", index)));
        }
        if d != &data[..] {
            let at = d.iter().zip(&data).position(|(a, b)| a != b);
            return Err(format!("{}: {} bytes of data instead of {}, first difference at {:?}", ctx, d.len(), data.len(), at));
        }
        judge("read again", &MultiArrayView::new(ArrayView::new(i), d))?;
    }
    Ok(())
}

fn history<I: Idx, V: Var>(ch: &mut Ch, buckets: usize, elements: usize, name: &'static str, wide: bool) -> Result<(), String> {
    let memory = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let before = !wide && ch.flag();
    if before {
        earlier::<I, V>(&s, name)?;
    }
    let kinds = V::tags().len();
    let mut hist = vec![format!("{} {} memory {}, earlier {}", I::NAME, V::NAME, memory, before)];
    ch.note(|| hist[0].clone());
    let mut w = create_multi_vector::<I, V>(&*s, name, SCHEMA).map_err(|e| e.to_string())?;
    let mut m: Vec<Elements> = Vec::new();
    let r = (|| -> Result<(), String> {
        for d in 0..buckets {
            let op = ch.choose(3);
            if op == 0 {
                break;
            }
            if op == 2 {
                hist.push("read".into());
                ch.step(|| "read".into());
                let r = catch(|| {
                    let i = s.read(&format!("{}_index", name), &format!("index({})", SCHEMA)).is_ok();
                    let d = s.read(name, SCHEMA).is_ok();
                    (i, d)
                })
                .map_err(|p| format!("{}: panics: {}", hist.join(", "), p))?;
                if r.0 || r.1 {
                    return Err(format!("{}: index and data read before the writer is closed: {:?}", hist.join(", "), r));
                }
            }
            hist.push("bucket".into());
            ch.step(|| "bucket".into());
            let mut x = w.grow().map_err(|e| format!("{}: grow fails: {}", hist.join(", "), e))?;
            m.push(vec![]);
            for e in 0..elements {
                let k = ch.choose(kinds * if wide { 1 } else { 2 } + 1);
                if k == 0 {
                    break;
                }
                let (kind, set) = ((k - 1) % kinds, k <= kinds);
                let v = (d * elements + e) as u64 + 3;
                hist.push(format!("add {}{}", kind, if set { "" } else { " unset" }));
                ch.step(|| hist.last().unwrap().clone());
                if set {
                    V::add_checked(&mut x, kind, v).map_err(|e| format!("{}: {}", hist.join(", "), e))?;
                } else {
                    V::add_untouched(&mut x, kind);
                }
                m.last_mut().unwrap().push((kind, if set { Some(v) } else { None }));
            }
            if wide {
                ch.state(&(I::NAME, V::NAME, memory, &hist));
            } else {
                ch.state(&(I::NAME, V::NAME, memory, before, &m));
            }
        }
        Ok(())
    })();
    if let Err(e) = r {
        std::mem::forget(w);
        return Err(e);
    }
    hist.push("close".into());
    ch.step(|| "close".into());
    ch.outcome(&(memory, m.iter().map(|b| b.len()).collect::<Vec<_>>()));
    finish(w, &s, memory, &tmp.path, name, &m, &hist.join(", "))
}

/// Several flushes: every sequence of buckets that are empty, small, cross the limit, or both.
fn flushes<I: Idx>(ch: &mut Ch, buckets: usize) -> Result<(), String> {
    const MENU: [&[usize]; 4] = [&[], &[1], &[2], &[2, 1]];
    let memory = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut w = create_multi_vector::<I, VarG>(&*s, "mv", SCHEMA).map_err(|e| e.to_string())?;
    let mut m: Vec<Elements> = Vec::new();
    let mut bad = None;
    for d in 0..buckets {
        let kinds = *ch.pick(&MENU[..]);
        ch.step(|| format!("bucket {:?}", kinds));
        match w.grow() {
            Ok(mut x) => {
                m.push(kinds.iter().map(|k| (*k, Some(3 + d as u64))).collect());
                for k in kinds {
                    <VarG as Var>::add(&mut x, *k, 3 + d as u64);
                }
            }
            Err(e) => bad = Some(format!("{:?}: grow fails: {}", m, e)),
        };
        ch.state(&(I::NAME, "flushes", memory, &m));
    }
    if let Some(e) = bad {
        std::mem::forget(w);
        return Err(e);
    }
    let ctx = format!("{} VarG memory {}, buckets {:?}", I::NAME, memory, m);
    ch.outcome(&(memory, m.iter().map(|b| b.len()).collect::<Vec<_>>()));
    finish(w, &s, memory, &tmp.path, "mv", &m, &ctx)
}

/// Offsets around the largest one the index type can hold.
fn overflow<I: Idx, V: Var>(ch: &mut Ch, buckets: usize, counts: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let kind = ch.choose(V::tags().len());
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut w = create_multi_vector::<I, V>(&*s, "mv", SCHEMA).map_err(|e| e.to_string())?;
    let max = mask(I::BITS) as usize;
    let mut m: Vec<Elements> = Vec::new();
    let mut offset = 0;
    let mut failed = false;
    let mut hist = vec![format!("{} {} memory {}", I::NAME, V::NAME, memory)];
    let r = (|| -> Result<(), String> {
        for d in 0..buckets {
            let c = ch.choose(counts.len() + 1);
            if c == 0 {
                break;
            }
            hist.push(format!("bucket of {} at {}", counts[c - 1], offset));
            ch.step(|| hist.last().unwrap().clone());
            match w.grow() {
                Ok(mut x) => {
                    m.push(vec![]);
                    for e in 0..counts[c - 1] {
                        let v = (d * 100 + e) as u64 + 3;
                        V::add(&mut x, kind, v);
                        m.last_mut().unwrap().push((kind, Some(v)));
                        offset += 1 + V::sizes()[kind];
                    }
                }
                Err(e) => {
                    if offset <= max {
                        return Err(format!("{}: grow at offset {} fails: {}", hist.join(", "), offset, e));
                    }
                    hist.push("failed".into());
                    failed = true;
                }
            }
            ch.state(&(I::NAME, V::NAME, memory, kind, offset, m.len(), failed));
        }
        Ok(())
    })();
    if let Err(e) = r {
        std::mem::forget(w);
        return Err(e);
    }
    ch.outcome(&(offset > max, failed));
    if offset <= max {
        return finish(w, &s, memory, &tmp.path, "mv", &m, &hist.join(", "));
    }
    match catch(|| w.close().map(|v| v.len())) {
        Err(p) => return Err(format!("{}: close panics: {}", hist.join(", "), p)),
        Ok(Ok(n)) => return Err(format!("{}: close succeeds with {} buckets, although offset {} does not fit", hist.join(", "), n, offset)),
        Ok(Err(_)) => (),
    }
    for st in &[s.clone(), storage(memory, &tmp.path)] {
        let r = catch(|| (st.read("mv_index", &format!("index({})", SCHEMA)).is_ok(), st.read("mv", SCHEMA).is_ok())).map_err(|p| format!("{}: reading panics: {}", hist.join(", "), p))?;
        if r.0 && r.1 {
            return Err(format!("{}: close failed, but index and data can be read", hist.join(", ")));
        }
    }
    Ok(())
}

/// So many elements that data is flushed.
fn long<I: Idx, V: Var>(ch: &mut Ch, flushes: usize, around: usize) -> Result<(), String> {
    let memory = ch.flag();
    let kind = ch.choose(V::tags().len());
    let size = 1 + V::sizes()[kind];
    let k = 1 + ch.choose(flushes);
    let n = k * (32 * MIB / size + 1) + ch.choose(2 * around + 1) - around;
    let per = *ch.pick(if ch.thorough { &[1usize, 1000, 1_000_000][..] } else { &[1000, 1_000_000][..] });
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} elements of {} bytes, {} per bucket, memory {}", n, size, per, memory);
    ch.step(|| ctx.clone());
    let mut w = create_multi_vector::<I, V>(&*s, "dir/mv", SCHEMA).map_err(|e| e.to_string())?;
    let mut m: Vec<Elements> = Vec::new();
    let mut i = 0;
    let mut bad = None;
    while i < n && bad.is_none() {
        match w.grow() {
            Ok(mut x) => {
                let mut b = Vec::new();
                while i < n && b.len() < per {
                    let v = (i % 1013) as u64;
                    V::add(&mut x, kind, v);
                    b.push((kind, Some(v)));
                    i += 1;
                }
                m.push(b);
            }
            Err(e) => bad = Some(format!("{}: grow fails: {}", ctx, e)),
        };
    }
    if let Some(e) = bad {
        std::mem::forget(w);
        return Err(e);
    }
    ch.evals(n as u64);
    ch.state(&(I::NAME, V::NAME, memory, kind, n, per));
    ch.outcome(&(kind, k, per));
    finish(w, &s, memory, &tmp.path, "dir/mv", &m, &ctx)
}

/// Elements in data[s..e], and whether that ends properly.
fn decode_bucket<V: Var>(data: &[u8], s: usize, e: usize) -> (Vec<(usize, Vals)>, bool) {
    let mut r = Vec::new();
    if s > e || e > data.len() {
        return (r, false);
    }
    let mut pos = s;
    while pos < e {
        let kind = match V::tags().iter().position(|t| *t == data[pos]) {
            Some(k) => k,
            None => return (r, false),
        };
        let size = V::sizes()[kind];
        if pos + 1 + size > e {
            return (r, false);
        }
        r.push((kind, V::values_of_bytes(kind, &data[pos + 1..][..size])));
        pos += 1 + size;
    }
    (r, true)
}

fn read_bucket<V: Var>(view: &MultiArrayView<Idx32, V>, i: usize, way: usize) -> (Vec<(usize, Vals)>, bool) {
    let mut r = Vec::new();
    let done = catch(|| {
        fn take<'a, V: Var>(mut it: impl Iterator<Item = <V as VariadicStruct<'a>>::Item>, r: &mut Vec<(usize, Vals)>) {
            while let Some(x) = it.next() {
                r.push(V::get(&x));
            }
        }
        match way {
            0 => take::<V>(view.at(i), &mut r),
            1 => {
                let b = view.iter().nth(i).expect("no bucket");
                take::<V>(b, &mut r)
            }
            _ => {
                let v = view.slice(i..i + 1);
                let b = v.iter().next().expect("no bucket");
                take::<V>(b, &mut r)
            }
        }
    })
    .is_ok();
    (r, done)
}

/// Buckets cut anywhere, or with any byte in place of a tag.
fn damaged<V: Var>(ch: &mut Ch) -> Result<(), String> {
    let kinds = V::tags().len();
    let n = ch.choose(3);
    let mut data = Vec::new();
    let mut tags = Vec::new();
    for i in 0..=n {
        tags.push(data.len());
        data.extend(V::bytes(ch.choose(kinds), i as u64 + 3));
    }
    let mode = ch.choose(2);
    let full = data.len();
    let judge = |ch: &mut Ch, data: &[u8], s: usize, e: usize, what: &str| -> Result<(), String> {
        let mut index = Idx32::bytes(s as u64);
        index.extend(Idx32::bytes(e as u64));
        let want = decode_bucket::<V>(data, s, e);
        for way in 0..3 {
            let r = falloc::guarded(|| {
                let (data, index) = (data.to_vec(), index.clone());
                let view: MultiArrayView<Idx32, V> = MultiArrayView::new(ArrayView::new(&index), &data);
                read_bucket(&view, 0, way)
            });
            falloc::recycle();
            let (got, done) = r;
            if got != want.0 || done != want.1 {
                return Err(format!(
                    "{} {} bucket {}..{} of {:02x?} (way {}): gives {:?} and {} instead of {:?} and {}",
                    V::NAME,
                    what,
                    s,
                    e,
                    data,
                    way,
                    got,
                    if done { "ends" } else { "panics" },
                    want.0,
                    if want.1 { "the end" } else { "a panic" }
                ));
            }
        }
        ch.evals(3);
        ch.outcome(&(want.0.len(), want.1));
        Ok(())
    };
    ch.step(|| format!("{} elements, {}", n + 1, if mode == 0 { "cut" } else { "tags" }));
    if mode == 0 {
        for len in 0..=full {
            // behind the data nothing is readable
            for s in 0..=len + 1 {
                for e in 0..=full + 2 {
                    if s == 0 || tags.contains(&s) || s > len || e == len {
                        judge(ch, &data[..len], s, e, "cut")?;
                    }
                }
            }
        }
    } else {
        for t in &tags {
            for b in 0..=255u8 {
                let mut d = data.clone();
                d[*t] = b;
                judge(ch, &d, 0, full, "tag")?;
                judge(ch, &d, *t, full, "tag")?;
            }
        }
    }
    ch.state(&(V::NAME, mode, &data));
    Ok(())
}

/// More than 4 GiB of elements, through files with holes.
fn huge<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    // (types of the elements, sizes of the buckets), repeated
    let kinds = *ch.pick(&[&[0usize, 1][..], &[1, 2, 2]]);
    let sizes = *ch.pick(&[&[1usize][..], &[0, 3, 1]]);
    let value = |n: usize| if n % 4 == 1 { None } else { Some(3 + n as u64 % 2) };
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let what = format!("elements {:?} of {} in buckets of {:?}, offsets of {} bits", kinds, V::NAME, sizes, I::BITS);
    ch.step(|| what.clone());
    let (mut total, mut count) = (0usize, 0usize);
    let mut m: Vec<Vec<(usize, Option<u64>)>> = vec![];
    let mut offsets = vec![];
    let mut failed = None;
    sparse_writes(|| {
        let mut w = create_multi_vector::<I, V>(&*s, "mv", SCHEMA).map_err(|e| e.to_string())?;
        while total < 4200 << 20 && failed.is_none() {
            match w.grow() {
                Ok(mut b) => {
                    offsets.push(total);
                    let mut l = vec![];
                    for _ in 0..sizes[m.len() % sizes.len()] {
                        let (k, v) = (kinds[count % kinds.len()], value(count));
                        match v {
                            Some(v) => V::add(&mut b, k, v),
                            None => V::add_untouched(&mut b, k),
                        }
                        l.push((k, v));
                        count += 1;
                        total += 1 + V::sizes()[k];
                    }
                    m.push(l);
                }
                Err(e) => failed = Some(format!("grow fails: {}", e)),
            }
        }
        let n = m.len();
        // nothing but the offsets may be too large
        let fits = I::BITS >= 64 || total >> I::BITS == 0;
        let mut cache = std::collections::HashMap::new();
        let mut judge = |view: &MultiArrayView<I, V>, how: &str| -> Result<(), String> {
            if view.len() != n {
                return Err(format!("{}: {} has {} buckets instead of {}", what, how, view.len(), n));
            }
            for (i, b) in m.iter().enumerate() {
                let got: Vec<(usize, Vals)> = view.at(i).map(|x| V::get(&x)).collect();
                let want: Vec<(usize, Vals)> = b.iter().map(|(k, v)| (*k, cache.entry((*k, *v)).or_insert_with(|| element_vals::<V>(*k, *v)).clone())).collect();
                if got != want {
                    return Err(format!("{}: {}: bucket {} is {:?} instead of {:?}", what, how, i, got, want));
                }
            }
            Ok(())
        };
        if failed.is_some() {
            let _ = catch(|| drop(w));
        } else {
            match w.close() {
                Ok(view) => judge(&view, "closed")?,
                Err(e) => failed = Some(format!("close fails: {}", e)),
            }
        }
        ch.state(&(I::NAME, V::NAME, kinds, sizes));
        ch.outcome(&(total >> 32, failed.is_some()));
        ch.evals(count as u64);
        match (&failed, fits) {
            (Some(e), true) => return Err(format!("{}: {}", what, e)),
            (None, false) => return Err(format!("{}: {} bytes are stored without an error", what, total)),
            (Some(_), false) => return Ok(()),
            _ => (),
        }
        let st = storage(false, &tmp.path);
        let data = st.read("mv", SCHEMA).map_err(|e| format!("{}: {}", what, e))?;
        let index = st.read("mv_index", &format!("index({})", SCHEMA)).map_err(|e| format!("{}: {}", what, e))?;
        offsets.push(total);
        let want: Vec<u8> = offsets.iter().flat_map(|o| I::bytes(*o as u64)).collect();
        if data.len() != total || index != &want[..] {
            return Err(format!("{}: {} bytes of data are stored instead of {}, the index is {}", what, data.len(), total, if index == &want[..] { "right" } else { "wrong" }));
        }
        judge(&MultiArrayView::new(ArrayView::new(index), data), "stored")
    })
}

/// Many numbers of buckets with few elements, and few buckets with many.
fn sizes<I: Idx, V: Var>(ch: &mut Ch, lens: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let n = *ch.pick(lens);
    let how = ch.choose(3);
    let kinds = V::tags().len();
    let counts: Vec<usize> = match how {
        0 => (0..n).map(|i| i % 3).collect(),
        1 => vec![1, n, 0, 2],
        _ => vec![0; n],
    };
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} {}, n={} in way {}, memory {}", I::NAME, V::NAME, n, how, memory);
    ch.step(|| ctx.clone());
    let mut w = create_multi_vector::<I, V>(&*s, "dir/mv", SCHEMA).map_err(|e| e.to_string())?;
    let mut m: Vec<Elements> = Vec::new();
    let mut bad = None;
    let mut k = 0;
    for c in counts {
        match w.grow() {
            Ok(mut x) => {
                let mut b = Vec::new();
                for _ in 0..c {
                    let (kind, v) = (k % kinds, (k % 1013) as u64);
                    V::add(&mut x, kind, v);
                    b.push((kind, Some(v)));
                    k += 1;
                }
                m.push(b);
            }
            Err(e) => {
                bad = Some(format!("{}: grow fails: {}", ctx, e));
                break;
            }
        }
    }
    if let Some(e) = bad {
        std::mem::forget(w);
        return Err(e);
    }
    ch.evals(1);
    ch.state(&(I::NAME, V::NAME, memory, n, how));
    ch.outcome(&(I::NAME, V::NAME, n, how));
    finish(w, &s, memory, &tmp.path, "dir/mv", &m, &ctx)
}

/// Flushes that fail, with the caller going on.
fn failing<I: Idx, V: Var>(ch: &mut Ch, depth: usize) -> Result<(), String> {
    use mccore::interpose::{far, with_plan, Action, Call, Kind};
    let n = 1 + ch.choose(depth);
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let mut w = create_multi_vector::<I, V>(&*s, "mv", SCHEMA).map_err(|e| e.to_string())?;
    let mut log = vec![format!("{} {}, {} times", I::NAME, V::NAME, n)];
    let mut m: Vec<Elements> = Vec::new();
    let mut failed = false;
    for k in 0..n {
        let kind = ch.choose(2);
        let v = k as u64 + 3;
        let r = with_plan(
            Box::new(|c: &Call| {
                if c.kind != Kind::Write || c.len == 0 || far(c, 16) {
                    return Action::Pass;
                }
                match ch.dev(3) {
                    0 => Action::Pass,
                    1 => Action::Fail(libc::ENOSPC),
                    _ => Action::WriteThenFail(c.len / 2, libc::EIO),
                }
            }),
            || catch(|| w.grow().map(|mut x| V::add(&mut x, kind, v)).is_ok()),
        );
        log.push(format!("grow with an element of {} bytes: {:?}", V::sizes()[kind], r));
        ch.step(|| log.last().unwrap().clone());
        match r {
            Err(p) => {
                std::mem::forget(w);
                return Err(format!("{}: panics: {}", log.join(", "), p));
            }
            Ok(true) => m.push(vec![(kind, Some(v))]),
            Ok(false) => failed = true,
        }
    }
    ch.evals(1);
    ch.state(&(I::NAME, V::NAME, &log));
    ch.outcome(&(n, failed, m.len()));
    if failed {
        // an error, or complete
        match catch(|| w.close().map(|v| same(&v, &m, "closed"))) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(Ok(()))) => {
                let st = storage(false, &tmp.path);
                let i = st.read("mv_index", &format!("index({})", SCHEMA)).map_err(|e| format!("{}: reading the index: {}", log.join(", "), e))?;
                let d = st.read("mv", SCHEMA).map_err(|e| format!("{}: reading the data: {}", log.join(", "), e))?;
                same::<I, V>(&MultiArrayView::new(ArrayView::new(i), d), &m, "anew").map_err(|e| format!("{}: {}", log.join(", "), e))
            }
            r => Err(format!("{}: closed: {:?}", log.join(", "), r.map(|r| r.map(|r| r.err())))),
        }
    } else {
        finish(w, &s, false, &tmp.path, "mv", &m, &log.join(", "))
    }
}

fn main() {
    mccore::main("C06", Level::ModelChecking, "every execution runs a real writer next to a list of buckets; states are (index and variant type, storage, buckets)", |run| {
        let t = run.thorough;
        let release = std::env::var("MC_BUILD").map_or(true, |b| b == "release");
        let (b, e) = if t { (3, 2) } else { (3, 1) };
        macro_rules! history {
            ($i:ty, $v:ty) => {
                run.explore(&format!("history-{}-{}", <$i as Idx>::NAME, <$v as Var>::NAME), &format!("<={} buckets of <={} elements of any type, set or not, reads in between, both storages", b, e), 0, move |ch| {
                    history::<$i, $v>(ch, b, e, "mv", false)
                });
                run.explore(&format!("nested-{}-{}", <$i as Idx>::NAME, <$v as Var>::NAME), "<=2 buckets of <=2 elements, name with a directory", 0, move |ch| history::<$i, $v>(ch, 2, 2, "a/b/mv", false));
            };
        }
        history!(Idx32, Var3);
        history!(Idx24, VarT);
        history!(Idx64, Var1);
        history!(Idx40, Var3);
        macro_rules! overflow {
            ($i:ty, $v:ty, $n:expr, $c:expr) => {
                run.explore(&format!("overflow-{}-{}", <$i as Idx>::NAME, <$v as Var>::NAME), &format!("<={} buckets of {:?} elements of any one type", $n, $c), 0, |ch| overflow::<$i, $v>(ch, $n, &$c));
            };
        }
        let l = checks::iters::lengths(if t { 1100 } else { 300 }, if t { 20 } else { 18 });
        let text = format!("all numbers of buckets or elements to {} and around powers of two to {}", l[l.len() / 2], l[l.len() - 1]);
        run.explore("sizes-Idx24-Var3", &text, 0, |ch| sizes::<Idx24, Var3>(ch, &l));
        run.explore("sizes-Idx40-VarT", &text, 0, |ch| sizes::<Idx40, VarT>(ch, &l));
        run.explore("sizes-Idx64-Var1", &text, 0, |ch| sizes::<Idx64, Var1>(ch, &l));
        // the index has a buffer as well
        let mut many: Vec<usize> = Vec::new();
        for k in 1..=if t { 2 } else { 1 } {
            many.extend((-1isize..=if t { 2 } else { 1 }).map(|d| (k as isize * (32 * MIB / 8) as isize + d) as usize));
        }
        if t || release {
            run.explore_with("index-flushes-Idx64-Var1", &format!("{:?} buckets: the index is flushed", many), 0, 6, &|ch: &mut Ch| sizes::<Idx64, Var1>(ch, &many));
        }
        let n = if t { 6 } else { 5 };
        overflow!(Idx4, Var3, n, [0, 1, 2, 3]);
        overflow!(Idx4, Var1, n, [0, 1, 2]);
        overflow!(Idx8, Var3, n, [0, 1, 12, 25, 64]);
        overflow!(Idx8, VarT, n, [0, 1, 18, 80, 5]);
        overflow!(Idx8, Var1, n, [0, 1, 31, 32]);
        overflow!(Idx12, Var3, n, [0, 1, 204, 409, 819, 1023]);
        overflow!(Idx12, Var1, n, [1, 255, 256, 511, 512]);
        run.explore_with("overflow-Idx24-fat", "offsets around 2^24 with data flushed in between", 0, 8, &|ch: &mut Ch| overflow::<Idx24, VarF>(ch, if ch.thorough { 4 } else { 3 }, &[0, 1]));
        macro_rules! wide {
            ($i:ty, $v:ty, $n:expr, $e:expr) => {
                run.explore_with(&format!("wide-{}", <$v as Var>::NAME), &format!("<={} buckets of <={} elements of up to 33 MiB", $n, $e), 0, 8, &|ch: &mut Ch| history::<$i, $v>(ch, $n, $e, "mv", true));
            };
        }
        if t {
            wide!(Idx32, VarF, 3, 2);
            wide!(Idx40, VarG, 4, 1);
        } else {
            // the optimized build fills memory faster
            if release {
                wide!(Idx32, VarF, 2, 1);
            } else {
                wide!(Idx40, VarG, 2, 1);
            }
        }
        if t || release {
            let n = if t { 5 } else { 4 };
            run.explore_with("flushes-VarG", &format!("every sequence of {} buckets, each empty, small, large enough for a flush, or both", n), 0, 8, &move |ch: &mut Ch| flushes::<Idx40>(ch, n));
        }
        let (f, a) = if t { (2, 3) } else { (1, 1) };
        if t || release {
        run.explore_with("long-Var3", &format!("every number of elements within {} of 1..={} flushes", a, f), 0, 6, &move |ch: &mut Ch| long::<Idx40, Var3>(ch, f, a));
        }
        let n = if t { 4 } else { 3 };
        if t || !release {
            run.explore_with("failing-VarG", &format!("up to {} buckets of an element of 11 or 33 MiB, up to 2 flushes that fail before or after half of the data", n), 2, 8, &move |ch: &mut Ch| failing::<Idx40, VarG>(ch, n));
        }
        run.explore_with("huge-VarF-Idx40", "more than 4 GiB of elements of up to 32 MiB in four patterns", 0, 4, &|ch: &mut Ch| huge::<Idx40, VarF>(ch));
        run.explore_with("huge-VarG-Idx64", "the same with other types", 0, 4, &|ch: &mut Ch| huge::<Idx64, VarG>(ch));
        run.explore_with("huge-VarF-Idx32", "offsets that do not fit: an error", 0, 4, &|ch: &mut Ch| huge::<Idx32, VarF>(ch));
        run.explore("damaged-Var3", "1..=3 elements of any types, cut at every byte with every bucket, every byte in place of every tag", 0, damaged::<Var3>);
        run.explore("damaged-VarT", "the same with other tags and sizes", 0, damaged::<VarT>);
        run.explore("damaged-Var1", "the same with a single type", 0, damaged::<Var1>);
    })
}
