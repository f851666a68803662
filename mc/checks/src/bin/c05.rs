//! C05: histories of incremental vector writers next to lists of elements.
use checks::fat::*;
use checks::huge::*;
use checks::*;
use flatdata::{ArrayView, ExternalVector};

const SCHEMA: &str = "the schema";

fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y);
    format!("{} bytes instead of {}, first difference at {:?}", a.len(), b.len(), at)
}

/// What was left under this name before.
fn earlier<T: Elem>(s: &Storage, name: &str, how: usize) -> Result<(), String> {
    if how == 0 {
        return Ok(());
    }
    let mut v = Vector::<T>::new();
    for i in 0..how as u64 {
        T::set(&mut v.grow(), 50 + i);
    }
    s.write(name, SCHEMA, v.as_bytes()).map_err(|e| e.to_string())?;
    // keeps a map of it
    s.read(name, SCHEMA).map(|_| ()).map_err(|e| e.to_string())
}

/// Checks the closed vector, and what reading it gives, in every way.
fn finish<T: Elem>(v: ExternalVector<T>, s: &Storage, memory: bool, dir: &std::path::Path, name: &str, bytes: &[u8], ctx: &str) -> Result<(), String> {
    let n = bytes.len() / T::SIZE;
    if v.len() != n || v.is_empty() != (n == 0) || !v.is_open() {
        return Err(format!("{}: before closing: len {}, is_empty {}, is_open {} with {} elements", ctx, v.len(), v.is_empty(), v.is_open(), n));
    }
    let view = match v.close() {
        Ok(v) => v,
        Err(e) => return Err(format!("{}: close fails: {}", ctx, e)),
    };
    let elements = |view: &ArrayView<T>, what: &str| -> Result<(), String> {
        if view.len() != n {
            return Err(format!("{}: {} has {} elements instead of {}", ctx, what, view.len(), n));
        }
        if view.as_bytes() != bytes {
            return Err(format!("{}: {} has wrong bytes: {}", ctx, what, diff(view.as_bytes(), bytes)));
        }
        let picks: Vec<usize> = if n < 50 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        for i in picks {
            let (got, want) = (T::get(&view.at(i)), T::values_of_bytes(&bytes[i * T::SIZE..][..T::SIZE]));
            if got != want {
                return Err(format!("{}: {}: element {} is {:?} instead of {:?}", ctx, what, i, got, want));
            }
        }
        Ok(())
    };
    elements(&view, "the closed vector")?;
    for (st, what) in &[(s.clone(), "the same storage"), (storage(false, dir), "a new storage")] {
        if memory && *what == "a new storage" {
            continue;
        }
        let data = st.read(name, SCHEMA).map_err(|e| format!("{}: reading from {}: {}", ctx, what, e))?;
        elements(&ArrayView::new(data), what)?;
        let raw = st.read_resource(name).map_err(|e| format!("{}: {}", ctx, e))?;
        let header = (bytes.len() as u64).to_le_bytes();
        if raw.len() != bytes.len() + 16 || raw[..8] != header || raw[raw.len() - 8..] != [0; 8] {
            return Err(format!("{}: {} bytes are stored, header {:02x?}, padding {:02x?}", ctx, raw.len(), &raw[..8], &raw[raw.len() - 8..]));
        }
    }
    if T::SIZE > 1000 && ctx.contains("0 elements before") {
        return Ok(());
    }
    // the resource written at once
    s.write("at_once", SCHEMA, bytes).map_err(|e| e.to_string())?;
    let (a, b) = (s.read_resource(name).map_err(|e| e.to_string())?, s.read_resource("at_once").map_err(|e| e.to_string())?);
    if a != b {
        return Err(format!("{}: written at once the resource is different: {}", ctx, diff(a, b)));
    }
    Ok(())
}

fn history<T: Elem>(ch: &mut Ch, depth: usize, name: &'static str, wide: bool) -> Result<(), String> {
    let memory = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let before = ch.choose(if wide { 1 + (T::SIZE > 32 * MIB || ch.thorough) as usize } else { 3 });
    earlier::<T>(&s, name, before)?;
    let mut hist = vec![format!("{} of {} bytes, memory {}, {} elements before", T::NAME, T::SIZE, memory, before)];
    ch.note(|| hist[0].clone());
    let mut v = create_external_vector::<T>(&*s, name, SCHEMA).map_err(|e| e.to_string())?;
    let mut bytes: Vec<u8> = Vec::new();
    let r = (|| -> Result<(), String> {
        for d in 0..depth {
            let n = bytes.len() / T::SIZE;
            if v.len() != n || v.is_empty() != (n == 0) {
                return Err(format!("{}: len {}, is_empty {} with {} elements", hist.join(", "), v.len(), v.is_empty(), n));
            }
            let op = ch.choose(if wide { 4 } else { 6 });
            if op == 0 {
                break;
            }
            let id = d as u64 + 1;
            if op == 3 {
                hist.push("read".into());
                if let Ok(x) = catch(|| s.read(name, SCHEMA).map(|x| x.len())).map_err(|p| format!("{}: panics: {}", hist.join(", "), p))? {
                    return Err(format!("{}: gives {} bytes before the vector is closed", hist.join(", "), x));
                }
            } else {
                let mut e = v.grow().map_err(|e| format!("{}: grow fails: {}", hist.join(", "), e))?;
                if T::get_mut(&e) != T::values(0) {
                    return Err(format!("{}: new element {} is {:?}, not zero", hist.join(", "), n, T::get_mut(&e)));
                }
                match op {
                    1 => {
                        hist.push("append".into());
                        bytes.resize((n + 1) * T::SIZE, 0);
                    }
                    2 => {
                        hist.push("append and set".into());
                        T::set(&mut e, id);
                        bytes.extend(T::bytes(id));
                    }
                    4 => {
                        hist.push("append, set and set again".into());
                        T::set(&mut e, 1);
                        T::set(&mut e, id + 20);
                        bytes.extend(T::bytes(id + 20));
                    }
                    _ => {
                        hist.push("append and set the last field".into());
                        let i = T::fields().len() - 1;
                        let f = T::fields()[i];
                        let raw = decode(raw_of(id, i, f.width), f.width, f.signed) as u64;
                        T::set_field(&mut e, i, raw);
                        bytes.resize((n + 1) * T::SIZE, 0);
                        set_bits(&mut bytes[n * T::SIZE..], f.offset, f.width, raw);
                    }
                }
            }
            ch.step(|| hist.last().unwrap().clone());
            if !wide {
                ch.state(&(T::NAME, memory, before, &bytes));
            } else {
                ch.state(&(T::NAME, memory, before, &hist));
            }
        }
        Ok(())
    })();
    if let Err(e) = r {
        std::mem::forget(v);
        return Err(e);
    }
    hist.push("close".into());
    ch.step(|| "close".into());
    ch.outcome(&(T::NAME, memory, bytes.len() / T::SIZE));
    finish(v, &s, memory, &tmp.path, name, &bytes, &hist.join(", "))
}

/// So many small elements that data is flushed, at every count around the limit.
fn long<T: Elem>(ch: &mut Ch, flushes: usize, around: usize) -> Result<(), String> {
    let memory = ch.flag();
    let k = 1 + ch.choose(flushes);
    let n = (k * (32 * MIB + T::SIZE)) / T::SIZE + ch.choose(2 * around + 1) - around;
    // the elements repeat, so that their bytes are known quickly
    let period = 1009;
    let zeros = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} elements of {}, memory {}, every third zero {}", n, T::NAME, memory, zeros);
    ch.step(|| ctx.clone());
    let mut unit = Vec::new();
    for i in 0..period {
        unit.extend(T::bytes(if zeros && i % 3 == 0 { 0 } else { i + 3 }));
    }
    let mut v = create_external_vector::<T>(&*s, "dir/vec", SCHEMA).map_err(|e| e.to_string())?;
    let mut bad = None;
    for i in 0..n as u64 {
        let j = i % period;
        match v.grow() {
            Ok(mut e) => {
                if !(zeros && j % 3 == 0) {
                    T::set(&mut e, j + 3);
                } else if T::get_mut(&e).iter().any(|x| *x != 0) {
                    bad = Some(format!("{}: new element {} is {:?}", ctx, i, T::get_mut(&e)));
                    break;
                }
            }
            Err(e) => {
                bad = Some(format!("{}: grow {} fails: {}", ctx, i, e));
                break;
            }
        }
    }
    if let Some(e) = bad {
        std::mem::forget(v);
        return Err(e);
    }
    let mut bytes = Vec::with_capacity(n * T::SIZE + unit.len());
    while bytes.len() < n * T::SIZE {
        bytes.extend(&unit);
    }
    bytes.truncate(n * T::SIZE);
    ch.evals(n as u64);
    ch.state(&(T::NAME, n, memory, zeros));
    ch.outcome(&(T::NAME, k));
    finish(v, &s, memory, &tmp.path, "dir/vec", &bytes, &ctx)
}

/// Around 4 GiB of elements, through files with holes.
fn huge<T: Elem>(ch: &mut Ch) -> Result<(), String> {
    let n = (1usize << 32) / T::SIZE + ch.choose(3);
    let period = 5;
    let set = |i: usize| i % period != 1;
    let value = |i: usize| if set(i) { T::values((i % period) as u64 + 3) } else { T::values_of_bytes(&vec![0; T::SIZE]) };
    let values: Vec<Vec<i128>> = (0..period).map(value).collect();
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let ctx = format!("{} elements of {} ({} bytes)", n, T::NAME, n * T::SIZE);
    ch.step(|| ctx.clone());
    ch.state(&(T::NAME, n));
    ch.outcome(&(n * T::SIZE >> 32));
    ch.evals(n as u64);
    sparse_writes(|| {
        let mut v = create_external_vector::<T>(&*s, "vec", SCHEMA).map_err(|e| e.to_string())?;
        let mut bad = None;
        for i in 0..n {
            match v.grow() {
                Ok(mut e) => {
                    if set(i) {
                        T::set(&mut e, (i % period) as u64 + 3);
                    }
                }
                Err(e) => bad = Some(format!("{}: grow {} fails: {}", ctx, i, e)),
            }
            if v.len() != i + 1 {
                bad = bad.or(Some(format!("{}: {} elements after {}", ctx, v.len(), i + 1)));
            }
            if bad.is_some() {
                break;
            }
        }
        if let Some(b) = bad {
            std::mem::forget(v);
            return Err(b);
        }
        let judge = |view: &ArrayView<T>, what: &str| {
            if view.len() != n || view.as_bytes().len() != n * T::SIZE {
                return Err(format!("{}: {} has {} elements", ctx, what, view.len()));
            }
            for i in 0..n {
                let got = T::get(&view.at(i));
                if got != values[i % period] {
                    return Err(format!("{}: {}: element {} is {:?} instead of {:?}", ctx, what, i, got, values[i % period]));
                }
            }
            Ok(())
        };
        let view = v.close().map_err(|e| format!("{}: close fails: {}", ctx, e))?;
        judge(&view, "the closed vector")?;
        let st = storage(false, &tmp.path);
        let data = st.read("vec", SCHEMA).map_err(|e| format!("{}: reading: {}", ctx, e))?;
        judge(&ArrayView::new(data), "the stored vector")?;
        let raw = st.read_resource("vec").map_err(|e| e.to_string())?;
        if raw.len() != n * T::SIZE + 16 || raw[..8] != ((n * T::SIZE) as u64).to_le_bytes() || raw[raw.len() - 8..] != [0; 8] {
            return Err(format!("{}: {} bytes are stored, header {:02x?}, padding {:02x?}", ctx, raw.len(), &raw[..8], &raw[raw.len() - 8..]));
        }
        Ok(())
    })
}

/// Many lengths, with a look at what is there at places around powers of two.
fn sizes<T: Elem>(ch: &mut Ch, lens: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let n = *ch.pick(lens);
    let earlier_too = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} elements of {}, memory {}, over others {}", n, T::NAME, memory, earlier_too);
    ch.step(|| ctx.clone());
    if earlier_too {
        s.write("dir/vec", "older", &vec![0xAB; n * T::SIZE + 5]).map_err(|e| e.to_string())?;
    }
    let mut v = create_external_vector::<T>(&*s, "dir/vec", SCHEMA).map_err(|e| e.to_string())?;
    let mut bytes = vec![];
    let edges = checks::iters::edges_of(n);
    let mut bad = None;
    for i in 0..n {
        match v.grow() {
            Ok(mut e) => {
                if T::get_mut(&e).iter().any(|x| *x != 0) {
                    bad = Some(format!("{}: new element {} is {:?}", ctx, i, T::get_mut(&e)));
                    break;
                }
                if i % 5 == 3 {
                    bytes.extend(T::bytes(0));
                } else {
                    T::set(&mut e, i as u64 + 2);
                    bytes.extend(T::bytes(i as u64 + 2));
                }
            }
            Err(e) => {
                bad = Some(format!("{}: grow {} fails: {}", ctx, i, e));
                break;
            }
        }
        if edges.binary_search(&(i + 1)).is_ok() && (v.len() != i + 1 || v.is_empty() || !v.is_open()) {
            bad = Some(format!("{}: len {} after {}", ctx, v.len(), i + 1));
            break;
        }
    }
    if let Some(e) = bad {
        std::mem::forget(v);
        return Err(e);
    }
    ch.evals(n as u64);
    ch.state(&(T::NAME, n, memory, earlier_too));
    ch.outcome(&(T::NAME, n));
    finish(v, &s, memory, &tmp.path, "dir/vec", &bytes, &ctx)
}

/// Flushes that fail, with the caller going on.
fn failing<T: Elem>(ch: &mut Ch, depth: usize) -> Result<(), String> {
    use mccore::interpose::{far, with_plan, Action, Call, Kind};
    let n = 1 + ch.choose(depth);
    let tmp = ch.scratch.fresh();
    let s = storage(false, &tmp.path);
    let mut w = create_external_vector::<T>(&*s, "vec", SCHEMA).map_err(|e| e.to_string())?;
    let mut log = vec![format!("{}, {} times", T::NAME, n)];
    let mut bytes: Vec<u8> = Vec::new();
    let mut len = 0;
    let mut failed = false;
    let mut bad = None;
    for k in 0..n {
        let r = with_plan(
            Box::new(|c: &Call| {
                if c.kind != Kind::Write || c.len == 0 || far(c, 16) {
                    return Action::Pass;
                }
                match ch.dev(3) {
                    0 => Action::Pass,
                    1 => Action::Fail(libc::ENOSPC),
                    _ => Action::WriteThenFail(c.len / 2, libc::EIO),
                }
            }),
            || catch(|| w.grow().map(|mut x| T::set(&mut x, k as u64 + 3)).is_ok()),
        );
        log.push(format!("grow: {:?}", r));
        ch.step(|| log.last().unwrap().clone());
        match r {
            Err(p) => {
                bad = Some(format!("panics: {}", p));
                break;
            }
            Ok(true) => {
                bytes.extend(T::bytes(k as u64 + 3));
                len += 1;
            }
            Ok(false) => failed = true,
        }
        if w.len() != len || w.is_empty() != (len == 0) {
            bad = Some(format!("the length is {} instead of {}", w.len(), len));
            break;
        }
    }
    ch.evals(1);
    ch.state(&(T::NAME, &log));
    ch.outcome(&(n, failed, len));
    if let Some(e) = bad {
        std::mem::forget(w);
        return Err(format!("{}: {}", log.join(", "), e));
    }
    match catch(|| w.close().map(|v| v.as_bytes() == &bytes[..])) {
        Ok(Ok(true)) => {
            let same = |st: &Storage| st.read("vec", SCHEMA).map(|d| d == &bytes[..]);
            for (what, st) in &[("again", s.clone()), ("anew", storage(false, &tmp.path))] {
                match same(st) {
                    Ok(true) => (),
                    r => return Err(format!("{}: closed, and read {}: {:?}", log.join(", "), what, r)),
                }
            }
            Ok(())
        }
        Ok(Err(_)) if failed => Ok(()),
        r => Err(format!("{}: close returns {:?}", log.join(", "), r)),
    }
}

fn small<T: Elem>(run: &mut Run, d: usize) {
    let l = checks::iters::lengths(if run.thorough { 1100 } else { 300 }, if run.thorough { 22 } else { 20 });
    run.explore(&format!("sizes-{}", T::NAME), &format!("all lengths to {} and around powers of two to {}", l[l.len() / 2], l[l.len() - 1]), 0, |ch| sizes::<T>(ch, &l));

    run.explore(&format!("history-{}", T::NAME), &format!("<={} operations (5 kinds), nothing or earlier elements under the same name, both storages", d), 0, move |ch| history::<T>(ch, d, "vec", false));
    run.explore(&format!("nested-{}", T::NAME), &format!("<={} operations, name with a directory", d - 2), 0, move |ch| history::<T>(ch, d - 2, "some/dir/vec", false));
}
fn wide<T: Elem>(run: &mut Run, d: usize) {
    run.explore_with(&format!("wide-{}", T::NAME), &format!("<={} operations (append, append and set, read) with elements of {} bytes, both storages", d, T::SIZE), 0, 8, &move |ch: &mut Ch| history::<T>(ch, d, "vec", true));
}

fn main() {
    mccore::main("C05", Level::ModelChecking, "every execution runs a real writer next to a list; states are (type, storage, earlier content, stored bytes or history)", |run| {
        let t = run.thorough;
        let d = if t { 7 } else { 5 };
        small::<E1>(run, d);
        small::<E3>(run, d);
        small::<E9>(run, d);
        small::<E13>(run, d);
        wide::<F11>(run, if t { 7 } else { 5 });
        wide::<F16>(run, if t { 5 } else { 4 });
        wide::<F16L>(run, if t { 5 } else { 4 });
        wide::<F32L>(run, if t { 4 } else { 3 });
        wide::<F32M>(run, if t { 4 } else { 3 });
        wide::<F33>(run, if t { 4 } else { 3 });
        if t {
            wide::<F8>(run, 7);
            wide::<F8L>(run, 7);
        }
        let (f, a) = if t { (3, 9) } else { (2, 2) };
        macro_rules! long {
            ($t:ty) => {
                run.explore_with(&format!("long-{}", <$t as Elem>::NAME), &format!("every number of elements within {} of 1..{} flushes of 32 MiB", a, f), 0, 8, &move |ch: &mut Ch| long::<$t>(ch, f, a));
            };
        }
        let n = if t { 5 } else { 4 };
        run.explore_with("failing-F16L", &format!("up to {} elements of 16 MiB, up to 2 flushes that fail before or after half of the data", n + 2), 2, 8, &move |ch: &mut Ch| failing::<F16L>(ch, n + 2));
        run.explore_with("failing-F33", &format!("up to {} elements of 33 MiB, up to 2 flushes that fail before or after half of the data", n - 1), 2, 8, &move |ch: &mut Ch| failing::<F33>(ch, n - 1));
        run.explore_with("huge-F33", "around 4 GiB of elements of 33 MiB", 0, 3, &|ch: &mut Ch| huge::<F33>(ch));
        run.explore_with("huge-L7", "around 4 GiB of elements of 8 KiB", 0, 3, &|ch: &mut Ch| huge::<layouts::L7>(ch));
        long!(E16);
        long!(E13);
        long!(E3);
        if t {
            long!(E1);
        }
    })
}
