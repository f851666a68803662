//! C21: debug texts next to texts made from the values.
use checks::huge::*;
use checks::*;
use flatdata::{create_external_vector, create_multi_vector, ArrayView, MultiArrayView, Vector};

fn text(name: &str, entries: &[String]) -> String {
    let shown = entries[..entries.len().min(10)].join(", ");
    format!("{} {{ len: {}, data: [{}]{} }}", name, entries.len(), shown, if entries.len() > 10 { "..." } else { "" })
}

fn judge(got: Result<String, String>, want: &str, ctx: &dyn Fn() -> String) -> Result<(), String> {
    match got {
        Ok(ref g) if g == want => Ok(()),
        Ok(g) => Err(format!("{}: prints as\n{}\ninstead of\n{}", ctx(), g, want)),
        Err(p) => Err(format!("{}: printing panics: {}", ctx(), p)),
    }
}

/// Prints an iterator, and takes a number of entries from either end, over and over.
macro_rules! walk {
    ($ch:expr, $it:expr, $entries:expr, $depth:expr, $name:expr, $hist:expr) => {{
        let (ch, mut it, entries, hist) = ($ch, $it, $entries, $hist);
        let (mut a, mut b) = (0, entries.len());
        for d in 0.. {
            let left: &[String] = &entries[a..b];
            let want = text($name, left);
            let ctx = || format!("{}", hist.join(", "));
            judge(catch(|| format!("{:?}", it)), &want, &ctx)?;
            // a copy, and what was printed, print the same
            judge(catch(|| format!("{:?}", it.clone())), &want, &ctx)?;
            judge(catch(|| format!("{:?}", it)), &want, &ctx)?;
            ch.evals(3);
            ch.state(&($name, entries.len(), a, b));
            ch.outcome(&($name, left.len()));
            if d == $depth {
                break;
            }
            let k = ch.choose(8);
            let step = |a: usize, b: usize, front: bool, n: usize| {
                let n = n.min(b - a);
                if front { (a + n, b) } else { (a, b - n) }
            };
            let (what, next) = match k {
                0 => break,
                1 => { it.next(); ("next", step(a, b, true, 1)) }
                2 => { it.next_back(); ("next_back", step(a, b, false, 1)) }
                3 => { it.nth(1); ("nth(1)", step(a, b, true, 2)) }
                4 => { it.nth_back(1); ("nth_back(1)", step(a, b, false, 2)) }
                5 => { it.nth(9); ("nth(9)", step(a, b, true, 10)) }
                6 => { it = it.clone(); it.next_back(); it.next(); ("clone, next_back, next", { let x = step(a, b, false, 1); step(x.0, x.1, true, 1) }) }
                _ => { it.nth_back(8); ("nth_back(8)", step(a, b, false, 9)) }
            };
            a = next.0;
            b = next.1;
            hist.push(what.to_string());
            ch.step(|| what.to_string());
        }
        let rest: usize = it.count();
        if rest != b - a {
            return Err(format!("{}: {} entries are left after printing instead of {}", hist.join(", "), rest, b - a));
        }
    }};
}

fn array<T: Elem>(ch: &mut Ch, max: usize, depth: usize) -> Result<(), String> {
    let lens: Vec<usize> = (0..=max).chain([25, 100].iter().cloned()).collect();
    let n = *ch.pick(&lens);
    let bytes: Vec<u8> = (0..n as u64).flat_map(|v| T::bytes(v + 2)).collect();
    let mut entries: Vec<String> = (0..n as u64).map(|v| T::debug(v + 2)).collect();
    let mut hist = vec![format!("{} elements of {}", n, T::NAME)];
    ch.step(|| hist[0].clone());
    let full: ArrayView<T> = ArrayView::new(&bytes);
    let mut v = full.clone();
    // long ones: only the ends
    let s = [0, 2, 3, 1][ch.choose(if n > max { 3 } else { 4 })];
    if s > 0 {
        let (a, b) = match s {
            1 => {
                let a = ch.choose(n + 1);
                (a, a + ch.choose(n + 1 - a))
            }
            2 => (n - n.min(11), n),
            _ => (0, n.min(11)),
        };
        hist.push(format!("slice {}..{}", a, b));
        ch.step(|| hist[1].clone());
        v = v.slice(a..b);
        entries = entries[a..b].to_vec();
    }
    judge(catch(|| format!("{:?}", v)), &text("ArrayView", &entries), &|| hist.join(", "))?;
    judge(catch(|| format!("{:?}", v.clone())), &text("ArrayView", &entries), &|| hist.join(", "))?;
    let one = catch(|| (0..entries.len().min(12)).map(|i| format!("{:?}", v.at(i))).collect::<Vec<_>>())?;
    if one[..] != entries[..one.len()] {
        return Err(format!("{}: elements print as {:?}", hist.join(", "), one));
    }
    if s < 2 {
        let depth = if s == 1 { depth.min(1) } else { depth };
        walk!(&mut *ch, v.iter(), &entries[..], depth, "ArrayViewIter", &mut hist);
    }
    let want: Vec<u8> = (0..n as u64).flat_map(|v| T::bytes(v + 2)).collect();
    if bytes != want || full.len() != n {
        return Err(format!("{}: printing changed the data", hist.join(", ")));
    }
    Ok(())
}

fn bucket_text<V: Var>(b: &[(usize, u64)]) -> String {
    let items: Vec<String> = b
        .iter()
        .map(|(k, v)| V::debug_of(*k, &V::values(*k, *v)))
        .collect();
    format!("[{}]", items.join(", "))
}

fn multi<I: Idx, V: Var>(ch: &mut Ch, max: usize, depth: usize) -> Result<(), String> {
    let lens: Vec<usize> = (0..=max).chain([25].iter().cloned()).collect();
    let n = *ch.pick(&lens);
    let shape = ch.choose(3);
    let kinds = V::tags().len();
    let buckets: Buckets = (0..n)
        .map(|i| {
            let len = match shape {
                0 => (i * i + 1) % 4,
                1 => (i + n) % 2,
                _ => if i % 5 == 2 { 14 } else { 0 },
            };
            (0..len).map(|j| ((i + j * 2) % kinds, (i * 20 + j + 2) as u64)).collect()
        })
        .collect();
    let (index, data) = multi_bytes::<I, V>(&buckets);
    // a slice and an iterator number what is left from zero
    let numbered = |b: &[Vec<(usize, u64)>]| -> Vec<String> { b.iter().enumerate().map(|(i, b)| format!("({}, {})", i, bucket_text::<V>(b))).collect() };
    let mut hist = vec![format!("{} buckets of {} (shape {})", n, V::NAME, shape)];
    ch.step(|| hist[0].clone());
    let mut v: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&index), &data);
    let mut left = &buckets[..];
    let mut depth = depth;
    if n <= max && ch.flag() {
        depth = depth.min(1);
        let a = ch.choose(n + 1);
        let b = a + ch.choose(n + 1 - a);
        hist.push(format!("slice {}..{}", a, b));
        ch.step(|| hist[1].clone());
        v = v.slice(a..b);
        left = &left[a..b];
    }
    judge(catch(|| format!("{:?}", v)), &text("MultiArrayView", &numbered(left)), &|| hist.join(", "))?;
    judge(catch(|| format!("{:?}", v.clone())), &text("MultiArrayView", &numbered(left)), &|| hist.join(", "))?;
    // buckets
    for (i, b) in left.iter().enumerate().take(13) {
        let mut it = v.at(i);
        for j in 0..=b.len() {
            if b.len() - j <= 10 {
                judge(catch(|| format!("{:?}", it)), &format!("MultiArrayViewItemIter {{ data: {} }}", bucket_text::<V>(&b[j..])), &|| format!("{}, bucket {} after {} elements", hist.join(", "), i, j))?;
                ch.evals(1);
            }
            let got = it.next().map(|x| (V::get(&x), format!("{:?}", x)));
            let want = b.get(j).map(|(k, v)| {
                let t = bucket_text::<V>(&[(*k, *v)]);
                ((*k, V::values(*k, *v)), t[1..t.len() - 1].to_string())
            });
            if got != want {
                return Err(format!("{}: bucket {}, element {} is {:?} instead of {:?}", hist.join(", "), i, j, got, want));
            }
        }
    }
    // the numbers depend on what is left
    let mut it = v.iter();
    let (mut a, mut b) = (0, left.len());
    for d in 0.. {
        judge(catch(|| format!("{:?}", it)), &text("MultiArrayViewIter", &numbered(&left[a..b])), &|| hist.join(", "))?;
        judge(catch(|| format!("{:?}", it.clone())), &text("MultiArrayViewIter", &numbered(&left[a..b])), &|| hist.join(", "))?;
        ch.evals(2);
        ch.state(&(V::NAME, shape, n, a, b, left.len()));
        ch.outcome(&(V::NAME, b - a));
        if d == depth {
            break;
        }
        let k = ch.choose(5);
        match k {
            0 => break,
            1 => {
                it.next();
                a += (a < b) as usize;
            }
            2 => {
                it.next_back();
                b -= (a < b) as usize;
            }
            3 => {
                it.nth(2);
                a = (a + 3).min(b);
            }
            _ => {
                it.nth_back(2);
                b = b.saturating_sub(3).max(a);
            }
        }
        hist.push(["", "next", "next_back", "nth(2)", "nth_back(2)"][k].to_string());
        ch.step(|| hist.last().unwrap().clone());
    }
    if it.count() != b - a {
        return Err(format!("{}: not {} buckets are left after printing", hist.join(", "), b - a));
    }
    Ok(())
}

/// In-memory vectors that grow.
fn vector<T: Elem>(ch: &mut Ch, max: usize, depth: usize) -> Result<(), String> {
    let start = ch.choose(max + 1);
    let mut v: Vector<T> = Vector::with_len(start);
    let mut model = vec![0u64; start];
    let set: Vec<bool> = Vec::new();
    drop(set);
    let mut entries: Vec<String> = model.iter().map(|_| T::debug_of(&T::values_of_bytes(&vec![0; T::SIZE]))).collect();
    let mut hist = vec![format!("Vector of {} {}", start, T::NAME)];
    for d in 0.. {
        let ctx = || hist.join(", ");
        judge(catch(|| format!("{:?}", v)), &text("Vector", &entries), &ctx)?;
        judge(catch(|| format!("{:?}", v.as_view())), &text("ArrayView", &entries), &ctx)?;
        judge(catch(|| format!("{:?}", v.as_view().iter())), &text("ArrayViewIter", &entries), &ctx)?;
        if v.len() != entries.len() {
            return Err(format!("{}: length {} after printing", ctx(), v.len()));
        }
        ch.evals(3);
        ch.state(&(T::NAME, &entries));
        ch.outcome(&entries.len());
        if d == depth {
            return Ok(());
        }
        let n = entries.len();
        let k = ch.choose(if n > 0 { 6 } else { 4 });
        let id = d as u64 + 2;
        let zero = T::debug_of(&T::values_of_bytes(&vec![0; T::SIZE]));
        match k {
            0 => return Ok(()),
            1 => {
                T::set(&mut v.grow(), id);
                entries.push(T::debug(id));
                model.push(id);
            }
            2 => {
                v.grow();
                entries.push(zero);
            }
            3 => {
                v.reserve(9);
                for i in 0..9 {
                    let mut e = v.grow();
                    T::set(&mut e, id + i);
                    // an element that can be changed prints as well
                    judge(catch(|| format!("{:?}", e)), &T::debug(id + i), &ctx)?;
                    entries.push(T::debug(id + i));
                }
            }
            _ => {
                let i = if k == 4 { 0 } else { n - 1 };
                let mut e = v.at_mut(i);
                judge(catch(|| format!("{:?}", e)), &entries[i], &ctx)?;
                T::set(&mut e, id + 50);
                entries[i] = T::debug(id + 50);
            }
        }
        hist.push(["", "append and set", "append", "append 9", "set the first", "set the last"][k].into());
        ch.step(|| hist.last().unwrap().clone());
    }
    Ok(())
}

/// Writers state how many elements or buckets were written.
fn writers<T: Elem, I: Idx, V: Var>(ch: &mut Ch, max: usize) -> Result<(), String> {
    let memory = ch.flag();
    let multi = ch.flag();
    let n = ch.choose(max + 1);
    let print = ch.choose(2) == 0;
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let ctx = format!("{} entries, {}, memory {}", n, if multi { V::NAME } else { T::NAME }, memory);
    ch.step(|| ctx.clone());
    let err = |e: std::io::Error| e.to_string();
    let err2 = |e: flatdata::ResourceStorageError| e.to_string();
    if multi {
        let mut w = create_multi_vector::<I, V>(&*s, "x", "schema").map_err(err)?;
        let mut buckets: Buckets = vec![];
        let mut r = Ok(());
        for i in 0..=n {
            if print || i == n {
                r = r.and(judge(catch(|| format!("{:?}", w)), &format!("MultiVector {{ len: {} }}", i), &|| format!("{} after {}", ctx, i)));
            }
            if i < n {
                let b: Vec<(usize, u64)> = (0..i % 3).map(|j| ((i + j) % V::tags().len(), (i * 3 + j + 2) as u64)).collect();
                let mut x = w.grow().map_err(err)?;
                for (k, v) in &b {
                    V::add(&mut x, *k, *v);
                }
                buckets.push(b);
            }
        }
        let view = w.close().map_err(err2)?;
        r?;
        let numbered: Vec<String> = buckets.iter().enumerate().map(|(i, b)| format!("({}, {})", i, bucket_text::<V>(b))).collect();
        judge(catch(|| format!("{:?}", view)), &text("MultiArrayView", &numbered), &|| format!("{} closed", ctx))?;
    } else {
        let mut w = create_external_vector::<T>(&*s, "x", "schema").map_err(err)?;
        let mut r = Ok(());
        for i in 0..=n {
            if print || i == n {
                r = r.and(judge(catch(|| format!("{:?}", w)), &format!("ExternalVector {{ len: {} }}", i), &|| format!("{} after {}", ctx, i)));
            }
            if i < n {
                T::set(&mut w.grow().map_err(err)?, i as u64 + 2);
            }
        }
        let view = w.close().map_err(err2)?;
        r?;
        let entries: Vec<String> = (0..n as u64).map(|i| T::debug(i + 2)).collect();
        judge(catch(|| format!("{:?}", view)), &text("ArrayView", &entries), &|| format!("{} closed", ctx))?;
    }
    ch.state(&(memory, multi, n));
    ch.outcome(&(multi, n));
    ch.evals(1 + n as u64);
    Ok(())
}

/// Text with the first entries only.
fn text_of(name: &str, n: usize, entry: &dyn Fn(usize) -> String) -> String {
    let shown: Vec<String> = (0..n.min(10)).map(entry).collect();
    format!("{} {{ len: {}, data: [{}]{} }}", name, n, shown.join(", "), if n > 10 { "..." } else { "" })
}

/// Lengths around powers of two up to 8 GiB.
fn huge<T: Elem>(ch: &mut Ch) -> Result<(), String> {
    let cap = (1 << 33) + 64;
    let lens: Vec<usize> = edges(cap / T::SIZE + 1, T::SIZE);
    let n = *ch.pick(&lens);
    let mut mem = Huge::new(cap);
    for k in 0..n.min(12) {
        mem.put(k * T::SIZE, &T::bytes(k as u64 + 3));
    }
    let zero = T::debug_of(&T::values_of_bytes(&vec![0; T::SIZE]));
    let value = |i: usize| if i < 12 { T::debug(i as u64 + 3) } else { zero.clone() };
    let view: ArrayView<T> = ArrayView::new(&mem.bytes()[..n * T::SIZE]);
    let ctx = |w: &str| format!("{} elements of {}, {}", n, T::NAME, w);
    ch.step(|| ctx(""));
    ch.state(&(T::NAME, n));
    ch.outcome(&(n >> 16 == 0, n >> 32 == 0));
    ch.evals(4);
    judge(catch(|| format!("{:?}", view)), &text_of("ArrayView", n, &value), &|| ctx("all"))?;
    let mut it = view.iter();
    judge(catch(|| format!("{:?}", it)), &text_of("ArrayViewIter", n, &value), &|| ctx("iterator"))?;
    it.next();
    it.next_back();
    it.next();
    let left = n.saturating_sub(3);
    judge(catch(|| format!("{:?}", it)), &text_of("ArrayViewIter", left, &|i| value(i + 2)), &|| ctx("iterator after three elements"))?;
    for m in lens.iter().filter(|m| **m <= n) {
        judge(catch(|| format!("{:?}", view.slice(n - m..))), &text_of("ArrayView", *m, &|i| value(i + n - m)), &|| ctx(&format!("last {}", m)))?;
        ch.evals(1);
    }
    Ok(())
}

fn huge_multi<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    let cap = (1 << 33) + 64;
    let lens: Vec<usize> = edges(cap / I::SIZE, I::SIZE);
    let n = *ch.pick(&lens);
    let mut mem = Huge::new(cap);
    // data in the last bucket only
    let data: Vec<u8> = V::bytes(0, 7);
    mem.put(n * I::SIZE, &I::bytes(data.len() as u64));
    let view: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&mem.bytes()[..(n + 1) * I::SIZE]), &data);
    let value = |i: usize, n: usize| format!("({}, {})", i, if i + 1 == n { bucket_text::<V>(&[(0, 7)]) } else { "[]".to_string() });
    let ctx = |w: &str| format!("{} buckets of {}, {}", n, V::NAME, w);
    ch.step(|| ctx(""));
    ch.state(&(V::NAME, n));
    ch.outcome(&(n >> 16 == 0, n >> 32 == 0));
    ch.evals(3);
    judge(catch(|| format!("{:?}", view)), &text_of("MultiArrayView", n, &|i| value(i, n)), &|| ctx("all"))?;
    let mut it = view.iter();
    judge(catch(|| format!("{:?}", it)), &text_of("MultiArrayViewIter", n, &|i| value(i, n)), &|| ctx("iterator"))?;
    it.next();
    it.next();
    let left = n.saturating_sub(2);
    judge(catch(|| format!("{:?}", it)), &text_of("MultiArrayViewIter", left, &|i| value(i, left)), &|| ctx("iterator after two buckets"))?;
    for m in lens.iter().filter(|m| **m <= n) {
        judge(catch(|| format!("{:?}", view.slice(n - m..))), &text_of("MultiArrayView", *m, &|i| value(i, *m)), &|| ctx(&format!("last {}", m)))?;
        ch.evals(1);
    }
    Ok(())
}

/// Vectors and writers with many entries.
fn many(ch: &mut Ch, most: usize) -> Result<(), String> {
    let lens: Vec<usize> = edges(1 << 25, 1).into_iter().filter(|n| *n <= most && *n > 200).collect();
    let n = *ch.pick(&lens);
    let what = ch.choose(4);
    let ctx = || format!("{} of {} entries", ["vector", "growing vector", "writer", "multivector"][what], n);
    ch.step(ctx);
    ch.state(&(what, n));
    ch.outcome(&what);
    ch.evals(1);
    let tmp = ch.scratch.fresh();
    let s = storage(true, &tmp.path);
    match what {
        0 | 1 => {
            let mut v = Vector::<E4>::with_len(if what == 0 { n } else { 0 });
            for i in 0..if what == 0 { 0 } else { n } {
                E4::set(&mut v.grow(), i as u64 % 7 + 3);
            }
            let value = |i: usize| if what == 0 { E4::debug(0) } else { E4::debug(i as u64 % 7 + 3) };
            judge(catch(|| format!("{:?}", v)), &text_of("Vector", n, &value), &ctx)?;
            judge(catch(|| format!("{:?}", v.as_view())), &text_of("ArrayView", n, &value), &ctx)
        }
        2 => {
            let mut v = create_external_vector::<E4>(&*s, "x", "schema").map_err(|e| e.to_string())?;
            for _ in 0..n {
                v.grow().map_err(|e| e.to_string())?;
            }
            let r = judge(catch(|| format!("{:?}", v)), &format!("ExternalVector {{ len: {} }}", n), &ctx);
            let view = v.close().map_err(|e| e.to_string())?;
            r?;
            judge(catch(|| format!("{:?}", view)), &text_of("ArrayView", n, &|_| E4::debug(0)), &ctx)
        }
        _ => {
            let mut v = create_multi_vector::<Idx32, Var3>(&*s, "x", "schema").map_err(|e| e.to_string())?;
            for _ in 0..n {
                v.grow().map_err(|e| e.to_string())?;
            }
            let r = judge(catch(|| format!("{:?}", v)), &format!("MultiVector {{ len: {} }}", n), &ctx);
            let view = v.close().map_err(|e| e.to_string())?;
            r?;
            judge(catch(|| format!("{:?}", view)), &text_of("MultiArrayView", n, &|i| format!("({}, [])", i)), &ctx)
        }
    }
}

/// Writers that have flushed.
fn flushed(ch: &mut Ch) -> Result<(), String> {
    use checks::fat::*;
    let memory = ch.flag();
    let multi = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let n = 5;
    ch.step(|| format!("memory {}, multivector {}", memory, multi));
    let mut r = Ok(());
    if multi {
        let mut w = create_multi_vector::<Idx32, VarF>(&*s, "x", "schema").map_err(|e| e.to_string())?;
        for i in 0..=n {
            r = r.and(judge(catch(|| format!("{:?}", w)), &format!("MultiVector {{ len: {} }}", i), &|| format!("after {}", i)));
            if i < n {
                VarF::add(&mut w.grow().map_err(|e| e.to_string())?, 0, 3);
            }
        }
        w.close().map_err(|e| e.to_string())?;
    } else {
        let mut w = create_external_vector::<F16>(&*s, "x", "schema").map_err(|e| e.to_string())?;
        for i in 0..=n {
            r = r.and(judge(catch(|| format!("{:?}", w)), &format!("ExternalVector {{ len: {} }}", i), &|| format!("after {}", i)));
            if i < n {
                w.grow().map_err(|e| e.to_string())?;
            }
        }
        w.close().map_err(|e| e.to_string())?;
    }
    ch.state(&(memory, multi));
    ch.outcome(&multi);
    ch.evals(n as u64 + 1);
    r
}

/// Text of an archive; the parts are in the order of their definition: structs, vectors,
/// multivectors, raw data, archives. How raw data prints is left open: None stands for it.
fn archive_text(dir: &str, there: &dyn Fn(&str) -> Option<Content>, archive_there: &dyn Fn(&str) -> bool, out: &mut Vec<Option<String>>) {
    let (_, name, _, _) = ARCHIVES.iter().find(|a| a.0 == dir).unwrap();
    let lit = |out: &mut Vec<Option<String>>, s: String| out.push(Some(s));
    lit(out, format!("{} {{ ", name));
    let mut first = true;
    for kind in &[Kind::Struct, Kind::Vector, Kind::Multi, Kind::Raw] {
        for p in parts() {
            let (d, n) = match p.path.rfind('/') {
                Some(i) => (&p.path[..i], &p.path[i + 1..]),
                None => ("", p.path),
            };
            if d != dir || p.kind != *kind {
                continue;
            }
            lit(out, format!("{}{}: ", if first { "" } else { ", " }, n));
            first = false;
            let c = match there(p.path) {
                None => {
                    lit(out, "None".into());
                    continue;
                }
                Some(c) => c,
            };
            let t = match (n, &c) {
                ("head", Content::Struct(v)) => E9::debug(*v),
                ("ohead", Content::Struct(v)) => E13::debug(*v),
                ("shead", Content::Struct(v)) => E4::debug(*v),
                ("vec", Content::Vector(l)) => text("ArrayView", &l.iter().map(|v| E4::debug(*v)).collect::<Vec<_>>()),
                ("ovec", Content::Vector(l)) => text("ArrayView", &l.iter().map(|v| E3::debug(*v)).collect::<Vec<_>>()),
                ("svec", Content::Vector(l)) => text("ArrayView", &l.iter().map(|v| E7::debug(*v)).collect::<Vec<_>>()),
                ("mv", Content::Multi(b)) => multi_text::<Var3>(b),
                ("omv", Content::Multi(b)) => multi_text::<VarT>(b),
                ("lmv", Content::Multi(b)) => multi_text::<Var1>(b),
                (_, Content::Raw(_)) => {
                    out.push(None);
                    continue;
                }
                _ => unreachable!(),
            };
            lit(out, if p.optional { format!("Some({})", t) } else { t });
        }
    }
    for (d, _, _, optional) in ARCHIVES.iter() {
        let parent = match d.rfind('/') {
            Some(i) => &d[..i],
            None => "",
        };
        if d.is_empty() || parent != dir {
            continue;
        }
        lit(out, format!("{}{}: ", if first { "" } else { ", " }, d.rsplit('/').next().unwrap()));
        first = false;
        if !archive_there(d) {
            lit(out, "None".into());
            continue;
        }
        if *optional {
            lit(out, "Some(".into());
        }
        archive_text(d, there, archive_there, out);
        if *optional {
            lit(out, ")".into());
        }
    }
    lit(out, " }".into());
}

fn multi_text<V: Var>(b: &Buckets) -> String {
    text("MultiArrayView", &b.iter().enumerate().map(|(i, b)| format!("({}, {})", i, bucket_text::<V>(b))).collect::<Vec<_>>())
}

/// Whether a text consists of these pieces.
fn consists(got: &str, pieces: &[Option<String>]) -> bool {
    let mut want: Vec<Option<String>> = vec![];
    for p in pieces {
        match (want.last_mut(), p) {
            (Some(Some(a)), Some(b)) => a.push_str(b),
            _ => want.push(p.clone()),
        }
    }
    // a separator before the first part is a matter of taste
    let got = got.replace("{ , ", "{ ");
    let mut rest = &got[..];
    for (i, p) in want.iter().enumerate() {
        match p {
            Some(x) if rest.starts_with(&x[..]) => rest = &rest[x.len()..],
            Some(_) => return false,
            None => {
                let end = match want.get(i + 1) {
                    Some(Some(x)) => match rest.find(&x[..]) {
                        Some(k) => k,
                        None => return false,
                    },
                    _ => rest.len(),
                };
                // something is there, and shows that
                if end == 0 || &rest[..end] == "None" {
                    return false;
                }
                rest = &rest[end..];
            }
        }
    }
    rest.is_empty()
}

/// Archives in which any optional parts are missing.
fn archives(ch: &mut Ch) -> Result<(), String> {
    let memory = !ch.thorough || ch.flag();
    let size = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut contents = std::collections::BTreeMap::new();
    let mut archives = vec![];
    for (d, n, schema, optional) in ARCHIVES.iter() {
        let parent_there = match d.rfind('/') {
            Some(i) => archives.contains(&&d[..i]),
            None => true,
        };
        if !parent_there || *optional && ch.flag() {
            continue;
        }
        archives.push(&d[..]);
        let sig = join(d, &format!("{}.archive", n));
        put(&s, &sig, &framed(&[]));
        put(&s, &format!("{}.schema", sig), schema.as_bytes());
        for (i, p) in parts().iter().enumerate() {
            if ARCHIVES[Builders::archive_of(p.path)].0 != *d || p.optional && ch.flag() {
                continue;
            }
            let k = i as u64;
            let c = match (p.kind, size) {
                (Kind::Vector, 0) => Content::Vector(vec![]),
                (Kind::Vector, 2) => Content::Vector((0..11 + k % 2).map(|v| v * 3 + k).collect()),
                (Kind::Multi, 0) => Content::Multi(vec![]),
                (Kind::Multi, 2) => Content::Multi((0..10 + k % 3).map(|b| (0..b % 3).map(|j| ((b + j) as usize % kinds_of(p.path), k + b * 5 + j)).collect()).collect()),
                (Kind::Raw, 0) => Content::Raw(vec![]),
                (kind, _) => sample(kind, k + 2, kinds_of(p.path)),
            };
            for r in p.resources(&c) {
                put(&s, &r.path, &framed(&r.payload));
                put(&s, &format!("{}.schema", r.path), r.schema.as_bytes());
            }
            contents.insert(p.path, c);
        }
    }
    let there = |p: &str| contents.get(p).cloned();
    let archive_there = |d: &str| archives.contains(&d);
    let ctx = || format!("memory: {}, with {:?}", memory, contents.keys().collect::<Vec<_>>());
    ch.step(&ctx);
    let a = <Top as flatdata::Archive>::open(s.clone()).map_err(|e| format!("{}: does not open: {}", ctx(), e))?;
    let mut want = vec![];
    archive_text("", &there, &archive_there, &mut want);
    let full = catch(|| format!("{:?}", a)).map_err(|p| format!("{}: printing panics: {}", ctx(), p))?;
    let copy = format!("{:?}", a.clone());
    if !consists(&full, &want) || !consists(&copy, &want) {
        return Err(format!("{}: prints as\n{}\ninstead of\n{}", ctx(), full, want.iter().map(|x| x.clone().unwrap_or_else(|| "<raw data>".into())).collect::<String>()));
    }
    let mut want = vec![];
    archive_text("sub", &there, &archive_there, &mut want);
    let sub = format!("{:?}", a.sub());
    if !consists(&sub, &want) {
        return Err(format!("{}: the archive in it prints as\n{}", ctx(), sub));
    }
    ch.evals(3);
    ch.state(&(memory, size, &archives, &contents));
    ch.outcome(&(full.len(), archives.len()));
    Ok(())
}

fn main() {
    mccore::main("C21", Level::ModelChecking, "every execution prints real views, iterators, vectors and writers next to texts made from the values; states are (type, entries, position)", |run| {
        let t = run.thorough;
        let (max, depth) = if t { (24, 7) } else { (14, 5) };
        macro_rules! arrays {
            ($($t:ty),*) => {$(
                run.explore(&format!("array-{}", <$t as Elem>::NAME), &format!("all lengths to {}, 25 and 100, {} steps of the iterator from either end; every slice and a step", max, depth), 0, move |ch| array::<$t>(ch, max, depth));
            )*};
        }
        arrays!(E1, E9, layouts::L15);
        fn all<T: Elem>(run: &mut Run) {
            run.explore(&format!("array-{}", T::NAME), "all lengths to 12, every slice, one step", 0, |ch| array::<T>(ch, 12, 1));
        }
        if t {
            all_layouts!(all, run);
        } else {
            all::<layouts::L0>(run);
            all::<layouts::L4>(run);
            all::<layouts::L17>(run);
            all::<layouts::L40>(run);
            all::<layouts::L41>(run);
            all::<E2>(run);
            all::<E16>(run);
        }
        let (max, depth) = if t { (24, 5) } else { (13, 3) };
        macro_rules! multis {
            ($(($i:ty, $v:ty)),*) => {$(
                run.explore(&format!("multi-{}", <$v as Var>::NAME), &format!("all bucket counts to {} and 25, three patterns of lengths, {} steps of the iterator; every slice and a step", max, depth), 0, move |ch| multi::<$i, $v>(ch, max, depth));
            )*};
        }
        multis!((Idx32, Var3), (Idx24, VarT), (Idx64, Var1));
        let (max, depth) = if t { (13, 6) } else { (12, 4) };
        run.explore("vector-E7", &format!("vectors of 0..={} elements and {} operations", max, depth), 0, move |ch| vector::<E7>(ch, max, depth));
        run.explore("vector-E1", "the same with one-byte elements", 0, move |ch| vector::<E1>(ch, max, depth));
        let max = if t { 1100 } else { 130 };
        run.explore("archives", "opened archives, every combination of optional parts, with no, few and more than ten elements", 0, archives);
        run.explore("writers", &format!("writers of 0..={} entries, printed after each or at the end", max), 0, move |ch| writers::<E4, Idx32, Var3>(ch, max));
        run.explore("huge-E1", "lengths around powers of two to 8 GiB; all suffixes of such lengths", 0, |ch| huge::<E1>(ch));
        run.explore("huge-E9", "the same with elements of 9 bytes", 0, |ch| huge::<E9>(ch));
        run.explore("huge-multi-Idx8", "bucket counts around powers of two to 8 GiB of index, all suffixes", 0, |ch| huge_multi::<Idx8, Var3>(ch));
        run.explore("huge-multi-Idx24", "the same with 3 bytes per offset", 0, |ch| huge_multi::<Idx24, VarT>(ch));
        let most = if t { 1 << 25 } else { 70_000 };
        run.explore_with("many", &format!("vectors, writers and multivectors with lengths around powers of two to {}", most), 0, 6, &|ch: &mut Ch| many(ch, most));
        run.explore_with("flushed", "writers that have flushed", 0, 4, &|ch: &mut Ch| flushed(ch));
    })
}
