//! C07: array views against slices of a list, for every index, every range of ranges, every history
//! of iterator steps.
use checks::huge::*;
use checks::*;
use flatdata::ArrayView;
use checks::iters::*;

/// An array of `n` elements with other bytes on both sides.
struct Array {
    buf: Vec<u8>,
    start: usize,
    end: usize,
    model: Vec<Vals>,
}

fn array<T: Elem>(n: usize, lead: usize) -> Array {
    let mut buf = vec![0xC3u8; lead];
    buf.extend(T::bytes(77));
    let start = buf.len();
    let ids: Vec<u64> = (0..n as u64).map(|i| 10 + i).collect();
    for i in &ids {
        buf.extend(T::bytes(*i));
    }
    let end = buf.len();
    // a readable element and some padding follow
    buf.extend(T::bytes(78));
    buf.extend(vec![0x5Au8; 16]);
    Array { buf, start, end, model: ids.iter().map(|i| T::values(*i)).collect() }
}

fn same<T: Elem>(view: &ArrayView<T>, model: &[Vals], ctx: &str) -> Result<(), String> {
    let n = model.len();
    if view.len() != n || view.is_empty() != (n == 0) {
        return Err(format!("{}: len {} / is_empty {} instead of {}", ctx, view.len(), view.is_empty(), n));
    }
    if view.as_bytes().len() != n * T::SIZE || view.as_ref().len() != n * T::SIZE {
        return Err(format!("{}: {} bytes instead of {}", ctx, view.as_bytes().len(), n * T::SIZE));
    }
    for (i, m) in model.iter().enumerate() {
        let got = catch(|| T::get(&view.at(i))).map_err(|e| format!("{}: at({}) panics: {}", ctx, i, e))?;
        if got != *m {
            return Err(format!("{}: at({}) is {:?} instead of {:?}", ctx, i, got, m));
        }
    }
    let got: Vec<Vals> = view.iter().map(|x| T::get(&x)).collect();
    if got != model {
        return Err(format!("{}: iterates {:?} instead of {:?}", ctx, got, model));
    }
    let got: Vec<Vals> = view.iter().rev().map(|x| T::get(&x)).collect();
    if !got.iter().eq(model.iter().rev()) {
        return Err(format!("{}: iterates backwards {:?}", ctx, got));
    }
    if catch(|| view.at(n)).is_ok() {
        return Err(format!("{}: at({}) does not panic with {} elements", ctx, n, n));
    }
    Ok(())
}

fn indexing<T: Elem>(ch: &mut Ch, max_n: usize) -> Result<(), String> {
    let n = ch.choose(max_n + 1);
    let lead = ch.choose(3);
    let a = array::<T>(n, lead);
    let view: ArrayView<T> = ArrayView::new(&a.buf[a.start..a.end]);
    let w = wild(T::SIZE);
    let i = ch.choose(n + 3 + w.len());
    let idx = if i < n + 3 { i } else { w[i - n - 3] };
    ch.step(|| format!("{} n={} at({})", T::NAME, n, idx));
    let got = catch(|| T::get(&view.at(idx)));
    ch.state(&(T::NAME, n, lead, idx));
    ch.outcome(&(T::NAME, n, got.as_ref().ok()));
    match (a.model.get(idx), got) {
        (Some(m), Ok(g)) if *m == g => Ok(()),
        (None, Err(_)) => same(&view, &a.model, "afterwards"),
        (m, g) => Err(format!("{} n={}: at({}) gives {:?}, a slice gives {:?}", T::NAME, n, idx, g, m)),
    }
}

fn slicing<T: Elem>(ch: &mut Ch, max_n: usize, depth: usize) -> Result<(), String> {
    let n = ch.choose(max_n + 1);
    let a = array::<T>(n, 1);
    let mut view: ArrayView<T> = ArrayView::new(&a.buf[a.start..a.end]);
    let mut model = &a.model[..];
    let full = wild(T::SIZE);
    let few = [usize::max_value(), (usize::max_value() / T::SIZE).saturating_add(1)];
    for d in 0..depth {
        let w: &[usize] = if d == 0 && depth == 1 { &full } else { &few };
        let r = (bound(ch, model.len(), w), bound(ch, model.len(), w));
        ch.step(|| format!("{} len={} slice({:?})", T::NAME, model.len(), r));
        let got = catch(|| view.slice(r));
        match (resolve(&r, model.len()), got) {
            (None, Err(_)) => {
                ch.outcome(&(T::NAME, "panic", model.len()));
                return same(&view, model, "afterwards");
            }
            (Some((s, e)), Ok(v)) => {
                model = &model[s..e];
                view = v;
                same(&view, model, &format!("slice({:?})", r))?;
                ch.state(&(T::NAME, d, n, model));
                ch.outcome(&(T::NAME, model));
            }
            (Some(_), Err(m)) => return Err(format!("{} len={}: slice({:?}) panics: {}", T::NAME, model.len(), r, m)),
            (None, Ok(v)) => {
                return Err(format!(
                    "{} len={}: slice({:?}) is out of bounds, but gives a view of length {:?}",
                    T::NAME,
                    model.len(),
                    r,
                    catch(|| v.len())
                ))
            }
        }
        if model.is_empty() && d + 1 < depth && !ch.flag() {
            return Ok(());
        }
    }
    Ok(())
}

fn iterating<T: Elem>(ch: &mut Ch, max_n: usize, depth: usize) -> Result<(), String> {
    let n = ch.choose(max_n + 1);
    let a = array::<T>(n, 2);
    let view: ArrayView<T> = ArrayView::new(&a.buf[a.start..a.end]);
    let src = ch.choose(3);
    let it = match src {
        0 => view.iter(),
        1 => view.clone().into_iter(),
        _ => (&view).into_iter(),
    };
    iterate(ch, it, &a.model, depth, &format!("{} n={} source {}", T::NAME, n, src), &|x| T::get(&x))?;
    same(&view, &a.model, "the view after iterating")
}

/// Views of a vector, by every way to get one.
fn from_vector<T: Elem>(ch: &mut Ch, max_n: usize) -> Result<(), String> {
    let n = ch.choose(max_n + 1);
    let way = ch.choose(2);
    let mut v: flatdata::Vector<T> = flatdata::Vector::new();
    let mut model = Vec::new();
    for i in 0..n {
        T::set(&mut v.grow(), i as u64);
        model.push(T::values(i as u64));
    }
    ch.step(|| format!("{} view of a vector of {}", T::NAME, n));
    let view: ArrayView<T> = if way == 0 { v.as_view() } else { (&v).into() };
    ch.state(&(T::NAME, n, way));
    ch.outcome(&(T::NAME, n));
    same(&view, &model, "view of a vector")?;
    let e = { view.clone().slice(..).iter().next() };
    if e.map(|x| T::get(&x)) != model.first().cloned() {
        return Err("an element outlives the view it was got from, but changes".into());
    }
    Ok(())
}

/// More than 4 GiB of elements, nearly all of which are zero.
fn huge<T: Elem>(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let n = (1usize << *ch.pick(&[31, 32, 33])) / T::SIZE + *ch.pick(&[0usize, 1, 5]);
    let marks = edges(n, T::SIZE);
    let mut mem = Huge::new(n * T::SIZE + 8);
    for (k, i) in marks.iter().enumerate() {
        mem.put(*i * T::SIZE, &T::bytes(k as u64 + 3));
    }
    let value = |i: usize| T::values(marks.binary_search(&i).map_or(0, |k| k as u64 + 3));
    let mut view: ArrayView<T> = ArrayView::new(&mem.bytes()[..n * T::SIZE]);
    let (mut a, mut b) = (0, n);
    let mut hist = format!("{} elements of {}", n, T::NAME);
    ch.step(|| hist.clone());
    for d in 0.. {
        let len = b - a;
        ch.evals(1);
        ch.state(&(T::NAME, n, a, b));
        ch.outcome(&(T::NAME, len < 3, len >> 16 == 0, len >> 32 == 0));
        let it = view.iter();
        if view.len() != len || view.is_empty() != (len == 0) || view.as_bytes().len() != len * T::SIZE || it.len() != len || it.size_hint() != (len, Some(len)) {
            return Err(format!("{}: {} elements, {} bytes, iterates {} instead of {}", hist, view.len(), view.as_bytes().len(), it.len(), len));
        }
        for i in marks.iter().cloned().filter(|i| (a..b).contains(i)).chain(if len > 0 { vec![a, b - 1, a + len / 2] } else { vec![] }) {
            let got = catch(|| T::get(&view.at(i - a))).map_err(|p| format!("{}: at({}) panics: {}", hist, i - a, p))?;
            if got != value(i) {
                return Err(format!("{}: at({}) is {:?} instead of {:?}", hist, i - a, got, value(i)));
            }
        }
        for i in &[len, len + 1, len + (1 << 32), len | 1 << 63] {
            if catch(|| T::get(&view.at(*i))).is_ok() {
                return Err(format!("{}: at({}) does not panic", hist, i));
            }
        }
        let (mut it, mut x, mut y) = (view.iter(), a, b);
        for k in 0..6 {
            let (got, want) = if k % 2 == 0 {
                x += 1;
                (it.next(), x - 1)
            } else {
                y = y.wrapping_sub(1);
                (it.next_back(), y)
            };
            let got = got.map(|g| T::get(&g));
            let want = if k < len { Some(value(want)) } else { None };
            if got != want || it.len() != len.saturating_sub(k + 1) {
                return Err(format!("{}: step {} of the iterator is {:?} instead of {:?}, {} elements are left", hist, k, got, want, it.len()));
            }
        }
        if d == depth {
            return Ok(());
        }
        // any range between marks
        let inner: Vec<usize> = marks.iter().map(|m| m.wrapping_sub(a)).filter(|m| *m <= len).chain([len].iter().cloned()).collect();
        let inner: Vec<usize> = if d == 0 { inner } else { inner.iter().cloned().step_by(5).collect() };
        let s = ch.choose(inner.len());
        let e = s + ch.choose(inner.len() - s);
        let (s, e) = (inner[s], inner[e]);
        let kind = ch.choose(4);
        let (v, to) = match kind {
            0 => (catch(|| view.slice(s..e)), (s, e)),
            1 => (catch(|| view.slice(s..)), (s, len)),
            2 => (catch(|| view.slice(..e)), (0, e)),
            _ => {
                if e == len {
                    return match catch(|| view.slice(s..=e)) {
                        Ok(_) => Err(format!("{}: slice {}..={} of {} does not panic", hist, s, e, len)),
                        Err(_) => Ok(()),
                    };
                }
                (catch(|| view.slice(s..=e)), (s, e + 1))
            }
        };
        hist = format!("{}, slice {}..{} (kind {})", hist, s, e, kind);
        ch.step(|| hist.clone());
        view = v.map_err(|p| format!("{}: panics: {}", hist, p))?;
        b = a + to.1;
        a += to.0;
    }
    Ok(())
}

/// Lengths from none to many, slices of them, and jumps.
fn sizes<T: Elem>(ch: &mut Ch, small: usize, bits: u32) -> Result<(), String> {
    let n = *ch.pick(&lengths(small, bits));
    let a = array::<T>(n, 3);
    let bytes = &a.buf[a.start..a.end];
    let view: ArrayView<T> = ArrayView::new(bytes);
    let e = edges_of(n);
    let from = *ch.pick(&e);
    ch.step(|| format!("{} n={} from {}", T::NAME, n, from));
    if from == 0 {
        same(&view, &a.model, &format!("{} n={}", T::NAME, n))?;
        let it = || view.iter().map(|x| T::get(&x));
        if it().count() != n || it().last().as_ref() != a.model.last() || it().rfold(0, |i, _| i + 1) != n || it().position(|x| x == T::values(10 + n as u64 / 2)) != a.model.iter().position(|x| *x == T::values(10 + n as u64 / 2)) {
            return Err(format!("{} n={}: count, last, rfold or position", T::NAME, n));
        }
    }
    for to in e.iter().filter(|x| **x >= from) {
        let to = *to;
        let ctx = || format!("{} n={} slice {}..{}", T::NAME, n, from, to);
        let views = catch(|| {
            let mut v = vec![view.slice(from..to)];
            if to > from {
                v.push(view.slice(from..=to - 1));
            }
            if to == n {
                v.push(view.slice(from..));
            }
            if from == 0 {
                v.push(view.slice(..to));
            }
            v.push(view.slice(from..).slice(..to - from));
            v
        })
        .map_err(|p| format!("{}: panics: {}", ctx(), p))?;
        for v in &views {
            if v.len() != to - from || v.as_bytes() != &bytes[from * T::SIZE..to * T::SIZE] {
                return Err(format!("{}: has {} elements or other bytes", ctx(), v.len()));
            }
        }
        let v = &views[0];
        for k in edges_of(to - from) {
            let got = catch(|| T::get(&v.at(k)));
            match (got, k < to - from) {
                (Ok(x), true) if x == a.model[from + k] => (),
                (Err(_), false) => (),
                (x, _) => return Err(format!("{}: at({}) is {:?}", ctx(), k, x)),
            }
        }
        catch(|| jumps(&v.iter(), to - from, &|i| a.model[from + i].clone(), &|x| T::get(&x), &ctx)).map_err(|p| format!("{}: an iterator panics: {}", ctx(), p))??;
        ch.evals(1);
    }
    ch.state(&(T::NAME, n, from));
    ch.outcome(&(T::NAME, n));
    Ok(())
}

fn all<T: Elem>(run: &mut Run) {
    let t = run.thorough;
    let name = |s: &str| format!("{}-{}", s, T::NAME);
    run.explore(&name("index"), "n<=6, every index <= n+2 and wrap-around candidates", 0, move |ch| {
        indexing::<T>(ch, if t { 20 } else { 6 })
    });
    run.explore(&name("slice"), "n<=5, one range, all bound kinds, values <= n+2 and wrap-around candidates", 0, move |ch| {
        slicing::<T>(ch, if t { 8 } else { 5 }, 1)
    });
    run.explore(&name("slices-of-slices"), "n<=3, two ranges (thorough n<=4)", 0, move |ch| {
        slicing::<T>(ch, if t { 4 } else { 3 }, 2)
    });
    let (small, bits) = if t { (300, 19) } else { (40, 17) };
    run.explore(&name("sizes"), &format!("all lengths to {} and around powers of two to 2^{}: slices and jumps to all places around powers of two and the ends", small, bits), 0, move |ch| sizes::<T>(ch, small, bits));
    run.explore(&name("from-vector"), "n<=20", 0, move |ch| from_vector::<T>(ch, 20));
}

fn main() {
    mccore::main(
        "C07",
        Level::ModelChecking,
        "every execution runs the real ArrayView next to a slice of the model list; states are (type, length, remaining elements of the live iterators or views)",
        |run| {
            all::<E1>(run);
            all::<E3>(run);
            all::<E9>(run);
            all::<E13>(run);
            let t = run.thorough;
            run.explore("iterate-E3", "n<=4, up to two live iterators, 4 operations (thorough 6)", 0, move |ch| {
                iterating::<E3>(ch, 4, if t { 6 } else { 4 })
            });
            run.explore("iterate-E9", "n<=3, up to two live iterators, 3 operations (thorough 5)", 0, move |ch| {
                iterating::<E9>(ch, 3, if t { 5 } else { 3 })
            });
            let d = if t { 2 } else { 1 };
            run.explore("huge-E1", "2, 4 and 8 GiB of elements, every range between the indices around powers of two and the ends", 0, move |ch| huge::<E1>(ch, d));
            run.explore("huge-E3", "the same with elements of 3 bytes", 0, move |ch| huge::<E3>(ch, d));
            run.explore("huge-E13", "the same with elements of 13 bytes", 0, move |ch| huge::<E13>(ch, d));
            run.explore("huge-L7", "the same with elements of 8222 bytes", 0, move |ch| huge::<layouts::L7>(ch, d));
            if t {
                run.explore("slices-of-slices-of-slices-E4", "n<=2, three ranges", 0, |ch| slicing::<E4>(ch, 2, 3));
            }
        },
    )
}
