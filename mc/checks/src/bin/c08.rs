//! C08: multivector views against slices of a list of buckets, for every index, every range of
//! ranges, every history of iterator steps, and every list of buckets up to a size.
use checks::iters::*;
use checks::fat::{VarF, VarG};
use checks::huge::*;
use checks::*;
use flatdata::{ArrayView, MultiArrayView, VariadicStruct};

type Model = Vec<Vec<(usize, Vals)>>;

struct Multi {
    buf: Vec<u8>,
    index: (usize, usize),
    data: (usize, usize),
    model: Model,
}

/// The two payloads, with other bytes around them.
fn multi<I: Idx, V: Var>(b: &Buckets) -> Multi {
    let (i, d) = multi_bytes::<I, V>(b);
    let mut buf = vec![0xC3u8; 3];
    let s = buf.len();
    buf.extend(&i);
    let index = (s, buf.len());
    buf.extend(vec![0u8; 16]);
    let s = buf.len();
    buf.extend(&d);
    let data = (s, buf.len());
    // readable elements follow
    buf.extend(V::bytes(0, 99));
    buf.extend(V::bytes(0, 98));
    Multi { buf, index, data, model: multi_vals::<V>(b) }
}

impl Multi {
    fn view<I: Idx, V: Var>(&self) -> MultiArrayView<I, V> {
        MultiArrayView::new(ArrayView::new(&self.buf[self.index.0..self.index.1]), &self.buf[self.data.0..self.data.1])
    }
}

fn bucket_vals<'a, V: Var>(it: impl Iterator<Item = <V as VariadicStruct<'a>>::Item>) -> Vec<(usize, Vals)> {
    it.map(|x| V::get(&x)).collect()
}

/// Steps through one bucket to its end and beyond.
fn bucket<'a, V: Var>(mut it: impl Iterator<Item = <V as VariadicStruct<'a>>::Item> + Clone, m: &[(usize, Vals)], ctx: &str) -> Result<(), String> {
    for k in 0..=m.len() {
        let rest = bucket_vals::<V>(it.clone());
        if rest != &m[k..] {
            return Err(format!("{}: after {} elements the rest is {:?} instead of {:?}", ctx, k, rest, &m[k..]));
        }
        let (lo, hi) = it.size_hint();
        if lo > m.len() - k || hi.map_or(false, |h| h < m.len() - k) {
            return Err(format!("{}: size hint {:?} with {} elements left", ctx, (lo, hi), m.len() - k));
        }
        let got = it.next().map(|x| V::get(&x));
        if got.as_ref() != m.get(k) {
            return Err(format!("{}: element {} is {:?} instead of {:?}", ctx, k, got, m.get(k)));
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return Err(format!("{}: an exhausted bucket returns an element", ctx));
        }
    }
    Ok(())
}

fn same<I: Idx, V: Var>(view: &MultiArrayView<I, V>, model: &[Vec<(usize, Vals)>], ctx: &str) -> Result<(), String> {
    let n = model.len();
    if view.len() != n || view.is_empty() != (n == 0) {
        return Err(format!("{}: len {} / is_empty {} instead of {}", ctx, view.len(), view.is_empty(), n));
    }
    for (i, m) in model.iter().enumerate() {
        let it = catch(|| view.at(i)).map_err(|e| format!("{}: at({}) panics: {}", ctx, i, e))?;
        catch(|| bucket::<V>(it, m, &format!("{}: at({})", ctx, i))).map_err(|e| format!("{}: bucket {} panics: {}", ctx, i, e))??;
    }
    let got: Model = catch(|| view.iter().map(|b| bucket_vals::<V>(b)).collect()).map_err(|e| format!("{}: iterating panics: {}", ctx, e))?;
    if got != model {
        return Err(format!("{}: iterates {:?} instead of {:?}", ctx, got, model));
    }
    let got: Model = catch(|| view.iter().rev().map(|b| bucket_vals::<V>(b)).collect()).map_err(|e| format!("{}: iterating panics: {}", ctx, e))?;
    if !got.iter().eq(model.iter().rev()) {
        return Err(format!("{}: iterates backwards {:?}", ctx, got));
    }
    for i in [n, n + 1].iter() {
        if let Ok(b) = catch(|| view.at(*i)) {
            return Err(format!("{}: at({}) of {} buckets gives {:?}", ctx, i, n, catch(|| bucket_vals::<V>(b))));
        }
    }
    Ok(())
}

/// Buckets of the given sizes; elements are numbered.
fn numbered(sizes: &[usize], kinds: usize) -> Buckets {
    let mut n = 0;
    sizes
        .iter()
        .map(|s| {
            (0..*s)
                .map(|_| {
                    n += 1;
                    (n % kinds, n as u64 + 2)
                })
                .collect()
        })
        .collect()
}

fn any_sizes(ch: &mut Ch, max_n: usize, max_elems: usize) -> Vec<usize> {
    let n = ch.choose(max_n + 1);
    (0..n).map(|_| ch.choose(max_elems + 1)).collect()
}

/// Every list of buckets with every combination of variants.
fn contents<I: Idx, V: Var>(ch: &mut Ch, max_n: usize, max_elems: usize) -> Result<(), String> {
    let kinds = V::tags().len();
    let n = ch.choose(max_n + 1);
    let mut id = 2;
    let b: Buckets = (0..n)
        .map(|_| {
            (0..ch.choose(max_elems + 1))
                .map(|_| {
                    id += 1;
                    (ch.choose(kinds), id)
                })
                .collect()
        })
        .collect();
    ch.step(|| format!("{} {} buckets {:?}", I::NAME, V::NAME, b));
    let m = multi::<I, V>(&b);
    let view = m.view::<I, V>();
    ch.state(&(I::NAME, V::NAME, &b));
    ch.outcome(&(V::NAME, &m.model));
    same(&view, &m.model, "view")?;
    let c = { let v = view.clone(); v.iter() };
    if c.map(|b| bucket_vals::<V>(b)).collect::<Model>() != m.model {
        return Err("an iterator that outlives a clone of the view differs".into());
    }
    same(&view.slice(..), &m.model, "slice(..)")
}

fn indexing<I: Idx, V: Var>(ch: &mut Ch, max_n: usize) -> Result<(), String> {
    let sizes = any_sizes(ch, max_n, 2);
    let m = multi::<I, V>(&numbered(&sizes, V::tags().len()));
    let view = m.view::<I, V>();
    let n = sizes.len();
    let w = wild(I::SIZE);
    let i = ch.choose(n + 3 + w.len());
    let idx = if i < n + 3 { i } else { w[i - n - 3] };
    ch.step(|| format!("{} {} sizes {:?} at({})", I::NAME, V::NAME, sizes, idx));
    let got = catch(|| view.at(idx)).and_then(|b| catch(|| bucket_vals::<V>(b)));
    ch.state(&(I::NAME, V::NAME, &sizes, idx));
    ch.outcome(&(I::NAME, V::NAME, idx < n, got.as_ref().ok()));
    match (m.model.get(idx), got) {
        (Some(m), Ok(g)) if *m == g => Ok(()),
        (None, Err(_)) => same(&view, &m.model, "afterwards"),
        (m, g) => Err(format!("{} sizes {:?}: at({}) gives {:?}, a slice gives {:?}", I::NAME, sizes, idx, g, m)),
    }
}

/// Bucket counts from none to many, slices of them, and jumps.
fn sizes<I: Idx, V: Var>(ch: &mut Ch, small: usize, bits: u32) -> Result<(), String> {
    let n = *ch.pick(&lengths(small, bits));
    let kinds = V::tags().len();
    let sizes: Vec<usize> = (0..n).map(|i| i % 3).collect();
    let m = multi::<I, V>(&numbered(&sizes, kinds));
    let view = m.view::<I, V>();
    let e = edges_of(n);
    let from = *ch.pick(&e);
    ch.step(|| format!("{} {} n={} from {}", I::NAME, V::NAME, n, from));
    if from == 0 {
        catch(|| {
            let ok = view.iter().zip(&m.model).all(|(b, w)| bucket_vals::<V>(b) == *w) && view.iter().rev().zip(m.model.iter().rev()).all(|(b, w)| bucket_vals::<V>(b) == *w);
            if !ok || view.iter().count() != n || view.iter().rfold(0, |i, _| i + 1) != n {
                return Err(format!("{} {} n={}: iterating gives something else", I::NAME, V::NAME, n));
            }
            Ok(())
        })
        .map_err(|p| format!("{} {} n={}: iterating panics: {}", I::NAME, V::NAME, n, p))??;
    }
    for to in e.iter().filter(|x| **x >= from) {
        let to = *to;
        let ctx = || format!("{} {} n={} slice {}..{}", I::NAME, V::NAME, n, from, to);
        let views = catch(|| {
            let mut v = vec![view.slice(from..to)];
            if to > from {
                v.push(view.slice(from..=to - 1));
            }
            if to == n {
                v.push(view.slice(from..));
            }
            if from == 0 {
                v.push(view.slice(..to));
            }
            v.push(view.slice(from..).slice(..to - from));
            v
        })
        .map_err(|p| format!("{}: panics: {}", ctx(), p))?;
        for v in &views {
            if v.len() != to - from {
                return Err(format!("{}: has {} buckets", ctx(), v.len()));
            }
            for k in edges_of(to - from) {
                let got = catch(|| bucket_vals::<V>(v.at(k)));
                match (got, k < to - from) {
                    (Ok(x), true) if x == m.model[from + k] => (),
                    (Err(_), false) => (),
                    (x, _) => return Err(format!("{}: at({}) is {:?}", ctx(), k, x)),
                }
            }
        }
        catch(|| jumps(&views[0].iter(), to - from, &|i| m.model[from + i].clone(), &|x| bucket_vals::<V>(x), &ctx)).map_err(|p| format!("{}: an iterator panics: {}", ctx(), p))??;
        ch.evals(1);
    }
    ch.state(&(I::NAME, V::NAME, n, from));
    ch.outcome(&(I::NAME, n));
    Ok(())
}

/// Buckets with few and many elements, next to each other.
fn large<I: Idx, V: Var>(ch: &mut Ch, small: usize, bits: u32) -> Result<(), String> {
    let n = *ch.pick(&lengths(small, bits));
    let m = multi::<I, V>(&numbered(&[1, n, 0, 2], V::tags().len()));
    let view = m.view::<I, V>();
    let ctx = || format!("{} {} {} elements", I::NAME, V::NAME, n);
    ch.step(|| ctx());
    let model = &m.model[1];
    let get = |x: Option<<V as VariadicStruct>::Item>| x.map(|x| V::get(&x));
    catch(|| {
        for (i, w) in m.model.iter().enumerate() {
            if bucket_vals::<V>(view.at(i)) != *w {
                return Err(format!("{}: bucket {} is something else", ctx(), i));
            }
        }
        let whole = view.at(1);
        for k in edges_of(n) {
            let mut it = whole.clone();
            let x = get(it.nth(k));
            if x.as_ref() != model.get(k) {
                return Err(format!("{}: nth({}) is {:?} instead of {:?}", ctx(), k, x, model.get(k)));
            }
            let rest = n.saturating_sub(k + 1);
            let (lo, hi) = it.size_hint();
            if lo > rest || hi.map_or(false, |h| h < rest) || it.clone().count() != rest {
                return Err(format!("{}: after nth({}) {} are left, size hint {:?}", ctx(), k, it.clone().count(), (lo, hi)));
            }
            let last = get(it.last());
            if last.as_ref() != if rest > 0 { model.last() } else { None } {
                return Err(format!("{}: the last one after {} is {:?}", ctx(), k, last));
            }
        }
        Ok(())
    })
    .map_err(|p| format!("{}: panics: {}", ctx(), p))??;
    ch.evals(1);
    ch.state(&(I::NAME, V::NAME, "large", n));
    ch.outcome(&(I::NAME, "large", n));
    Ok(())
}

fn slicing<I: Idx, V: Var>(ch: &mut Ch, max_n: usize, depth: usize) -> Result<(), String> {
    // the patterns of empty and non-empty buckets
    let sizes = any_sizes(ch, max_n, 1);
    let m = multi::<I, V>(&numbered(&sizes, V::tags().len()));
    let mut view = m.view::<I, V>();
    let mut model = &m.model[..];
    let full = wild(I::SIZE);
    let few = [usize::max_value(), usize::max_value() - 1, (usize::max_value() / I::SIZE).saturating_add(1)];
    for d in 0..depth {
        let w: &[usize] = if d == 0 && depth == 1 { &full } else { &few };
        let r = (bound(ch, model.len(), w), bound(ch, model.len(), w));
        ch.step(|| format!("{} sizes {:?} len={} slice({:?})", I::NAME, sizes, model.len(), r));
        let got = catch(|| view.slice(r));
        match (resolve(&r, model.len()), got) {
            (None, Err(_)) => {
                ch.outcome(&("panic", model.len()));
                return same(&view, model, "afterwards");
            }
            (Some((s, e)), Ok(v)) => {
                model = &model[s..e];
                view = v;
                same(&view, model, &format!("sizes {:?} slice({:?})", sizes, r))?;
                ch.state(&(I::NAME, V::NAME, d, &sizes, model));
                ch.outcome(&(I::NAME, model));
            }
            (Some(_), Err(m)) => return Err(format!("{} len={}: slice({:?}) panics: {}", I::NAME, model.len(), r, m)),
            (None, Ok(v)) => {
                return Err(format!(
                    "{} len={}: slice({:?}) is out of bounds, but gives a view of length {:?}",
                    I::NAME,
                    model.len(),
                    r,
                    catch(|| v.len())
                ))
            }
        }
    }
    Ok(())
}

fn iterating<I: Idx, V: Var>(ch: &mut Ch, max_n: usize, depth: usize) -> Result<(), String> {
    let sizes = any_sizes(ch, max_n, 1);
    let m = multi::<I, V>(&numbered(&sizes, V::tags().len()));
    let view = m.view::<I, V>();
    let src = ch.choose(3);
    let it = match src {
        0 => view.iter(),
        1 => view.clone().into_iter(),
        _ => (&view).into_iter(),
    };
    iterate(ch, it, &m.model, depth, &format!("{} sizes {:?} source {}", V::NAME, sizes, src), &|x| bucket_vals::<V>(x))?;
    same(&view, &m.model, "the view after iterating")
}

/// More than 4 GiB of index: all buckets but the last ones are empty.
fn huge_index<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    let n = (1usize << *ch.pick(&[31, 32, 33])) / I::SIZE + *ch.pick(&[0usize, 3]);
    let last: Buckets = vec![vec![(0, 5), (V::tags().len() - 1, 6)], vec![], vec![(0, 7)]];
    let k = last.len();
    let (index, data) = multi_bytes::<I, V>(&last);
    let want = multi_vals::<V>(&last);
    let mut mem = Huge::new((n + 1) * I::SIZE);
    mem.put((n - k) * I::SIZE, &index);
    let mut view: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(mem.bytes()), &data);
    let (mut a, mut b) = (0, n);
    let marks = edges(n + 1, I::SIZE);
    let mut hist = format!("{} buckets of {} and {}", n, I::NAME, V::NAME);
    let nested = ch.flag();
    for d in 0.. {
        let len = b - a;
        ch.state(&(I::NAME, V::NAME, n, a, b));
        ch.outcome(&(b == n, len < 4, len >> 32 == 0));
        let it = view.iter();
        if view.len() != len || view.is_empty() != (len == 0) || it.len() != len || it.size_hint() != (len, Some(len)) {
            return Err(format!("{}: {} buckets, iterates {} instead of {}", hist, view.len(), it.len(), len));
        }
        let value = |i: usize| if i >= n - k { want[i - (n - k)].clone() } else { vec![] };
        for i in marks.iter().cloned().chain(n - k..n).filter(|i| (a..b).contains(i)).chain(if len > 0 { vec![a, b - 1, a + len / 2] } else { vec![] }) {
            let got = catch(|| bucket_vals::<V>(view.at(i - a))).map_err(|p| format!("{}: at({}) panics: {}", hist, i - a, p))?;
            if got != value(i) {
                return Err(format!("{}: at({}) is {:?} instead of {:?}", hist, i - a, got, value(i)));
            }
        }
        for i in &[len, len + 1, len + (1 << 32), len | 1 << 63] {
            if catch(|| view.at(*i)).is_ok() {
                return Err(format!("{}: at({}) does not panic", hist, i));
            }
        }
        let (mut it, mut x, mut y) = (view.iter(), a, b);
        for s in 0..8 {
            let (got, at) = if s % 2 == 0 {
                x += 1;
                (it.next(), x - 1)
            } else {
                y = y.wrapping_sub(1);
                (it.next_back(), y)
            };
            let got = got.map(|g| bucket_vals::<V>(g));
            let wanted = if s < len { Some(value(at)) } else { None };
            if got != wanted || it.len() != len.saturating_sub(s + 1) {
                return Err(format!("{}: step {} of the iterator is {:?} instead of {:?}, {} buckets are left", hist, s, got, wanted, it.len()));
            }
        }
        if d == 1 + nested as usize {
            return Ok(());
        }
        let mut inner: Vec<usize> = marks.iter().map(|m| m.wrapping_sub(a)).filter(|m| *m <= len).collect();
        if d > 0 || nested {
            inner = inner.iter().cloned().step_by(4).chain([len].iter().cloned()).collect();
        }
        let s = ch.choose(inner.len());
        let e = s + ch.choose(inner.len() - s);
        let (s, e) = (inner[s], inner[e]);
        hist = format!("{}, slice {}..{}", hist, s, e);
        ch.step(|| hist.clone());
        view = catch(|| if e == len && s % 2 == 1 { view.slice(s..) } else { view.slice(s..e) }).map_err(|p| format!("{}: panics: {}", hist, p))?;
        b = a + e;
        a += s;
    }
    Ok(())
}

/// More than 4 GiB of elements.
fn huge_data<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    let kinds = *ch.pick(&[&[0usize, 1][..], &[1, 2, 2], &[2, 0, 1, 0]]);
    let sizes = *ch.pick(&[&[1usize][..], &[0, 3, 1], &[7, 2], &[1000]]);
    let fat: Vec<Vec<Fat>> = (0..3).map(|k| (3..5).map(|v| Fat::new(&V::bytes(k, v))).collect()).collect();
    let mut mem = Huge::new(6 << 30);
    let mut end = 0;
    let mut buckets: Buckets = vec![];
    let mut index = vec![];
    let mut count = 0;
    while end < 4353 << 20 {
        let mut b = vec![];
        index.extend(I::bytes(end as u64));
        for _ in 0..sizes[buckets.len() % sizes.len()] {
            let (kind, v) = (kinds[count % kinds.len()], 3 + count as u64 % 2);
            count += 1;
            let f = &fat[kind][v as usize - 3];
            if end + f.size > mem.bytes().len() {
                break;
            }
            for (at, p) in &f.pieces {
                mem.put(end + at, p);
            }
            end += f.size;
            b.push((kind, v));
        }
        buckets.push(b);
    }
    index.extend(I::bytes(end as u64));
    let what = format!("{} buckets of {} and {} (elements {:?} in buckets of {:?}), {} bytes", buckets.len(), I::NAME, V::NAME, kinds, sizes, end);
    ch.step(|| what.clone());
    ch.state(&(I::NAME, V::NAME, kinds, sizes));
    ch.outcome(&(end >> 32, buckets.len() > 2));
    ch.evals(count as u64);
    let m = multi_vals::<V>(&buckets);
    let view: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&index), &mem.bytes()[..end]);
    same(&view, &m, &what)?;
    let n = m.len();
    for (a, b) in &[(0, n), (n / 2, n), (n - 1, n), (0, n - 1), (n / 3, n / 2 + 1)] {
        same(&view.slice(*a..*b), &m[*a..*b], &format!("{}, slice {}..{}", what, a, b))?;
    }
    Ok(())
}

/// Elements next to elements of other types, values and unused bits: which are equal, how large are they.
fn equality<I: Idx, V: Var>(ch: &mut Ch) -> Result<(), String> {
    use flatdata::VariadicRef;
    let (tags, sizes) = (V::tags(), V::sizes());
    let mut stored: Vec<(usize, Vec<u8>)> = vec![];
    for kind in 0..tags.len() {
        let n = sizes[kind];
        let mut all = vec![vec![0; n], vec![255; n], V::payload(kind, 2), V::payload(kind, 3)];
        for bit in 0..n * 8 {
            let mut b = V::payload(kind, 2);
            b[bit / 8] ^= 1 << (bit % 8);
            all.push(b);
        }
        stored.extend(all.into_iter().map(|b| (kind, b)));
    }
    // one of them next to every one, in another bucket
    let (k, b) = ch.pick(&stored).clone();
    let mut data = vec![tags[k]];
    data.extend(&b);
    let first = data.len();
    for (k, b) in &stored {
        data.push(tags[*k]);
        data.extend(b);
    }
    let index: Vec<u8> = [0, first as u64, data.len() as u64].iter().flat_map(|v| I::bytes(*v)).collect();
    let v: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&index), &data);
    let one = catch(|| v.at(0).next())?.ok_or("the first element is not there")?;
    let ctx = || format!("{} {:?}", V::debug_of(k, &V::values_of_bytes(k, &b)), b);
    ch.step(|| ctx());
    let mut n = 0;
    for (other, (ok, ob)) in v.at(1).zip(&stored) {
        let want = k == *ok && V::values_of_bytes(k, &b) == V::values_of_bytes(*ok, ob);
        let got = catch(|| (one == other, one != other, other == one, other.clone() == other, other.size_in_bytes()))?;
        if got != (want, !want, want, true, sizes[*ok]) {
            return Err(format!("{} and {} {:?}: ==, !=, reversed ==, equal to its copy, size are {:?}", ctx(), V::debug_of(*ok, &V::values_of_bytes(*ok, ob)), ob, got));
        }
        n += 1;
        ch.outcome(&(want, k == *ok));
    }
    if n != stored.len() {
        return Err(format!("{} of {} elements were there", n, stored.len()));
    }
    ch.evals(n as u64);
    ch.state(&(V::NAME, k, &b));
    Ok(())
}

fn main() {
    mccore::main(
        "C08",
        Level::ModelChecking,
        "every execution runs the real MultiArrayView next to a slice of the list of buckets; states are (buckets, remaining buckets of the live iterators or views)",
        |run| {
            let t = run.thorough;
            run.explore("contents-Var3-Idx32", "all lists of <=2 buckets of <=2 elements of 3 variants (thorough <=3 of <=2)", 0, move |ch| {
                contents::<Idx32, Var3>(ch, if t { 3 } else { 2 }, 2)
            });
            run.explore("contents-VarT-Idx12", "all lists of <=2 buckets of <=2 elements of 3 variants (thorough <=2 of <=3)", 0, move |ch| {
                contents::<Idx12, VarT>(ch, 2, if t { 3 } else { 2 })
            });
            run.explore("contents-Var1-Idx64", "all lists of <=5 buckets of <=2 elements of one variant", 0, |ch| contents::<Idx64, Var1>(ch, 5, 2));
            run.explore("index-Var3-Idx32", "<=4 buckets of <=2 elements, every index <= n+2 and wrap-around candidates", 0, move |ch| {
                indexing::<Idx32, Var3>(ch, if t { 6 } else { 4 })
            });
            run.explore("index-VarT-Idx24", "<=3 buckets of <=2 elements, every index <= n+2 and wrap-around candidates", 0, |ch| {
                indexing::<Idx24, VarT>(ch, 3)
            });
            run.explore("index-Var1-Idx8", "<=3 buckets of <=2 elements, every index <= n+2 and wrap-around candidates", 0, |ch| {
                indexing::<Idx8, Var1>(ch, 3)
            });
            run.explore("index-Var1-Idx64", "<=3 buckets of <=2 elements, every index <= n+2 and wrap-around candidates", 0, |ch| {
                indexing::<Idx64, Var1>(ch, 3)
            });
            run.explore("slice-Var3-Idx32", "<=4 buckets of <=1 element, one range of all bound kinds and wrap-around candidates", 0, move |ch| {
                slicing::<Idx32, Var3>(ch, if t { 6 } else { 4 }, 1)
            });
            run.explore("slice-Var1-Idx24", "<=3 buckets of <=1 element, one range of all bound kinds and wrap-around candidates", 0, |ch| {
                slicing::<Idx24, Var1>(ch, 3, 1)
            });
            run.explore("slice-Var1-Idx8", "<=3 buckets of <=1 element, one range of all bound kinds and wrap-around candidates", 0, |ch| {
                slicing::<Idx8, Var1>(ch, 3, 1)
            });
            run.explore("slices-of-slices-Var3-Idx32", "<=2 buckets of <=1 element, two ranges (thorough <=4)", 0, move |ch| {
                slicing::<Idx32, Var3>(ch, if t { 4 } else { 2 }, 2)
            });
            run.explore("slices-of-slices-VarT-Idx40", "<=2 buckets of <=1 element, two ranges (thorough three ranges)", 0, move |ch| {
                slicing::<Idx40, VarT>(ch, 2, if t { 3 } else { 2 })
            });
            run.explore("equality-Var3-Idx32", "elements of every type with every single bit changed, next to each other", 0, |ch| equality::<Idx32, Var3>(ch));
            run.explore("equality-VarT-Idx40", "the same with other types and tags", 0, |ch| equality::<Idx40, VarT>(ch));
            let (small, bits) = if t { (300, 18) } else { (40, 16) };
        run.explore("sizes-Var3-Idx24", &format!("all bucket counts to {} and around powers of two to 2^{}: slices and jumps to all places around powers of two and the ends", small, bits), 0, move |ch| sizes::<Idx24, Var3>(ch, small, bits));
        run.explore("sizes-Var1-Idx64", "the same with other types", 0, move |ch| sizes::<Idx64, Var1>(ch, small, bits));
        run.explore("large-Var3-Idx32", &format!("buckets of up to {} elements and around powers of two to 2^{}: jumps", small, bits), 0, move |ch| large::<Idx32, Var3>(ch, small, bits));
        run.explore("large-VarT-Idx40", "the same with other types", 0, move |ch| large::<Idx40, VarT>(ch, small, bits));
        run.explore("huge-index-Idx12", "2, 4 and 8 GiB of index, every range between the indices around powers of two and the ends", 0, |ch| huge_index::<Idx12, Var3>(ch));
            run.explore("huge-index-Idx64", "the same with another index type", 0, |ch| huge_index::<Idx64, VarT>(ch));
            run.explore_with("huge-data-VarF-Idx40", "4.25 GiB of elements of up to 32 MiB, in 12 patterns", 0, 6, &|ch: &mut Ch| huge_data::<Idx40, VarF>(ch));
            run.explore_with("huge-data-VarG-Idx64", "the same with other types", 0, 6, &|ch: &mut Ch| huge_data::<Idx64, VarG>(ch));
            run.explore("iterate-Var3-Idx32", "<=4 buckets of <=1 element, up to two live iterators, 3 operations (thorough 5)", 0, move |ch| {
                iterating::<Idx32, Var3>(ch, 4, if t { 5 } else { 3 })
            });
            run.explore("iterate-VarT-Idx12", "<=3 buckets of <=1 element, up to two live iterators, 3 operations (thorough 5)", 0, move |ch| {
                iterating::<Idx12, VarT>(ch, 3, if t { 5 } else { 3 })
            });
        },
    )
}
