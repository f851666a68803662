//! Ranges and iterators next to those of a slice.
use crate::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::FusedIterator;
use std::ops::Bound::{self, *};

/// One end of a range: unbounded, or a value up to `len + 2` or of `wild`.
pub fn bound(ch: &mut Ch, len: usize, wild: &[usize]) -> Bound<usize> {
    let k = ch.choose(3);
    if k == 0 {
        return Unbounded;
    }
    let i = ch.choose(len + 3 + wild.len());
    let v = if i < len + 3 { i } else { wild[i - len - 3] };
    if k == 1 {
        Included(v)
    } else {
        Excluded(v)
    }
}

/// (start, end) if valid for a slice of this length
pub fn resolve(r: &(Bound<usize>, Bound<usize>), len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Included(x) => x as u128,
        Excluded(x) => x as u128 + 1,
        Unbounded => 0,
    };
    let e = match r.1 {
        Included(x) => x as u128 + 1,
        Excluded(x) => x as u128,
        Unbounded => len as u128,
    };
    if s <= e && e <= len as u128 {
        Some((s as usize, e as usize))
    } else {
        None
    }
}

/// Indexes far outside, among them those whose multiple by `size` wraps around to something small.
pub fn wild(size: usize) -> Vec<usize> {
    let max = usize::max_value();
    let mut v = vec![max, max - 1, max - 2, max / 2 + 1, max / size, (max / size).saturating_add(1), 1 << 63, 1 << 32];
    for k in 1..4u128 {
        for d in 0..3u128 {
            let x = (k << 64) / size as u128 + d;
            if x <= max as u128 {
                v.push(x as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! cmp {
    ($ctx:expr, $what:expr, $got:expr, $want:expr) => {{
        let got = catch(|| $got).map_err(|e| format!("{}: {} panics: {}", $ctx(), $what, e))?;
        let want = $want;
        if got != want {
            return Err(format!("{}: {} gives {:?} instead of {:?}", $ctx(), $what, got, want));
        }
    }};
}

/// Everything that can be asked of an iterator without advancing it, on clones.
pub fn probe<I, R, M>(it: &I, m: &[M], ctx: &dyn Fn() -> String, get: &dyn Fn(R) -> M) -> Result<(), String>
where
    I: Iterator<Item = R> + Clone + DoubleEndedIterator + ExactSizeIterator + FusedIterator,
    M: Clone + PartialEq + Debug,
{
    let n = m.len();
    cmp!(ctx, "len()", it.len(), n);
    cmp!(ctx, "size_hint()", it.size_hint(), (n, Some(n)));
    let c = || it.clone();
    let vals = |v: Vec<R>| -> Vec<M> { v.into_iter().map(|x| get(x)).collect() };
    cmp!(ctx, "collect()", vals(c().collect()), m.to_vec());
    cmp!(ctx, "count()", c().count(), n);
    cmp!(ctx, "last()", c().last().map(|x| get(x)), m.last().cloned());
    cmp!(ctx, "rev().collect()", vals(c().rev().collect()), m.iter().rev().cloned().collect::<Vec<_>>());
    cmp!(ctx, "rev().len()", c().rev().len(), n);
    for k in 0..n + 2 {
        let name = |s: &str| format!("{}({})", s, k);
        cmp!(ctx, name("nth"), c().nth(k).map(|x| get(x)), m.get(k).cloned());
        cmp!(ctx, name("nth_back"), c().nth_back(k).map(|x| get(x)), m.iter().nth_back(k).cloned());
        cmp!(ctx, name("skip"), vals(c().skip(k).collect()), m.iter().skip(k).cloned().collect::<Vec<_>>());
        cmp!(ctx, name("skip().rev"), vals(c().skip(k).rev().collect()), m.iter().skip(k).rev().cloned().collect::<Vec<_>>());
        cmp!(ctx, name("skip().len"), c().skip(k).len(), n.saturating_sub(k));
        cmp!(ctx, name("take().rev"), vals(c().take(k).rev().collect()), m.iter().take(k).rev().cloned().collect::<Vec<_>>());
        cmp!(ctx, name("step_by"), vals(c().step_by(k + 1).collect()), m.iter().step_by(k + 1).cloned().collect::<Vec<_>>());
        cmp!(ctx, name("take().len"), c().take(k).len(), n.min(k));
    }
    cmp!(
        ctx,
        "enumerate().rev()",
        c().enumerate().rev().map(|(i, x)| (i, get(x))).collect::<Vec<_>>(),
        m.iter().cloned().enumerate().rev().collect::<Vec<_>>()
    );
    cmp!(
        ctx,
        "zip(0..3).rev()",
        c().zip(0..3).rev().map(|(x, i)| (get(x), i)).collect::<Vec<_>>(),
        m.iter().cloned().zip(0..3).rev().collect::<Vec<_>>()
    );
    cmp!(ctx, "rposition", c().rposition(|x| get(x) == m[0]), m.iter().rposition(|x| *x == m[0]));
    cmp!(ctx, "fold", c().fold(Vec::new(), |mut a, x| { a.push(get(x)); a }), m.to_vec());
    cmp!(ctx, "rfold", c().rfold(Vec::new(), |mut a, x| { a.push(get(x)); a }), m.iter().rev().cloned().collect::<Vec<_>>());
    cmp!(
        ctx,
        "chain",
        c().chain(c()).rev().map(|x| get(x)).collect::<Vec<_>>(),
        m.iter().chain(m.iter()).rev().cloned().collect::<Vec<_>>()
    );
    cmp!(ctx, "peekable", c().peekable().peek().is_some(), n > 0);
    let mut other = c();
    cmp!(ctx, "clone_from", { other.next(); other.clone_from(it); vals(other.clone().collect()) }, m.to_vec());
    cmp!(ctx, "for_each", { let mut v = vec![]; c().for_each(|x| v.push(get(x))); v }, m.to_vec());
    cmp!(ctx, "reduce", c().reduce(|_, x| x).map(|x| get(x)), m.last().cloned());
    cmp!(ctx, "cycle", vals(c().cycle().take(2 * n + 1).collect()), m.iter().cycle().take(2 * n + 1).cloned().collect::<Vec<_>>());
    let turn = |n: &mut usize| { *n += 1; *n };
    cmp!(ctx, "partition", { let mut i = 0; let (a, b): (Vec<R>, Vec<R>) = c().partition(|_| turn(&mut i) % 2 == 0); (vals(a), vals(b)) }, { let mut i = 0; m.iter().cloned().partition(|_| turn(&mut i) % 2 == 0) });
    cmp!(ctx, "max_by_key", { let mut i = 0; c().max_by_key(|_| turn(&mut i) * 7 % 5).map(|x| get(x)) }, { let mut i = 0; m.iter().max_by_key(|_| turn(&mut i) * 7 % 5).cloned() });
    cmp!(ctx, "min_by_key", { let mut i = 0; c().min_by_key(|_| turn(&mut i) * 7 % 5).map(|x| get(x)) }, { let mut i = 0; m.iter().min_by_key(|_| turn(&mut i) * 7 % 5).cloned() });
    // those that stop at the k-th element, and what is left then
    for k in 1..n + 2 {
        let name = |s: &str| format!("{} up to {}", s, k);
        macro_rules! stops {
            ($name:expr, $it:ident, $i:ident, $got:expr, $want:expr) => {
                cmp!(
                    ctx,
                    name($name),
                    { let mut $it = c(); let mut $i = 0; let r = $got; (r, vals($it.collect())) },
                    { let mut $it = m.iter(); let mut $i = 0; let r = $want; (r, $it.cloned().collect::<Vec<_>>()) }
                );
            };
        }
        stops!("all", x, i, x.all(|_| turn(&mut i) != k), x.all(|_| turn(&mut i) != k));
        stops!("any", x, i, x.any(|_| turn(&mut i) == k), x.any(|_| turn(&mut i) == k));
        stops!("find", x, i, x.find(|_| turn(&mut i) == k).map(|x| get(x)), x.find(|_| turn(&mut i) == k).cloned());
        stops!("rfind", x, i, x.rfind(|_| turn(&mut i) == k).map(|x| get(x)), x.rfind(|_| turn(&mut i) == k).cloned());
        stops!("find_map", x, i, x.find_map(|v| if turn(&mut i) == k { Some(get(v)) } else { None }), x.find_map(|v| if turn(&mut i) == k { Some(v.clone()) } else { None }));
        stops!("position", x, i, x.position(|_| turn(&mut i) == k), x.position(|_| turn(&mut i) == k));
        stops!("rposition", x, i, x.rposition(|_| turn(&mut i) == k), x.rposition(|_| turn(&mut i) == k));
        stops!("take_while", x, i, x.by_ref().take_while(|_| turn(&mut i) != k).count(), x.by_ref().take_while(|_| turn(&mut i) != k).count());
        stops!("skip_while", x, i, x.by_ref().skip_while(|_| turn(&mut i) < k).next().map(|x| get(x)), x.by_ref().skip_while(|_| turn(&mut i) < k).next().cloned());
        stops!("rev().find", x, i, x.by_ref().rev().find(|_| turn(&mut i) == k).map(|x| get(x)), x.by_ref().rev().find(|_| turn(&mut i) == k).cloned());
        stops!("rev().nth", x, i, { i += k - 1; x.by_ref().rev().nth(i).map(|x| get(x)) }, { i += k - 1; x.by_ref().rev().nth(i).cloned() });
        stops!("try_fold", x, i, x.try_fold(0, |a, _| if turn(&mut i) == k { None } else { Some(a + 1) }), x.try_fold(0, |a, _| if turn(&mut i) == k { None } else { Some(a + 1) }));
        stops!("try_rfold", x, i, x.try_rfold(0, |a, _| if turn(&mut i) == k { None } else { Some(a + 1) }), x.try_rfold(0, |a, _| if turn(&mut i) == k { None } else { Some(a + 1) }));
    }
    Ok(())
}

const OPS: usize = 7;

/// Histories of `depth` steps of up to two iterators side by side, the second being a clone of the
/// first at some point.
pub fn iterate<I, R, M>(ch: &mut Ch, start: I, model: &[M], depth: usize, what: &str, get: &dyn Fn(R) -> M) -> Result<(), String>
where
    I: Iterator<Item = R> + Clone + DoubleEndedIterator + ExactSizeIterator + FusedIterator,
    M: Clone + PartialEq + Debug + Hash,
{
    let mut its = vec![start];
    let mut at = vec![(0, model.len())];
    let mut hist: Vec<String> = vec![what.to_string()];
    ch.note(|| what.to_string());
    probe(&its[0], model, &|| hist.join(", "), get)?;
    for _ in 0..depth {
        let k = ch.choose(its.len());
        let op = ch.choose(if its.len() == 1 { OPS + 1 } else { OPS });
        if op == OPS {
            let c = its[k].clone();
            its.push(c);
            at.push(at[k]);
            hist.push("clone".into());
            ch.step(|| "clone".into());
        } else {
            let it = &mut its[k];
            let (lo, hi) = at[k];
            let mut front = |skip: usize| -> Option<M> {
                if lo + skip < hi {
                    at[k].0 = lo + skip + 1;
                    Some(model[lo + skip].clone())
                } else {
                    at[k].0 = hi;
                    None
                }
            };
            let (name, got, want) = match op {
                0 => ("next", catch(|| it.next().map(|x| get(x))), front(0)),
                2 => ("nth(1)", catch(|| it.nth(1).map(|x| get(x))), front(1)),
                4 => ("by_ref().take(1)", catch(|| it.by_ref().take(1).next().map(|x| get(x))), front(0)),
                5 => ("nth(2)", catch(|| it.nth(2).map(|x| get(x))), front(2)),
                _ => {
                    let mut back = |skip: usize| -> Option<M> {
                        if hi >= lo + skip + 1 {
                            at[k].1 = hi - skip - 1;
                            Some(model[hi - skip - 1].clone())
                        } else {
                            at[k].1 = lo;
                            None
                        }
                    };
                    match op {
                        1 => ("next_back", catch(|| it.next_back().map(|x| get(x))), back(0)),
                        3 => ("nth_back(1)", catch(|| it.nth_back(1).map(|x| get(x))), back(1)),
                        _ => ("rev().next()", catch(|| it.by_ref().rev().next().map(|x| get(x))), back(0)),
                    }
                }
            };
            hist.push(format!("#{} {}", k, name));
            ch.step(|| format!("#{} {} -> {:?}", k, name, got));
            match got {
                Ok(g) if g == want => {}
                g => return Err(format!("{}: gives {:?} instead of {:?}", hist.join(", "), g, want)),
            }
        }
        for (it, a) in its.iter().zip(&at) {
            probe(it, &model[a.0..a.1], &|| hist.join(", "), get)?;
        }
        ch.state(&(what, &at));
        ch.outcome(&(op, model.len(), at[k]));
    }
    Ok(())
}

/// Lengths: all small ones and around powers of two.
pub fn lengths(small: usize, bits: u32) -> Vec<usize> {
    let mut r: Vec<usize> = (0..=small).collect();
    for b in 1..=bits {
        for n in &[(1usize << b) - 1, 1 << b, (1 << b) + 1] {
            if *n > small {
                r.push(*n);
            }
        }
    }
    r
}

/// Indexes up to n (included) where something may change.
pub fn edges_of(n: usize) -> Vec<usize> {
    let mut r: std::collections::BTreeSet<usize> = [0, 1, 2, 3, n / 3, n / 2, n].iter().cloned().collect();
    r.extend([1, 2, 3].iter().filter(|k| **k <= n).map(|k| n - k));
    for b in 1..30 {
        let p = 1usize << b;
        r.extend([p - 1, p, p + 1].iter());
    }
    r.into_iter().filter(|x| *x <= n).collect()
}

/// Jumps of an iterator over `want`, a list that is only looked at where the iterator lands.
pub fn jumps<I, R, M>(start: &I, n: usize, want: &dyn Fn(usize) -> M, get: &dyn Fn(R) -> M, ctx: &dyn Fn() -> String) -> Result<(), String>
where
    I: Iterator<Item = R> + DoubleEndedIterator + ExactSizeIterator + Clone,
    M: PartialEq + std::fmt::Debug,
{
    let e = edges_of(n);
    let expect = |what: &str, got: Option<M>, want: Option<M>| {
        if got != want {
            return Err(format!("{}: {} is {:?} instead of {:?}", ctx(), what, got, want));
        }
        Ok(())
    };
    let at = |i: usize| if i < n { Some(want(i)) } else { None };
    let back = |i: usize| if i < n { Some(want(n - 1 - i)) } else { None };
    let left = |it: &I, k: usize| {
        if it.len() != k || it.size_hint() != (k, Some(k)) {
            return Err(format!("{}: {} / {:?} elements left instead of {}", ctx(), it.len(), it.size_hint(), k));
        }
        Ok(())
    };
    left(start, n)?;
    for k in e {
        let mut it = start.clone();
        expect(&format!("nth({})", k), it.nth(k).map(get), at(k))?;
        left(&it, n.saturating_sub(k + 1))?;
        expect("what follows", it.clone().next().map(get), at(k + 1))?;
        let fewer = n.saturating_sub(k + 1);
        expect("the last one", it.next_back().map(get), if fewer > 0 { at(n - 1) } else { None })?;
        left(&it, fewer.saturating_sub(1))?;
        let mut it = start.clone();
        expect(&format!("nth_back({})", k), it.nth_back(k).map(get), back(k))?;
        left(&it, n.saturating_sub(k + 1))?;
        expect("what is before", it.clone().next_back().map(get), back(k + 1))?;
        expect("the first one", it.next().map(get), if fewer > 0 { at(0) } else { None })?;
        // both ends
        let mut it = start.clone();
        let (a, b) = (k / 2, k - k / 2);
        expect("nth", it.nth(a).map(get), at(a))?;
        let rest = n.saturating_sub(a + 1);
        expect("then nth_back", it.nth_back(b).map(get), if b < rest { back(b) } else { None })?;
        left(&it, rest.saturating_sub(b + 1))?;
    }
    Ok(())
}
