//! C04: histories of operations on in-memory vectors next to lists of elements.
use checks::iters::wild;
use checks::*;
use flatdata::Vector;
use mccore::falloc;

struct Pair<T> {
    v: Vector<T>,
    m: Vec<Vec<u8>>,
}

fn check<T: Elem>(p: &Pair<T>, ctx: &dyn Fn() -> String) -> Result<(), String> {
    let bytes: Vec<u8> = p.m.concat();
    let n = p.m.len();
    let bad = |what: String| Err(format!("{}: {}", ctx(), what));
    let v = &p.v;
    if v.len() != n || v.is_empty() != (n == 0) || v.size_in_bytes() != n * T::SIZE {
        return bad(format!("len {}, is_empty {}, size {} with {} elements", v.len(), v.is_empty(), v.size_in_bytes(), n));
    }
    let r: &[u8] = v.as_ref();
    if v.as_bytes() != &bytes[..] || r != &bytes[..] {
        return bad(format!("bytes {:02x?} instead of {:02x?}", v.as_bytes(), bytes));
    }
    let view = v.as_view();
    if view.as_bytes() != &bytes[..] || view.len() != n {
        return bad(format!("view of {} bytes {:02x?} instead of {:02x?}", view.len(), view.as_bytes(), bytes));
    }
    for (i, b) in p.m.iter().enumerate() {
        let want = T::values_of_bytes(b);
        let got = T::get(&v.at(i));
        let got2 = T::get(&view.at(i));
        if got != want || got2 != want {
            return bad(format!("element {} is {:?}, in the view {:?}, instead of {:?}", i, got, got2, want));
        }
    }
    Ok(())
}

fn history<T: Elem>(ch: &mut Ch, depth: usize, max_len: usize) -> Result<(), String> {
    let start = ch.choose(5);
    let (v, n) = match start {
        0 => (Vector::<T>::new(), 0),
        1 => (Vector::<T>::default(), 0),
        k => (Vector::<T>::with_len(k - 1), k - 1),
    };
    let mut ps = vec![Pair { v, m: vec![vec![0; T::SIZE]; n] }];
    let mut hist = vec![format!("{} start {}", T::NAME, ["new", "default", "with_len(1)", "with_len(2)", "with_len(3)"][start])];
    ch.note(|| hist[0].clone());
    check(&ps[0], &|| hist[0].clone())?;
    let nf = T::fields().len();
    for d in 0..depth {
        let k = ch.choose(ps.len());
        let n = ps[k].m.len();
        let mut ops: Vec<(u8, usize)> = Vec::new();
        if n < max_len {
            ops.push((0, 0)); // grow
            ops.push((1, 0)); // grow and set
        }
        for i in 0..n {
            ops.push((2, i)); // set everything
        }
        if n > 0 {
            ops.push((3, 0)); // set one field of the first or last
            ops.push((3, n - 1));
        }
        ops.push((4, 0)); // reserve
        ops.push((4, 1));
        ops.push((4, 1000));
        if ps.len() == 1 {
            ops.push((5, 0)); // clone
        } else if ps.len() == 2 {
            ops.push((8, 0)); // become a copy of the other
        }
        ops.push((6, n)); // out of bounds
        ops.push((7, n));
        let (op, a) = *ch.pick(&ops);
        let id = d as u64 + 1;
        let name;
        let other = if op == 8 { ps.swap_remove(1 - k) } else { Pair { v: Vector::new(), m: vec![] } };
        let at = if op == 8 { 0 } else { k };
        let p = &mut ps[at];
        match op {
            0 | 1 => {
                name = format!("#{} grow{}", k, if op == 1 { " and set" } else { "" });
                let mut e = p.v.grow();
                let got = T::get_mut(&e);
                if got != T::values(0) {
                    return Err(format!("{}, {}: the new element is {:?}, not zero", hist.join(", "), name, got));
                }
                p.m.push(vec![0; T::SIZE]);
                if op == 1 {
                    T::set(&mut e, id);
                    let got = T::get_mut(&e);
                    *p.m.last_mut().unwrap() = T::bytes(id);
                    if got != T::values(id) {
                        return Err(format!("{}, {}: set to {:?}, reads {:?}", hist.join(", "), name, T::values(id), got));
                    }
                }
            }
            2 => {
                name = format!("#{} set element {}", k, a);
                T::set(&mut p.v.at_mut(a), id);
                p.m[a] = T::bytes(id);
            }
            3 => {
                let f = ch.choose(nf);
                name = format!("#{} set field {} of element {}", k, f, a);
                let fi = T::fields()[f];
                let raw = decode(raw_of(id, f, fi.width), fi.width, fi.signed) as u64;
                T::set_field(&mut p.v.at_mut(a), f, raw);
                set_bits(&mut p.m[a], fi.offset, fi.width, raw);
            }
            4 => {
                name = format!("#{} reserve({})", k, a);
                p.v.reserve(a);
            }
            5 => {
                name = "clone".to_string();
                let c = Pair { v: p.v.clone(), m: p.m.clone() };
                ps.push(c);
            }
            8 => {
                name = format!("#{} clone_from the other", k);
                p.v.clone_from(&other.v);
                p.m = other.m.clone();
                ps.push(other);
                if k == 1 {
                    ps.swap(0, 1);
                }
            }
            6 => {
                name = format!("#{} at({})", k, a);
                if let Ok(g) = catch(|| T::get(&p.v.at(a))) {
                    return Err(format!("{}, {}: gives {:?}", hist.join(", "), name, g));
                }
            }
            _ => {
                name = format!("#{} at_mut({})", k, a);
                if catch(|| T::set(&mut p.v.at_mut(a), id)).is_ok() {
                    return Err(format!("{}, {}: no panic", hist.join(", "), name));
                }
            }
        }
        hist.push(name);
        ch.step(|| hist.last().unwrap().clone());
        for p in &ps {
            check(p, &|| hist.join(", "))?;
        }
        let models: Vec<&Vec<Vec<u8>>> = ps.iter().map(|p| &p.m).collect();
        ch.state(&(T::NAME, &models));
        ch.outcome(&(op, ps.len(), ps.iter().map(|p| p.m.len()).collect::<Vec<_>>()));
    }
    Ok(())
}

/// Indexes and lengths far outside.
fn far<T: Elem>(ch: &mut Ch, max_len: usize) -> Result<(), String> {
    let n = ch.choose(max_len + 1);
    let mut p = Pair { v: Vector::<T>::with_len(n), m: (0..n as u64).map(|i| T::bytes(i + 3)).collect() };
    for i in 0..n {
        T::set(&mut p.v.at_mut(i), i as u64 + 3);
    }
    let mut w = wild(T::SIZE);
    w.extend(&[n, n + 1, n + 2, n + 8, n + 9, n + 1000]);
    let i = *ch.pick(&w);
    let op = ch.choose(4);
    let name = format!("{} len {} {}({})", T::NAME, n, ["at", "at_mut", "reserve", "with_len"][op], i);
    ch.step(|| name.clone());
    let too_big = (i as u128) * T::SIZE as u128 > isize::max_value() as u128;
    let r = match op {
        0 => catch(|| T::get(&p.v.at(i))).map(|g| format!("{:?}", g)),
        1 => catch(|| T::set(&mut p.v.at_mut(i), 1)).map(|_| "set".to_string()),
        2 if too_big => catch(|| p.v.reserve(i)).map(|_| "reserved".to_string()),
        3 if too_big => catch(|| Vector::<T>::with_len(i)).map(|v| format!("a vector of {} bytes", v.size_in_bytes())),
        _ => Err(String::new()),
    };
    ch.state(&(T::NAME, n, i, op));
    ch.outcome(&(T::NAME, op, r.is_ok()));
    if let Ok(x) = r {
        return Err(format!("{}: no panic, but {}", name, x));
    }
    check(&p, &|| name.clone())
}

/// Many elements: growth through reallocations.
fn long<T: Elem>(ch: &mut Ch, max: usize) -> Result<(), String> {
    let start = ch.choose(4);
    let step = 1 + ch.choose(3);
    let reserve = ch.choose(3);
    let mut p = Pair { v: Vector::<T>::with_len(start), m: vec![vec![0; T::SIZE]; start] };
    let mut i = 0;
    while p.m.len() < max {
        if reserve > 0 && i % 17 == 0 {
            p.v.reserve(reserve * 5);
        }
        let set = i % step == 0;
        let mut e = p.v.grow();
        if T::get_mut(&e) != T::values(0) {
            return Err(format!("{}: element {} is not zero when new", T::NAME, p.m.len()));
        }
        p.m.push(vec![0; T::SIZE]);
        if set {
            T::set(&mut e, i as u64);
            *p.m.last_mut().unwrap() = T::bytes(i as u64);
        }
        drop(e);
        i += 1;
        ch.step(|| format!("grow {}", i));
        if p.v.len() != p.m.len() {
            return Err(format!("{}: len {} instead of {}", T::NAME, p.v.len(), p.m.len()));
        }
        ch.state(&(T::NAME, start, step, p.m.len()));
    }
    ch.outcome(&(T::NAME, start, step));
    let c = Pair { v: p.v.clone(), m: p.m.clone() };
    drop(p);
    check(&c, &|| format!("{} long start {} step {}", T::NAME, start, step))
}

/// Vectors of many lengths, made in several ways and then changed.
fn sizes<T: Elem>(ch: &mut Ch, lens: &[usize]) -> Result<(), String> {
    let n = *ch.pick(lens);
    let way = ch.choose(4);
    let ctx = format!("{} {} elements, way {}", T::NAME, n, way);
    ch.step(|| ctx.clone());
    let (mut v, from) = match way {
        0 => (Vector::<T>::with_len(n), n),
        1 => (Vector::<T>::new(), 0),
        2 => {
            let mut v = Vector::<T>::new();
            v.reserve(n);
            (v, 0)
        }
        _ => (Vector::<T>::with_len(n / 2), n / 2),
    };
    let mut m = vec![vec![0; T::SIZE]; n];
    for i in from..n {
        let mut e = v.grow();
        if T::get_mut(&e) != T::values(0) {
            return Err(format!("{}: element {} is not zero when new", ctx, i));
        }
        if i % 3 != 0 {
            T::set(&mut e, i as u64 + 1);
            m[i] = T::bytes(i as u64 + 1);
        }
    }
    let mut p = Pair { v, m };
    check(&p, &|| ctx.clone())?;
    for i in checks::iters::edges_of(n) {
        if i < n {
            T::set(&mut p.v.at_mut(i), i as u64 + 7);
            p.m[i] = T::bytes(i as u64 + 7);
        } else if catch(|| p.v.at(i)).is_ok() || catch(|| p.v.at_mut(i)).is_ok() {
            return Err(format!("{}: at({})", ctx, i));
        }
    }
    let c = Pair { v: p.v.clone(), m: p.m.clone() };
    p.v.grow();
    p.m.push(vec![0; T::SIZE]);
    check(&p, &|| format!("{}, changed", ctx))?;
    check(&c, &|| format!("{}, copied", ctx))?;
    ch.evals(1);
    ch.state(&(T::NAME, n, way));
    ch.outcome(&(T::NAME, n));
    Ok(())
}

fn all<T: Elem>(run: &mut Run, depth: usize, long_max: usize) {
    let name = |s: &str| format!("{}-{}", s, T::NAME);
    run.explore(&name("history"), &format!("{} operations, <=4 elements, a vector and one clone", depth), 0, move |ch| history::<T>(ch, depth, 4));
    run.explore(&name("history-guarded"), &format!("{} operations on memory that ends at an inaccessible page", depth - 1), 0, move |ch| {
        let r = falloc::guarded(|| history::<T>(ch, depth - 1, 4));
        falloc::recycle();
        r
    });
    run.explore(&name("far"), "<=4 elements, indexes and lengths that overflow", 0, |ch| far::<T>(ch, 4));
    let l = checks::iters::lengths(if run.thorough { 1100 } else { 300 }, if run.thorough { 20 } else { 18 });
    run.explore(&name("sizes"), &format!("all lengths to {} and around powers of two to {}, in four ways", l[l.len() / 2], l[l.len() - 1]), 0, |ch| sizes::<T>(ch, &l));
    run.explore(&name("long"), &format!("up to {} elements through reallocations", long_max), 0, move |ch| long::<T>(ch, long_max));
}

fn main() {
    mccore::main(
        "C04",
        Level::ModelChecking,
        "every execution runs real vectors next to lists; states are (type, raw bytes of the elements of the vector and its clone)",
        |run| {
            let d = if run.thorough { 5 } else { 4 };
            let l = if run.thorough { 5000 } else { 300 };
            all::<E1>(run, d, l);
            all::<E3>(run, d, l);
            all::<E9>(run, d, l);
            all::<E13>(run, d, l);
        },
    )
}
