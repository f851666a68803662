//! C03: histories of assignments to struct buffers next to records of field values.
use checks::codec::{background, BACKGROUNDS};
use checks::*;
use flatdata::StructBuf;

fn raw(f: &FieldInfo, i: usize, v: u64) -> u64 {
    // 0: zeros, 1: ones, 2: highest bit, 3..: mixed
    decode(raw_of(v, i, f.width), f.width, f.signed) as u64
}

struct Buf<T: Elem> {
    b: StructBuf<T>,
    m: Vec<i128>,
}

fn check<T: Elem>(bs: &[Buf<T>], ctx: &dyn Fn() -> String) -> Result<(), String> {
    let fs = T::fields();
    for (k, x) in bs.iter().enumerate() {
        let got = T::get(&x.b.get());
        if got != x.m {
            return Err(format!("{}: buffer {} reads {:?} instead of {:?}", ctx(), k, got, x.m));
        }
        let mut want = vec![0; T::SIZE];
        for (f, v) in fs.iter().zip(&x.m) {
            set_bits(&mut want, f.offset, f.width, *v as u64);
        }
        let r: &[u8] = x.b.as_ref();
        if x.b.as_bytes() != &want[..] || r != &want[..] {
            return Err(format!("{}: buffer {} holds {:02x?} instead of {:02x?}", ctx(), k, x.b.as_bytes(), want));
        }
        let text = T::debug_of(&x.m);
        if format!("{:?}", x.b.get()) != text || format!("{:?}", x.b) != format!("StructBuf {{ resource: {} }}", text) {
            return Err(format!("{}: buffer {} prints as {:?} and {:?} instead of {:?}", ctx(), k, x.b.get(), x.b, text));
        }
        for (l, y) in bs.iter().enumerate() {
            if T::same(&x.b.get(), &y.b.get()) != (x.m == y.m) {
                return Err(format!("{}: {:?} == {:?} is {} between buffers {} and {}", ctx(), x.m, y.m, x.m != y.m, k, l));
            }
        }
    }
    Ok(())
}

fn history<T: Elem>(ch: &mut Ch, depth: usize, values: u64) -> Result<(), String> {
    let fs = T::fields();
    let mut bs = vec![Buf { b: StructBuf::<T>::new(), m: vec![0; fs.len()] }, Buf { b: StructBuf::<T>::default(), m: vec![0; fs.len()] }];
    let mut hist = vec![T::NAME.to_string()];
    check(&bs, &|| hist.join(", "))?;
    for _ in 0..depth {
        // assignments, then copying either way, then a copy through a list of elements
        let op = ch.choose(fs.len() * values as usize + 3);
        let name;
        if op < fs.len() * values as usize {
            let (i, v) = (op / values as usize, (op % values as usize) as u64);
            let k = if i % 2 == 0 { 0 } else { ch.choose(2) };
            let r = raw(&fs[i], i, v);
            name = format!("buffer {}: {} = {}", k, fs[i].name, decode(r, fs[i].width, fs[i].signed));
            bs[k].m[i] = decode(r, fs[i].width, fs[i].signed);
            let want = bs[k].m.clone();
            let mut item = bs[k].b.get_mut();
            T::set_field(&mut item, i, r);
            let got = T::get_mut(&item);
            let text = format!("{:?}", item);
            if got != want || text != T::debug_of(&want) {
                return Err(format!("{}, {}: reads mutably {:?}, prints {} instead of {:?}", hist.join(", "), name, got, text, want));
            }
            let seen = T::freeze(item);
            if T::get(&seen) != want || format!("{:?}", seen) != text {
                return Err(format!("{}, {}: as a reference reads {:?}, prints {:?} instead of {:?}", hist.join(", "), name, T::get(&seen), seen, want));
            }
        } else {
            match op - fs.len() * values as usize {
                0 | 1 => {
                    let k = op & 1;
                    let (a, b) = bs.split_at_mut(1);
                    let (to, from) = if k == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
                    name = format!("copy buffer {} to {}", 1 - k, k);
                    T::copy(&mut to.b.get_mut(), &from.b.get());
                    to.m = from.m.clone();
                }
                _ => {
                    name = "copy of buffer 0 to buffer 1 through a vector".to_string();
                    let mut l = Vector::<T>::with_len(3);
                    T::copy(&mut l.at_mut(1), &bs[0].b.get());
                    if T::get(&l.at(0)) != T::values(0) || T::get(&l.at(2)) != T::values(0) {
                        return Err(format!("{}, {}: changes the neighbours to {:?}, {:?}", hist.join(", "), name, l.at(0), l.at(2)));
                    }
                    T::copy(&mut bs[1].b.get_mut(), &l.at(1));
                    bs[1].m = bs[0].m.clone();
                }
            }
        }
        hist.push(name);
        ch.step(|| hist.last().unwrap().clone());
        check(&bs, &|| hist.join(", "))?;
        ch.state(&(T::NAME, &bs[0].m, &bs[1].m));
        ch.outcome(&(T::NAME, bs[0].m == bs[1].m));
    }
    Ok(())
}

/// Copies and comparisons of structs within arbitrary surroundings: bits that belong to no field are
/// neither copied nor compared.
fn surroundings<T: Elem>(ch: &mut Ch) -> Result<(), String> {
    let fs = T::fields();
    let (b1, b2) = (ch.choose(BACKGROUNDS), ch.choose(BACKGROUNDS));
    let (v1, v2) = (ch.choose(4) as u64, ch.choose(4) as u64);
    let diff = ch.choose(fs.len() + 2); // 0: all fields, 1: made equal, else: differ in one field
    let fill = |b: usize, v: u64| {
        let mut d = vec![0; T::SIZE];
        background(b, &mut d);
        for (i, f) in fs.iter().enumerate() {
            set_bits(&mut d, f.offset, f.width, raw_of(v, i, f.width));
        }
        d
    };
    let mut from = fill(b1, v1);
    let mut to = fill(b2, if diff == 0 { v2 } else { v1 });
    if diff >= 2 {
        let f = &fs[diff - 2];
        let bit = v2 as usize * (f.width - 1) / 3;
        let r = get_bits(&to, f.offset, f.width) ^ 1 << bit;
        set_bits(&mut to, f.offset, f.width, r);
    }
    let (want_from, want_to) = (T::values_of_bytes(&from), T::values_of_bytes(&to));
    let what = format!("{} {:?} over background {} and {:?} over background {}", T::NAME, want_from, b1, want_to, b2);
    ch.step(|| what.clone());
    let same = T::same(&T::create(&from), &T::create(&to));
    let same2 = T::same(&T::create(&to), &T::create(&from));
    let equal = want_from == want_to;
    ch.state(&(T::NAME, &from, &to));
    ch.outcome(&(T::NAME, equal));
    if same != equal || same2 != equal {
        return Err(format!("{}: compare as {} and {}", what, same, same2));
    }
    if format!("{:?}", T::create(&from)) != T::debug_of(&want_from) {
        return Err(format!("{}: prints as {:?}", what, T::create(&from)));
    }
    let mut copy = from.clone();
    let frozen = T::get(&T::freeze(T::create_mut(unsafe { std::slice::from_raw_parts_mut(copy.as_mut_ptr(), copy.len()) })));
    let printed = format!("{:?}", T::create_mut(unsafe { std::slice::from_raw_parts_mut(copy.as_mut_ptr(), copy.len()) }));
    if frozen != want_from || copy != from || printed != T::debug_of(&want_from) {
        return Err(format!("{}: made unchangeable, the first reads {:?} and prints {}, its bytes are {:02x?} after {:02x?}", what, frozen, printed, copy, from));
    }
    T::copy(&mut T::create_mut(unsafe { std::slice::from_raw_parts_mut(to.as_mut_ptr(), to.len()) }), &T::create(&from));
    let mut want = vec![0; T::SIZE];
    background(b2, &mut want);
    for f in &fs {
        set_bits(&mut want, f.offset, f.width, get_bits(&copy, f.offset, f.width));
    }
    if to != want || from != copy {
        return Err(format!("{}: copying the first to the second gives {:02x?} instead of {:02x?}", what, to, want));
    }
    if T::SIZE < 100 {
        from.reverse();
        let _ = format!("{:?}", T::create(&from));
    }
    Ok(())
}

fn one<T: Elem>(run: &mut Run, depth: usize, values: u64) {
    let n = T::fields().len();
    // the number of executions is bounded by what a history branches into
    let branch = n as u64 * values * 3 / 2 + 3;
    let mut d = depth;
    while d > 1 && branch.pow(d as u32) > if run.thorough { 6_000_000 } else { 500_000 } / (1 + T::SIZE as u64 / 100) {
        d -= 1;
    }
    run.explore(&format!("history-{}", T::NAME), &format!("{} assignments of {} values to any field of two buffers, and copies", d, values), 0, move |ch| history::<T>(ch, d, values));
    run.explore(&format!("surroundings-{}", T::NAME), "5 x 5 backgrounds, 4 x 4 values, differences in every single field", 0, |ch| surroundings::<T>(ch));
}

fn main() {
    mccore::main("C03", Level::ModelChecking, "every execution runs real struct buffers next to records; states are the values of all fields of both buffers", |run| {
        let (d, v) = if run.thorough { (5, 4) } else { (4, 4) };
        one::<E1>(run, d, v);
        one::<E2>(run, d, v);
        one::<E3>(run, d, v);
        one::<E4>(run, d, v);
        one::<E7>(run, d, v);
        one::<E9>(run, d, v);
        one::<E13>(run, d, v);
        one::<E16>(run, d, v);
        all_layouts!(one, run, d, v);
    })
}
