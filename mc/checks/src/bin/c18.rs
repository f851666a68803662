//! C18: reading damaged payloads stays inside of them.
use checks::iters::wild;
use checks::*;
use mccore::scratch::snapshot;
use flatdata::{Archive, ArrayView, MultiArrayView, VariadicStruct};
use mccore::falloc;
use mccore::guard::GuardBuf;

/// Bytes that differ from their neighbours, and the extremes.
fn pattern(kind: usize, data: &mut [u8]) {
    let n = data.len();
    for (i, b) in data.iter_mut().enumerate() {
        *b = match kind {
            0 => 0xff,
            1 => (i as u8).wrapping_mul(37).wrapping_add(11) ^ (i >> 8) as u8,
            2 => 0,
            3 => 0x55 << (i % 2),
            _ => [1, 3, 128, 255, 0, 2][(i * i + n) % 6],
        };
    }
}

/// What was got before a panic, and whether it ended.
fn drain<T>(cap: usize, mut next: impl FnMut() -> Option<T>) -> Result<(Vec<T>, bool), String> {
    let mut r = Vec::new();
    loop {
        match catch(|| next()) {
            Err(_) => return Ok((r, false)),
            Ok(None) => return Ok((r, true)),
            Ok(Some(x)) => r.push(x),
        }
        if r.len() > cap {
            return Err(format!("goes on after {} entries", cap));
        }
    }
}

fn model_array<T: Elem>(payload: &[u8]) -> Vec<Vals> {
    payload.chunks(T::SIZE).filter(|c| c.len() == T::SIZE).map(|c| T::values_of_bytes(c)).collect()
}

fn probe_array<T: Elem>(v: &ArrayView<T>, payload: &[u8], full: bool, evals: &mut u64) -> Result<(), String> {
    let m = model_array::<T>(payload);
    let n = m.len();
    let mut indexes: Vec<usize> = if n < 20 { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    if full {
        indexes.extend(wild(T::SIZE));
    } else {
        indexes.push(usize::max_value());
    }
    for i in indexes.iter().cloned() {
        *evals += 1;
        let got = catch(|| T::get(&v.at(i)));
        if got.as_ref().ok() != m.get(i) {
            return Err(format!("at({}) of {} gives {:?} instead of {:?}", i, n, got, m.get(i)));
        }
        if i < n {
            let text = catch(|| format!("{:?}", v.at(i)));
            if text.as_ref().ok() != Some(&T::debug_of(&m[i])) {
                return Err(format!("at({}) of {} prints as {:?} instead of {}", i, n, text, T::debug_of(&m[i])));
            }
        }
        for e in indexes.iter().cloned() {
            *evals += 1;
            let got = catch(|| {
                let s = v.slice(i..e);
                (s.len(), if s.len() <= n { array_vals(&s) } else { vec![] })
            });
            match got {
                Ok((len, _)) if i > e || e > n || len != e - i => return Err(format!("slice({}..{}) of {} has length {}", i, e, n, len)),
                Ok((_, ref vals)) if vals[..] != m[i..e] => return Err(format!("slice({}..{}) of {} is {:?}", i, e, n, vals)),
                _ => (),
            }
            if n < 6 {
                // skipping
                let (mut it, mut mi) = (v.iter(), m.iter());
                let got = catch(|| (it.nth(i).map(|x| T::get(&x)), it.nth_back(e).map(|x| T::get(&x)), it.len()));
                let want = (mi.nth(i).cloned(), mi.nth_back(e).cloned(), mi.len());
                if got.as_ref().map_or(false, |g| *g != want) {
                    return Err(format!("nth({}), nth_back({}) and len of {} give {:?} instead of {:?}", i, e, n, got, want));
                }
            }
        }
        for r in &[catch(|| array_vals(&v.slice(i..))), catch(|| array_vals(&v.slice(..=i)))] {
            if let Ok(vals) = r {
                if i > n || !(vals[..] == m[i..] || i < n && vals[..] == m[..=i]) {
                    return Err(format!("slice({}..) or slice(..={}) of {} is {:?}", i, i, n, vals));
                }
            }
        }
    }
    for back in &[false, true] {
        let mut it = v.iter();
        let (mut got, done) = drain(n + 1, || if *back { it.next_back() } else { it.next() }.map(|x| T::get(&x)))?;
        if *back {
            got.reverse();
        }
        if got.len() > n || got[..] != *(if *back { &m[n - got.len()..] } else { &m[..got.len()] }) || done && got.len() != n {
            return Err(format!("iterating (backwards {}) gives {:?} instead of {:?}", back, got, m));
        }
    }
    let _ = catch(|| format!("{:?} {:?}", v, v.iter()).len());
    *evals += 4;
    Ok(())
}

/// Arrays of any length, with a part of an element at the end, directly at inaccessible memory.
fn array<T: Elem>(ch: &mut Ch, buf: &mut [GuardBuf; 2]) -> Result<(), String> {
    let s = T::SIZE;
    let mut lens: Vec<usize> = if s < 64 { (0..4 * s).collect() } else { vec![0, 1, s / 2, s - 1, s, s + 1, 2 * s - 1, 2 * s, 2 * s + 1, 3 * s - 1, 3 * s, 4 * s - 1] };
    lens.push(12 * s + s - 1);
    let len = *ch.pick(&lens);
    let pat = ch.choose(if ch.thorough { 4 } else { 2 });
    let at_end = ch.flag();
    let data: &mut [u8] = if at_end { buf[0].at_end(len) } else { buf[0].at_start(len) };
    pattern(pat, data);
    let data: &[u8] = data;
    let copy = data.to_vec();
    ch.step(|| format!("{} bytes, pattern {}, {}", len, pat, if at_end { "memory ends behind them" } else { "memory starts with them" }));
    let mut evals = 0;
    probe_array::<T>(&ArrayView::new(data), &copy, true, &mut evals).map_err(|e| format!("{} of {} bytes: array of {} bytes, pattern {}: {}", T::NAME, s, len, pat, e))?;
    ch.evals(evals);
    if data != &copy[..] {
        return Err(format!("{}: reading changed the data", T::NAME));
    }
    ch.state(&(T::NAME, len, pat));
    ch.outcome(&(len / s, len % s != 0));
    Ok(())
}

/// Elements in data[s..e], and whether these are all of them.
fn decode_bucket<V: Var>(data: &[u8], s: usize, e: usize) -> (Vec<(usize, Vals)>, bool) {
    let mut r = Vec::new();
    if s > e || e > data.len() {
        return (r, false);
    }
    let (tags, sizes) = (V::tags(), V::sizes());
    let mut pos = s;
    while pos < e {
        let kind = match tags.iter().position(|t| *t == data[pos]) {
            Some(k) => k,
            None => return (r, false),
        };
        let size = sizes[kind];
        if pos + 1 + size > e {
            return (r, false);
        }
        r.push((kind, V::values_of_bytes(kind, &data[pos + 1..][..size])));
        pos += 1 + size;
    }
    (r, true)
}

type Bucket = (Vec<(usize, Vals)>, bool);

/// `got` is the start of what is there, and all of it if it ended.
fn bucket_fits(got: &Bucket, model: Option<&Bucket>) -> bool {
    match model {
        None => got.0.is_empty() && !got.1,
        Some(m) => got.0.len() <= m.0.len() && got.0[..] == m.0[..got.0.len()] && (!got.1 || !m.1 || got.0.len() == m.0.len()),
    }
}

/// Reads a bucket; what is reached through `f` may panic as well.
fn take<'a, V: Var, B: Iterator<Item = <V as VariadicStruct<'a>>::Item> + std::fmt::Debug>(cap: usize, f: impl FnOnce() -> B) -> Result<Bucket, String> {
    let mut it = match catch(f) {
        Ok(it) => it,
        Err(_) => return Ok((vec![], false)),
    };
    let _ = catch(|| format!("{:?}", it).len());
    drain(cap, || it.next().map(|x| V::get(&x)))
}

fn probe_multi<I: Idx, V: Var>(v: &MultiArrayView<I, V>, index: &[u8], data: &[u8], full: bool, evals: &mut u64) -> Result<(), String> {
    let entries: Vec<usize> = index.chunks(I::SIZE).filter(|c| c.len() == I::SIZE).map(|c| get_bits(c, 0, I::BITS) as usize).collect();
    let n = entries.len().max(1) - 1;
    let m: Vec<Bucket> = (0..n).map(|i| decode_bucket::<V>(data, entries[i], entries[i + 1])).collect();
    let ctx = || format!("entries {:?}, data {:02x?}", entries, &data[..data.len().min(40)]);
    let cap = data.len() + 1;
    match catch(|| v.len()) {
        Ok(len) if len != n => return Err(format!("{}: length {} instead of {}", ctx(), len, n)),
        Err(ref p) if !entries.is_empty() => return Err(format!("{}: length panics: {}", ctx(), p)),
        _ => (),
    }
    let mut indexes: Vec<usize> = if n < 8 { (0..n + 3).collect() } else { vec![0, 1, n - 1, n, n + 1, n + 2] };
    if full {
        indexes.extend(wild(I::SIZE));
    }
    for i in indexes.iter().cloned() {
        *evals += 4;
        let ways = [
            ("at", take::<V, _>(cap, || v.at(i))),
            ("slice from", take::<V, _>(cap, || v.slice(i..).iter().next().expect("none"))),
            ("slice to", take::<V, _>(cap, || v.slice(..=i).iter().next_back().expect("none"))),
        ];
        for (what, got) in &ways {
            let got = got.as_ref().map_err(|e| format!("{}: bucket {} by {} {}", ctx(), i, what, e))?;
            if !bucket_fits(got, m.get(i)) {
                return Err(format!("{}: bucket {} by {} is {:?}, there is {:?}", ctx(), i, what, got, m.get(i)));
            }
        }
        if full || n < 4 {
            for e in indexes.iter().cloned() {
                *evals += 1;
                if let Ok(s) = catch(|| v.slice(i..e)) {
                    let len = catch(|| s.len());
                    if i > e || e > n || len != Ok(e - i) {
                        return Err(format!("{}: slice({}..{}) has length {:?}", ctx(), i, e, len));
                    }
                    if e > i {
                        for k in &[0, e - i - 1, e - i, e - i + 1] {
                            let got = take::<V, _>(cap, || s.at(*k)).map_err(|x| format!("{}: slice({}..{}).at({}) {}", ctx(), i, e, k, x))?;
                            if !bucket_fits(&got, if *k < e - i { m.get(i + k) } else { None }) {
                                return Err(format!("{}: slice({}..{}).at({}) is {:?}", ctx(), i, e, k, got));
                            }
                        }
                    }
                }
            }
        }
    }
    for back in &[false, true] {
        let mut it = match catch(|| v.iter()) {
            Ok(it) => it,
            Err(_) => continue,
        };
        let mut count = 0;
        loop {
            *evals += 1;
            let b = match catch(|| if *back { it.next_back() } else { it.next() }) {
                Err(_) | Ok(None) => break,
                Ok(Some(b)) => b,
            };
            let got = take::<V, _>(cap, || b).map_err(|e| format!("{}: a bucket {}", ctx(), e))?;
            let model = if count < n { m.get(if *back { n - 1 - count } else { count }) } else { None };
            if model.is_none() || !bucket_fits(&got, model) {
                return Err(format!("{}: iterating (backwards {}), bucket {} is {:?}, there is {:?}", ctx(), back, count, got, model));
            }
            count += 1;
        }
    }
    let _ = catch(|| format!("{:?} {:?}", v, v.iter()).len());
    *evals += 2;
    Ok(())
}

variant!(VarS, RefVarS, BuilderVarS, Idx8, 1 => (E1, add_e1), 2 => (E2, add_e2));

/// Any index over any data: offsets in any order, unknown tags, elements cut off.
fn multi<I: Idx, V: Var>(ch: &mut Ch, buf: &mut [GuardBuf; 2], alphabet: &[u8], max_len: usize, entries: usize, far: &[u64], full: bool) -> Result<(), String> {
    let len = ch.choose(max_len + 1);
    let mut offsets: Vec<u64> = (0..len as u64 + 2).collect();
    offsets.extend(far.iter().filter(|f| **f > len as u64 + 1 && **f <= mask(I::BITS)));
    let n = ch.choose(entries + 1);
    let mut index = Vec::new();
    for _ in 0..n {
        let o = *ch.pick(&offsets);
        let mut b = I::bytes(o);
        // bits that are no part of the offset
        for k in I::BITS..I::SIZE * 8 {
            b[k / 8] |= 1 << (k % 8);
        }
        index.extend(b);
    }
    // a part of an entry
    if I::SIZE > 1 {
        index.extend(vec![1u8; if ch.flag() { I::SIZE - 1 } else { 0 }]);
    }
    let at_end = n % 2 == 0;
    ch.step(|| format!("index {:02x?}, {} bytes of data", index, len));
    let mut digits = vec![0; len];
    let mut evals = 0;
    loop {
        let bytes: Vec<u8> = digits.iter().map(|d: &usize| alphabet[*d]).collect();
        for side in 0..2 {
            let [ref mut b0, ref mut b1] = *buf;
            let (d, i) = if (side == 0) == at_end { (b0.at_end(len), b1.at_start(index.len())) } else { (b0.at_start(len), b1.at_end(index.len())) };
            d.copy_from_slice(&bytes);
            i.copy_from_slice(&index);
            let (d, i): (&[u8], &[u8]) = (d, i);
            probe_multi::<I, V>(&MultiArrayView::new(ArrayView::new(i), d), &index, &bytes, full, &mut evals).map_err(|e| format!("{} {}: {}", I::NAME, V::NAME, e))?;
            if d != &bytes[..] || i != &index[..] {
                return Err(format!("{} {}: reading changed the data", I::NAME, V::NAME));
            }
        }
        ch.outcome(&(n, len, decode_bucket::<V>(&bytes, 0, len)));
        // the next string
        let mut k = 0;
        while k < len && digits[k] + 1 == alphabet.len() {
            digits[k] = 0;
            k += 1;
        }
        if k == len {
            break;
        }
        digits[k] += 1;
    }
    ch.evals(evals);
    ch.state(&(I::NAME, V::NAME, &index, len));
    Ok(())
}

fn probe_struct<T: Elem>(get: impl Fn() -> Vals, text: impl Fn() -> String, payload: &[u8]) -> Result<(), String> {
    let want = if payload.len() >= T::SIZE { Some(T::values_of_bytes(&payload[..T::SIZE])) } else { None };
    if let Ok(v) = catch(get) {
        if Some(&v) != want.as_ref() {
            return Err(format!("struct in {} bytes is {:?} instead of {:?}", payload.len(), v, want));
        }
    }
    if let Ok(s) = catch(text) {
        if Some(s.clone()) != want.as_ref().map(|v| T::debug_of(v)) {
            return Err(format!("struct in {} bytes prints as {}", payload.len(), s));
        }
    }
    Ok(())
}

/// Everything of an opened archive; `payload` gives the stored payload of a resource.
fn probe_archive(a: &Top, payload: &dyn Fn(&str) -> Vec<u8>, evals: &mut u64) -> Result<(), String> {
    macro_rules! st {
        ($t:ty, $path:expr, $x:expr) => {
            probe_struct::<$t>(|| <$t as Elem>::get(&$x), || format!("{:?}", $x), &payload($path)).map_err(|e| format!("{}: {}", $path, e))?
        };
    }
    macro_rules! ve {
        ($t:ty, $path:expr, $x:expr) => {
            probe_array::<$t>(&$x, &payload($path), false, evals).map_err(|e| format!("{}: {}", $path, e))?
        };
    }
    macro_rules! mu {
        ($i:ty, $v:ty, $path:expr, $x:expr) => {
            probe_multi::<$i, $v>(&$x, &payload(&format!("{}_index", $path)), &payload($path), false, evals).map_err(|e| format!("{}: {}", $path, e))?
        };
    }
    macro_rules! raw {
        ($path:expr, $x:expr) => {
            if $x != &payload($path)[..] {
                return Err(format!("{}: {:02x?} instead of {:02x?}", $path, $x, payload($path)));
            }
        };
    }
    st!(E9, "head", a.head());
    if a.ohead().is_some() {
        st!(E13, "ohead", a.ohead().unwrap());
    }
    ve!(E4, "vec", a.vec());
    if let Some(v) = a.ovec() {
        ve!(E3, "ovec", v);
    }
    mu!(Idx32, Var3, "mv", a.mv());
    if let Some(v) = a.omv() {
        mu!(Idx40, VarT, "omv", v);
    }
    raw!("raw", a.raw());
    if let Some(v) = a.oraw() {
        raw!("oraw", v);
    }
    let osub = a.osub();
    let subs = [Some(("sub", a.sub())), osub.as_ref().map(|s| ("osub", s))];
    for (dir, s) in subs.iter().filter_map(|x| x.as_ref()) {
        st!(E4, &join(dir, "shead"), s.shead());
        if let Some(v) = s.svec() {
            ve!(E7, &join(dir, "svec"), v);
        }
        if let Some(v) = s.sraw() {
            raw!(&join(dir, "sraw"), v);
        }
        if let Some(l) = s.leaf() {
            raw!(&join(dir, "leaf/lraw"), l.lraw());
            if let Some(v) = l.lmv() {
                mu!(Idx24, Var1, &join(dir, "leaf/lmv"), v);
            }
        }
    }
    // printing the archives themselves
    let _ = catch(|| format!("{:?}", a).len());
    Ok(())
}

/// Payloads of `count` resources at a time replaced by arbitrary bytes in an otherwise intact archive.
fn archive(ch: &mut Ch, count: usize, lens: usize, patterns: usize) -> Result<(), String> {
    let memory = ch.flag();
    let parts = parts();
    let mut contents: Vec<(String, String, Vec<u8>)> = Vec::new();
    for (k, p) in parts.iter().enumerate() {
        for r in p.resources(&sample(p.kind, k as u64 + 3, kinds_of(p.path))) {
            contents.push((r.path, r.schema, r.payload));
        }
    }
    let mut from = 0;
    let mut what = Vec::new();
    let mut damaged = Vec::new();
    for c in 0..count {
        let left = contents.len() - from - (count - 1 - c);
        let k = from + ch.choose(left);
        from = k + 1;
        let len = if lens > 20 { ch.choose(lens) } else { *ch.pick(&[5, 0, 13, 1, 3, 4, 7, 8, 9, 12, 14, 17, 18, 20, 26, 33][..lens]) };
        let pat = ch.choose(patterns);
        let mut b = vec![0; len];
        pattern(if patterns == 2 { 1 + 3 * pat } else { pat }, &mut b);
        contents[k].2 = b;
        damaged.push(k);
        what.push(format!("{} of {} bytes (pattern {})", contents[k].0, len, pat));
    }
    let ctx = format!("memory {}, {}", memory, what.join(" and "));
    ch.step(|| ctx.clone());
    let tmp = ch.scratch.fresh();
    let (s, opened) = {
        // the padding behind a payload must not be taken for a part of it
        let framed = |payload: &[u8]| {
            let mut f = framed(payload);
            let n = f.len();
            for (i, b) in f[n - 8..].iter_mut().enumerate() {
                *b = 0xc3 ^ i as u8;
            }
            f
        };
        let s = storage(memory, &tmp.path);
        for (dir, name, schema, _) in ARCHIVES.iter() {
            put(&s, &join(dir, &format!("{}.archive", name)), &[0u8; 16]);
            put(&s, &join(dir, &format!("{}.archive.schema", name)), schema.as_bytes());
        }
        for (path, schema, payload) in &contents {
            put(&s, path, &framed(payload));
            put(&s, &format!("{}.schema", path), schema.as_bytes());
        }
        let s = if memory { s } else { storage(false, &tmp.path) };
        let before = if memory { Default::default() } else { snapshot(&tmp.path) };
        // what is read lies directly in front of inaccessible memory
        let opened = catch(|| falloc::guarded(|| Top::open(s.clone()))).map_err(|p| format!("{}: opening panics: {}", ctx, p))?;
        if !memory && snapshot(&tmp.path) != before {
            return Err(format!("{}: opening changed the files", ctx));
        }
        (s, opened)
    };
    let short = damaged.iter().any(|k| {
        let p = parts.iter().find(|p| p.path == contents[*k].0);
        p.map_or(false, |p| !p.optional && contents[*k].2.len() < p.min_size && !p.path.starts_with("osub"))
    });
    ch.outcome(&(opened.is_ok(), short, damaged.len()));
    let a = match opened {
        Ok(a) => a,
        Err(e) => {
            if !short {
                return Err(format!("{}: does not open: {}", ctx, e));
            }
            return Ok(());
        }
    };
    let mut evals = 0;
    let payload = |path: &str| contents.iter().find(|c| c.0 == path).unwrap().2.clone();
    for round in 0..2 {
        probe_archive(&a, &payload, &mut evals).map_err(|e| format!("{}, round {}: {}", ctx, round, e))?;
    }
    ch.evals(evals);
    if !memory {
        for (path, _, bytes) in &contents {
            let f = std::fs::read(tmp.path.join(path)).map_err(|e| e.to_string())?;
            if f[8..f.len() - 8] != bytes[..] {
                return Err(format!("{}: reading changed {}", ctx, path));
            }
        }
    }
    ch.state(&(memory, damaged, ctx.len(), &ctx));
    drop(a);
    drop(s);
    Ok(())
}

/// An enumeration that has no name for one of the patterns of its field.
mod partial {
    use flatdata::*;
    #[repr(u8)]
    #[derive(Debug, Clone, Copy, PartialEq)]
    #[allow(dead_code)]
    pub enum Three {
        A = 0,
        B = 1,
        C = 2,
    }
    define_struct!(Partial, RefPartial, RefMutPartial, "partial", 1, (e, set_e, Three: u8, 0, 2));
    /// The byte the field gives; None: it panics. What follows is undefined, so that it happens in a
    /// process of its own.
    pub fn read(stored: u8) -> Option<u8> {
        let mut status = 0;
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::close(2);
                let bytes = std::hint::black_box([stored]);
                let r = mccore::panics::catch(|| {
                    let e = <Partial as Struct>::create(&bytes).e();
                    std::ptr::read_volatile(&e as *const Three as *const u8)
                });
                libc::_exit(r.map_or(255, |b| b as i32));
            }
            libc::waitpid(pid, &mut status, 0);
            if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 255 {
                None
            } else {
                Some(libc::WEXITSTATUS(status) as u8)
            }
        }
    }
}

fn main() {
    mccore::main("C18", Level::Exploration, "one evaluation is one access to a damaged resource; states are (type, payload)", |run| {
        let t = run.thorough;
        let release = std::env::var("MC_BUILD").map_or(true, |b| b == "release");
        fn arrays<T: Elem>(run: &mut Run) {
            run.explore(&format!("array-{}", T::NAME), "every length of up to four elements and 13 and a part, 2 patterns (thorough: 4), memory inaccessible before or behind; every index and range around them and far outside", 0, |ch| {
                let pages = (14 * T::SIZE) / 4096 + 1;
                array::<T>(ch, &mut [GuardBuf::new(pages), GuardBuf::new(1)])
            });
        }
        all_layouts!(arrays, run);
        arrays::<E1>(run);
        arrays::<E2>(run);
        arrays::<E3>(run);
        arrays::<E4>(run);
        arrays::<E7>(run);
        arrays::<E9>(run);
        arrays::<E13>(run);
        arrays::<E16>(run);
        let max = u64::max_value();
        let far = [max, 1 << 32, (1 << 32) - 1, (1 << 24) - 1, 4095, 255, 15, max - 1, max / 2 + 1, max / 8, 1 << 24, 254, 127, 14];
        let far = &far[..if t { 14 } else { 7 }];
        macro_rules! multi {
            ($i:ty, $v:ty, $alphabet:expr, $len:expr, $entries:expr, $full:expr) => {
                run.explore(
                    &format!("multi-{}-{}-{}-{}", <$i as Idx>::NAME, <$v as Var>::NAME, $len, $entries),
                    &format!("every index of <={} entries (0..=data+1 and far outside, with a part of an entry), every data of <={} bytes of {:02x?}", $entries, $len, $alphabet),
                    0,
                    |ch| multi::<$i, $v>(ch, &mut [GuardBuf::new(1), GuardBuf::new(1)], &$alphabet, $len, $entries, far, $full),
                );
            };
        }
        let (long, many) = if t { (5, 4) } else { (3, 3) };
        multi!(Idx8, VarS, [1u8, 2, 0, 0xff], long + 1, 2, true);
        multi!(Idx8, VarS, [1u8, 2, 7], if t { 4 } else { 3 }, many, false);
        multi!(Idx4, VarS, [1u8, 2, 7], 3, 3, false);
        multi!(Idx12, VarS, [1u8, 2, 7], 3, 2, true);
        if t || release {
            multi!(Idx24, VarS, [1u8, 2, 7], 3, 2, true);
            multi!(Idx40, VarS, [1u8, 2, 7], 3, 2, true);
        }
        multi!(Idx32, VarS, [1u8, 2, 7], long, 2, true);
        multi!(Idx64, VarS, [1u8, 2, 7], long, 2, true);
        multi!(Idx64, VarS, [1u8, 2], 2, many, false);
        multi!(Idx32, Var3, [0u8, 1, 2, 3], if t { 6 } else { 4 }, 2, false);
        multi!(Idx32, VarT, [255u8, 3, 128], if t { 7 } else { 5 }, 2, false);
        let (l1, p) = if t { (80, 5) } else { (41, 5) };
        run.explore("archive-one", &format!("one resource of an archive with 0..{} arbitrary bytes of {} patterns, both storages, every access", l1, p), 0, move |ch| archive(ch, 1, l1, p));
        let l2 = if t { 12 } else { 3 };
        if t || release {
        run.explore("archive-two", &format!("two resources, {} lengths, 2 patterns", l2), 0, move |ch| archive(ch, 2, l2, 2));
        }
        if let Some(b) = partial::read(0xff) {
            if b > 2 {
                run.finding("enumeration-without-name", &format!("a stored 2-bit field of 0xff read as an enumeration with the names 0, 1 and 2 gives {}, a value the enumeration does not have", b));
            }
        }
    })
}
