//! C09: which stored bytes are accepted as a resource.
use checks::*;
use flatdata::{Archive, ResourceStorageError};
use std::fs;
use std::path::Path;

const SCHEMA: &str = "some\nschema";

fn headers(n: usize) -> Vec<u64> {
    let exact = (n as u64).wrapping_sub(16);
    let mut r: Vec<u64> = (0..(n as u64 + 20).min(90)).collect();
    for k in 0..64 {
        let b = 1u64 << k;
        for x in &[b, b - 1, b.wrapping_add(1), b.wrapping_neg(), b.wrapping_neg().wrapping_sub(1), b.wrapping_neg().wrapping_add(1)] {
            r.push(*x);
        }
        // right in all bits but one, right modulo a power of two
        r.push(exact ^ b);
        r.push(exact.wrapping_add(b));
        r.push(exact.wrapping_sub(b));
    }
    for j in 0..40u64 {
        r.push(u64::max_value() - j);
        r.push((n as u64).wrapping_sub(j));
        r.push((n as u64).wrapping_add(j));
        r.push((n as u64).wrapping_neg().wrapping_sub(j));
    }
    r.push(exact.swap_bytes());
    r.push(exact);
    r.sort();
    r.dedup();
    r
}

fn stored(n: usize, header: u64, fill: u8) -> Vec<u8> {
    let mut b = header.to_le_bytes().to_vec();
    while b.len() < n {
        let k = b.len();
        b.push((k as u8).wrapping_mul(29) ^ fill);
    }
    b.truncate(n);
    if n >= 24 {
        for x in &mut b[n - 8..] {
            *x = 0;
        }
    }
    b
}

/// Puts one resource into a new storage.
fn setup(memory: bool, dir: &Path, files: &[(&str, &[u8])]) -> Storage {
    if memory {
        let s = storage(true, dir);
        for (name, b) in files {
            put(&s, name, b);
        }
        s
    } else {
        for (name, b) in files {
            fs::write(dir.join(name), b).expect("write");
        }
        storage(false, dir)
    }
}

fn well_formed(b: &[u8]) -> Option<&[u8]> {
    if b.len() < 16 {
        return None;
    }
    let size = get_bits(b, 0, 64);
    if size == (b.len() - 16) as u64 {
        Some(&b[8..b.len() - 8])
    } else {
        None
    }
}

fn direct(ch: &mut Ch, sizes: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let n = *ch.pick(sizes);
    let tmp = ch.scratch.fresh();
    fs::create_dir_all(&tmp.path).expect("create");
    ch.step(|| format!("{} stored bytes, {}", n, if memory { "memory" } else { "files" }));
    let hs = if n < 8 { (0..4).map(|k| [0u64, 1, u64::max_value(), 0x0807060504030201][k]).collect() } else { headers(n) };
    for h in hs {
        let b = stored(n, h, 0x5A);
        let s = setup(memory, &tmp.path, &[("res", &b), ("res.schema", SCHEMA.as_bytes())]);
        let what = format!("{} bytes with header {:#x} in {}", n, h, if memory { "memory" } else { "files" });
        let want = well_formed(&b);
        // twice, since the first read may leave something behind
        for round in 0..2 {
            let got = catch(|| s.read("res", SCHEMA).map(|x| x.to_vec()));
            match (got, want) {
                (Err(p), _) => return Err(format!("{}: read {} panics: {}", what, round, p)),
                (Ok(Ok(x)), None) => return Err(format!("{}: read {} returns {} bytes", what, round, x.len())),
                (Ok(Err(e)), Some(_)) => return Err(format!("{}: read {} fails: {}", what, round, e)),
                (Ok(Ok(x)), Some(w)) => {
                    if &x[..] != w {
                        return Err(format!("{}: read {} returns {:02x?} instead of {:02x?}", what, round, &x[..x.len().min(40)], &w[..w.len().min(40)]));
                    }
                    ch.outcome(&("ok", memory));
                }
                (Ok(Err(ResourceStorageError::UnexpectedDataSize)), None) => ch.outcome(&("size", memory)),
                (Ok(Err(_)), None) => ch.outcome(&("other", memory)),
            }
        }
        ch.evals(1);
        ch.state(&(memory, n, h));
    }
    Ok(())
}

/// Large files that are mostly holes.
fn sparse(ch: &mut Ch) -> Result<(), String> {
    use std::io::Write;
    let size = (1u64 << *ch.pick(&[31, 32, 33])) + *ch.pick(&[0u64, 3, 16]);
    let header = match ch.choose(6) {
        0 => size,
        1 => size & 0xFFFF_FFFF,
        2 => size & 0x7FFF_FFFF,
        3 => size as u32 as i32 as i64 as u64,
        4 => size + (1 << 32),
        _ => size - 1,
    };
    let tmp = ch.scratch.fresh();
    fs::create_dir_all(&tmp.path).expect("create");
    {
        let mut f = fs::File::create(tmp.path.join("res")).expect("create");
        f.write_all(&header.to_le_bytes()).expect("write");
        f.write_all(&[1, 2, 3]).expect("write");
        f.set_len(size + 16).expect("set_len");
    }
    fs::write(tmp.path.join("res.schema"), SCHEMA).expect("write");
    let s = storage(false, &tmp.path);
    let what = format!("{} bytes with header {}", size + 16, header);
    ch.step(|| what.clone());
    let r = catch(|| s.read("res", SCHEMA).map(|x| (x.len() as u64, x[0], x[2], x[x.len() - 1])));
    ch.state(&(size, header));
    ch.outcome(&(size == header));
    match r {
        Err(p) => Err(format!("{}: panics: {}", what, p)),
        Ok(Ok(x)) if size == header && x == (size, 1, 3, 0) => Ok(()),
        Ok(Err(_)) if size != header => Ok(()),
        Ok(x) => Err(format!("{}: read gives {:?}", what, x)),
    }
}

/// What is there at all.
fn presence(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let data = ch.choose(4); // missing, empty, too short, good
    let schema = ch.choose(3); // missing, empty, good
    let dir = ch.choose(3); // exists, missing, resource in a missing sub-directory
    let expected = *ch.pick(&["", SCHEMA]);
    let tmp = ch.scratch.fresh();
    let good = framed(&[1, 2, 3]);
    let mut files: Vec<(&str, &[u8])> = Vec::new();
    match data {
        1 => files.push(("res", &[])),
        2 => files.push(("res", &good[..15])),
        3 => files.push(("res", &good)),
        _ => (),
    }
    match schema {
        1 => files.push(("res.schema", &[])),
        2 => files.push(("res.schema", SCHEMA.as_bytes())),
        _ => (),
    }
    if dir != 0 {
        files.clear();
    }
    if dir != 1 {
        fs::create_dir_all(&tmp.path).expect("create");
    }
    let s = setup(memory, &tmp.path, &files);
    let name = if dir == 2 { "sub/res" } else { "res" };
    let fine = dir == 0 && data == 3 && (schema == 1 && expected == "" || schema == 2 && expected == SCHEMA);
    let what = format!("memory {}, data {}, schema {}, directory {}, expecting {:?}", memory, data, schema, dir, expected);
    ch.step(|| what.clone());
    ch.state(&(memory, data, schema, dir, expected));
    let got = catch(|| s.read(name, expected).map(|x| x.to_vec()));
    ch.outcome(&format!("{:?}", got.as_ref().map(|r| r.as_ref().map_err(|e| std::mem::discriminant(e)))));
    match got {
        Err(p) => Err(format!("{}: panics: {}", what, p)),
        Ok(Ok(x)) => {
            if fine && x == [1, 2, 3] {
                Ok(())
            } else {
                Err(format!("{}: reads {:02x?}", what, x))
            }
        }
        Ok(Err(e)) => {
            if fine {
                return Err(format!("{}: fails: {}", what, e));
            }
            Ok(())
        }
    }
}

/// The same through an archive: its signature, a mandatory resource, the two parts of an optional one.
fn archive(ch: &mut Ch, sizes: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let target = ch.choose(4);
    let n = *ch.pick(sizes);
    let tmp = ch.scratch.fresh();
    fs::create_dir_all(&tmp.path).expect("create");
    ch.step(|| format!("resource {} has {} bytes", target, n));
    let names = ["Leaf.archive", "lraw", "lmv_index", "lmv"];
    let buckets: Buckets = vec![vec![(0, 4)], vec![]];
    let (i, d) = multi_bytes::<Idx24, Var1>(&buckets);
    let hs = if n < 8 { vec![0u64, u64::max_value()] } else { headers(n) };
    for h in hs {
        // the content of the multivector is not judged here
        let b = stored(n, h, 0);
        let ok = well_formed(&b).map(|x| x.to_vec());
        let mut data: Vec<Vec<u8>> = vec![framed(&[]), framed(&[7, 8]), framed(&i), framed(&d)];
        data[target] = b;
        let schemas = [LEAF_SCHEMA, "lraw schema", "index(lmv schema)", "lmv schema"];
        let snames: Vec<String> = names.iter().map(|n| format!("{}.schema", n)).collect();
        let mut files: Vec<(&str, &[u8])> = Vec::new();
        for k in 0..4 {
            files.push((names[k], &data[k]));
            files.push((&snames[k], schemas[k].as_bytes()));
        }
        let s = setup(memory, &tmp.path, &files);
        let what = format!("{} with {} bytes and header {:#x}, memory {}", names[target], n, h, memory);
        let got = catch(|| Leaf::open(s).map(|a| (a.lraw().to_vec(), a.lmv().is_some())));
        let got = match got {
            Err(p) => return Err(format!("{}: panics: {}", what, p)),
            Ok(r) => r,
        };
        ch.outcome(&(target, ok.is_some(), got.is_ok()));
        ch.evals(1);
        match got {
            Ok((raw, mv)) => {
                if target < 2 && ok.is_none() {
                    return Err(format!("{}: the archive opens", what));
                }
                let want_raw = if target == 1 { ok.clone().unwrap() } else { vec![7, 8] };
                if raw != want_raw {
                    return Err(format!("{}: raw data is {:02x?} instead of {:02x?}", what, raw, want_raw));
                }
                if mv != (target < 2 || ok.is_some()) {
                    return Err(format!("{}: the multivector is {}", what, if mv { "there" } else { "missing" }));
                }
            }
            Err(e) => {
                if target >= 2 || ok.is_some() {
                    return Err(format!("{}: does not open: {}", what, e));
                }
            }
        }
    }
    ch.state(&(memory, target, n));
    Ok(())
}

fn main() {
    mccore::main("C09", Level::Exploration, "one evaluation is one stored size and header that is read twice; states are (storage, bytes, header)", |run| {
        let sizes: Vec<usize> = if run.thorough { (0..=520).chain(4080..=4130).chain(65530..=65560).collect() } else { (0..=56).chain(4090..=4114).chain(65535..=65537).collect() };
        let small: Vec<usize> = if run.thorough { (0..=80).collect() } else { (0..=26).collect() };
        run.explore("read", &format!("{} total sizes up to {}, >=400 headers each: all small ones, 2^k-1..2^k+1, their negatives, exact +-2^k, exact with one bit flipped, near 2^64", sizes.len(), sizes[sizes.len() - 1]), 0, |ch| direct(ch, &sizes));
        run.explore("archive", &format!("signature, mandatory and optional resource of an archive, total sizes 0..={}", small[small.len() - 1]), 0, |ch| archive(ch, &small));
        run.explore("presence", "data and schema missing, empty or present; missing directories", 0, presence);
        run.explore("sparse", "files of 2, 4 and 8 GiB", 0, sparse);
    })
}
