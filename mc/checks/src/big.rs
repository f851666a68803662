//! Parts of many sizes: around powers of two, and of more than 4 GiB.
use crate::*;
use crate::huge::{sparse_writes, Huge};
use crate::model::E1;
use flatdata::{Archive, ArchiveBuilder, ArrayView};
use std::path::Path;

pub const BIG_SCHEMA: &str = "big schema";
define_archive!(Big, BigBuilder, crate::big::BIG_SCHEMA;
    ;
    (bytes, set_bytes, start_bytes, E1, "bytes schema", true);
    ;
    (raw, set_raw, "raw schema", true);
);

pub fn fill(n: usize, salt: u64) -> Vec<u8> {
    let mut r = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while r.len() < n {
        let x = (i + salt).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        r.extend_from_slice(&(x ^ x >> 29).to_le_bytes());
        i += 1;
    }
    r.truncate(n);
    r
}

/// What is judged after a part was written: storage, directory, name and schema of the part, payload.
pub type BigJudge = fn(&Storage, Option<&Path>, &str, &str, &[u8]) -> Result<(), String>;

fn put(b: &BigBuilder, raw: bool, data: &[u8]) -> Result<(), String> {
    match catch(|| if raw { b.set_raw(data) } else { b.set_bytes(&ArrayView::new(data)) }) {
        Ok(Ok(())) => Ok(()),
        x => Err(format!("writing gives {:?}", x)),
    }
}

/// Payloads of sizes around powers of two, over an earlier content or not.
pub fn large(ch: &mut Ch, bits: u32, judge: BigJudge) -> Result<(), String> {
    let memory = ch.flag();
    let raw = ch.flag();
    let k = 15 + ch.choose(bits as usize - 14);
    let n = (1usize << k) - 17 + *ch.pick(&[0usize, 1, 9, 16, 17, 18]);
    let earlier = ch.choose(4);
    let tmp = ch.scratch.fresh();
    let root = storage(memory, &tmp.path);
    let name = if raw { "raw" } else { "bytes" };
    let ctx = format!("{} of {} bytes, earlier content {}, memory {}", name, n, ["none", "shorter", "longer", "of the same size"][earlier], memory);
    ch.step(|| ctx.clone());
    ch.state(&(memory, raw, n, earlier));
    ch.outcome(&(memory, raw, earlier));
    ch.evals(1);
    let b = BigBuilder::new(root.clone()).map_err(|e| e.to_string())?;
    let dir: Option<&Path> = if memory { None } else { Some(tmp.path.as_ref()) };
    if earlier > 0 {
        let old = fill([0, n / 2, n + 4097, n][earlier], 99);
        put(&b, raw, &old).map_err(|e| format!("{}: {}", ctx, e))?;
        judge(&root, dir, name, &format!("{} schema", name), &old).map_err(|e| format!("{}, the earlier content: {}", ctx, e))?;
    }
    let data = fill(n, 1);
    put(&b, raw, &data).map_err(|e| format!("{}: {}", ctx, e))?;
    judge(&root, dir, name, &format!("{} schema", name), &data).map_err(|e| format!("{}: {}", ctx, e))
}

/// Places in so many bytes that are looked at.
pub fn places(n: usize) -> Vec<usize> {
    let mut r: Vec<usize> = (0..34).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    r.extend((0..20).map(|k| n.wrapping_sub(k)));
    r.extend((1..8).map(|k| n / 8 * k));
    r.push(0);
    // as many bytes as Linux writes at once
    r.extend((1..6).flat_map(|k| vec![0x7fff_f000 * k - 9, 0x7fff_f000 * k - 1, 0x7fff_f000 * k]));
    r.retain(|x| *x < n);
    r.sort();
    r.dedup();
    r
}

/// Payloads around 2, 4 and 8 GiB in files with holes.
pub fn huge(ch: &mut Ch, bits: &[u32], judge: BigJudge) -> Result<(), String> {
    let raw = ch.flag();
    let k = *ch.pick(bits);
    let n = (1usize << k) - 1 + *ch.pick(&[0usize, 1, 2]);
    let tmp = ch.scratch.fresh();
    let root = storage(false, &tmp.path);
    let name = if raw { "raw" } else { "bytes" };
    let ctx = format!("{} of {} bytes", name, n);
    ch.step(|| ctx.clone());
    ch.state(&(raw, n));
    ch.outcome(&(raw, k));
    ch.evals(1);
    let mut data = Huge::new(n);
    for (i, p) in places(n).into_iter().enumerate() {
        data.put(p, &[i as u8 | 1]);
    }
    let b = BigBuilder::new(root.clone()).map_err(|e| e.to_string())?;
    sparse_writes(|| put(&b, raw, data.bytes())).map_err(|e| format!("{}: {}", ctx, e))?;
    judge(&root, Some(tmp.path.as_ref()), name, &format!("{} schema", name), data.bytes()).map_err(|e| format!("{}: {}", ctx, e))
}

pub fn differs(got: &[u8], want: &[u8]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} bytes instead of {}", got.len(), want.len()));
    }
    let at = if want.len() < 1 << 30 {
        if got == want {
            return None;
        }
        got.iter().zip(want).position(|(a, b)| a != b)
    } else {
        places(want.len()).into_iter().find(|p| got[*p] != want[*p])
    };
    at.map(|at| format!("byte {} is {:02x} instead of {:02x}", at, got[at], want[at]))
}

/// The archive opened through the same storage and a new one.
pub fn judge_opened(root: &Storage, dir: Option<&Path>, name: &str, _schema: &str, want: &[u8]) -> Result<(), String> {
    let mut storages = vec![root.clone()];
    storages.extend(dir.map(|d| storage(false, d)));
    for (i, s) in storages.into_iter().enumerate() {
        let a = match catch(|| Big::open(s)) {
            Ok(Ok(a)) => a,
            x => return Err(format!("opening through storage {} gives {:?}", i, x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
        };
        let bad = if name == "raw" {
            match a.raw() {
                None => Some("absent".to_string()),
                Some(x) => differs(x, want),
            }
        } else {
            match a.bytes() {
                None => Some("absent".to_string()),
                Some(x) if x.len() != want.len() => Some(format!("{} elements", x.len())),
                Some(x) => differs(x.as_bytes(), want).or_else(|| {
                    places(want.len()).into_iter().find(|p| E1::get(&x.at(*p)) != E1::values_of_bytes(&want[*p..][..1])).map(|p| format!("element {}", p))
                }),
            }
        };
        if let Some(b) = bad {
            return Err(format!("read through storage {}: {}", i, b));
        }
    }
    Ok(())
}

/// The stored bytes.
pub fn judge_stored(root: &Storage, dir: Option<&Path>, name: &str, schema: &str, want: &[u8]) -> Result<(), String> {
    let check = |file: &str, got: &[u8]| -> Result<(), String> {
        if got.len() != want.len() + 16 {
            return Err(format!("{}: {} bytes instead of {}", file, got.len(), want.len() + 16));
        }
        if got[..8] != (want.len() as u64).to_le_bytes() || got[8 + want.len()..] != [0; 8] {
            return Err(format!("{}: size {:02x?} and padding {:02x?}", file, &got[..8], &got[8 + want.len()..]));
        }
        match differs(&got[8..8 + want.len()], want) {
            None => Ok(()),
            Some(d) => Err(format!("{}: payload: {}", file, d)),
        }
    };
    let names = [(format!("{}.schema", name), Some(schema)), (name.to_string(), None)];
    for (n, text) in &names {
        match dir {
            None => {
                let got = root.read_resource(n).map_err(|e| format!("{}: {}", n, e))?;
                match text {
                    Some(t) if got != t.as_bytes() => return Err(format!("{} is {:?}", n, got)),
                    Some(_) => (),
                    None => check(n, got)?,
                }
            }
            Some(d) => match text {
                Some(t) => {
                    let got = std::fs::read(d.join(n)).map_err(|e| format!("{}: {}", n, e))?;
                    if got != t.as_bytes() {
                        return Err(format!("{} is {:?}", n, got));
                    }
                }
                None if want.len() < 1 << 30 => check(n, &std::fs::read(d.join(n)).map_err(|e| format!("{}: {}", n, e))?)?,
                None => {
                    // looked at in places only, so that holes stay holes
                    use std::os::unix::fs::FileExt;
                    let f = std::fs::File::open(d.join(n)).map_err(|e| format!("{}: {}", n, e))?;
                    let len = f.metadata().map_err(|e| e.to_string())?.len() as usize;
                    if len != want.len() + 16 {
                        return Err(format!("{}: {} bytes instead of {}", n, len, want.len() + 16));
                    }
                    let mut b = [0; 8];
                    f.read_exact_at(&mut b, 0).map_err(|e| e.to_string())?;
                    if b != (want.len() as u64).to_le_bytes() {
                        return Err(format!("{}: size {:02x?}", n, b));
                    }
                    f.read_exact_at(&mut b, 8 + want.len() as u64).map_err(|e| e.to_string())?;
                    if b != [0; 8] {
                        return Err(format!("{}: padding {:02x?}", n, b));
                    }
                    for p in places(want.len()) {
                        f.read_exact_at(&mut b[..1], 8 + p as u64).map_err(|e| e.to_string())?;
                        if b[0] != want[p] {
                            return Err(format!("{}: byte {} of the payload is {:02x} instead of {:02x}", n, p, b[0], want[p]));
                        }
                    }
                }
            },
        }
    }
    Ok(())
}
