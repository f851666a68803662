//! C02: the bit layout of fields, and that nothing else is touched.
use checks::codec::*;
use checks::*;
use mccore::guard::GuardBuf;

fn hex(b: &[u8]) -> String {
    format!("{:02x?}", &b[b.len() - b.len().min(12)..])
}

fn write_grid(ch: &mut Ch, near: usize, full: usize) -> Result<(), String> {
    let ty = *ch.pick(&TYPES);
    let width = 1 + ch.choose(ty.bits());
    let offs = offsets(near);
    let pats = patterns(width, full);
    let garb = if ty == Ty::Bool { vec![0] } else { garbage(width, ty.bits()) };
    let mut guard = GuardBuf::new(18);
    let mut want = Vec::new();
    for (n, &offset) in offs.iter().enumerate() {
        let first = offset / 8;
        let last = (offset + width + 7) / 8;
        // only the bytes of the field are accessible, with the boundary behind or in front of them
        for place in 0..2 {
            let own = if place == 0 { guard.at_end(last - first) } else { guard.at_start(last - first) };
            let data = unsafe { std::slice::from_raw_parts_mut((own.as_mut_ptr() as usize).wrapping_sub(first) as *mut u8, last) };
            for b in 0..BACKGROUNDS {
                want.resize(last - first, 0);
                background(b, &mut want);
                for &p in &pats {
                    let gs = if place == 0 { &garb[..] } else { &garb[..1] };
                    for &g in gs {
                        let raw = p | g;
                        background(b, own);
                        ty.write(raw, data, offset, width);
                        set_bits(&mut want, offset % 8, width, ty.stored(raw, width));
                        if own[..] != want[..] {
                            return Err(format!("{:?} of {} bits at bit {}: writing {:#x} over background {} gives {} instead of {}", ty, width, offset, raw, b, hex(own), hex(&want)));
                        }
                        let mut restored = vec![0; 0];
                        std::mem::swap(&mut restored, &mut want);
                        background(b, &mut restored);
                        want = restored;
                    }
                }
                ch.evals((pats.len() * garb.len()) as u64);
            }
        }
        // the same with surroundings on both sides
        let (lead, tail) = (first.min(9), 9);
        let own = guard.at_end(last - first + lead + tail);
        let total = own.len();
        let data = unsafe { std::slice::from_raw_parts_mut((own.as_mut_ptr() as usize).wrapping_sub(first - lead) as *mut u8, first - lead + total) };
        for b in 0..BACKGROUNDS {
            for &p in &pats {
                background(b, own);
                want = own.to_vec();
                set_bits(&mut want, offset % 8 + lead * 8, width, ty.stored(p, width));
                if width == ty.bits() && b % 2 == 1 {
                    ty.write_whole(p, data, offset);
                } else {
                    ty.write(p, data, offset, width);
                }
                if own[..] != want[..] {
                    return Err(format!("{:?} of {} bits at bit {}: writing {:#x} over background {} gives {:02x?} instead of {:02x?}, the field starts in byte {}", ty, width, offset, p, b, own, want, lead));
                }
            }
            ch.evals(pats.len() as u64);
        }
        if n % 8 == 0 {
            ch.step(|| format!("write {:?} of {} bits at bit {}", ty, width, offset));
        }
        ch.state(&(0, ty, width, offset));
    }
    ch.outcome(&(0, ty, width));
    Ok(())
}

/// Arbitrary stored bytes: the bits of the field over backgrounds outside of it.
fn read_grid(ch: &mut Ch, near: usize, full: usize) -> Result<(), String> {
    let ty = *ch.pick(&TYPES);
    let width = 1 + ch.choose(ty.bits());
    let offs = offsets(near);
    let pats = patterns(width, full);
    let mut guard = GuardBuf::new(1);
    for (n, &offset) in offs.iter().enumerate() {
        let first = offset / 8;
        let last = (offset + width + 7) / 8;
        for place in 0..2 {
            let own = if place == 0 { guard.at_end(last - first) } else { guard.at_start(last - first) };
            let base = (own.as_ptr() as usize).wrapping_sub(first) as *const u8;
            for b in 0..BACKGROUNDS {
                background(b, own);
                for &p in &pats {
                    set_bits(own, offset % 8, width, p);
                    let copy = own.to_vec();
                    let want = ty.decode(p, width);
                    if width == ty.bits() && ty.read_whole(base, offset) != want {
                        return Err(format!("{:?} at bit {}: reading {} without width gives {} instead of {}", ty, offset, hex(&copy), ty.read_whole(base, offset), want));
                    }
                    let got = ty.read(base, offset, width);
                    if got != want || own[..] != copy[..] {
                        return Err(format!("{:?} of {} bits at bit {}: reading {} gives {} instead of {}", ty, width, offset, hex(&copy), got, want));
                    }
                }
                ch.evals(pats.len() as u64);
            }
        }
        if n % 8 == 0 {
            ch.step(|| format!("read {:?} of {} bits at bit {}", ty, width, offset));
        }
        ch.state(&(1, ty, width, offset));
    }
    ch.outcome(&(1, ty, width));
    Ok(())
}

fn field(f: &FieldInfo, _i: usize, raw: u64, before: &[u8], after: &[u8], _got: &[i128], _got_mut: &[i128]) -> Result<(), String> {
    let mut want = before.to_vec();
    set_bits(&mut want, f.offset, f.width, raw);
    if want != after {
        let at = want.iter().zip(after).position(|(a, b)| a != b).unwrap();
        return Err(format!("writing {:#x} changes byte {} from {:02x} to {:02x} instead of {:02x}", raw, at, before[at], after[at], want[at]));
    }
    Ok(())
}

/// Reads structs that hold arbitrary bytes.
fn read_struct<T: Elem>(run: &mut Run, full: usize) {
    run.explore(&format!("bytes-{}", T::NAME), "every field over 5 backgrounds, read-only and mutable accessors", 0, move |ch| {
        let fs = T::fields();
        let f = fs[ch.choose(fs.len())];
        let b = ch.choose(BACKGROUNDS);
        let end = ch.flag();
        let mut guard = GuardBuf::new(3);
        let data = if end { guard.at_end(T::SIZE) } else { guard.at_start(T::SIZE) };
        background(b, data);
        for p in patterns(f.width, full) {
            set_bits(data, f.offset, f.width, p);
            let want = T::values_of_bytes(data);
            let copy = data.to_vec();
            let d: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) };
            let got = T::get(&T::create(d));
            let got_mut = T::get_mut(&T::create_mut(d));
            if got != want || got_mut != want {
                return Err(format!("{} {:02x?} reads {:?} and, mutably, {:?} instead of {:?}", T::NAME, &copy[..copy.len().min(40)], got, got_mut, want));
            }
            if copy != data {
                return Err(format!("{}: reading changes bytes", T::NAME));
            }
            ch.evals(1);
        }
        ch.step(|| format!("{} field {} background {}", T::NAME, f.name, b));
        ch.state(&(T::NAME, f.offset, b, end));
        ch.outcome(&(T::NAME, f.offset));
        Ok(())
    });
}

fn index<I: Idx>(ch: &mut Ch, full: usize) -> Result<(), String> {
    for b in 0..BACKGROUNDS {
        for p in patterns(64, full) {
            let mut data = vec![0; I::SIZE];
            background(b, &mut data);
            let mut want = data.clone();
            set_bits(&mut want, 0, I::BITS, p);
            I::set_index(I::create_mut(unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) }), p as usize);
            let got = I::index(I::create(unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) }));
            if data != want || got as u64 != p & mask(I::BITS) {
                return Err(format!("{}: writing {:#x} gives {:02x?} instead of {:02x?} and reads {:#x}", I::NAME, p, data, want, got));
            }
            ch.evals(1);
        }
    }
    ch.step(|| I::NAME.to_string());
    ch.outcome(&I::NAME);
    Ok(())
}

fn main() {
    mccore::main("C02", Level::Exploration, "one evaluation is one write or read compared with the bit-by-bit layout; states are (direction, type, width, offset)", |run| {
        let (near, full, sfull) = if run.thorough { (160, 12, 12) } else { (72, 6, 7) };
        let bound = format!("all types and widths, bit offsets 0..{} and 112 far ones up to 524 303, 5 backgrounds, all values up to {} bits, boundary patterns above", near, full);
        run.explore("enumerations", "20 enumerations of all representations and many widths, with values near the ends, at 9 offsets over 5 backgrounds", 0, |ch| {
            let (_, f) = ch.pick(&enums::CASES);
            f(ch, enums::Judge::Bytes)
        });
        run.explore("write", &(bound.clone() + ", each also with bits above the width"), 0, move |ch| write_grid(ch, near, full));
        run.explore("read", &bound, 0, move |ch| read_grid(ch, near, full));
        all_layouts!(struct_grid, run, "struct", sfull, field);
        all_layouts!(read_struct, run, sfull);
        struct_grid::<E7>(run, "struct", sfull, field);
        struct_grid::<E13>(run, "struct", sfull, field);
        read_struct::<E7>(run, sfull);
        read_struct::<E9>(run, sfull);
        read_struct::<E13>(run, sfull);
        read_struct::<E16>(run, sfull);
        run.explore("index", "all index types", 0, move |ch| match ch.choose(6) {
            0 => index::<Idx4>(ch, full),
            1 => index::<Idx8>(ch, full),
            2 => index::<Idx12>(ch, full),
            3 => index::<Idx24>(ch, full),
            4 => index::<Idx32>(ch, full),
            _ => index::<Idx64>(ch, full),
        });
    })
}
