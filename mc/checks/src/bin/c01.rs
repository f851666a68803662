//! C01: what is written to a field is what is read from it.
use checks::codec::*;
use checks::*;
use mccore::guard::GuardBuf;

fn grid(ch: &mut Ch, near: usize, full: usize) -> Result<(), String> {
    let ty = *ch.pick(&TYPES);
    let width = 1 + ch.choose(ty.bits());
    let offs = offsets(near);
    let pats = patterns(width, full);
    let mut guard = GuardBuf::new(18);
    for (n, &offset) in offs.iter().enumerate() {
        let len = (offset + width + 7) / 8;
        let data = guard.at_end(len);
        let first = offset / 8;
        for b in 0..BACKGROUNDS {
            for &p in &pats {
                let value = ty.decode(p, width);
                if ty == Ty::Bool && value as u64 != p {
                    continue;
                }
                background(b, &mut data[first..]);
                ty.write(value as u64, data, offset, width);
                let got = ty.read(data.as_ptr(), offset, width);
                if got != value {
                    return Err(format!("{:?} of {} bits at bit {}: wrote {} over background {}, read {}", ty, width, offset, value, b, got));
                }
                if width == ty.bits() && ty != Ty::Bool {
                    let got = ty.read_whole(data.as_ptr(), offset);
                    if got != value {
                        return Err(format!("{:?} at bit {}: wrote {} over background {}, read without width {}", ty, offset, value, b, got));
                    }
                    background(b, &mut data[first..]);
                    ty.write_whole(value as u64, data, offset);
                    let got = (ty.read(data.as_ptr(), offset, width), ty.read_whole(data.as_ptr(), offset));
                    if got != (value, value) {
                        return Err(format!("{:?} at bit {}: wrote {} without width over background {}, read {} and, without width, {}", ty, offset, value, b, got.0, got.1));
                    }
                }
            }
            ch.evals(pats.len() as u64);
        }
        if n % 8 == 0 {
            ch.step(|| format!("{:?} of {} bits at bit {}", ty, width, offset));
        }
        ch.state(&(ty, width, offset));
    }
    ch.outcome(&(ty, width));
    Ok(())
}

fn field(f: &FieldInfo, i: usize, raw: u64, before: &[u8], _after: &[u8], got: &[i128], got_mut: &[i128]) -> Result<(), String> {
    if raw & !mask(f.width) != 0 {
        return Ok(());
    }
    let want = decode(raw, f.width, f.signed);
    if got[i] != want || got_mut[i] != want {
        return Err(format!("wrote {} over {:02x?}, read {} and, mutably, {}", want, &before[..before.len().min(40)], got[i], got_mut[i]));
    }
    Ok(())
}

fn index<I: Idx>(ch: &mut Ch, full: usize) -> Result<(), String> {
    for b in 0..BACKGROUNDS {
        for p in patterns(I::BITS, full) {
            let mut data = vec![0; I::SIZE];
            background(b, &mut data);
            I::set_index(I::create_mut(unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) }), p as usize);
            let got = I::index(I::create(unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) }));
            if got as u64 != p {
                return Err(format!("{}: wrote {}, read {}", I::NAME, p, got));
            }
            ch.evals(1);
        }
    }
    ch.step(|| I::NAME.to_string());
    ch.outcome(&I::NAME);
    Ok(())
}

fn main() {
    mccore::main("C01", Level::Exploration, "one evaluation is one write and read of a field; states are (type, width, offset)", |run| {
        let (near, full, sfull) = if run.thorough { (160, 14, 12) } else { (80, 8, 8) };
        run.explore("codec", &format!("all types and widths, bit offsets 0..{} and 112 far ones up to 524 303, 5 backgrounds, all values up to {} bits, boundary patterns above", near, full), 0, move |ch| grid(ch, near, full));
        all_layouts!(struct_grid, run, "struct", sfull, field);
        struct_grid::<E1>(run, "struct", sfull, field);
        struct_grid::<E7>(run, "struct", sfull, field);
        struct_grid::<E9>(run, "struct", sfull, field);
        struct_grid::<E13>(run, "struct", sfull, field);
        struct_grid::<E16>(run, "struct", sfull, field);
        run.explore("enumerations", "20 enumerations of all representations and many widths, with values near the ends, at 9 offsets over 5 backgrounds", 0, |ch| {
            let (_, f) = ch.pick(&enums::CASES);
            f(ch, enums::Judge::Value)
        });
        run.explore("index", "all index types", 0, move |ch| match ch.choose(6) {
            0 => index::<Idx4>(ch, full),
            1 => index::<Idx8>(ch, full),
            2 => index::<Idx12>(ch, full),
            3 => index::<Idx24>(ch, full),
            4 => index::<Idx32>(ch, full),
            _ => index::<Idx64>(ch, full),
        });
    })
}
