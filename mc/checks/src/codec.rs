//! Access to the bit codec by type, width and offset, and the values and surroundings to try.
use crate::*;

/// A type the codec supports.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Bool,
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
}
pub const TYPES: [Ty; 9] = [Ty::Bool, Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64];

impl Ty {
    pub fn bits(self) -> usize {
        match self {
            Ty::Bool | Ty::U8 | Ty::I8 => 8,
            Ty::U16 | Ty::I16 => 16,
            Ty::U32 | Ty::I32 => 32,
            _ => 64,
        }
    }
    pub fn signed(self) -> bool {
        match self {
            Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 => true,
            _ => false,
        }
    }
    /// What a field of this type holding these bits reads as.
    pub fn decode(self, raw: u64, width: usize) -> i128 {
        if self == Ty::Bool {
            (raw & mask(width) != 0) as i128
        } else {
            decode(raw, width, self.signed())
        }
    }
    /// The bits that writing this value, given as 64 bits, stores.
    pub fn stored(self, raw: u64, width: usize) -> u64 {
        if self == Ty::Bool {
            (raw != 0) as u64
        } else {
            raw & mask(width)
        }
    }
    #[inline(never)]
    pub fn read(self, data: *const u8, offset: usize, width: usize) -> i128 {
        macro_rules! r {
            ($t:tt) => {
                read_bytes!($t, data, offset, width) as i128
            };
        }
        match self {
            Ty::Bool => r!(bool),
            Ty::U8 => r!(u8),
            Ty::I8 => r!(i8),
            Ty::U16 => r!(u16),
            Ty::I16 => r!(i16),
            Ty::U32 => r!(u32),
            Ty::I32 => r!(i32),
            Ty::U64 => r!(u64),
            Ty::I64 => r!(i64),
        }
    }
    /// `raw` is cut to the type, not to the width
    #[inline(never)]
    pub fn write(self, raw: u64, data: &mut [u8], offset: usize, width: usize) {
        macro_rules! w {
            ($t:tt) => {
                write_bytes!($t; raw as $t, data, offset, width)
            };
        }
        match self {
            Ty::Bool => {
                let b = raw != 0;
                write_bytes!(bool; b, data, offset, width)
            }
            Ty::U8 => w!(u8),
            Ty::I8 => w!(i8),
            Ty::U16 => w!(u16),
            Ty::I16 => w!(i16),
            Ty::U32 => w!(u32),
            Ty::I32 => w!(i32),
            Ty::U64 => w!(u64),
            Ty::I64 => w!(i64),
        }
    }
    /// Without a width: all bits of the type; at bit 0, without an offset.
    #[inline(never)]
    pub fn read_whole(self, data: *const u8, offset: usize) -> i128 {
        macro_rules! r {
            ($t:tt) => {
                if offset == 0 {
                    read_bytes!($t, data) as i128
                } else {
                    read_bytes!($t, data, offset) as i128
                }
            };
        }
        match self {
            Ty::Bool => r!(bool),
            Ty::U8 => r!(u8),
            Ty::I8 => r!(i8),
            Ty::U16 => r!(u16),
            Ty::I16 => r!(i16),
            Ty::U32 => r!(u32),
            Ty::I32 => r!(i32),
            Ty::U64 => r!(u64),
            Ty::I64 => r!(i64),
        }
    }
    /// Without a width, and without an offset at bit 0.
    #[inline(never)]
    pub fn write_whole(self, raw: u64, data: &mut [u8], offset: usize) {
        macro_rules! w {
            ($t:tt, $v:expr) => {{
                let v = $v;
                if offset == 0 {
                    write_bytes!($t; v, data)
                } else {
                    write_bytes!($t; v, data, offset)
                }
            }};
        }
        match self {
            Ty::Bool => w!(bool, raw != 0),
            Ty::U8 => w!(u8, raw as u8),
            Ty::I8 => w!(i8, raw as i8),
            Ty::U16 => w!(u16, raw as u16),
            Ty::I16 => w!(i16, raw as i16),
            Ty::U32 => w!(u32, raw as u32),
            Ty::I32 => w!(i32, raw as i32),
            Ty::U64 => w!(u64, raw as u64),
            Ty::I64 => w!(i64, raw as i64),
        }
    }
}

/// Bit patterns of `width` bits: all of them up to `full` bits, else the boundaries, every single bit, every
/// prefix and suffix of ones, their complements, and some mixed ones.
pub fn patterns(width: usize, full: usize) -> Vec<u64> {
    let m = mask(width);
    if width <= full {
        return (0..=m).collect();
    }
    let mut r = vec![0, m, m >> 1, (m >> 1) + 1, (m >> 1) - 1, (m >> 1) + 2, 1, m - 1];
    for k in 0..width {
        r.push(1 << k);
        r.push(m ^ 1 << k);
        r.push(mask(k + 1));
        r.push(m & !mask(k));
    }
    for b in &[0x5555555555555555u64, 0xAAAAAAAAAAAAAAAA, 0x0F0F0F0F0F0F0F0F, 0xFF00FF00FF00FF00, 0x0123456789ABCDEF, 0xFEDCBA9876543210, 0x8040201008040201] {
        r.push(b & m);
        r.push(b >> 64 - width);
    }
    r.sort();
    r.dedup();
    r
}

/// Bits above the width, for values that do not fit.
pub fn garbage(width: usize, bits: usize) -> Vec<u64> {
    let over = mask(bits) & !mask(width);
    let mut r = vec![0, over, over & 0x5555555555555555, over & 0xAAAAAAAAAAAAAAAA];
    if width < bits {
        r.push(1 << width);
        r.push(1 << (bits - 1));
    }
    r.sort();
    r.dedup();
    r
}

/// What the bytes hold before.
pub fn background(b: usize, data: &mut [u8]) {
    for (i, x) in data.iter_mut().enumerate() {
        *x = match b {
            0 => 0,
            1 => 0xFF,
            2 => 0x55,
            3 => 0xAA,
            _ => (i as u8).wrapping_mul(0x3B) ^ 0xC5,
        };
    }
}
pub const BACKGROUNDS: usize = 5;

/// Bit offsets: every one of the first bytes, and some far away.
pub fn offsets(near: usize) -> Vec<usize> {
    let mut r: Vec<usize> = (0..near).collect();
    for base in &[120, 248, 504, 2040, 8 * 4090, 65528, 8 * 65536] {
        for b in 0..8 {
            r.push(base + b);
            r.push(base + 8 + b);
        }
    }
    r.sort();
    r.dedup();
    r
}

/// `all_layouts!(run_field, ...)` over one struct: every field, its patterns, every background.
pub fn struct_grid<T: Elem>(
    run: &mut Run,
    prefix: &str,
    full: usize,
    each: fn(&FieldInfo, usize, u64, &[u8], &[u8], &[i128], &[i128]) -> Result<(), String>,
) {
    run.explore(&format!("{}-{}", prefix, T::NAME), "every field, backgrounds and patterns", 0, move |ch| {
        let fs = T::fields();
        let i = ch.choose(fs.len());
        let b = ch.choose(BACKGROUNDS);
        let f = fs[i];
        let mut guard = mccore::guard::GuardBuf::new(3);
        let bits = f.bits;
        for p in patterns(f.width, full) {
            for g in garbage(f.width, if f.any_value { bits } else { f.width }) {
                let data = guard.at_end(T::SIZE);
                background(b, data);
                let before = data.to_vec();
                {
                    let data: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) };
                    let mut item = T::create_mut(data);
                    T::set_field(&mut item, i, p | g);
                }
                let after = data.to_vec();
                let got = {
                    let data: &'static [u8] = unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) };
                    T::get(&T::create(data))
                };
                let got_mut = {
                    let data: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) };
                    T::get_mut(&T::create_mut(data))
                };
                if after != data {
                    return Err(format!("{}: reading changes the bytes {:02x?} to {:02x?}", T::NAME, after, data));
                }
                each(&f, i, p | g, &before, &after, &got, &got_mut).map_err(|e| format!("{} field {}: {}", T::NAME, f.name, e))?;
                ch.evals(1);
            }
            if T::SIZE < 100 {
                ch.state(&(T::NAME, i, b, p));
            }
        }
        ch.step(|| format!("{} field {} background {}", T::NAME, f.name, b));
        ch.outcome(&(T::NAME, i));
        Ok(())
    });
}
