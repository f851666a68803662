//! Structs so large that a few of them cross the limit at which writers flush (32 MiB).
use crate::*;
use flatdata::Struct;

pub const MIB: usize = 1 << 20;
macro_rules! fat {
    ($f:ident, $r:ident, $m:ident, $size:expr) => {
        elem!($f, $r, $m, "fat", $size, (a, set_a, u32, 0, 30), (b, set_b, i64, ($size / 2) * 8 + 3, 61), (c, set_c, u8, $size * 8 - 7, 7));
    };
}
fat!(F4, RefF4, MutF4, 4 * MIB);
fat!(F8, RefF8, MutF8, 8 * MIB);
fat!(F11, RefF11, MutF11, 11 * MIB + 3);
fat!(F16, RefF16, MutF16, 16 * MIB);
// together with the 8 bytes behind the data, one, two and four of these are exactly at the limit
fat!(F16L, RefF16L, MutF16L, 16 * MIB - 4);
fat!(F32L, RefF32L, MutF32L, 32 * MIB - 8);
fat!(F32M, RefF32M, MutF32M, 32 * MIB - 7);
fat!(F8L, RefF8L, MutF8L, 8 * MIB - 2);
fat!(F33, RefF33, MutF33, 33 * MIB);
// tag included
fat!(F16T, RefF16T, MutF16T, 16 * MIB - 5);
fat!(F32T, RefF32T, MutF32T, 32 * MIB - 9);

variant!(VarF, RefVarF, BuilderVarF, Idx32, 2 => (F16T, add_f16t), 7 => (F32T, add_f32t), 1 => (E4, add_e4));
variant!(VarG, RefVarG, BuilderVarG, Idx40, 0 => (F11, add_f11), 4 => (F33, add_f33), 9 => (E13, add_e13));
