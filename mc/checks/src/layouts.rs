//! Generated by gen_layouts.py.
use crate::*;
use flatdata::Struct;

elem!(L0, RefL0, MutL0, "L0", 15, (f0, set_f0, u8: u8, 0, 3), (f1, set_f1, u64: u64, 3, 13), (f2, set_f2, u64: u64, 16, 51), (f3, set_f3, i64: i64, 67, 45), (f4, set_f4, i8: i8, 112, 4));
elem!(L1, RefL1, MutL1, "L1", 33, (f0, set_f0, u64: u64, 5, 17), (f1, set_f1, u64: u64, 22, 53), (f2, set_f2, i64: i64, 75, 22), (f3, set_f3, u64: u64, 97, 27), (f4, set_f4, i64: i64, 124, 63), (f5, set_f5, En3: i8, 187, 3), (f6, set_f6, i64: i64, 190, 20), (f7, set_f7, i64: i64, 210, 48));
elem!(L2, RefL2, MutL2, "L2", 26, (f0, set_f0, u32: u32, 0, 3), (f1, set_f1, i64: i64, 3, 60), (f2, set_f2, u8: u8, 63, 7), (f3, set_f3, i64: i64, 70, 29), (f4, set_f4, u64: u64, 108, 34), (f5, set_f5, i64: i64, 145, 31), (f6, set_f6, i64: i64, 185, 15), (f7, set_f7, En4: u64, 200, 2));
elem!(L3, RefL3, MutL3, "L3", 16, (f0, set_f0, u16: u16, 0, 5), (f1, set_f1, u16: u16, 5, 9), (f2, set_f2, u8: u8, 14, 5), (f3, set_f3, i16: i16, 19, 4), (f4, set_f4, u32: u32, 23, 31), (f5, set_f5, u16: u16, 54, 6), (f6, set_f6, u64: u64, 60, 60), (f7, set_f7, i32: i32, 120, 2));
elem!(L4, RefL4, MutL4, "L4", 14, (f0, set_f0, i16: i16, 0, 1), (f1, set_f1, i64: i64, 1, 64), (f2, set_f2, En3: i8, 65, 3), (f3, set_f3, u16: u16, 68, 10), (f4, set_f4, u64: u64, 78, 4), (f5, set_f5, En4: u64, 82, 2), (f6, set_f6, u32: u32, 84, 8), (f7, set_f7, u64: u64, 92, 20));
elem!(L5, RefL5, MutL5, "L5", 17, (f0, set_f0, i64: i64, 0, 13), (f1, set_f1, i64: i64, 16, 56), (f2, set_f2, u32: u32, 72, 5), (f3, set_f3, u32: u32, 77, 22), (f4, set_f4, u64: u64, 99, 14), (f5, set_f5, i64: i64, 113, 12), (f6, set_f6, En4: u64, 125, 2), (f7, set_f7, En1: u8, 128, 1));
elem!(L6, RefL6, MutL6, "L6", 21, (f0, set_f0, i32: i32, 0, 17), (f1, set_f1, u16: u16, 17, 12), (f2, set_f2, i8: i8, 29, 6), (f3, set_f3, i32: i32, 35, 12), (f4, set_f4, u64: u64, 47, 40), (f5, set_f5, i64: i64, 87, 58), (f6, set_f6, u32: u32, 145, 18));
elem!(L7, RefL7, MutL7, "L7", 8222, (f0, set_f0, u64: u64, 65531, 56), (f1, set_f1, i64: i64, 65587, 39), (f2, set_f2, u64: u64, 65626, 52), (f3, set_f3, u64: u64, 65678, 1), (f4, set_f4, u64: u64, 65679, 57), (f5, set_f5, u64: u64, 65736, 2), (f6, set_f6, i32: i32, 65738, 18), (f7, set_f7, i16: i16, 65756, 14));
elem!(L8, RefL8, MutL8, "L8", 34, (f0, set_f0, i32: i32, 0, 26), (f1, set_f1, u64: u64, 29, 47), (f2, set_f2, i32: i32, 77, 25), (f3, set_f3, u64: u64, 105, 49), (f4, set_f4, i64: i64, 163, 18), (f5, set_f5, u64: u64, 181, 62), (f6, set_f6, u16: u16, 252, 15));
elem!(L9, RefL9, MutL9, "L9", 19, (f0, set_f0, i64: i64, 12, 50), (f1, set_f1, u64: u64, 62, 50), (f2, set_f2, i64: i64, 112, 36));
elem!(L10, RefL10, MutL10, "L10", 12, (f0, set_f0, i16: i16, 0, 8), (f1, set_f1, i64: i64, 8, 61), (f2, set_f2, u16: u16, 69, 3), (f3, set_f3, u64: u64, 72, 9), (f4, set_f4, i16: i16, 81, 13));
elem!(L11, RefL11, MutL11, "L11", 312, (f0, set_f0, i64: i64, 2407, 6), (f1, set_f1, i32: i32, 2414, 6), (f2, set_f2, u64: u64, 2423, 7), (f3, set_f3, u32: u32, 2430, 9), (f4, set_f4, u64: u64, 2448, 41));
elem!(L12, RefL12, MutL12, "L12", 7, (f0, set_f0, i64: i64, 0, 53));
elem!(L13, RefL13, MutL13, "L13", 36, (f0, set_f0, u32: u32, 5, 10), (f1, set_f1, i64: i64, 15, 57), (f2, set_f2, i64: i64, 72, 34), (f3, set_f3, i64: i64, 106, 51), (f4, set_f4, u32: u32, 157, 15), (f5, set_f5, u64: u64, 172, 54), (f6, set_f6, u64: u64, 226, 28), (f7, set_f7, i32: i32, 254, 31));
elem!(L14, RefL14, MutL14, "L14", 19, (f0, set_f0, i32: i32, 0, 28), (f1, set_f1, u64: u64, 29, 26), (f2, set_f2, i32: i32, 64, 29), (f3, set_f3, u64: u64, 102, 32), (f4, set_f4, i8: i8, 135, 8));
elem!(L15, RefL15, MutL15, "L15", 11, (f0, set_f0, En3: i8, 0, 3), (f1, set_f1, i64: i64, 3, 42), (f2, set_f2, u16: u16, 45, 2), (f3, set_f3, i8: i8, 47, 2), (f4, set_f4, i64: i64, 49, 33));
elem!(L16, RefL16, MutL16, "L16", 11, (f0, set_f0, i64: i64, 0, 5), (f1, set_f1, u64: u64, 5, 59), (f2, set_f2, u32: u32, 64, 21));
elem!(L17, RefL17, MutL17, "L17", 18, (f0, set_f0, u64: u64, 1, 55), (f1, set_f1, En4: u64, 65, 2), (f2, set_f2, En2: u16, 76, 2), (f3, set_f3, i64: i64, 79, 24), (f4, set_f4, En4: u64, 106, 2), (f5, set_f5, i32: i32, 108, 19), (f6, set_f6, u64: u64, 127, 6));
elem!(L18, RefL18, MutL18, "L18", 26, (f0, set_f0, u64: u64, 5, 21), (f1, set_f1, u8: u8, 26, 4), (f2, set_f2, i64: i64, 30, 54), (f3, set_f3, u64: u64, 84, 30), (f4, set_f4, u32: u32, 114, 32), (f5, set_f5, u32: u32, 146, 7), (f6, set_f6, i64: i64, 153, 49));
elem!(L19, RefL19, MutL19, "L19", 20, (f0, set_f0, i32: i32, 0, 22), (f1, set_f1, i16: i16, 22, 9), (f2, set_f2, u64: u64, 31, 10), (f3, set_f3, u64: u64, 41, 36), (f4, set_f4, u64: u64, 77, 46), (f5, set_f5, i64: i64, 123, 14), (f6, set_f6, i16: i16, 137, 16));
elem!(L20, RefL20, MutL20, "L20", 12, (f0, set_f0, u64: u64, 0, 38), (f1, set_f1, u32: u32, 47, 17), (f2, set_f2, i64: i64, 64, 28));
elem!(L21, RefL21, MutL21, "L21", 9, (f0, set_f0, u64: u64, 0, 11), (f1, set_f1, u64: u64, 11, 18), (f2, set_f2, i8: i8, 29, 1), (f3, set_f3, i16: i16, 30, 6), (f4, set_f4, i64: i64, 36, 3), (f5, set_f5, u64: u64, 39, 22), (f6, set_f6, i16: i16, 61, 3), (f7, set_f7, u16: u16, 64, 1));
elem!(L22, RefL22, MutL22, "L22", 20, (f0, set_f0, u64: u64, 0, 64), (f1, set_f1, En2: u16, 64, 2), (f2, set_f2, u32: u32, 66, 30), (f3, set_f3, i64: i64, 96, 10), (f4, set_f4, En1: u8, 106, 1), (f5, set_f5, u32: u32, 107, 19), (f6, set_f6, u64: u64, 126, 29));
elem!(L23, RefL23, MutL23, "L23", 22, (f0, set_f0, i64: i64, 5, 23), (f1, set_f1, i64: i64, 37, 26), (f2, set_f2, u64: u64, 72, 42), (f3, set_f3, i32: i32, 114, 4), (f4, set_f4, i64: i64, 119, 46));
elem!(L24, RefL24, MutL24, "L24", 11, (f0, set_f0, u16: u16, 0, 4), (f1, set_f1, i32: i32, 4, 27), (f2, set_f2, u8: u8, 31, 6), (f3, set_f3, u32: u32, 37, 24), (f4, set_f4, i32: i32, 61, 11), (f5, set_f5, En1: u8, 72, 1), (f6, set_f6, u16: u16, 73, 8));
elem!(L25, RefL25, MutL25, "L25", 15, (f0, set_f0, u64: u64, 1, 48), (f1, set_f1, u32: u32, 49, 13), (f2, set_f2, u64: u64, 62, 19), (f3, set_f3, i64: i64, 81, 9), (f4, set_f4, u64: u64, 90, 16), (f5, set_f5, i32: i32, 106, 5), (f6, set_f6, u64: u64, 111, 3));
elem!(L26, RefL26, MutL26, "L26", 8, (f0, set_f0, u32: u32, 1, 11), (f1, set_f1, u16: u16, 13, 11), (f2, set_f2, i64: i64, 27, 30));
elem!(L27, RefL27, MutL27, "L27", 30, (f0, set_f0, u64: u64, 75, 44), (f1, set_f1, i64: i64, 119, 32), (f2, set_f2, u8: u8, 151, 8), (f3, set_f3, i32: i32, 159, 32), (f4, set_f4, bool: bool, 191, 1), (f5, set_f5, u64: u64, 192, 33), (f6, set_f6, i32: i32, 225, 13));
elem!(L28, RefL28, MutL28, "L28", 8, (f0, set_f0, i32: i32, 0, 10), (f1, set_f1, i32: i32, 10, 24), (f2, set_f2, u64: u64, 34, 25));
elem!(L29, RefL29, MutL29, "L29", 13, (f0, set_f0, u8: u8, 5, 1), (f1, set_f1, i32: i32, 7, 20), (f2, set_f2, i32: i32, 28, 8), (f3, set_f3, i64: i64, 39, 27), (f4, set_f4, u32: u32, 67, 14), (f5, set_f5, En2: u16, 84, 2), (f6, set_f6, i16: i16, 86, 10), (f7, set_f7, i64: i64, 97, 1));
elem!(L30, RefL30, MutL30, "L30", 20, (f0, set_f0, En3: i8, 0, 3), (f1, set_f1, i64: i64, 3, 7), (f2, set_f2, i16: i16, 10, 12), (f3, set_f3, i64: i64, 22, 38), (f4, set_f4, u64: u64, 60, 63), (f5, set_f5, u64: u64, 123, 8), (f6, set_f6, u32: u32, 131, 27));
elem!(L31, RefL31, MutL31, "L31", 8, (f0, set_f0, i32: i32, 1, 7), (f1, set_f1, u32: u32, 8, 28), (f2, set_f2, i64: i64, 36, 21));
elem!(L32, RefL32, MutL32, "L32", 1, (f0, set_f0, i32: i32, 0, 3));
elem!(L33, RefL33, MutL33, "L33", 29, (f0, set_f0, i64: i64, 5, 2), (f1, set_f1, i64: i64, 7, 35), (f2, set_f2, u64: u64, 42, 37), (f3, set_f3, i64: i64, 79, 47), (f4, set_f4, u64: u64, 126, 35), (f5, set_f5, u64: u64, 161, 39), (f6, set_f6, u32: u32, 200, 26), (f7, set_f7, i32: i32, 226, 1));
elem!(L34, RefL34, MutL34, "L34", 13, (f0, set_f0, i8: i8, 0, 5), (f1, set_f1, u32: u32, 5, 16), (f2, set_f2, i16: i16, 21, 2), (f3, set_f3, i64: i64, 23, 40), (f4, set_f4, i32: i32, 63, 23), (f5, set_f5, i32: i32, 86, 9), (f6, set_f6, u8: u8, 95, 2));
elem!(L35, RefL35, MutL35, "L35", 27, (f0, set_f0, u32: u32, 0, 25), (f1, set_f1, i32: i32, 25, 15), (f2, set_f2, i64: i64, 43, 37), (f3, set_f3, u64: u64, 80, 61), (f4, set_f4, i64: i64, 144, 62));
elem!(L36, RefL36, MutL36, "L36", 26, (f0, set_f0, u32: u32, 0, 1), (f1, set_f1, u64: u64, 1, 45), (f2, set_f2, u64: u64, 46, 58), (f3, set_f3, u64: u64, 104, 23), (f4, set_f4, i16: i16, 127, 15), (f5, set_f5, En2: u16, 142, 2), (f6, set_f6, u32: u32, 144, 23), (f7, set_f7, i64: i64, 167, 41));
elem!(L37, RefL37, MutL37, "L37", 4, (f0, set_f0, i16: i16, 0, 7), (f1, set_f1, En1: u8, 7, 1), (f2, set_f2, i64: i64, 8, 19), (f3, set_f3, u32: u32, 27, 2), (f4, set_f4, bool: bool, 29, 1));
elem!(L38, RefL38, MutL38, "L38", 35, (f0, set_f0, i64: i64, 75, 44), (f1, set_f1, bool: bool, 119, 1), (f2, set_f2, u16: u16, 120, 14), (f3, set_f3, u16: u16, 137, 13), (f4, set_f4, i32: i32, 151, 30), (f5, set_f5, i64: i64, 181, 52), (f6, set_f6, u64: u64, 234, 43));
elem!(L39, RefL39, MutL39, "L39", 14, (f0, set_f0, u16: u16, 5, 16), (f1, set_f1, i8: i8, 21, 7), (f2, set_f2, i64: i64, 28, 25), (f3, set_f3, i64: i64, 53, 16), (f4, set_f4, i16: i16, 69, 5), (f5, set_f5, i32: i32, 74, 16), (f6, set_f6, i64: i64, 90, 17));
elem!(L40, RefL40, MutL40, "L40", 16, (f0, set_f0, En2: u16, 0, 2), (f1, set_f1, i64: i64, 2, 55), (f2, set_f2, i16: i16, 57, 11), (f3, set_f3, u32: u32, 68, 20), (f4, set_f4, i32: i32, 88, 21), (f5, set_f5, u32: u32, 109, 4), (f6, set_f6, i64: i64, 113, 8));
elem!(L41, RefL41, MutL41, "L41", 21, (f0, set_f0, bool: bool, 12, 1), (f1, set_f1, En1: u8, 22, 1), (f2, set_f2, u64: u64, 23, 31), (f3, set_f3, En3: i8, 54, 3), (f4, set_f4, u64: u64, 57, 24), (f5, set_f5, i32: i32, 82, 14), (f6, set_f6, u32: u32, 97, 12), (f7, set_f7, i64: i64, 118, 43));
elem!(L42, RefL42, MutL42, "L42", 17, (f0, set_f0, u64: u64, 0, 5), (f1, set_f1, i64: i64, 5, 11), (f2, set_f2, u32: u32, 16, 6), (f3, set_f3, u32: u32, 22, 29), (f4, set_f4, u16: u16, 51, 7), (f5, set_f5, u64: u64, 58, 12), (f6, set_f6, i64: i64, 70, 59), (f7, set_f7, i8: i8, 129, 3));
elem!(L43, RefL43, MutL43, "L43", 3, (f0, set_f0, i64: i64, 5, 4), (f1, set_f1, u64: u64, 9, 15));

#[macro_export]
macro_rules! all_layouts {
    ($f:ident, $($a:expr),*) => {
        $f::<$crate::layouts::L0>($($a),*);
        $f::<$crate::layouts::L1>($($a),*);
        $f::<$crate::layouts::L2>($($a),*);
        $f::<$crate::layouts::L3>($($a),*);
        $f::<$crate::layouts::L4>($($a),*);
        $f::<$crate::layouts::L5>($($a),*);
        $f::<$crate::layouts::L6>($($a),*);
        $f::<$crate::layouts::L7>($($a),*);
        $f::<$crate::layouts::L8>($($a),*);
        $f::<$crate::layouts::L9>($($a),*);
        $f::<$crate::layouts::L10>($($a),*);
        $f::<$crate::layouts::L11>($($a),*);
        $f::<$crate::layouts::L12>($($a),*);
        $f::<$crate::layouts::L13>($($a),*);
        $f::<$crate::layouts::L14>($($a),*);
        $f::<$crate::layouts::L15>($($a),*);
        $f::<$crate::layouts::L16>($($a),*);
        $f::<$crate::layouts::L17>($($a),*);
        $f::<$crate::layouts::L18>($($a),*);
        $f::<$crate::layouts::L19>($($a),*);
        $f::<$crate::layouts::L20>($($a),*);
        $f::<$crate::layouts::L21>($($a),*);
        $f::<$crate::layouts::L22>($($a),*);
        $f::<$crate::layouts::L23>($($a),*);
        $f::<$crate::layouts::L24>($($a),*);
        $f::<$crate::layouts::L25>($($a),*);
        $f::<$crate::layouts::L26>($($a),*);
        $f::<$crate::layouts::L27>($($a),*);
        $f::<$crate::layouts::L28>($($a),*);
        $f::<$crate::layouts::L29>($($a),*);
        $f::<$crate::layouts::L30>($($a),*);
        $f::<$crate::layouts::L31>($($a),*);
        $f::<$crate::layouts::L32>($($a),*);
        $f::<$crate::layouts::L33>($($a),*);
        $f::<$crate::layouts::L34>($($a),*);
        $f::<$crate::layouts::L35>($($a),*);
        $f::<$crate::layouts::L36>($($a),*);
        $f::<$crate::layouts::L37>($($a),*);
        $f::<$crate::layouts::L38>($($a),*);
        $f::<$crate::layouts::L39>($($a),*);
        $f::<$crate::layouts::L40>($($a),*);
        $f::<$crate::layouts::L41>($($a),*);
        $f::<$crate::layouts::L42>($($a),*);
        $f::<$crate::layouts::L43>($($a),*);
    };
}
