//! Fields of enumeration types of every representation.
use crate::*;
use flatdata::Struct;

/// An enumeration of some width with values near the ends of its range, in structs at several offsets.
macro_rules! enum_fields {
    ($t:ident: $p:ident, $w:expr, $signed:expr, [$($name:ident = $v:expr),+], [$($s:ident, $r:ident, $m:ident, $off:expr);+]) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[repr($p)]
        pub enum $t { $($name = $v),+ }
        impl flatdata::helper::Int for $t {
            const IS_SIGNED: bool = $signed;
        }
        $(define_struct!($s, $r, $m, "enumeration", ($off + $w + 7) / 8 + 2, (x, set_x, $t: $p, $off, $w));)+
        impl $t {
            const ALL: &'static [$t] = &[$($t::$name),+];
            pub fn run(ch: &mut Ch, what: Judge) -> Result<(), String> {
                $({
                    const SIZE: usize = ($off + $w + 7) / 8 + 2;
                    define_struct!(Raw, RefRaw, MutRaw, "raw", SIZE, (x, set_x, $p, $off, $w));
                    for b in 0..codec::BACKGROUNDS {
                        for &value in $t::ALL {
                            let mut data = vec![0; SIZE];
                            codec::background(b, &mut data);
                            let mut want = data.clone();
                            for k in 0..$w {
                                let bit: usize = $off + k;
                                let on = ((value as $p as i128) >> k) & 1 != 0;
                                want[bit / 8] = want[bit / 8] & !(1 << (bit % 8)) | (on as u8) << (bit % 8);
                            }
                            let mut item = $s::create_mut(unsafe { std::slice::from_raw_parts_mut(data.as_mut_ptr(), SIZE) });
                            item.set_x(value);
                            if what == Judge::Bytes && data != want {
                                return Err(format!("{} ({}) of {} bits at bit {} set to {:?} over background {} stores {:02x?} instead of {:02x?}", stringify!($t), stringify!($p), $w, $off, value, b, data, want));
                            }
                            // an integer first: what is read may have no name
                            let raw = Raw::create(&data).x();
                            if raw != value as $p {
                                return Err(format!("{} ({}) of {} bits at bit {} set to {:?} over background {} reads {}", stringify!($t), stringify!($p), $w, $off, value, b, raw));
                            }
                            let got = (item.x(), $s::create(&data).x(), item.into_ref().x());
                            if got != (value, value, value) {
                                return Err(format!("{} ({}) of {} bits at bit {} set to {:?} over background {} reads {:?}", stringify!($t), stringify!($p), $w, $off, value, b, got));
                            }
                            ch.evals(1);
                        }
                    }
                    ch.state(&(stringify!($t), $off));
                })+
                ch.step(|| stringify!($t).to_string());
                ch.outcome(&stringify!($t));
                Ok(())
            }
        }
    };
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// what is read back
    Value,
    /// all bytes, too
    Bytes,
}

enum_fields!(TU85: u8, 5, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 10, V4 = 16, V5 = 21, V6 = 30, V7 = 31], [TU85S0, TU85R0, TU85M0, 0; TU85S1, TU85R1, TU85M1, 1; TU85S3, TU85R3, TU85M3, 3; TU85S7, TU85R7, TU85M7, 7; TU85S8, TU85R8, TU85M8, 8; TU85S13, TU85R13, TU85M13, 13; TU85S57, TU85R57, TU85M57, 57; TU85S63, TU85R63, TU85M63, 63; TU85S70, TU85R70, TU85M70, 70]);
enum_fields!(TU88: u8, 8, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 85, V4 = 128, V5 = 170, V6 = 254, V7 = 255], [TU88S0, TU88R0, TU88M0, 0; TU88S1, TU88R1, TU88M1, 1; TU88S3, TU88R3, TU88M3, 3; TU88S7, TU88R7, TU88M7, 7; TU88S8, TU88R8, TU88M8, 8; TU88S13, TU88R13, TU88M13, 13; TU88S57, TU88R57, TU88M57, 57; TU88S63, TU88R63, TU88M63, 63; TU88S70, TU88R70, TU88M70, 70]);
enum_fields!(TI86: i8, 6, true, [V0 = -32, V1 = -31, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 21, V7 = 31], [TI86S0, TI86R0, TI86M0, 0; TI86S1, TI86R1, TI86M1, 1; TI86S3, TI86R3, TI86M3, 3; TI86S7, TI86R7, TI86M7, 7; TI86S8, TI86R8, TI86M8, 8; TI86S13, TI86R13, TI86M13, 13; TI86S57, TI86R57, TI86M57, 57; TI86S63, TI86R63, TI86M63, 63; TI86S70, TI86R70, TI86M70, 70]);
enum_fields!(TI88: i8, 8, true, [V0 = -128, V1 = -127, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 85, V7 = 127], [TI88S0, TI88R0, TI88M0, 0; TI88S1, TI88R1, TI88M1, 1; TI88S3, TI88R3, TI88M3, 3; TI88S7, TI88R7, TI88M7, 7; TI88S8, TI88R8, TI88M8, 8; TI88S13, TI88R13, TI88M13, 13; TI88S57, TI88R57, TI88M57, 57; TI88S63, TI88R63, TI88M63, 63; TI88S70, TI88R70, TI88M70, 70]);
enum_fields!(TU169: u16, 9, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 170, V4 = 256, V5 = 341, V6 = 510, V7 = 511], [TU169S0, TU169R0, TU169M0, 0; TU169S1, TU169R1, TU169M1, 1; TU169S3, TU169R3, TU169M3, 3; TU169S7, TU169R7, TU169M7, 7; TU169S8, TU169R8, TU169M8, 8; TU169S13, TU169R13, TU169M13, 13; TU169S57, TU169R57, TU169M57, 57; TU169S63, TU169R63, TU169M63, 63; TU169S70, TU169R70, TU169M70, 70]);
enum_fields!(TU1616: u16, 16, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 21845, V4 = 32768, V5 = 43690, V6 = 65534, V7 = 65535], [TU1616S0, TU1616R0, TU1616M0, 0; TU1616S1, TU1616R1, TU1616M1, 1; TU1616S3, TU1616R3, TU1616M3, 3; TU1616S7, TU1616R7, TU1616M7, 7; TU1616S8, TU1616R8, TU1616M8, 8; TU1616S13, TU1616R13, TU1616M13, 13; TU1616S57, TU1616R57, TU1616M57, 57; TU1616S63, TU1616R63, TU1616M63, 63; TU1616S70, TU1616R70, TU1616M70, 70]);
enum_fields!(TI1612: i16, 12, true, [V0 = -2048, V1 = -2047, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 1365, V7 = 2047], [TI1612S0, TI1612R0, TI1612M0, 0; TI1612S1, TI1612R1, TI1612M1, 1; TI1612S3, TI1612R3, TI1612M3, 3; TI1612S7, TI1612R7, TI1612M7, 7; TI1612S8, TI1612R8, TI1612M8, 8; TI1612S13, TI1612R13, TI1612M13, 13; TI1612S57, TI1612R57, TI1612M57, 57; TI1612S63, TI1612R63, TI1612M63, 63; TI1612S70, TI1612R70, TI1612M70, 70]);
enum_fields!(TI1616: i16, 16, true, [V0 = -32768, V1 = -32767, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 21845, V7 = 32767], [TI1616S0, TI1616R0, TI1616M0, 0; TI1616S1, TI1616R1, TI1616M1, 1; TI1616S3, TI1616R3, TI1616M3, 3; TI1616S7, TI1616R7, TI1616M7, 7; TI1616S8, TI1616R8, TI1616M8, 8; TI1616S13, TI1616R13, TI1616M13, 13; TI1616S57, TI1616R57, TI1616M57, 57; TI1616S63, TI1616R63, TI1616M63, 63; TI1616S70, TI1616R70, TI1616M70, 70]);
enum_fields!(TU3224: u32, 24, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 5592405, V4 = 8388608, V5 = 11184810, V6 = 16777214, V7 = 16777215], [TU3224S0, TU3224R0, TU3224M0, 0; TU3224S1, TU3224R1, TU3224M1, 1; TU3224S3, TU3224R3, TU3224M3, 3; TU3224S7, TU3224R7, TU3224M7, 7; TU3224S8, TU3224R8, TU3224M8, 8; TU3224S13, TU3224R13, TU3224M13, 13; TU3224S57, TU3224R57, TU3224M57, 57; TU3224S63, TU3224R63, TU3224M63, 63; TU3224S70, TU3224R70, TU3224M70, 70]);
enum_fields!(TU3232: u32, 32, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 1431655765, V4 = 2147483648, V5 = 2863311530, V6 = 4294967294, V7 = 4294967295], [TU3232S0, TU3232R0, TU3232M0, 0; TU3232S1, TU3232R1, TU3232M1, 1; TU3232S3, TU3232R3, TU3232M3, 3; TU3232S7, TU3232R7, TU3232M7, 7; TU3232S8, TU3232R8, TU3232M8, 8; TU3232S13, TU3232R13, TU3232M13, 13; TU3232S57, TU3232R57, TU3232M57, 57; TU3232S63, TU3232R63, TU3232M63, 63; TU3232S70, TU3232R70, TU3232M70, 70]);
enum_fields!(TI3220: i32, 20, true, [V0 = -524288, V1 = -524287, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 349525, V7 = 524287], [TI3220S0, TI3220R0, TI3220M0, 0; TI3220S1, TI3220R1, TI3220M1, 1; TI3220S3, TI3220R3, TI3220M3, 3; TI3220S7, TI3220R7, TI3220M7, 7; TI3220S8, TI3220R8, TI3220M8, 8; TI3220S13, TI3220R13, TI3220M13, 13; TI3220S57, TI3220R57, TI3220M57, 57; TI3220S63, TI3220R63, TI3220M63, 63; TI3220S70, TI3220R70, TI3220M70, 70]);
enum_fields!(TI3232: i32, 32, true, [V0 = -2147483648, V1 = -2147483647, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 1431655765, V7 = 2147483647], [TI3232S0, TI3232R0, TI3232M0, 0; TI3232S1, TI3232R1, TI3232M1, 1; TI3232S3, TI3232R3, TI3232M3, 3; TI3232S7, TI3232R7, TI3232M7, 7; TI3232S8, TI3232R8, TI3232M8, 8; TI3232S13, TI3232R13, TI3232M13, 13; TI3232S57, TI3232R57, TI3232M57, 57; TI3232S63, TI3232R63, TI3232M63, 63; TI3232S70, TI3232R70, TI3232M70, 70]);
enum_fields!(TU6433: u64, 33, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 2863311530, V4 = 4294967296, V5 = 5726623061, V6 = 8589934590, V7 = 8589934591], [TU6433S0, TU6433R0, TU6433M0, 0; TU6433S1, TU6433R1, TU6433M1, 1; TU6433S3, TU6433R3, TU6433M3, 3; TU6433S7, TU6433R7, TU6433M7, 7; TU6433S8, TU6433R8, TU6433M8, 8; TU6433S13, TU6433R13, TU6433M13, 13; TU6433S57, TU6433R57, TU6433M57, 57; TU6433S63, TU6433R63, TU6433M63, 63; TU6433S70, TU6433R70, TU6433M70, 70]);
enum_fields!(TU6457: u64, 57, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 48038396025285290, V4 = 72057594037927936, V5 = 96076792050570581, V6 = 144115188075855870, V7 = 144115188075855871], [TU6457S0, TU6457R0, TU6457M0, 0; TU6457S1, TU6457R1, TU6457M1, 1; TU6457S3, TU6457R3, TU6457M3, 3; TU6457S7, TU6457R7, TU6457M7, 7; TU6457S8, TU6457R8, TU6457M8, 8; TU6457S13, TU6457R13, TU6457M13, 13; TU6457S57, TU6457R57, TU6457M57, 57; TU6457S63, TU6457R63, TU6457M63, 63; TU6457S70, TU6457R70, TU6457M70, 70]);
enum_fields!(TU6458: u64, 58, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 96076792050570581, V4 = 144115188075855872, V5 = 192153584101141162, V6 = 288230376151711742, V7 = 288230376151711743], [TU6458S0, TU6458R0, TU6458M0, 0; TU6458S1, TU6458R1, TU6458M1, 1; TU6458S3, TU6458R3, TU6458M3, 3; TU6458S7, TU6458R7, TU6458M7, 7; TU6458S8, TU6458R8, TU6458M8, 8; TU6458S13, TU6458R13, TU6458M13, 13; TU6458S57, TU6458R57, TU6458M57, 57; TU6458S63, TU6458R63, TU6458M63, 63; TU6458S70, TU6458R70, TU6458M70, 70]);
enum_fields!(TU6464: u64, 64, false, [V0 = 0, V1 = 1, V2 = 2, V3 = 6148914691236517205, V4 = 9223372036854775808, V5 = 12297829382473034410, V6 = 18446744073709551614, V7 = 18446744073709551615], [TU6464S0, TU6464R0, TU6464M0, 0; TU6464S1, TU6464R1, TU6464M1, 1; TU6464S3, TU6464R3, TU6464M3, 3; TU6464S7, TU6464R7, TU6464M7, 7; TU6464S8, TU6464R8, TU6464M8, 8; TU6464S13, TU6464R13, TU6464M13, 13; TU6464S57, TU6464R57, TU6464M57, 57; TU6464S63, TU6464R63, TU6464M63, 63; TU6464S70, TU6464R70, TU6464M70, 70]);
enum_fields!(TI6440: i64, 40, true, [V0 = -549755813888, V1 = -549755813887, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 366503875925, V7 = 549755813887], [TI6440S0, TI6440R0, TI6440M0, 0; TI6440S1, TI6440R1, TI6440M1, 1; TI6440S3, TI6440R3, TI6440M3, 3; TI6440S7, TI6440R7, TI6440M7, 7; TI6440S8, TI6440R8, TI6440M8, 8; TI6440S13, TI6440R13, TI6440M13, 13; TI6440S57, TI6440R57, TI6440M57, 57; TI6440S63, TI6440R63, TI6440M63, 63; TI6440S70, TI6440R70, TI6440M70, 70]);
enum_fields!(TI6457: i64, 57, true, [V0 = -72057594037927936, V1 = -72057594037927935, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 24019198012642645, V7 = 72057594037927935], [TI6457S0, TI6457R0, TI6457M0, 0; TI6457S1, TI6457R1, TI6457M1, 1; TI6457S3, TI6457R3, TI6457M3, 3; TI6457S7, TI6457R7, TI6457M7, 7; TI6457S8, TI6457R8, TI6457M8, 8; TI6457S13, TI6457R13, TI6457M13, 13; TI6457S57, TI6457R57, TI6457M57, 57; TI6457S63, TI6457R63, TI6457M63, 63; TI6457S70, TI6457R70, TI6457M70, 70]);
enum_fields!(TI6461: i64, 61, true, [V0 = -1152921504606846976, V1 = -1152921504606846975, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 384307168202282325, V7 = 1152921504606846975], [TI6461S0, TI6461R0, TI6461M0, 0; TI6461S1, TI6461R1, TI6461M1, 1; TI6461S3, TI6461R3, TI6461M3, 3; TI6461S7, TI6461R7, TI6461M7, 7; TI6461S8, TI6461R8, TI6461M8, 8; TI6461S13, TI6461R13, TI6461M13, 13; TI6461S57, TI6461R57, TI6461M57, 57; TI6461S63, TI6461R63, TI6461M63, 63; TI6461S70, TI6461R70, TI6461M70, 70]);
enum_fields!(TI6464: i64, 64, true, [V0 = -9223372036854775808, V1 = -9223372036854775807, V2 = -2, V3 = -1, V4 = 0, V5 = 1, V6 = 6148914691236517205, V7 = 9223372036854775807], [TI6464S0, TI6464R0, TI6464M0, 0; TI6464S1, TI6464R1, TI6464M1, 1; TI6464S3, TI6464R3, TI6464M3, 3; TI6464S7, TI6464R7, TI6464M7, 7; TI6464S8, TI6464R8, TI6464M8, 8; TI6464S13, TI6464R13, TI6464M13, 13; TI6464S57, TI6464R57, TI6464M57, 57; TI6464S63, TI6464R63, TI6464M63, 63; TI6464S70, TI6464R70, TI6464M70, 70]);

pub const CASES: [(&str, fn(&mut Ch, Judge) -> Result<(), String>); 20] = [("TU85", TU85::run), ("TU88", TU88::run), ("TI86", TI86::run), ("TI88", TI88::run), ("TU169", TU169::run), ("TU1616", TU1616::run), ("TI1612", TI1612::run), ("TI1616", TI1616::run), ("TU3224", TU3224::run), ("TU3232", TU3232::run), ("TI3220", TI3220::run), ("TI3232", TI3232::run), ("TU6433", TU6433::run), ("TU6457", TU6457::run), ("TU6458", TU6458::run), ("TU6464", TU6464::run), ("TI6440", TI6440::run), ("TI6457", TI6457::run), ("TI6461", TI6461::run), ("TI6464", TI6464::run)];
