use flatdata::Struct;

/// A type of fields.
pub trait FieldT: Copy {
    const SIGNED: bool;
    /// every pattern of the type's bits is a value
    const ANY: bool = true;
    /// also for bits that do not fit the type
    fn from_raw(raw: u64) -> Self;
    fn to_i128(self) -> i128;
    fn text(v: i128) -> String {
        v.to_string()
    }
}
macro_rules! field_t {
    ($($t:ty: $s:expr),*) => {$(impl FieldT for $t {
        const SIGNED: bool = $s;
        fn from_raw(raw: u64) -> Self { raw as $t }
        fn to_i128(self) -> i128 { self as i128 }
    })*};
}
field_t!(u8: false, i8: true, u16: false, i16: true, u32: false, i32: true, u64: false, i64: true);
impl FieldT for bool {
    const SIGNED: bool = false;
    const ANY: bool = false;
    fn from_raw(raw: u64) -> Self {
        raw != 0
    }
    fn to_i128(self) -> i128 {
        self as i128
    }
    fn text(v: i128) -> String {
        (v != 0).to_string()
    }
}

pub fn mask(width: usize) -> u64 {
    if width >= 64 {
        u64::max_value()
    } else {
        (1u64 << width) - 1
    }
}

/// What a field of `width` bits holding these bits reads as.
pub fn decode(raw: u64, width: usize, signed: bool) -> i128 {
    let raw = raw & mask(width);
    if signed && width > 1 && raw >> (width - 1) & 1 == 1 {
        raw as i128 - (1i128 << width)
    } else {
        raw as i128
    }
}

/// Bit by bit, as the layout is specified.
pub fn get_bits(data: &[u8], offset: usize, width: usize) -> u64 {
    let mut r = 0u64;
    for k in 0..width {
        let b = offset + k;
        if data[b / 8] >> (b % 8) & 1 == 1 {
            r |= 1 << k;
        }
    }
    r
}
pub fn set_bits(data: &mut [u8], offset: usize, width: usize, value: u64) {
    for k in 0..width {
        let b = offset + k;
        let bit = (value >> k & 1) as u8;
        data[b / 8] = data[b / 8] & !(1 << (b % 8)) | bit << (b % 8);
    }
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ 0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 31;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 29)
}

/// Raw bits of field number `i` of the element with number `v`: 0 is all zeroes, 1 all ones, 2 has
/// only its highest bit set, the others are arbitrary.
pub fn raw_of(v: u64, i: usize, width: usize) -> u64 {
    match v {
        0 => 0,
        1 => mask(width),
        2 => 1u64 << (width - 1),
        _ => mix(v.wrapping_mul(31).wrapping_add(i as u64)) & mask(width),
    }
}

#[derive(Clone, Copy)]
pub struct FieldInfo {
    pub name: &'static str,
    pub offset: usize,
    pub width: usize,
    pub signed: bool,
    /// bits of the type
    pub bits: usize,
    /// whether the type has values that do not fit the field
    pub any_value: bool,
    pub text: fn(i128) -> String,
}

/// A struct type with numbered values.
pub trait Elem: for<'a> Struct<'a> + 'static {
    const NAME: &'static str;
    const SIZE: usize;
    fn fields() -> Vec<FieldInfo>;
    /// Sets every field.
    fn set<'a>(item: &mut <Self as Struct<'a>>::ItemMut, v: u64);
    /// Reads every field.
    fn get<'a>(item: &<Self as Struct<'a>>::Item) -> Vec<i128>;
    fn get_mut<'a>(item: &<Self as Struct<'a>>::ItemMut) -> Vec<i128>;
    /// Turned into an unchangeable one.
    fn freeze<'a>(item: <Self as Struct<'a>>::ItemMut) -> <Self as Struct<'a>>::Item;
    fn copy<'a, 'b>(to: &mut <Self as Struct<'a>>::ItemMut, from: &<Self as Struct<'b>>::Item);
    fn same<'a, 'b>(a: &<Self as Struct<'a>>::Item, b: &<Self as Struct<'b>>::Item) -> bool;
    /// Sets only field `i`.
    fn set_field<'a>(item: &mut <Self as Struct<'a>>::ItemMut, i: usize, raw: u64);

    fn values(v: u64) -> Vec<i128> {
        Self::fields().iter().enumerate().map(|(i, f)| decode(raw_of(v, i, f.width), f.width, f.signed)).collect()
    }
    fn bytes(v: u64) -> Vec<u8> {
        let mut r = vec![0; Self::SIZE];
        for (i, f) in Self::fields().iter().enumerate() {
            set_bits(&mut r, f.offset, f.width, raw_of(v, i, f.width));
        }
        r
    }
    fn values_of_bytes(b: &[u8]) -> Vec<i128> {
        Self::fields().iter().map(|f| decode(get_bits(b, f.offset, f.width), f.width, f.signed)).collect()
    }
    fn debug_of(values: &[i128]) -> String {
        let fs = Self::fields();
        let l: Vec<String> = fs
            .iter()
            .zip(values)
            .map(|(f, v)| format!("{}: {}", f.name, (f.text)(*v)))
            .collect();
        format!("{} {{ {} }}", Self::NAME, l.join(", "))
    }
    fn debug(v: u64) -> String {
        Self::debug_of(&Self::values(v))
    }
}

#[macro_export]
macro_rules! elem {
    ($f:ident, $r:ident, $m:ident, $schema:expr, $size:expr, $(($field:ident, $setter:ident, $t:tt, $off:expr, $w:expr)),+) => {
        elem!($f, $r, $m, $schema, $size, $(($field, $setter, $t: $t, $off, $w)),+);
    };
    ($f:ident, $r:ident, $m:ident, $schema:expr, $size:expr, $(($field:ident, $setter:ident, $t:tt: $p:tt, $off:expr, $w:expr)),+) => {
        define_struct!($f, $r, $m, $schema, $size $(, ($field, $setter, $t: $p, $off, $w))+);
        impl $crate::Elem for $f {
            const NAME: &'static str = stringify!($f);
            const SIZE: usize = $size;
            fn fields() -> Vec<$crate::FieldInfo> {
                vec![$($crate::FieldInfo {
                    name: stringify!($field), offset: $off, width: $w,
                    signed: <$t as $crate::FieldT>::SIGNED,
                    bits: ::std::mem::size_of::<$p>() * 8, any_value: <$t as $crate::FieldT>::ANY,
                    text: <$t as $crate::FieldT>::text,
                }),+]
            }
            #[allow(unused_assignments)]
            fn set<'a>(item: &mut <Self as flatdata::Struct<'a>>::ItemMut, v: u64) {
                let mut i = 0;
                $(item.$setter(<$t as $crate::FieldT>::from_raw($crate::decode($crate::raw_of(v, i, $w), $w, <$t as $crate::FieldT>::SIGNED) as u64)); i += 1;)+
            }
            #[allow(unused_assignments)]
            fn set_field<'a>(item: &mut <Self as flatdata::Struct<'a>>::ItemMut, i: usize, raw: u64) {
                let mut k = 0;
                $(if i == k { item.$setter(<$t as $crate::FieldT>::from_raw(raw)); } k += 1;)+
            }
            fn get<'a>(item: &<Self as flatdata::Struct<'a>>::Item) -> Vec<i128> {
                vec![$($crate::FieldT::to_i128(item.$field())),+]
            }
            fn get_mut<'a>(item: &<Self as flatdata::Struct<'a>>::ItemMut) -> Vec<i128> {
                vec![$($crate::FieldT::to_i128(item.$field())),+]
            }
            fn freeze<'a>(item: <Self as flatdata::Struct<'a>>::ItemMut) -> <Self as flatdata::Struct<'a>>::Item {
                item.into_ref()
            }
            fn copy<'a, 'b>(to: &mut <Self as flatdata::Struct<'a>>::ItemMut, from: &<Self as flatdata::Struct<'b>>::Item) {
                to.fill_from(from)
            }
            fn same<'a, 'b>(a: &<Self as flatdata::Struct<'a>>::Item, b: &<Self as flatdata::Struct<'b>>::Item) -> bool {
                a == b
            }
        }
    };
}

/// Enumerations in which all bit patterns of their width are valid.
macro_rules! enumeration {
    ($t:ident: $repr:ident, $bits:expr, $($name:ident = $value:expr),+) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        #[repr($repr)]
        pub enum $t { $($name = $value),+ }
        impl flatdata::helper::Int for $t {
            const IS_SIGNED: bool = $repr::min_value() != 0;
        }
        impl FieldT for $t {
            const SIGNED: bool = $repr::min_value() != 0;
            const ANY: bool = false;
            fn from_raw(raw: u64) -> Self {
                let v = decode(raw, $bits, Self::SIGNED);
                $(if v == $value as i128 { return $t::$name; })+
                unreachable!()
            }
            fn to_i128(self) -> i128 { self as $repr as i128 }
            fn text(v: i128) -> String {
                $(if v == $value as i128 { return stringify!($name).to_string(); })+
                unreachable!()
            }
        }
    };
}
enumeration!(En1: u8, 1, No = 0, Yes = 1);
enumeration!(En2: u16, 2, North = 0, East = 1, South = 2, West = 3);
enumeration!(En3: i8, 3, M4 = -4, M3 = -3, M2 = -2, M1 = -1, Z = 0, P1 = 1, P2 = 2, P3 = 3);
enumeration!(En4: u64, 2, A = 0, B = 1, C = 2, D = 3);

elem!(E1, RefE1, MutE1, "E1", 1, (a, set_a, u8, 0, 3), (b, set_b, i8, 3, 5));
elem!(E2, RefE2, MutE2, "E2", 2, (a, set_a, bool, 0, 1), (b, set_b, i16, 1, 15));
elem!(E3, RefE3, MutE3, "E3", 3, (a, set_a, u32, 0, 24));
elem!(E4, RefE4, MutE4, "E4", 4, (x, set_x, u32, 0, 16), (y, set_y, u32, 16, 16));
elem!(E7, RefE7, MutE7, "E7", 7, (a, set_a, u8, 0, 5), (b, set_b, i64, 5, 33), (c, set_c, bool, 38, 1), (d, set_d, u16, 39, 12), (e, set_e, i8, 51, 5));
elem!(E9, RefE9, MutE9, "E9", 9, (a, set_a, u8, 0, 3), (b, set_b, u64, 3, 64), (c, set_c, i8, 67, 5));
elem!(E13, RefE13, MutE13, "E13", 13, (a, set_a, u64, 0, 33), (b, set_b, i64, 33, 64), (c, set_c, u8, 97, 7));
elem!(E16, RefE16, MutE16, "E16", 16, (a, set_a, i32, 0, 32), (b, set_b, u64, 32, 61), (c, set_c, i32, 93, 31), (d, set_d, u8, 124, 4));

// below this module, since archives need the private parts of their structs
#[path = "arch.rs"]
pub mod arch;
