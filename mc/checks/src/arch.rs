//! Variadic and index types, and the archives the checks write and read, with their model: the
//! resources, values and debug texts every content should have, computed without the library.
use crate::*;
use flatdata::{ArrayView, IndexStruct, MultiArrayView, VariadicStruct};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Vals = Vec<i128>;

/// A variadic struct whose variants are numbered; `kind` is the number, not the tag.
pub trait Var: for<'a> VariadicStruct<'a> + 'static {
    const NAME: &'static str;
    fn tags() -> Vec<u8>;
    fn sizes() -> Vec<usize>;
    fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, kind: usize, v: u64);
    /// adds an element without setting its fields
    fn add_untouched<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, kind: usize);
    /// adds an element and compares what can be read from it with the model
    fn add_checked<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, kind: usize, v: u64) -> Result<(), String>;
    fn get<'a>(item: &<Self as VariadicStruct<'a>>::Item) -> (usize, Vals);
    fn payload(kind: usize, v: u64) -> Vec<u8>;
    fn values(kind: usize, v: u64) -> Vals;
    fn values_of_bytes(kind: usize, b: &[u8]) -> Vals;
    fn debug_of(kind: usize, v: &[i128]) -> String;

    fn bytes(kind: usize, v: u64) -> Vec<u8> {
        let mut r = vec![Self::tags()[kind]];
        r.extend(Self::payload(kind, v));
        r
    }
}

#[macro_export]
macro_rules! variant {
    ($f:ident, $r:ident, $b:ident, $idx:ident, $($tag:tt => ($t:tt, $add:ident)),+) => {
        define_variadic_struct!($f, $r, $b, $idx, $($tag => ($t, $add)),+);
        #[allow(unused_assignments)]
        impl $crate::arch::Var for $f {
            const NAME: &'static str = stringify!($f);
            fn tags() -> Vec<u8> { vec![$($tag),+] }
            fn sizes() -> Vec<usize> { vec![$(<$t as $crate::Elem>::SIZE),+] }
            fn add<'a>(b: &mut <Self as flatdata::VariadicStruct<'a>>::ItemMut, kind: usize, v: u64) {
                let mut i = 0;
                $(if i == kind { <$t as $crate::Elem>::set(&mut b.$add(), v); } i += 1;)+
            }
            fn add_untouched<'a>(b: &mut <Self as flatdata::VariadicStruct<'a>>::ItemMut, kind: usize) {
                let mut i = 0;
                $(if i == kind { b.$add(); } i += 1;)+
            }
            fn add_checked<'a>(b: &mut <Self as flatdata::VariadicStruct<'a>>::ItemMut, kind: usize, v: u64) -> Result<(), String> {
                let mut i = 0;
                $(if i == kind {
                    let mut item = b.$add();
                    let got = <$t as $crate::Elem>::get_mut(&item);
                    if got != <$t as $crate::Elem>::values(0) {
                        return Err(format!("a new {} in a bucket is {:?}, not zero", stringify!($t), got));
                    }
                    <$t as $crate::Elem>::set(&mut item, v);
                    let got = <$t as $crate::Elem>::get_mut(&item);
                    if got != <$t as $crate::Elem>::values(v) {
                        return Err(format!("a {} in a bucket set to {:?} is {:?}", stringify!($t), <$t as $crate::Elem>::values(v), got));
                    }
                } i += 1;)+
                Ok(())
            }
            fn get<'a>(item: &<Self as flatdata::VariadicStruct<'a>>::Item) -> (usize, Vec<i128>) {
                let kinds = [$(stringify!($t)),+];
                let k = |n: &str| kinds.iter().position(|x| *x == n).unwrap();
                match item { $($r::$t(ref x) => (k(stringify!($t)), <$t as $crate::Elem>::get(x))),+ }
            }
            fn payload(kind: usize, v: u64) -> Vec<u8> {
                let mut i = 0;
                $(if i == kind { return <$t as $crate::Elem>::bytes(v); } i += 1;)+
                unreachable!()
            }
            fn values(kind: usize, v: u64) -> Vec<i128> {
                let mut i = 0;
                $(if i == kind { return <$t as $crate::Elem>::values(v); } i += 1;)+
                unreachable!()
            }
            fn values_of_bytes(kind: usize, b: &[u8]) -> Vec<i128> {
                let mut i = 0;
                $(if i == kind { return <$t as $crate::Elem>::values_of_bytes(b); } i += 1;)+
                unreachable!()
            }
            fn debug_of(kind: usize, v: &[i128]) -> String {
                let mut i = 0;
                $(if i == kind { return <$t as $crate::Elem>::debug_of(v); } i += 1;)+
                unreachable!()
            }
        }
    };
}

/// An index type of known width.
pub trait Idx: for<'a> IndexStruct<'a> + 'static {
    const NAME: &'static str;
    const SIZE: usize;
    const BITS: usize;
    fn bytes(offset: u64) -> Vec<u8> {
        let mut r = vec![0; Self::SIZE];
        set_bits(&mut r, 0, Self::BITS, offset);
        r
    }
}
macro_rules! index {
    ($f:ident, $r:ident, $m:ident, $size:expr, $bits:expr) => {
        define_index!($f, $r, $m, "index schema", $size, $bits);
        impl Idx for $f {
            const NAME: &'static str = stringify!($f);
            const SIZE: usize = $size;
            const BITS: usize = $bits;
        }
    };
}
index!(Idx4, RefIdx4, MutIdx4, 1, 4);
index!(Idx8, RefIdx8, MutIdx8, 1, 8);
index!(Idx12, RefIdx12, MutIdx12, 2, 12);
index!(Idx24, RefIdx24, MutIdx24, 3, 24);
index!(Idx32, RefIdx32, MutIdx32, 4, 32);
index!(Idx40, RefIdx40, MutIdx40, 5, 40);
index!(Idx64, RefIdx64, MutIdx64, 8, 64);

variant!(Var3, RefVar3, BuilderVar3, Idx32, 0 => (E4, add_e4), 1 => (E1, add_e1), 2 => (E9, add_e9));
// tags that are neither consecutive nor ordered
variant!(VarT, RefVarT, BuilderVarT, Idx32, 255 => (E2, add_e2), 3 => (E13, add_e13), 128 => (E3, add_e3));
variant!(Var1, RefVar1, BuilderVar1, Idx32, 1 => (E7, add_e7));

pub type Buckets = Vec<Vec<(usize, u64)>>;

/// index and data payload of a multivector
pub fn multi_bytes<I: Idx, V: Var>(b: &Buckets) -> (Vec<u8>, Vec<u8>) {
    let (mut index, mut data) = (Vec::new(), Vec::new());
    for bucket in b {
        index.extend(I::bytes(data.len() as u64));
        for (k, v) in bucket {
            data.extend(V::bytes(*k, *v));
        }
    }
    index.extend(I::bytes(data.len() as u64));
    (index, data)
}
pub fn multi_vals<V: Var>(b: &Buckets) -> Vec<Vec<(usize, Vals)>> {
    b.iter().map(|b| b.iter().map(|(k, v)| (*k, V::values(*k, *v))).collect()).collect()
}
pub fn view_vals<I: Idx, V: Var>(v: &MultiArrayView<I, V>) -> Vec<Vec<(usize, Vals)>> {
    v.iter().map(|b| b.map(|x| V::get(&x)).collect()).collect()
}
pub fn array_vals<T: Elem>(v: &ArrayView<T>) -> Vec<Vals> {
    v.iter().map(|x| T::get(&x)).collect()
}

/// Size, payload and padding.
pub fn framed(payload: &[u8]) -> Vec<u8> {
    let mut r = (payload.len() as u64).to_le_bytes().to_vec();
    r.extend(payload);
    r.extend([0u8; 8].iter());
    r
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Content {
    Struct(u64),
    Vector(Vec<u64>),
    Multi(Buckets),
    Raw(Vec<u8>),
}

/// What a reader gets to see.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Struct(Vals),
    Vector(Vec<Vals>),
    Multi(Vec<Vec<(usize, Vals)>>),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Res {
    pub path: String,
    pub schema: String,
    pub payload: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Struct,
    Vector,
    Multi,
    Raw,
}

pub struct Part {
    pub path: &'static str,
    pub schema: &'static str,
    pub kind: Kind,
    pub optional: bool,
    /// smallest payload a reader accepts
    pub min_size: usize,
    pub bytes: fn(&Content) -> Vec<(&'static str, Vec<u8>)>, // suffix of the path and payload
    pub vals: fn(&Content) -> Val,
}

impl Part {
    pub fn resources(&self, c: &Content) -> Vec<Res> {
        (self.bytes)(c)
            .into_iter()
            .map(|(suffix, payload)| Res {
                path: format!("{}{}", self.path, suffix),
                schema: if suffix.is_empty() { self.schema.to_string() } else { format!("index({})", self.schema) },
                payload,
            })
            .collect()
    }
    pub fn val(&self, c: &Content) -> Val {
        (self.vals)(c)
    }
    /// names of the resources
    pub fn paths(&self) -> Vec<(String, String)> {
        let mut r = vec![(self.path.to_string(), self.schema.to_string())];
        if self.kind == Kind::Multi {
            r.push((format!("{}_index", self.path), format!("index({})", self.schema)));
        }
        r
    }
}

fn struct_bytes<T: Elem>(c: &Content) -> Vec<(&'static str, Vec<u8>)> {
    match c {
        Content::Struct(v) => vec![("", T::bytes(*v))],
        _ => unreachable!(),
    }
}
fn struct_vals<T: Elem>(c: &Content) -> Val {
    match c {
        Content::Struct(v) => Val::Struct(T::values(*v)),
        _ => unreachable!(),
    }
}
fn vec_bytes<T: Elem>(c: &Content) -> Vec<(&'static str, Vec<u8>)> {
    match c {
        Content::Vector(l) => vec![("", l.iter().flat_map(|v| T::bytes(*v)).collect())],
        _ => unreachable!(),
    }
}
fn vec_vals<T: Elem>(c: &Content) -> Val {
    match c {
        Content::Vector(l) => Val::Vector(l.iter().map(|v| T::values(*v)).collect()),
        _ => unreachable!(),
    }
}
fn mv_bytes<I: Idx, V: Var>(c: &Content) -> Vec<(&'static str, Vec<u8>)> {
    match c {
        Content::Multi(b) => {
            let (i, d) = multi_bytes::<I, V>(b);
            vec![("_index", i), ("", d)]
        }
        _ => unreachable!(),
    }
}
fn mv_vals<V: Var>(c: &Content) -> Val {
    match c {
        Content::Multi(b) => Val::Multi(multi_vals::<V>(b)),
        _ => unreachable!(),
    }
}
fn raw_bytes(c: &Content) -> Vec<(&'static str, Vec<u8>)> {
    match c {
        Content::Raw(b) => vec![("", b.clone())],
        _ => unreachable!(),
    }
}
fn raw_vals(c: &Content) -> Val {
    match c {
        Content::Raw(b) => Val::Raw(b.clone()),
        _ => unreachable!(),
    }
}

pub const LEAF_SCHEMA: &str = "archive Leaf {\n lraw : data;\n lmv : multivector;\n}";
pub const SUB_SCHEMA: &str = "archive Sub {\n shead : E4;\n svec : vector< E7 >;\n}";
pub const TOP_SCHEMA: &str = "archive Top {\n head : E9;\n sub : archive Sub;\n}";

define_archive!(Leaf, LeafBuilder, crate::arch::LEAF_SCHEMA;
    ;
    ;
    (lmv, start_lmv, Var1, "lmv schema", lmv_index, Idx24, true);
    (lraw, set_lraw, "lraw schema", false);
);
define_archive!(Sub, SubBuilder, crate::arch::SUB_SCHEMA;
    (shead, set_shead, E4, "shead schema", false);
    (svec, set_svec, start_svec, E7, "svec schema", true);
    ;
    (sraw, set_sraw, "sraw\nschema", true);
    (leaf, Leaf, LeafBuilder, "leaf schema", true)
);
define_archive!(Top, TopBuilder, crate::arch::TOP_SCHEMA;
    (head, set_head, E9, "head schema", false),
    (ohead, set_ohead, E13, "ohead\nschema\n", true);
    (vec, set_vec, start_vec, E4, "vec schema", false),
    (ovec, set_ovec, start_ovec, E3, "ovec schema", true);
    (mv, start_mv, Var3, "mv schema", mv_index, Idx32, false),
    (omv, start_omv, VarT, "omv schema", omv_index, Idx40, true);
    (raw, set_raw, "raw schema", false),
    (oraw, set_oraw, "oraw schema", true);
    (sub, Sub, SubBuilder, "sub schema", false),
    (osub, Sub, SubBuilder, "osub schema", true)
);

/// (directory, name, schema, optional) of Top and the archives in it; parents come first
pub const ARCHIVES: [(&str, &str, &str, bool); 5] = [
    ("", "Top", TOP_SCHEMA, false),
    ("sub", "Sub", SUB_SCHEMA, false),
    ("sub/leaf", "Leaf", LEAF_SCHEMA, true),
    ("osub", "Sub", SUB_SCHEMA, true),
    ("osub/leaf", "Leaf", LEAF_SCHEMA, true),
];

pub fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else {
        format!("{}/{}", dir, name)
    }
}

pub fn parts() -> Vec<Part> {
    let mut r = Vec::new();
    macro_rules! p {
        ($path:expr, $schema:expr, $kind:expr, $opt:expr, $min:expr, $b:expr, $v:expr) => {
            r.push(Part { path: $path, schema: $schema, kind: $kind, optional: $opt, min_size: $min, bytes: $b, vals: $v })
        };
    }
    p!("head", "head schema", Kind::Struct, false, 9, struct_bytes::<E9>, struct_vals::<E9>);
    p!("ohead", "ohead\nschema\n", Kind::Struct, true, 13, struct_bytes::<E13>, struct_vals::<E13>);
    p!("vec", "vec schema", Kind::Vector, false, 0, vec_bytes::<E4>, vec_vals::<E4>);
    p!("ovec", "ovec schema", Kind::Vector, true, 0, vec_bytes::<E3>, vec_vals::<E3>);
    p!("mv", "mv schema", Kind::Multi, false, 0, mv_bytes::<Idx32, Var3>, mv_vals::<Var3>);
    p!("omv", "omv schema", Kind::Multi, true, 0, mv_bytes::<Idx40, VarT>, mv_vals::<VarT>);
    p!("raw", "raw schema", Kind::Raw, false, 0, raw_bytes, raw_vals);
    p!("oraw", "oraw schema", Kind::Raw, true, 0, raw_bytes, raw_vals);
    macro_rules! sub {
        ($d:expr) => {
            p!(concat!($d, "/shead"), "shead schema", Kind::Struct, false, 4, struct_bytes::<E4>, struct_vals::<E4>);
            p!(concat!($d, "/svec"), "svec schema", Kind::Vector, true, 0, vec_bytes::<E7>, vec_vals::<E7>);
            p!(concat!($d, "/sraw"), "sraw\nschema", Kind::Raw, true, 0, raw_bytes, raw_vals);
            p!(concat!($d, "/leaf/lraw"), "lraw schema", Kind::Raw, false, 0, raw_bytes, raw_vals);
            p!(concat!($d, "/leaf/lmv"), "lmv schema", Kind::Multi, true, 0, mv_bytes::<Idx24, Var1>, mv_vals::<Var1>);
        };
    }
    sub!("sub");
    sub!("osub");
    r
}

/// A content for the part; different numbers give different contents.
pub fn sample(kind: Kind, n: u64, kinds: usize) -> Content {
    match kind {
        Kind::Struct => Content::Struct(n + 5),
        Kind::Vector => Content::Vector((0..n % 4).map(|i| n * 7 + i + 3).collect()),
        Kind::Multi => Content::Multi(
            (0..n % 4).map(|i| (0..(n + i) % 3).map(|j| ((n + i + j) as usize % kinds, n * 11 + i * 3 + j + 3)).collect()).collect(),
        ),
        Kind::Raw => Content::Raw((0..n % 5).map(|i| (n * 37 + i * 91 + 1) as u8).collect()),
    }
}
pub fn kinds_of(path: &str) -> usize {
    if path.ends_with("lmv") {
        1
    } else {
        3
    }
}

/// Everything an opened archive shows: `archives` holds the directories of the opened archives, the
/// map every part that is present.
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Seen {
    pub archives: Vec<String>,
    pub parts: BTreeMap<String, Val>,
}

fn see_leaf(a: &Leaf, dir: &str, s: &mut Seen) {
    s.archives.push(dir.into());
    s.parts.insert(join(dir, "lraw"), Val::Raw(a.lraw().to_vec()));
    if let Some(m) = a.lmv() {
        s.parts.insert(join(dir, "lmv"), Val::Multi(view_vals(&m)));
    }
}
fn see_sub(a: &Sub, dir: &str, s: &mut Seen) {
    s.archives.push(dir.into());
    s.parts.insert(join(dir, "shead"), Val::Struct(E4::get(&a.shead())));
    if let Some(v) = a.svec() {
        s.parts.insert(join(dir, "svec"), Val::Vector(array_vals(&v)));
    }
    if let Some(v) = a.sraw() {
        s.parts.insert(join(dir, "sraw"), Val::Raw(v.to_vec()));
    }
    if let Some(l) = a.leaf() {
        see_leaf(l, &join(dir, "leaf"), s);
    }
}
/// Reads everything.
pub fn see(a: &Top) -> Seen {
    let mut s = Seen::default();
    s.archives.push("".into());
    let p = &mut s.parts;
    p.insert("head".into(), Val::Struct(E9::get(&a.head())));
    if let Some(x) = a.ohead() {
        p.insert("ohead".into(), Val::Struct(E13::get(&x)));
    }
    p.insert("vec".into(), Val::Vector(array_vals(&a.vec())));
    if let Some(v) = a.ovec() {
        p.insert("ovec".into(), Val::Vector(array_vals(&v)));
    }
    p.insert("mv".into(), Val::Multi(view_vals(&a.mv())));
    if let Some(v) = a.omv() {
        p.insert("omv".into(), Val::Multi(view_vals(&v)));
    }
    p.insert("raw".into(), Val::Raw(a.raw().to_vec()));
    if let Some(v) = a.oraw() {
        p.insert("oraw".into(), Val::Raw(v.to_vec()));
    }
    see_sub(a.sub(), "sub", &mut s);
    if let Some(o) = a.osub() {
        see_sub(o, "osub", &mut s);
    }
    s
}
pub fn see_a_sub(a: &Sub) -> Seen {
    let mut s = Seen::default();
    see_sub(a, "", &mut s);
    s
}
pub fn see_a_leaf(a: &Leaf) -> Seen {
    let mut s = Seen::default();
    see_leaf(a, "", &mut s);
    s
}

/// What opening `root` (a directory in ARCHIVES) should show, given the intact resources (path of the
/// resource, payload): None if it should not open.
pub fn expect(root: &str, intact: &dyn Fn(&str) -> bool, val: &dyn Fn(&Part) -> Val) -> Option<Seen> {
    fn rec(dir: &str, rel: &str, intact: &dyn Fn(&str) -> bool, val: &dyn Fn(&Part) -> Val, s: &mut Seen) -> bool {
        let a = ARCHIVES.iter().find(|a| a.0 == dir).unwrap();
        if !intact(&join(dir, &format!("{}.archive", a.1))) {
            return false;
        }
        let mut mine = Seen::default();
        mine.archives.push(rel.into());
        for p in parts() {
            let (d, name) = match p.path.rfind('/') {
                Some(i) => (&p.path[..i], &p.path[i + 1..]),
                None => ("", p.path),
            };
            if d != dir {
                continue;
            }
            if p.paths().iter().all(|(path, _)| intact(path)) {
                mine.parts.insert(join(rel, name), val(&p));
            } else if !p.optional {
                return false;
            }
        }
        for (d, _, _, optional) in ARCHIVES.iter() {
            let parent = match d.rfind('/') {
                Some(i) => &d[..i],
                None => "",
            };
            if d.is_empty() || parent != dir {
                continue;
            }
            let name = d.rsplit('/').next().unwrap();
            let mut inner = Seen::default();
            if rec(d, &join(rel, name), intact, val, &mut inner) {
                mine.archives.extend(inner.archives);
                mine.parts.extend(inner.parts);
            } else if !optional {
                return false;
            }
        }
        s.archives.extend(mine.archives);
        s.parts.extend(mine.parts);
        true
    }
    let mut s = Seen::default();
    if rec(root, "", intact, val, &mut s) {
        Some(s)
    } else {
        None
    }
}

pub type Storage = Rc<flatdata::ResourceStorage>;

/// Writes raw bytes under a name.
pub fn put(s: &Storage, name: &str, bytes: &[u8]) {
    use std::io::Write;
    let st = s.create_output_stream(name).expect("create_output_stream");
    st.borrow_mut().write_all(bytes).expect("write_all");
}

/// A writer that was started and not closed yet.
pub trait Writer {
    /// appends one element or bucket
    fn push(&mut self, c: &Content, i: usize) -> std::io::Result<()>;
    /// closes and returns what close returned
    fn close(self: Box<Self>) -> Result<Val, flatdata::ResourceStorageError>;
}
pub struct VecWriter<'a, T>(pub flatdata::ExternalVector<'a, T>);
impl<'a, T: Elem> Writer for VecWriter<'a, T> {
    fn push(&mut self, c: &Content, i: usize) -> std::io::Result<()> {
        match c {
            Content::Vector(l) => {
                let mut x = self.0.grow()?;
                T::set(&mut x, l[i]);
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn close(self: Box<Self>) -> Result<Val, flatdata::ResourceStorageError> {
        let v = self.0.close()?;
        Ok(Val::Vector(array_vals(&v)))
    }
}
pub struct MultiWriter<'a, I: Idx, V>(pub flatdata::MultiVector<'a, I, V>);
impl<'a, I: Idx, V: Var> Writer for MultiWriter<'a, I, V> {
    fn push(&mut self, c: &Content, i: usize) -> std::io::Result<()> {
        match c {
            Content::Multi(b) => {
                let mut x = self.0.grow()?;
                for (k, v) in &b[i] {
                    V::add(&mut x, *k, *v);
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }
    fn close(self: Box<Self>) -> Result<Val, flatdata::ResourceStorageError> {
        let v = self.0.close()?;
        Ok(Val::Multi(view_vals(&v)))
    }
}

/// number of elements or buckets
pub fn count(c: &Content) -> usize {
    match c {
        Content::Vector(l) => l.len(),
        Content::Multi(b) => b.len(),
        _ => 0,
    }
}

/// The builders of all archives, some of which may not exist yet.
#[derive(Default)]
pub struct Builders {
    pub top: Option<Box<TopBuilder>>,
    pub subs: [Option<Box<SubBuilder>>; 2],
    pub leaves: [Option<Box<LeafBuilder>>; 2],
}

fn ext<'a, T>(x: &T) -> &'a T {
    // the builders are boxed and outlive the writers
    unsafe { &*(x as *const T) }
}

impl Builders {
    /// Creates the archive with this number in ARCHIVES; its parent must exist.
    pub fn create(&mut self, n: usize, root: &Storage) -> Result<(), flatdata::ResourceStorageError> {
        use flatdata::ArchiveBuilder;
        match n {
            0 => self.top = Some(Box::new(TopBuilder::new(root.clone())?)),
            1 => self.subs[0] = Some(Box::new(self.top.as_ref().unwrap().sub()?)),
            3 => self.subs[1] = Some(Box::new(self.top.as_ref().unwrap().osub()?)),
            2 => self.leaves[0] = Some(Box::new(self.subs[0].as_ref().unwrap().leaf()?)),
            _ => self.leaves[1] = Some(Box::new(self.subs[1].as_ref().unwrap().leaf()?)),
        }
        Ok(())
    }
    pub fn exists(&self, n: usize) -> bool {
        match n {
            0 => self.top.is_some(),
            1 => self.subs[0].is_some(),
            3 => self.subs[1].is_some(),
            2 => self.leaves[0].is_some(),
            _ => self.leaves[1].is_some(),
        }
    }
    /// Which archive a part belongs to.
    pub fn archive_of(path: &str) -> usize {
        let d = match path.rfind('/') {
            Some(i) => &path[..i],
            None => "",
        };
        ARCHIVES.iter().position(|a| a.0 == d).unwrap()
    }
    /// Writes structs, vectors and raw data with one call. `way`: variations of how.
    pub fn set(&self, path: &str, c: &Content, way: usize) -> std::io::Result<()> {
        fn st<T: Elem>(c: &Content, way: usize, f: &dyn Fn(<T as flatdata::Struct>::Item) -> std::io::Result<()>) -> std::io::Result<()> {
            let v = match c {
                Content::Struct(v) => *v,
                _ => unreachable!(),
            };
            if way == 0 {
                let mut b = flatdata::StructBuf::<T>::new();
                T::set(&mut b.get_mut(), v);
                f(b.get())
            } else {
                let mut l = flatdata::Vector::<T>::with_len(3);
                T::set(&mut l.at_mut(way % 3), v);
                f(l.at(way % 3))
            }
        }
        fn ve<T: Elem>(c: &Content, way: usize, f: &dyn Fn(&ArrayView<T>) -> std::io::Result<()>) -> std::io::Result<()> {
            let l = match c {
                Content::Vector(l) => l,
                _ => unreachable!(),
            };
            let mut v = flatdata::Vector::<T>::new();
            if way != 0 {
                T::set(&mut v.grow(), 99);
            }
            for x in l {
                T::set(&mut v.grow(), *x);
            }
            if way == 0 {
                f(&v.as_view())
            } else {
                v.grow();
                f(&v.as_view().slice(1..1 + l.len()))
            }
        }
        let raw = || match c {
            Content::Raw(b) => &b[..],
            _ => unreachable!(),
        };
        let n = Self::archive_of(path);
        let i = if n >= 3 { 1 } else { 0 };
        let top = || self.top.as_ref().unwrap();
        let sub = || self.subs[i].as_ref().unwrap();
        let leaf = || self.leaves[i].as_ref().unwrap();
        match path.rsplit('/').next().unwrap() {
            "head" => st::<E9>(c, way, &|x| top().set_head(x)),
            "ohead" => st::<E13>(c, way, &|x| top().set_ohead(x)),
            "vec" => ve::<E4>(c, way, &|x| top().set_vec(x)),
            "ovec" => ve::<E3>(c, way, &|x| top().set_ovec(x)),
            "raw" => top().set_raw(raw()),
            "oraw" => top().set_oraw(raw()),
            "shead" => st::<E4>(c, way, &|x| sub().set_shead(x)),
            "svec" => ve::<E7>(c, way, &|x| sub().set_svec(x)),
            "sraw" => sub().set_sraw(raw()),
            "lraw" => leaf().set_lraw(raw()),
            _ => unreachable!(),
        }
    }
    /// Starts a writer; it must be gone before the builders.
    pub fn start<'a>(&self, path: &str) -> std::io::Result<Box<dyn Writer + 'a>> {
        let n = Self::archive_of(path);
        let i = if n >= 3 { 1 } else { 0 };
        let top = || -> &'a TopBuilder { ext(&**self.top.as_ref().unwrap()) };
        Ok(match path.rsplit('/').next().unwrap() {
            "vec" => Box::new(VecWriter(top().start_vec()?)),
            "ovec" => Box::new(VecWriter(top().start_ovec()?)),
            "mv" => Box::new(MultiWriter(top().start_mv()?)),
            "omv" => Box::new(MultiWriter(top().start_omv()?)),
            "svec" => Box::new(VecWriter(ext::<SubBuilder>(&**self.subs[i].as_ref().unwrap()).start_svec()?)),
            "lmv" => Box::new(MultiWriter(ext::<LeafBuilder>(&**self.leaves[i].as_ref().unwrap()).start_lmv()?)),
            _ => unreachable!(),
        })
    }
    /// Writes a part completely.
    pub fn write(&self, path: &str, kind: Kind, c: &Content, way: usize) -> Result<(), String> {
        if kind == Kind::Multi || (kind == Kind::Vector && way == 2) {
            let mut w = self.start(path).map_err(|e| e.to_string())?;
            for i in 0..count(c) {
                if let Err(e) = w.push(c, i) {
                    let _ = catch(|| drop(w));
                    return Err(e.to_string());
                }
            }
            w.close().map(|_| ()).map_err(|e| e.to_string())
        } else {
            self.set(path, c, way).map_err(|e| e.to_string())
        }
    }
}

/// Both kinds of storage; file storages use `dir`.
pub fn storage(memory: bool, dir: &std::path::Path) -> Storage {
    if memory {
        flatdata::MemoryResourceStorage::new("/mem")
    } else {
        flatdata::FileResourceStorage::new(dir)
    }
}
