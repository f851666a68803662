//! What can be the matter with the resources of an archive.
use crate::*;
use std::collections::BTreeMap;
use std::fs;

/// What can be the matter with a resource; all but the first two and the last make it unreadable.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Status {
    Intact,
    /// a struct with more bytes than needed, also intact
    Larger,
    Missing,
    NoSchema,
    NoData,
    EmptyFile,
    WrongSchema,
    EmptySchema,
    NotUtf8,
    HeaderLow,
    HeaderHigh,
    HeaderMax,
    CutPadding,
    CutHeader,
    Extra,
    /// a struct that is too small
    Smaller,
    EmptyStruct,
    /// a directory of that name, only in files
    Directory,
}
pub use self::Status::*;
pub const COMMON: [Status; 15] = [Intact, Missing, NoSchema, NoData, EmptyFile, WrongSchema, EmptySchema, NotUtf8, HeaderLow, HeaderHigh, HeaderMax, CutPadding, CutHeader, Extra, Directory];
pub const STRUCTS: [Status; 18] =
    [Intact, Missing, Smaller, EmptyStruct, NoSchema, NoData, EmptyFile, WrongSchema, EmptySchema, NotUtf8, HeaderLow, HeaderHigh, HeaderMax, CutPadding, CutHeader, Extra, Directory, Larger];

#[derive(Clone)]
pub struct Resource {
    pub path: String,
    pub schema: String,
    pub payload: Vec<u8>,
    pub is_struct: bool,
}

pub fn resources() -> (Vec<Resource>, BTreeMap<&'static str, Content>) {
    let mut r = Vec::new();
    for (dir, name, schema, _) in ARCHIVES.iter() {
        r.push(Resource { path: join(dir, &format!("{}.archive", name)), schema: schema.to_string(), payload: vec![], is_struct: false });
    }
    let mut contents = BTreeMap::new();
    for (i, p) in parts().iter().enumerate() {
        let mut c = sample(p.kind, i as u64 + 1, kinds_of(p.path));
        if let Content::Multi(ref mut b) = c {
            b.push(vec![(0, 77)]);
        }
        for x in p.resources(&c) {
            r.push(Resource { path: x.path, schema: x.schema, payload: x.payload, is_struct: p.kind == Kind::Struct });
        }
        contents.insert(p.path, c);
    }
    (r, contents)
}

/// Data and schema as stored; None: missing.
pub fn stored(r: &Resource, s: Status) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    let good = framed(&r.payload);
    let sch = r.schema.clone().into_bytes();
    let n = r.payload.len() as u64;
    let header = |h: u64| {
        let mut b = good.clone();
        b[..8].copy_from_slice(&h.to_le_bytes());
        Some(b)
    };
    match s {
        Intact | Directory => (Some(good), Some(sch)),
        Larger => {
            let mut p = r.payload.clone();
            p.extend(&[1, 2, 3]);
            (Some(framed(&p)), Some(sch))
        }
        Missing => (None, None),
        NoSchema => (Some(good), None),
        NoData => (None, Some(sch)),
        EmptyFile => (Some(vec![]), Some(sch)),
        WrongSchema => {
            let mut x = sch.clone();
            x.push(b' ');
            (Some(good), Some(x))
        }
        EmptySchema => (Some(good), Some(vec![])),
        NotUtf8 => {
            let mut x = sch.clone();
            let k = x.len() / 2;
            x[k] = 0xFF;
            (Some(good), Some(x))
        }
        HeaderLow => (header(n.wrapping_sub(1)), Some(sch)),
        HeaderHigh => (header(n + 1), Some(sch)),
        HeaderMax => (header(u64::max_value()), Some(sch)),
        CutPadding => (Some(good[..good.len() - 1].to_vec()), Some(sch)),
        CutHeader => (Some(good[..7].to_vec()), Some(sch)),
        Extra => {
            let mut b = good.clone();
            b.push(0);
            (Some(b), Some(sch))
        }
        Smaller => (Some(framed(&r.payload[..r.payload.len() - 1])), Some(sch)),
        EmptyStruct => (Some(framed(&[])), Some(sch)),
    }
}

pub fn fine(s: Status) -> bool {
    s == Intact || s == Larger
}

/// Puts a resource in a condition there; `outside`: not through the storage.
pub fn place(dir: &std::path::Path, s: &Storage, memory: bool, r: &Resource, st: Status, outside: bool) {
    let (d, sch) = stored(r, st);
    for (name, b) in &[(r.path.clone(), d), (format!("{}.schema", r.path), sch)] {
        let p = dir.join(name);
        if memory || !outside {
            if let Some(b) = b {
                if !memory && p.is_dir() {
                    fs::remove_dir(&p).unwrap();
                }
                put(s, name, b);
            }
        } else if let Some(b) = b {
            if p.parent().map_or(false, |d| !d.is_dir()) {
                fs::create_dir_all(p.parent().unwrap()).unwrap();
            }
            if st == Directory && !name.ends_with(".schema") {
                fs::create_dir_all(&p).unwrap();
            } else {
                fs::write(&p, b).unwrap();
            }
        }
    }
}
