//! C10: a resource is readable with exactly its own schema.
use checks::*;
use flatdata::{Archive, ArchiveBuilder, ResourceStorageError};
use std::fs;

/// Splits like the diff does, without an empty last line.
fn lines(s: &str) -> Vec<&str> {
    let mut l: Vec<&str> = s.lines().collect();
    while l.last() == Some(&"") {
        l.pop();
    }
    l
}

/// The two texts a diff shows.
fn sides(diff: &str) -> Result<(Vec<&str>, Vec<&str>), String> {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for l in diff.split('\n') {
        if l.is_empty() && diff.is_empty() {
            break;
        }
        let (sign, rest) = match l.chars().next() {
            Some(c) => (c, &l[c.len_utf8()..]),
            None => return Err(format!("a line of the diff {:?} has no sign", diff)),
        };
        match sign {
            '-' => a.push(rest),
            '+' => b.push(rest),
            ' ' => {
                a.push(rest);
                b.push(rest);
            }
            c => return Err(format!("a line of the diff {:?} starts with {:?}", diff, c)),
        }
    }
    while a.last() == Some(&"") {
        a.pop();
    }
    while b.last() == Some(&"") {
        b.pop();
    }
    Ok((a, b))
}

/// What reading must give for these stored bytes of the schema.
fn judge(stored: &[u8], expected: &str, name: &str, got: Result<Vec<u8>, ResourceStorageError>, payload: &[u8]) -> Result<u8, String> {
    let ctx = format!("stored {:?}, expected {:?}", String::from_utf8_lossy(stored), expected);
    match (std::str::from_utf8(stored), got) {
        (Ok(s), Ok(d)) => {
            if s != expected {
                return Err(format!("{}: reads {:02x?}", ctx, d));
            }
            if d != payload {
                return Err(format!("{}: reads {:02x?} instead of {:02x?}", ctx, d, payload));
            }
            Ok(0)
        }
        (Err(_), Ok(d)) => Err(format!("{}: reads {:02x?}", ctx, d)),
        (Err(_), Err(ResourceStorageError::Utf8Error(_))) => Ok(1),
        (Err(_), Err(e)) => Err(format!("{}: instead of invalid UTF-8 reports {:?}", ctx, e)),
        (Ok(s), Err(ResourceStorageError::WrongSignature { resource_name, diff })) => {
            if s == expected {
                return Err(format!("{}: reports a difference {:?}", ctx, diff));
            }
            if resource_name != name {
                return Err(format!("{}: the error names {:?} instead of {:?}", ctx, resource_name, name));
            }
            let (a, b) = sides(&diff).map_err(|e| format!("{}: {}", ctx, e))?;
            if a != lines(s) || b != lines(expected) {
                return Err(format!("{}: the diff {:?} shows {:?} and {:?}", ctx, diff, a, b));
            }
            Ok(2)
        }
        (Ok(_), Err(e)) => Err(format!("{}: reports {:?}", ctx, e)),
    }
}

fn texts(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut r = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = r.len();
        for i in from..to {
            for a in alphabet {
                let t = format!("{}{}", r[i], a);
                r.push(t);
            }
        }
        from = to;
    }
    r
}

const PAYLOAD: [u8; 3] = [4, 5, 6];

/// Every stored text against every expected text.
fn pairs(ch: &mut Ch, texts: &[String]) -> Result<(), String> {
    let memory = ch.flag();
    let stored = ch.pick(texts);
    let tmp = ch.scratch.fresh();
    ch.step(|| format!("stored {:?}", stored));
    let s = storage(memory, &tmp.path);
    if let Err(e) = s.write("res", stored, &PAYLOAD) {
        return Err(format!("writing with schema {:?} fails: {}", stored, e));
    }
    let fresh = if memory { s.clone() } else { storage(false, &tmp.path) };
    for st in &[&s, &fresh] {
        let raw = catch(|| st.read_resource("res.schema").map(|b| b.to_vec())).map_err(|p| format!("schema {:?}: panics: {}", stored, p))?;
        match raw {
            Ok(b) => {
                if b != stored.as_bytes() {
                    return Err(format!("schema {:?} is stored as {:?}", stored, String::from_utf8_lossy(&b)));
                }
            }
            Err(e) => return Err(format!("schema {:?} cannot be read: {}", stored, e)),
        }
        for expected in texts {
            let got = catch(|| st.read("res", expected).map(|x| x.to_vec())).map_err(|p| format!("stored {:?}, expected {:?}: panics: {}", stored, expected, p))?;
            let o = judge(stored.as_bytes(), expected, "res", got, &PAYLOAD)?;
            ch.outcome(&(memory, o));
            ch.evals(1);
        }
    }
    ch.state(&(memory, stored));
    Ok(())
}

/// Arbitrary stored bytes.
fn bytes(ch: &mut Ch, alphabet: &[u8], max: usize) -> Result<(), String> {
    let memory = ch.flag();
    let n = ch.choose(max + 1);
    let mut b = Vec::new();
    for _ in 0..n {
        b.push(*ch.pick(alphabet));
    }
    let tmp = ch.scratch.fresh();
    ch.step(|| format!("stored {:02x?}", b));
    let s = if memory {
        let s = storage(true, &tmp.path);
        s.write("sub/res", "x", &PAYLOAD).unwrap();
        put(&s, "sub/res.schema", &b);
        s
    } else {
        fs::create_dir_all(tmp.path.join("sub")).unwrap();
        fs::write(tmp.path.join("sub/res"), framed(&PAYLOAD)).unwrap();
        fs::write(tmp.path.join("sub/res.schema"), &b).unwrap();
        storage(false, &tmp.path)
    };
    let lossy = String::from_utf8_lossy(&b).into_owned();
    let clean: String = b.iter().filter(|x| **x < 0x80).map(|x| *x as char).collect();
    for expected in &[lossy, clean, "".to_string(), "a".to_string(), "\u{e9}".to_string()] {
        let got = catch(|| s.read("sub/res", expected).map(|x| x.to_vec())).map_err(|p| format!("stored {:02x?}, expected {:?}: panics: {}", b, expected, p))?;
        let o = judge(&b, expected, "sub/res", got, &PAYLOAD)?;
        ch.outcome(&(memory, o));
        ch.evals(1);
    }
    ch.state(&(memory, &b));
    Ok(())
}

const LONG: &str = "namespace n {\n/** a comment with \u{e9} */\nstruct S\n{\n    x : u32 : 7;\n    y : i64;\n\n    z : bool : 1;\n}\n}\n\nnamespace n {\narchive A\n{\n    @optional\n    s : S;\n    data : vector< S >;\n}\n}\n";

/// One long schema and everything that differs from it in one place.
fn edits(ch: &mut Ch, thorough: bool) -> Result<(), String> {
    let chars: Vec<char> = LONG.chars().collect();
    let n = chars.len();
    let op = ch.choose(7);
    let i = ch.choose(n);
    let mut c = chars.clone();
    match op {
        0 => {
            c.remove(i);
        }
        1 => c.insert(i, ' '),
        2 => c.insert(i, '\n'),
        3 => c[i] = if c[i] == 'q' { 'Q' } else { 'q' },
        4 => c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
        5 => c.swap(i, (i + 1) % n),
        _ => c.truncate(i),
    }
    if op == 4 && c == chars {
        return Ok(());
    }
    let edited: String = c.into_iter().collect();
    let memory = ch.flag();
    let rev = ch.flag();
    let (stored, expected) = if rev { (&edited[..], LONG) } else { (LONG, &edited[..]) };
    let tmp = ch.scratch.fresh();
    ch.step(|| format!("edit {} at {}, stored and expected exchanged: {}", op, i, rev));
    let s = storage(memory, &tmp.path);
    s.write("res", stored, &PAYLOAD).unwrap();
    let got = catch(|| s.read("res", expected).map(|x| x.to_vec())).map_err(|p| format!("panics: {}", p))?;
    let o = judge(stored.as_bytes(), expected, "res", got, &PAYLOAD)?;
    let own = catch(|| s.read("res", stored).map(|x| x.to_vec())).map_err(|p| format!("panics: {}", p))?;
    judge(stored.as_bytes(), stored, "res", own, &PAYLOAD)?;
    if thorough {
        // differing in two places
        let other: String = edited.chars().rev().collect();
        let got = catch(|| s.read("res", &other).map(|x| x.to_vec())).map_err(|p| format!("panics: {}", p))?;
        judge(stored.as_bytes(), &other, "res", got, &PAYLOAD)?;
    }
    ch.state(&(op, i, memory, rev));
    ch.outcome(&(op, o));
    Ok(())
}

/// All ways to write, with all schemas.
fn writers(ch: &mut Ch, texts: &[String]) -> Result<(), String> {
    let memory = ch.flag();
    let schema = ch.pick(texts);
    let way = ch.choose(3);
    let tmp = ch.scratch.fresh();
    let ctx = format!("schema {:?}, {}, memory {}", schema, ["write", "vector", "multivector"][way], memory);
    ch.step(|| ctx.clone());
    let s = storage(memory, &tmp.path);
    let mut expect: Vec<(&str, String, Vec<u8>)> = Vec::new();
    let err = |e: String| format!("{}: {}", ctx, e);
    match way {
        0 => {
            s.write("res", schema, &PAYLOAD).map_err(|e| err(e.to_string()))?;
            expect.push(("res", schema.clone(), PAYLOAD.to_vec()));
        }
        1 => {
            let mut v = create_external_vector::<E4>(&*s, "res", schema).map_err(|e| err(e.to_string()))?;
            E4::set(&mut v.grow().map_err(|e| err(e.to_string()))?, 5);
            v.close().map_err(|e| err(format!("close: {}", e)))?;
            expect.push(("res", schema.clone(), E4::bytes(5)));
        }
        _ => {
            let mut v = create_multi_vector::<Idx32, Var3>(&*s, "res", schema).map_err(|e| err(e.to_string()))?;
            Var3::add(&mut v.grow().map_err(|e| err(e.to_string()))?, 1, 6);
            v.close().map_err(|e| err(format!("close: {}", e)))?;
            let (i, d) = multi_bytes::<Idx32, Var3>(&vec![vec![(1, 6)]]);
            expect.push(("res", schema.clone(), d));
            expect.push(("res_index", format!("index({})", schema), i));
        }
    }
    let fresh = if memory { s.clone() } else { storage(false, &tmp.path) };
    for st in &[s, fresh] {
        for (name, sch, payload) in &expect {
            let stored = sch.as_bytes().to_vec();
            for other in &[sch.clone(), format!("{} ", sch), format!("{}\n", sch), format!(" {}", sch), format!("index({})", schema), schema.clone(), String::new()] {
                let got = catch(|| st.read(name, other).map(|x| x.to_vec())).map_err(|p| err(format!("panics: {}", p)))?;
                let o = judge(&stored, other, name, got, payload).map_err(|e| err(e))?;
                ch.outcome(&(way, memory, o));
                ch.evals(1);
            }
        }
    }
    ch.state(&(memory, schema, way));
    Ok(())
}

// archives and parts with schemas that only differ a little, or are empty
macro_rules! small_archive {
    ($m:ident, $a:expr, $r:expr) => {
        pub mod $m {
            use checks::*;
            define_archive!(A, ABuilder, $a; ; (v, set_v, start_v, E4, $r, true); ; (d, set_d, $r, false); );
        }
    };
}
small_archive!(a0, "", "");
small_archive!(a1, "archive A {}", "");
small_archive!(a2, "archive A {}", "data");
small_archive!(a3, "archive A { }", "data");
small_archive!(a4, "archive A {}\n", "data\n");
small_archive!(a5, "", "data");
const SMALL: [(&str, &str); 6] = [("", ""), ("archive A {}", ""), ("archive A {}", "data"), ("archive A { }", "data"), ("archive A {}\n", "data\n"), ("", "data")];

fn archives(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let (w, r) = (ch.choose(6), ch.choose(6));
    let vec = ch.flag();
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    ch.step(|| format!("written as archive {}, opened as archive {}", w, r));
    macro_rules! write {
        ($m:ident) => {{
            let b = $m::ABuilder::new(s.clone()).map_err(|e| format!("archive {}: {}", w, e))?;
            b.set_d(&[1, 2]).map_err(|e| format!("archive {}: {}", w, e))?;
            if vec {
                b.set_v(&Vector::<E4>::with_len(2).as_view()).map_err(|e| format!("archive {}: {}", w, e))?;
            }
        }};
    }
    match w {
        0 => write!(a0),
        1 => write!(a1),
        2 => write!(a2),
        3 => write!(a3),
        4 => write!(a4),
        _ => write!(a5),
    }
    let fresh = if memory || ch.flag() { s.clone() } else { storage(false, &tmp.path) };
    macro_rules! open {
        ($m:ident) => {
            catch(|| $m::A::open(fresh.clone()).map(|a| (a.d().to_vec(), a.v().map(|v| v.len()))))
        };
    }
    let got = match r {
        0 => open!(a0),
        1 => open!(a1),
        2 => open!(a2),
        3 => open!(a3),
        4 => open!(a4),
        _ => open!(a5),
    };
    let got = got.map_err(|p| format!("archive {} opened as {}: panics: {}", w, r, p))?;
    ch.state(&(memory, w, r, vec));
    ch.outcome(&(w == r, got.is_ok()));
    let same = SMALL[w] == SMALL[r];
    match got {
        Ok(x) => {
            if !same {
                return Err(format!("archive {} {:?} opens as {} {:?}", w, SMALL[w], r, SMALL[r]));
            }
            let want = (vec![1, 2], if vec { Some(2) } else { None });
            if x != want {
                return Err(format!("archive {} reads {:?} instead of {:?}", w, x, want));
            }
        }
        Err(e) => {
            let (name, stored, expected) = if SMALL[w].0 != SMALL[r].0 { ("A.archive", SMALL[w].0, SMALL[r].0) } else { ("d", SMALL[w].1, SMALL[r].1) };
            if same {
                return Err(format!("archive {} does not open: {}", w, e));
            }
            judge(stored.as_bytes(), expected, name, Err(e), &[])?;
        }
    }
    Ok(())
}

/// Long schemas that differ in one place, or are one longer.
fn long(ch: &mut Ch, lens: &[usize]) -> Result<(), String> {
    let memory = ch.flag();
    let n = *ch.pick(lens);
    // in one line, or in some
    let lines = ch.flag();
    let text: Vec<u8> = (0..n).map(|i| if lines && i % (1 + n / 50) == 0 { b'\n' } else { b'a' + (i * 7 % 23) as u8 }).collect();
    let stored = String::from_utf8(text.clone()).unwrap();
    let tmp = ch.scratch.fresh();
    ch.step(|| format!("{} bytes of schema", n));
    let s = storage(memory, &tmp.path);
    s.write("res", &stored, &PAYLOAD).map_err(|e| e.to_string())?;
    let mut others: Vec<String> = vec![stored.clone(), stored.clone() + "a", stored.clone() + "\n", stored.clone() + "\0"];
    for i in checks::iters::edges_of(n) {
        let mut t = text.clone();
        t.truncate(i);
        others.push(String::from_utf8(t).unwrap());
        if i < n {
            let mut t = text.clone();
            t[i] = b'Z';
            others.push(String::from_utf8(t).unwrap());
            let mut t = text.clone();
            t.remove(i);
            others.push(String::from_utf8(t).unwrap());
        }
    }
    for o in &others {
        for exchanged in &[false, true] {
            let (a, b) = if *exchanged { (o, &stored) } else { (&stored, o) };
            if *exchanged {
                s.write("other", a, &PAYLOAD).map_err(|e| e.to_string())?;
            }
            let name = if *exchanged { "other" } else { "res" };
            let got = catch(|| s.read(name, b).map(|x| x.to_vec())).map_err(|p| format!("{} bytes of schema: panics: {}", n, p))?;
            judge(a.as_bytes(), b, name, got, &PAYLOAD).map_err(|e| {
                let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y);
                format!("stored {} bytes, expected {}, first difference at {:?}: {:.300}...{}", a.len(), b.len(), at, e, &e[e.char_indices().rev().nth(100.min(e.len() - 1)).map_or(0, |x| x.0)..])
            })?;
            ch.evals(1);
        }
    }
    ch.state(&(memory, n, lines));
    ch.outcome(&(memory, n));
    Ok(())
}

/// One resource written again and again with other schemas: what was written last counts, and while it is being written nothing does.
fn rewritten(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let texts = ["a", "ab", "", "b\n"];
    let memory = ch.flag();
    let look = ch.flag(); // the storage is read in between
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut model: std::collections::BTreeMap<&str, Option<(String, Vec<u8>)>> = Default::default();
    let mut hist: Vec<String> = Vec::new();
    for step in 0..depth {
        let schema = *ch.pick(&texts);
        let way = ch.choose(3);
        let x = step as u64 + 5;
        hist.push(format!("{} with schema {:?}", ["write", "vector", "multivector"][way], schema));
        ch.step(|| hist.last().unwrap().clone());
        let err = |e: String| format!("memory {}, read in between {}: {}: {}", memory, look, hist.join(", "), e);
        let seen = |s: &Storage, model: &std::collections::BTreeMap<&str, Option<(String, Vec<u8>)>>, when: &str| -> Result<(), String> {
            for (name, c) in model {
                for t in texts.iter().flat_map(|t| vec![t.to_string(), format!("index({})", t)]) {
                    let got = catch(|| s.read(name, &t).map(|x| x.to_vec())).map_err(|p| err(format!("{}: panics: {}", when, p)))?;
                    let want = c.as_ref().filter(|c| c.0 == t).map(|c| &c.1);
                    if got.as_ref().ok() != want {
                        return Err(err(format!("{}: reading {} with schema {:?} gives {:?} instead of {:?}", when, name, t, got, want)));
                    }
                }
            }
            Ok(())
        };
        let all = |model: &std::collections::BTreeMap<&str, Option<(String, Vec<u8>)>>, when: &str| -> Result<(), String> {
            if look {
                seen(&s, model, when)?;
            }
            if !memory {
                seen(&storage(false, &tmp.path), model, when)?;
            }
            Ok(())
        };
        match way {
            0 => {
                s.write("res", schema, &[x as u8; 4]).map_err(|e| err(e.to_string()))?;
                model.insert("res", Some((schema.into(), vec![x as u8; 4])));
            }
            1 => {
                let mut v = create_external_vector::<E4>(&*s, "res", schema).map_err(|e| err(e.to_string()))?;
                model.insert("res", None);
                let r = (|| {
                    all(&model, "begun")?;
                    E4::set(&mut v.grow().map_err(|e| err(e.to_string()))?, x);
                    all(&model, "with an element")
                })();
                v.close().map_err(|e| err(format!("close: {}", e)))?;
                r?;
                model.insert("res", Some((schema.into(), E4::bytes(x))));
            }
            _ => {
                let mut v = create_multi_vector::<Idx32, Var3>(&*s, "res", schema).map_err(|e| err(e.to_string()))?;
                model.insert("res", None);
                model.insert("res_index", None);
                let r = (|| {
                    all(&model, "begun")?;
                    Var3::add(&mut v.grow().map_err(|e| err(e.to_string()))?, 1, x);
                    all(&model, "with an element")
                })();
                v.close().map_err(|e| err(format!("close: {}", e)))?;
                r?;
                let (i, d) = multi_bytes::<Idx32, Var3>(&vec![vec![(1, x)]]);
                model.insert("res", Some((schema.into(), d)));
                model.insert("res_index", Some((format!("index({})", schema), i)));
            }
        }
        all(&model, "complete")?;
        if step + 1 == depth {
            seen(&s, &model, "in the end")?;
        }
        ch.evals(1);
        ch.state(&(memory, look, &model));
        ch.outcome(&(memory, way, model.len()));
    }
    Ok(())
}

fn main() {
    mccore::main("C10", Level::Exploration, "one evaluation is one read of a resource with a stored and an expected schema; states are (storage, stored schema)", |run| {
        let (l1, l2, l3) = if run.thorough { (5, 9, 5) } else { (4, 7, 4) };
        let t = texts(&["a", "b", "\n", "\u{e9}", "\r\n"], l1);
        run.explore("pairs", &format!("every pair of texts of up to {} of a, b, line feed, a two byte character, CR LF", l1), 0, |ch| pairs(ch, &t));
        let t = texts(&["a", "\n"], l2);
        run.explore("lines", &format!("every pair of texts of up to {} of a and line feed", l2), 0, |ch| pairs(ch, &t));
        let t = texts(&["a\n", "b\n", "a"], if run.thorough { 4 } else { 3 });
        run.explore("more-lines", "every pair of texts of up to 3 or 4 lines", 0, |ch| pairs(ch, &t));
        let exotic = ["a", "A", "\u{feff}", "\0", " ", "\t", "\r", "\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{200b}", "e\u{301}", "\u{e9}", "ss", "\u{df}", "//", "/*", "*/", "#", ";", "\"", "\u{10ffff}", "\u{1a}"];
        let t = texts(&exotic, 2);
        run.explore("symbols", &format!("every pair of texts of up to 2 of {} symbols: marks, blanks, control characters, comments, other forms of the same character", exotic.len()), 0, |ch| pairs(ch, &t));
        let t = texts(&["a", "\u{feff}", " ", "\0", "\r"], if run.thorough { 4 } else { 3 });
        run.explore("more-symbols", "every pair of texts of up to 3 or 4 of a, byte order mark, blank, NUL, CR", 0, |ch| pairs(ch, &t));
        let a = [0x00, b'a', b'\n', 0x80, 0xBF, 0xC0, 0xC3, 0xA9, 0xE2, 0xED, 0xF0, 0xF5, 0xFF];
        run.explore("bytes", &format!("all stored schemas of up to {} of 13 bytes, valid UTF-8 or not", l3), 0, |ch| bytes(ch, &a, l3));
        let thorough = run.thorough;
        run.explore("edits", "every deletion, insertion, substitution, change of case, exchange and truncation in one place of a long schema", 0, |ch| edits(ch, thorough));
        let l = checks::iters::lengths(if thorough { 1100 } else { 300 }, if thorough { 22 } else { 20 });
        run.explore("long", &format!("schemas of all lengths to {} and around powers of two to {}, that differ, end or go on at any place around powers of two", l[l.len() / 2], l[l.len() - 1]), 0, |ch| long(ch, &l));
        let t = texts(&["a", "\n", "\u{e9}"], 3);
        run.explore("writers", "one-shot writes, vectors and multivectors with all texts of up to 3 characters", 0, |ch| writers(ch, &t));
        let n = if run.thorough { 4 } else { 3 };
        run.explore("rewritten", &format!("all sequences of {} writes of one resource, three ways, four schemas, read after every step", n), 0, move |ch| rewritten(ch, n));
        run.explore("archives", "6 x 6 archives that differ in little", 0, archives);
    })
}
