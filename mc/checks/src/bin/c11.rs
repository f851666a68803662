//! C11: which combinations of intact, damaged and missing parts open.
#[path = "../shapes.rs"]
mod shapes;
use checks::damage::*;
use checks::*;
use flatdata::Archive;
use std::collections::BTreeMap;

/// Opens one of the archives and reads everything.
fn open(root: usize, s: &Storage) -> Result<Result<Seen, String>, String> {
    catch(|| match ARCHIVES[root].1 {
        "Top" => Top::open(s.clone()).map(|a| see(&a)).map_err(|e| e.to_string()),
        "Sub" => Sub::open(s.subdir(ARCHIVES[root].0)).map(|a| see_a_sub(&a)).map_err(|e| e.to_string()),
        _ => Leaf::open(s.subdir(ARCHIVES[root].0)).map(|a| see_a_leaf(&a)).map_err(|e| e.to_string()),
    })
}

struct World {
    res: Vec<Resource>,
    contents: BTreeMap<&'static str, Content>,
}

impl World {
    fn judge(&self, root: usize, s: &Storage, status: &BTreeMap<String, Status>, ctx: &dyn Fn() -> String) -> Result<bool, String> {
        let intact = |p: &str| fine(status[p]);
        let val = |p: &Part| p.val(&self.contents[p.path]);
        let want = expect(ARCHIVES[root].0, &intact, &val);
        let got = open(root, s).map_err(|p| format!("{}: panics: {}", ctx(), p))?;
        match (got, want) {
            (Ok(x), Some(w)) => {
                if x != w {
                    return Err(format!("{}: shows {:?} instead of {:?}", ctx(), x, w));
                }
                Ok(true)
            }
            (Err(_), None) => Ok(false),
            (Ok(x), None) => Err(format!("{}: opens and shows {:?}", ctx(), x.parts.keys().collect::<Vec<_>>())),
            (Err(e), Some(_)) => Err(format!("{}: does not open: {}", ctx(), e)),
        }
    }
    fn run(&self, ch: &mut Ch, memory: bool, root: usize, status: &mut BTreeMap<String, Status>) -> Result<(), String> {
        let tmp = ch.scratch.fresh();
        let s = storage(memory, &tmp.path);
        // the storage has perhaps opened everything intact before
        let gone = |s: Status| [Missing, NoSchema, NoData, Directory].contains(&s);
        let before = status.values().any(|s| *s != Intact) && !(memory && status.values().any(|s| gone(*s))) && ch.flag();
        for r in &self.res {
            place(&tmp.path, &s, memory, r, if before { Intact } else { status[&r.path] }, true);
        }
        if before {
            let all: BTreeMap<String, Status> = status.keys().map(|k| (k.clone(), Intact)).collect();
            self.judge(root, &s, &all, &|| "everything intact".into())?;
            for r in &self.res {
                if status[&r.path] != Intact {
                    if !memory {
                        for name in &[r.path.clone(), format!("{}.schema", r.path)] {
                            std::fs::remove_file(tmp.path.join(name)).map_err(|e| e.to_string())?;
                        }
                    }
                    place(&tmp.path, &s, memory, r, status[&r.path], true);
                }
            }
        }
        let bad = |st: &BTreeMap<String, Status>| st.iter().filter(|x| *x.1 != Intact).map(|x| format!("{} {:?}", x.0, x.1)).collect::<Vec<_>>();
        let ctx = format!("{} {:?} with {:?}{}", if memory { "memory" } else { "files" }, ARCHIVES[root].0, bad(status), if before { ", opened intact before" } else { "" });
        ch.step(|| format!("open {}", ctx));
        let mut opened = self.judge(root, &s, status, &|| ctx.clone())?;
        ch.state(&(memory, root, &*status));
        // complete it and try again after every step, through the same storage
        let todo: Vec<Resource> = self.res.iter().filter(|r| status[&r.path] != Intact).cloned().collect();
        let outside = !memory && todo.iter().all(|r| status[&r.path] == Missing) && ch.flag();
        let (mut firsts, mut n) = (vec![opened], 0);
        for r in &todo {
            place(&tmp.path, &s, memory, r, Intact, outside);
            status.insert(r.path.clone(), Intact);
            n += 1;
            let rest = if ch.tracing() { format!(", now with {:?}", bad(status)) } else { String::new() };
            ch.step(|| format!("write {}", r.path));
            if n <= 3 || n == todo.len() {
                opened = self.judge(root, &s, status, &|| format!("{}, after writing {} of them{}", ctx, n, rest))?;
                firsts.push(opened);
                ch.state(&(memory, root, &*status));
            }
        }
        ch.outcome(&(root, firsts));
        Ok(())
    }
}

/// Everything intact, but for a number of deviations.
fn deviations(ch: &mut Ch, w: &World, few: &[Status], few_in: &str) -> Result<(), String> {
    let memory = ch.flag();
    let root = ch.dev(5);
    let mut status = BTreeMap::new();
    for r in &w.res {
        let all: &[Status] = if r.path.starts_with(few_in) {
            few
        } else if r.is_struct {
            &STRUCTS
        } else {
            &COMMON
        };
        let st = all[ch.dev(all.len())];
        let same = st == Directory && memory || st == EmptyStruct && !r.is_struct;
        status.insert(r.path.clone(), if same { Intact } else { st });
    }
    w.run(ch, memory, root, &mut status)
}

/// Every set of present resources among the direct ones of one archive, with its sub-archives there
/// or not.
fn subsets(ch: &mut Ch, w: &World, root: usize) -> Result<(), String> {
    let memory = ch.flag();
    let dir = ARCHIVES[root].0;
    let mut status = BTreeMap::new();
    let mut nested: BTreeMap<String, Status> = BTreeMap::new();
    for r in &w.res {
        let rel = if dir.is_empty() {
            &r.path[..]
        } else if r.path.starts_with(&format!("{}/", dir)) {
            &r.path[dir.len() + 1..]
        } else {
            status.insert(r.path.clone(), Intact);
            continue;
        };
        let st = match rel.find('/') {
            Some(i) => {
                let d = rel[..i].to_string();
                if !nested.contains_key(&d) {
                    nested.insert(d.clone(), if ch.flag() { Missing } else { Intact });
                }
                nested[&d]
            }
            None => {
                if ch.flag() {
                    Missing
                } else {
                    Intact
                }
            }
        };
        status.insert(r.path.clone(), st);
    }
    w.run(ch, memory, root, &mut status)
}

/// Archives of all shapes with few damaged resources.
fn shaped(ch: &mut Ch) -> Result<(), String> {
    let shape = &shapes::SHAPES[ch.choose(shapes::SHAPES.len())];
    let memory = ch.flag();
    let contents = shapes::fill(shape, 1);
    let res = shape.resources(&contents);
    let tmp = ch.scratch.fresh();
    let s = storage(memory, &tmp.path);
    let mut status = BTreeMap::new();
    for r in &res {
        let all: &[Status] = if r.is_struct { &STRUCTS } else { &COMMON };
        let st = all[ch.dev(all.len())];
        let same = st == Directory && memory || st == EmptyStruct && !r.is_struct || st == Larger;
        let st = if same { Intact } else { st };
        place(&tmp.path, &s, memory, r, st, true);
        status.insert(r.path.clone(), st);
    }
    let ctx = format!("{} {}, {:?}", shape.schema, if memory { "memory" } else { "files" }, status.iter().filter(|x| *x.1 != Intact).collect::<Vec<_>>());
    ch.step(|| ctx.clone());
    let opened = shape.judge(&s, shape.expect("", &contents, &|p| fine(status[p])), &ctx)?;
    ch.evals(1);
    ch.state(&(shape.name, memory, &status));
    ch.outcome(&(shape.name, opened));
    Ok(())
}

fn main() {
    mccore::main("C11", Level::ModelChecking, "states are (storage, archive opened, status of each of the 27 resources); every execution opens it, completes it resource by resource, and opens it again", |run| {
        let (res, contents) = resources();
        let w = World { res, contents };
        let few = [Intact, Missing, WrongSchema];
        let some = [Intact, Missing, NoSchema, WrongSchema, HeaderHigh, EmptyStruct];
        if run.thorough {
            run.explore("deviations", "any <=2 of the 27 resources of five nested archives (or the archive that is opened) in any of 14 or 17 conditions", 2, |ch| deviations(ch, &w, &few, "-"));
            run.explore("more-deviations", "any <=3 of them in any of 5 conditions", 3, |ch| deviations(ch, &w, &some, ""));
        } else {
            run.explore("deviations", "any <=2 of the 27 resources of five nested archives (or the archive that is opened) in any of 14 or 17 conditions, in the second sub-archive 2", 2, |ch| deviations(ch, &w, &few, "osub"));
        }
        let n = if run.thorough { 3 } else { 2 };
        run.explore("shapes", &format!("95 archives: all with up to 2 resources, many with 3 or 5, any <={} of their resources in any condition", n), n, shaped);
        run.explore("subsets-top", "every subset of the resources and sub-archives of Top", 0, |ch| subsets(ch, &w, 0));
        run.explore("subsets-sub", "every subset of the resources and sub-archives of Sub", 0, |ch| subsets(ch, &w, 3));
        run.explore("subsets-leaf", "every subset of the resources of Leaf", 0, |ch| subsets(ch, &w, 4));
    })
}
