//! C12: archives read back as they were written.
#[path = "../shapes.rs"]
mod shapes;
use checks::drive::*;
use checks::*;
use flatdata::Archive;

fn judge(d: &mut Drive, ch: &mut Ch, ctx: &str) -> Result<(), String> {
    let wants: Vec<Option<Seen>> = (0..5).map(|n| d.expected(n)).collect();
    let how = ch.choose(4);
    let s = match how {
        // the same storage, builders alive
        0 => d.root.clone(),
        // the same storage, builders gone
        1 => {
            d.drop_builders(&[0, 1, 2, 3, 4]);
            d.root.clone()
        }
        // a new storage (for memory: none, but the second time)
        2 => {
            if d.memory {
                let _ = open_and_see(0, &d.root);
                d.root.clone()
            } else {
                storage(false, &d.dir)
            }
        }
        // parts used after their parents are gone
        _ => {
            let s = d.root.clone();
            d.drop_builders(&[0, 1, 2, 3, 4]);
            d.drop_root();
            let top = match catch(|| Top::open(s)) {
                Ok(Ok(t)) => t,
                x => return Err(format!("{}: does not open: {:?}", ctx, x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
            };
            let whole = catch(|| see(&top));
            compare(whole.map(Ok), wants[0].clone(), ctx)?;
            let copy = top.clone();
            let (sub, osub) = (top.sub().clone(), top.osub().clone());
            drop(top);
            compare(catch(|| see(&copy)).map(Ok), wants[0].clone(), &format!("{}, a copy whose original was dropped", ctx))?;
            drop(copy);
            compare(catch(|| see_a_sub(&sub)).map(Ok), wants[1].clone(), &format!("{}, sub whose parent was dropped", ctx))?;
            let leaf = sub.leaf().clone();
            drop(sub);
            if let Some(l) = leaf {
                compare(catch(|| see_a_leaf(&l)).map(Ok), wants[2].clone(), &format!("{}, sub/leaf whose parents were dropped", ctx))?;
            } else if wants[2].is_some() {
                return Err(format!("{}: sub/leaf is absent", ctx));
            }
            if let Some(o) = osub {
                compare(catch(|| see_a_sub(&o)).map(Ok), wants[3].clone(), &format!("{}, osub whose parent was dropped", ctx))?;
            } else if wants[3].is_some() {
                return Err(format!("{}: osub is absent", ctx));
            }
            return Ok(());
        }
    };
    for n in 0..5 {
        compare(open_and_see(n, &s), wants[n].clone(), &format!("{}, opening {:?} (how {})", ctx, ARCHIVES[n].0, how))?;
    }
    Ok(())
}

/// Builders of nested archives that outlive their parents.
fn orphans(ch: &mut Ch) -> Result<(), String> {
    let memory = ch.flag();
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let which = *ch.pick(&[1usize, 3]);
    let ps = parts();
    for (i, p) in ps.iter().enumerate() {
        if !p.optional && Builders::archive_of(p.path) == 0 {
            d.threads.push(Thread::write(i, sample(p.kind, 3, 3), 0));
        }
    }
    d.threads.push(Thread::create(1));
    if which == 3 {
        d.threads.push(Thread::create(3));
    }
    d.finish()?;
    let root = d.root.clone();
    // when the parents go away: 0 before anything nested is written, 1 in between
    let drop_root = ch.flag();
    if drop_root {
        d.drop_root();
    }
    let leaf_first = ch.flag();
    if leaf_first {
        d.threads.push(Thread::create(which + 1));
        d.finish()?;
        d.drop_builders(&[0, which]);
    } else {
        d.drop_builders(&[0]);
    }
    ch.step(|| format!("builder of Top is gone, of Sub: {}", leaf_first));
    for (i, p) in ps.iter().enumerate() {
        let a = Builders::archive_of(p.path);
        if (a == which && !leaf_first) || (a == which + 1 && leaf_first) {
            let way = ch.choose(2) * 2;
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, 1), way));
        }
    }
    d.finish()?;
    // what the parent is missing is written through a new builder of the nested archive only, so
    // only the nested archive can open
    d.root = root;
    let n = if leaf_first { which + 1 } else { which };
    ch.state(&(memory, which, leaf_first, drop_root));
    ch.outcome(&(which, leaf_first));
    compare(open_and_see(n, &d.root), d.expected(n), "written after its parent's builder was dropped")?;
    if !memory {
        compare(open_and_see(n, &storage(false, &d.dir)), d.expected(n), "written after its parent's builder was dropped, new storage")?;
    }
    compare(open_and_see(0, &d.root), d.expected(0), "the parent of an archive written after its builder was dropped")?;
    Ok(())
}

define_archive!(NorthSub, NorthSubBuilder, "archive NorthSub"; ; ; ; (n_raw, set_n_raw, "n raw", false); );
define_archive!(SouthSub, SouthSubBuilder, "archive SouthSub"; ; ; ; (s_raw, set_s_raw, "s raw", false); );
define_archive!(North, NorthBuilder, "archive North"; ;
    (n_list, set_n_list, start_n_list, E7, "n list", false); ;
    (north, set_north, "raw named like the archive", true);
    (both, NorthSub, NorthSubBuilder, "n both", false));
define_archive!(South, SouthBuilder, "archive South"; ; ;
    (s_multi, start_s_multi, Var3, "s multi", s_multi_index, Idx24, false);
    (n_list_index, set_n_list_index, "raw named like an index", true);
    (both, SouthSub, SouthSubBuilder, "s both", false));

/// Two archives in one directory, whose sub-archives are in one directory as well.
fn neighbours(ch: &mut Ch) -> Result<(), String> {
    let dir = ch.scratch.fresh();
    let memory = ch.choose(2) == 1;
    let later = ch.choose(2) == 1; // opened by a storage of its own
    let s = storage(memory, &dir.path);
    let mut todo: Vec<usize> = (0..8).collect();
    let mut done: Vec<usize> = Vec::new();
    let (mut n, mut m): (Option<NorthBuilder>, Option<SouthBuilder>) = (None, None);
    let names = ["create North", "its n_list", "its north", "its both", "create South", "its s_multi", "its n_list_index", "its both"];
    while !todo.is_empty() {
        let ready: Vec<usize> = todo.iter().cloned().filter(|x| x % 4 == 0 || done.contains(&(x / 4 * 4))).collect();
        let op = *ch.pick(&ready);
        todo.retain(|x| *x != op);
        done.push(op);
        ch.step(|| names[op].to_string());
        let ctx = || format!("{}: {:?}", if memory { "memory" } else { "files" }, done.iter().map(|x| names[*x]).collect::<Vec<_>>());
        let fail = |e: String| format!("{}: {}", ctx(), e);
        match op {
            0 => n = Some(NorthBuilder::new(s.clone()).map_err(|e| fail(e.to_string()))?),
            4 => m = Some(SouthBuilder::new(s.clone()).map_err(|e| fail(e.to_string()))?),
            1 => {
                let mut w = n.as_ref().unwrap().start_n_list().map_err(|e| fail(e.to_string()))?;
                for i in 0..3 {
                    E7::set(&mut w.grow().map_err(|e| fail(e.to_string()))?, i);
                }
                w.close().map_err(|e| fail(e.to_string()))?;
            }
            2 => n.as_ref().unwrap().set_north(b"north").map_err(|e| fail(e.to_string()))?,
            3 => n.as_ref().unwrap().both().map_err(|e| fail(e.to_string()))?.set_n_raw(b"north sub").map_err(|e| fail(e.to_string()))?,
            5 => {
                let mut w = m.as_ref().unwrap().start_s_multi().map_err(|e| fail(e.to_string()))?;
                for i in 0..2 {
                    Var3::add(&mut w.grow().map_err(|e| fail(e.to_string()))?, 0, i);
                }
                w.close().map_err(|e| fail(e.to_string()))?;
            }
            6 => m.as_ref().unwrap().set_n_list_index(b"south index").map_err(|e| fail(e.to_string()))?,
            _ => m.as_ref().unwrap().both().map_err(|e| fail(e.to_string()))?.set_s_raw(b"south sub").map_err(|e| fail(e.to_string()))?,
        }
        ch.state(&(memory, later, &{
            let mut d = done.clone();
            d.sort();
            d
        }));
        let there = |x: usize| done.contains(&x);
        let s = if later && !memory { storage(false, &dir.path) } else { s.clone() };
        let north = North::open(s.clone());
        let want = there(0) && there(1) && there(3);
        if north.is_ok() != want {
            return Err(format!("{}: North {}", ctx(), north.map_or_else(|e| format!("does not open: {}", e), |_| "opens".to_string())));
        }
        ch.outcome(&(0, want));
        if let Ok(a) = north {
            let got = (array_vals(&a.n_list()), a.north().map(|x| x.to_vec()), a.both().n_raw().to_vec());
            let want = ((0..3).map(E7::values).collect::<Vec<_>>(), if there(2) { Some(b"north".to_vec()) } else { None }, b"north sub".to_vec());
            if got != want {
                return Err(format!("{}: North has {:?} instead of {:?}", ctx(), got, want));
            }
        }
        let south = South::open(s.clone());
        let want = there(4) && there(5) && there(7);
        if south.is_ok() != want {
            return Err(format!("{}: South {}", ctx(), south.map_or_else(|e| format!("does not open: {}", e), |_| "opens".to_string())));
        }
        ch.outcome(&(1, want));
        if let Ok(a) = south {
            let got = (
                view_vals::<Idx24, Var3>(&a.s_multi()),
                a.n_list_index().map(|x| x.to_vec()),
                a.both().s_raw().to_vec(),
            );
            let want = (multi_vals::<Var3>(&vec![vec![(0, 0)], vec![(0, 1)]]), if there(6) { Some(b"south index".to_vec()) } else { None }, b"south sub".to_vec());
            if got != want {
                return Err(format!("{}: South has {:?} instead of {:?}", ctx(), got, want));
            }
        }
    }
    Ok(())
}

fn main() {
    mccore::main("C12", Level::ModelChecking, "states are (storage, parts with contents, progress of every writer); every execution is judged by opening all five archives in one of four ways", |run| {
        let t = run.thorough;
        run.explore("contents", "every part with all contents up to a size (multivectors: all lists of <=2 or 3 buckets of <=2 elements) and of sizes around powers of two to 2^16, all ways of writing, first or over an earlier content", 0, |ch| one_part(ch, judge));
        run.explore("presence", "every set of the optional parts of Top, sub and its leaf", 0, |ch| presence(ch, judge));
        run.explore("interleavings-2", "all interleavings of writing any two parts (incrementally where possible, 0..=2 elements) and creating their archives", 0, move |ch| interleavings(ch, 2, 2, false, judge));
        run.explore("in-between", "all interleavings of writing any two parts with <=1 element, opening all archives after every step", 0, move |ch| interleavings(ch, 2, 1, true, judge));
        run.explore("orders", "all orders of creating and writing everything in a sub-archive and its leaf", 0, |ch| orders(ch, judge));
        let bits = if t { 28 } else { 26 };
        run.explore("large", &format!("raw data and vectors of sizes around powers of two to 2^{}, set at once, first or over another content", bits), 0, move |ch| big::large(ch, bits, big::judge_opened));
        run.explore_with("huge", "raw data and vectors of 2, 4 and 8 GiB in files with holes", 0, 2, &|ch: &mut Ch| big::huge(ch, &[31, 32, 33], big::judge_opened));
        run.explore("shapes", "95 archives: all with up to 2 resources, many with 3 or 5, in any order, opened after each", 0, |ch| {
            shapes::written(ch, |_, shape, _, _, s, there, intact, ctx| shape.judge(s, shape.expect("", there, intact), ctx).map(|_| ()))
        });
        run.explore("orphans", "builders of nested archives used after those of their parents", 0, orphans);
        run.explore("neighbours", "two archives in one directory with sub-archives in one directory, created and written in all orders, opened after each step", 0, neighbours);
        if t {
            run.explore("interleavings-3", "all interleavings of writing any three parts with <=1 element", 0, move |ch| interleavings(ch, 3, 1, false, judge));
        }
    })
}
