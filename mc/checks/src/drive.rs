//! Writing archives in any order and interleaving.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

/// The steps that write one part (or create one archive), in their order.
pub struct Thread {
    pub part: Option<usize>,
    pub archive: usize,
    pub content: Content,
    /// 0 and 1: at once, in two ways; 2: incrementally
    pub way: usize,
    pub pc: usize,
    writer: Option<Box<dyn Writer>>,
}

impl Thread {
    pub fn create(archive: usize) -> Thread {
        Thread { part: None, archive, content: Content::Raw(vec![]), way: 0, pc: 0, writer: None }
    }
    /// `part` is a number in `parts()`
    pub fn write(part: usize, content: Content, way: usize) -> Thread {
        let p = &parts()[part];
        let way = if p.kind == Kind::Multi { 2 } else if p.kind == Kind::Vector { way } else { way % 2 };
        Thread { part: Some(part), archive: Builders::archive_of(p.path), content, way, pc: 0, writer: None }
    }
    fn len(&self) -> usize {
        if self.part.is_some() && self.way == 2 {
            2 + count(&self.content)
        } else {
            1
        }
    }
}

pub struct Drive {
    pub memory: bool,
    pub dir: PathBuf,
    pub root: Storage,
    pub threads: Vec<Thread>,
    builders: Builders,
    parts: Vec<Part>,
    /// parts that are complete
    pub done: BTreeMap<usize, Content>,
    pub created: BTreeSet<usize>,
    _tmp: Option<mccore::scratch::TempDir>,
}

impl Drop for Drive {
    fn drop(&mut self) {
        for t in &mut self.threads {
            if let Some(w) = t.writer.take() {
                let _ = catch(|| drop(w));
            }
        }
    }
}

impl Drive {
    /// Top is created.
    pub fn new(memory: bool, tmp: mccore::scratch::TempDir) -> Result<Drive, String> {
        let root = storage(memory, &tmp.path);
        let mut d = Drive {
            memory,
            dir: tmp.path.clone(),
            root,
            threads: vec![],
            builders: Builders::default(),
            parts: parts(),
            done: BTreeMap::new(),
            created: BTreeSet::new(),
            _tmp: Some(tmp),
        };
        d.create(0)?;
        Ok(d)
    }
    fn create(&mut self, n: usize) -> Result<(), String> {
        self.builders.create(n, &self.root).map_err(|e| format!("creating {:?}: {}", ARCHIVES[n], e))?;
        self.created.insert(n);
        Ok(())
    }
    /// Threads that can take their next step.
    pub fn enabled(&self) -> Vec<usize> {
        (0..self.threads.len())
            .filter(|i| {
                let t = &self.threads[*i];
                let ready = match t.part {
                    Some(_) => self.builders.exists(t.archive),
                    None => match t.archive {
                        0 => true,
                        1 | 3 => self.builders.exists(0),
                        2 => self.builders.exists(1),
                        _ => self.builders.exists(3),
                    },
                };
                t.pc < t.len() && ready
            })
            .collect()
    }
    pub fn describe(&self, i: usize) -> String {
        let t = &self.threads[i];
        match t.part {
            None => format!("create {}", ARCHIVES[t.archive].0),
            Some(p) => {
                let path = self.parts[p].path;
                if t.way < 2 {
                    format!("set {} to {:?} (way {})", path, short(&t.content), t.way)
                } else if t.pc == 0 {
                    format!("start {}", path)
                } else if t.pc <= count(&t.content) {
                    format!("append {} to {}", t.pc - 1, path)
                } else {
                    format!("close {}", path)
                }
            }
        }
    }
    pub fn step(&mut self, i: usize) -> Result<(), String> {
        let what = self.describe(i);
        let fail = |e: String| format!("{}: {}", what, e);
        let (pc, part, archive) = {
            let t = &mut self.threads[i];
            t.pc += 1;
            (t.pc - 1, t.part, t.archive)
        };
        let p = match part {
            None => return self.create(archive).map_err(fail),
            Some(p) => p,
        };
        let path = self.parts[p].path;
        if self.threads[i].way < 2 {
            // an earlier version is not intact while it is replaced
            self.builders.set(path, &self.threads[i].content, self.threads[i].way).map_err(|e| fail(e.to_string()))?;
            self.done.insert(p, self.threads[i].content.clone());
        } else if pc == 0 {
            self.done.remove(&p);
            self.threads[i].writer = Some(self.builders.start(path).map_err(|e| fail(e.to_string()))?);
        } else {
            let t = &mut self.threads[i];
            if pc <= count(&t.content) {
                t.writer.as_mut().unwrap().push(&t.content, pc - 1).map_err(|e| fail(e.to_string()))?;
            } else {
                let w = t.writer.take().unwrap();
                let got = w.close().map_err(|e| fail(e.to_string()))?;
                let want = self.parts[p].val(&t.content);
                if got != want {
                    return Err(fail(format!("returns {:?} instead of {:?}", got, want)));
                }
                self.done.insert(p, t.content.clone());
            }
        }
        Ok(())
    }
    /// Makes what was written of a part something that was written with another schema.
    pub fn outdate(&mut self, i: usize) {
        let p = &parts()[i];
        for r in p.resources(&sample(p.kind, 7, kinds_of(p.path))) {
            std::fs::write(self.dir.join(format!("{}.schema", r.path)), format!("once {}", r.schema)).unwrap();
        }
        self.done.remove(&i);
        self.threads.retain(|t| t.part != Some(i));
    }
    /// Creates an archive by its parent's builder.
    pub fn create_again(&mut self, n: usize) -> Result<(), flatdata::ResourceStorageError> {
        self.builders.create(n, &self.root)
    }
    /// Drops the writer of a thread, which ends; what its drop panics with.
    pub fn drop_writer(&mut self, i: usize) -> Option<Result<(), String>> {
        let w = self.threads[i].writer.take();
        self.threads[i].pc = self.threads[i].len();
        w.map(|w| catch(|| drop(w)))
    }
    /// Lets a thread do what it did last once more.
    pub fn again(&mut self, i: usize) {
        self.threads[i].pc -= 1;
    }
    /// Lets a thread begin anew; its writer is dropped.
    pub fn restart(&mut self, i: usize) {
        self.give_up(i);
        self.threads[i].pc = 0;
    }
    /// Lets a thread end; its writer is dropped.
    pub fn give_up(&mut self, i: usize) {
        if let Some(w) = self.threads[i].writer.take() {
            let _ = catch(|| drop(w));
        }
        self.threads[i].pc = self.threads[i].len();
    }
    /// Whether the thread has begun and can go on from where it is.
    pub fn writing(&self, i: usize) -> bool {
        self.threads[i].writer.is_some()
    }
    /// Runs everything to the end, in order.
    pub fn finish(&mut self) -> Result<(), String> {
        loop {
            match self.enabled().first() {
                Some(i) => self.step(*i)?,
                None => return Ok(()),
            }
        }
    }
    /// Runs everything to the end in an order that is chosen.
    pub fn interleave(&mut self, ch: &mut Ch, each: &dyn Fn(&Drive, &mut Ch) -> Result<(), String>) -> Result<(), String> {
        loop {
            let e = self.enabled();
            if e.is_empty() {
                return Ok(());
            }
            let i = *ch.pick(&e);
            ch.step(|| self.describe(i));
            self.step(i)?;
            let pcs: Vec<usize> = self.threads.iter().map(|t| t.pc).collect();
            let what: Vec<_> = self.threads.iter().map(|t| (t.part, t.archive, &t.content, t.way)).collect();
            ch.state(&(self.memory, what, pcs));
            each(self, ch)?;
        }
    }
    /// Drops builders; nothing of them may be open.
    pub fn drop_builders(&mut self, which: &[usize]) {
        assert!(self.threads.iter().all(|t| t.writer.is_none() || !which.contains(&t.archive)));
        for n in which {
            match n {
                0 => self.builders.top = None,
                1 => self.builders.subs[0] = None,
                3 => self.builders.subs[1] = None,
                2 => self.builders.leaves[0] = None,
                _ => self.builders.leaves[1] = None,
            }
        }
    }
    pub fn drop_root(&mut self) {
        self.root = storage(true, &self.dir);
    }

    /// What opening the archive in this directory of ARCHIVES shows.
    pub fn expected(&self, root: usize) -> Option<Seen> {
        let intact = |path: &str| {
            if path.ends_with(".archive") {
                return ARCHIVES.iter().enumerate().any(|(i, a)| join(a.0, &format!("{}.archive", a.1)) == path && self.created.contains(&i));
            }
            self.done.keys().any(|p| self.parts[*p].paths().iter().any(|x| x.0 == path))
        };
        let val = |p: &Part| {
            let i = self.parts.iter().position(|q| q.path == p.path).unwrap();
            p.val(&self.done[&i])
        };
        expect(ARCHIVES[root].0, &intact, &val)
    }
    /// Every file and its bytes.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut r = BTreeMap::new();
        for n in &self.created {
            let (dir, name, schema, _) = ARCHIVES[*n];
            let path = join(dir, &format!("{}.archive", name));
            r.insert(format!("{}.schema", path), schema.as_bytes().to_vec());
            r.insert(path, framed(&[]));
        }
        for (p, c) in &self.done {
            for x in self.parts[*p].resources(c) {
                r.insert(format!("{}.schema", x.path), x.schema.into_bytes());
                r.insert(x.path, framed(&x.payload));
            }
        }
        r
    }
}

pub fn short(c: &Content) -> String {
    let s = format!("{:?}", c);
    if s.len() > 200 {
        format!("{}...", &s[..200])
    } else {
        s
    }
}

/// Opens an archive and reads everything.
pub fn open_and_see(root: usize, s: &Storage) -> Result<Result<Seen, String>, String> {
    use flatdata::Archive;
    catch(|| match ARCHIVES[root].1 {
        "Top" => Top::open(s.clone()).map(|a| see(&a)).map_err(|e| e.to_string()),
        "Sub" => Sub::open(s.subdir(ARCHIVES[root].0)).map(|a| see_a_sub(&a)).map_err(|e| e.to_string()),
        _ => Leaf::open(s.subdir(ARCHIVES[root].0)).map(|a| see_a_leaf(&a)).map_err(|e| e.to_string()),
    })
}

pub fn compare(got: Result<Result<Seen, String>, String>, want: Option<Seen>, ctx: &str) -> Result<bool, String> {
    match (got, want) {
        (Err(p), _) => Err(format!("{}: opening or reading panics: {}", ctx, p)),
        (Ok(Ok(x)), Some(w)) => {
            if x.archives != w.archives {
                return Err(format!("{}: shows the archives {:?} instead of {:?}", ctx, x.archives, w.archives));
            }
            for k in w.parts.keys().chain(x.parts.keys()) {
                if x.parts.get(k) != w.parts.get(k) {
                    return Err(format!("{}: shows {} as {:.300} instead of {:.300}", ctx, k, format!("{:?}", x.parts.get(k)), format!("{:?}", w.parts.get(k))));
                }
            }
            Ok(true)
        }
        (Ok(Err(_)), None) => Ok(false),
        (Ok(Ok(x)), None) => Err(format!("{}: opens and shows {:?}", ctx, x.parts.keys().collect::<Vec<_>>())),
        (Ok(Err(e)), Some(_)) => Err(format!("{}: does not open: {}", ctx, e)),
    }
}

/// All contents up to a size for a part.
pub fn contents(kind: Kind, kinds: usize, thorough: bool) -> Vec<Content> {
    match kind {
        Kind::Struct => (0..8).map(Content::Struct).collect(),
        Kind::Vector => {
            let mut r: Vec<Content> = (0..6u64).map(|n| Content::Vector((0..n).map(|i| i + 2).collect())).collect();
            r.push(Content::Vector(vec![0, 0, 0]));
            r.push(Content::Vector(vec![1, 0, 1]));
            r.push(Content::Vector((0..1000).collect()));
            if thorough {
                r.push(Content::Vector((0..300_000).collect()));
            }
            r
        }
        Kind::Multi => {
            let mut one: Vec<Vec<(usize, u64)>> = vec![vec![]];
            for a in 0..kinds {
                one.push(vec![(a, 1)]);
                for b in 0..kinds {
                    one.push(vec![(a, 7), (b, 8)]);
                }
            }
            let mut r: Vec<Buckets> = vec![vec![]];
            let mut from = 0;
            for _ in 0..if thorough { 3 } else { 2 } {
                let to = r.len();
                for i in from..to {
                    for b in &one {
                        let mut l = r[i].clone();
                        l.push(b.clone());
                        r.push(l);
                    }
                }
                from = to;
            }
            r.push(vec![(0..100).map(|i| (i as usize % kinds, i)).collect()]);
            r.push((0..100).map(|i| (0..i % 3).map(|j| (j as usize % kinds, i)).collect()).collect());
            r.push(vec![vec![]; 20]);
            r.into_iter().map(Content::Multi).collect()
        }
        Kind::Raw => {
            let mut n: Vec<usize> = (0..26).collect();
            n.extend(&[4079, 4080, 4081, 4095, 4096, 4097, 65536, 100_000]);
            if thorough {
                n.push(40 << 20);
            }
            let mut r: Vec<Content> = n.into_iter().map(|n| Content::Raw((0..n).map(|i| (i * 7 + 1) as u8).collect())).collect();
            r.push(Content::Raw(vec![0; 16]));
            r.push(Content::Raw(vec![255; 16]));
            r
        }
    }
}

/// Adds threads for everything that is mandatory and not there yet, with sample contents.
pub fn complete(d: &mut Drive) -> Result<(), String> {
    if !d.created.contains(&1) && !d.threads.iter().any(|t| t.part.is_none() && t.archive == 1) {
        d.threads.push(Thread::create(1));
    }
    d.finish()?;
    for (i, p) in parts().iter().enumerate() {
        let a = Builders::archive_of(p.path);
        if !p.optional && d.created.contains(&a) && !d.done.contains_key(&i) {
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 1, kinds_of(p.path)), 0));
        }
    }
    d.finish()
}
/// The archives a part needs, without Top.
pub fn archives_for(archive: usize) -> &'static [usize] {
    match archive {
        0 => &[],
        1 => &[1],
        2 => &[1, 2],
        3 => &[3],
        _ => &[3, 4],
    }
}

pub type Judge = fn(&mut Drive, &mut Ch, &str) -> Result<(), String>;

/// One part with all contents and all ways to write it, also over an earlier content.
/// Numbers of elements, buckets or bytes around powers of two; and how they are arranged.
fn sizes(kind: Kind, thorough: bool) -> Vec<(usize, bool)> {
    let l = iters::lengths(34, if thorough { 18 } else { 16 });
    match kind {
        Kind::Struct => vec![],
        Kind::Vector => l.into_iter().filter(|n| *n > 5).map(|n| (n, false)).collect(),
        Kind::Multi => l.into_iter().filter(|n| *n > 2 && *n < 1 << 15).flat_map(|n| vec![(n, false), (n, true)]).collect(),
        Kind::Raw => l.into_iter().filter(|n| *n > 25).map(|n| (n, false)).collect(),
    }
}
fn sized(kind: Kind, kinds: usize, (n, many): (usize, bool)) -> Content {
    match kind {
        Kind::Vector => Content::Vector((1..=n as u64).collect()),
        Kind::Multi if many => Content::Multi((0..n).map(|i| (0..(i + n) % 3).map(|j| ((i + j) % kinds, i as u64)).collect()).collect()),
        Kind::Multi => Content::Multi(vec![vec![(0, 1)], (0..n).map(|i| (i % kinds, i as u64)).collect(), vec![(0, 2)]]),
        Kind::Raw => Content::Raw((0..n).map(|i| (i * 7 + i / 256 + 1) as u8).collect()),
        Kind::Struct => unreachable!(),
    }
}

pub fn one_part(ch: &mut Ch, judge: Judge) -> Result<(), String> {
    let memory = ch.flag();
    let ps = parts();
    let i = ch.choose(ps.len());
    let p = &ps[i];
    let cs = contents(p.kind, kinds_of(p.path), ch.thorough);
    let kinds = kinds_of(p.path);
    let more = sizes(p.kind, ch.thorough);
    let k = ch.choose(cs.len() + more.len());
    let content = if k < cs.len() { cs[k].clone() } else { sized(p.kind, kinds, more[k - cs.len()]) };
    let way = ch.choose(match p.kind {
        Kind::Struct => 2,
        Kind::Vector => 3,
        _ => 1,
    });
    let earlier = match if k < cs.len() { ch.choose(3) } else { 2 * ch.choose(2) } {
        0 => None,
        1 => Some(cs[0].clone()),
        _ => Some(cs[cs.len() / 2].clone()),
    };
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    for a in archives_for(Builders::archive_of(p.path)) {
        d.threads.push(Thread::create(*a));
    }
    let rewritten = earlier.is_some();
    if let Some(c) = earlier {
        d.threads.push(Thread::write(i, c, (way + 1) % 3));
    }
    d.threads.push(Thread::write(i, content.clone(), way));
    complete(&mut d)?;
    let ctx = format!("{} {:.200} written (way {}, {}), memory {}", p.path, short(&content), way, if rewritten { "over another content" } else { "once" }, memory);
    ch.step(|| ctx.clone());
    ch.state(&(memory, i, k, way, rewritten));
    ch.outcome(&(i, way));
    judge(&mut d, ch, &ctx)
}

/// Any set of optional parts and archives.
pub fn presence(ch: &mut Ch, judge: Judge) -> Result<(), String> {
    let memory = ch.flag();
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let osub = ch.flag();
    let leaf = ch.flag();
    d.threads.push(Thread::create(1));
    if osub {
        d.threads.push(Thread::create(3));
    }
    if leaf {
        d.threads.push(Thread::create(2));
    }
    if osub && leaf {
        d.threads.push(Thread::create(4));
    }
    for (i, p) in parts().iter().enumerate() {
        let a = Builders::archive_of(p.path);
        // in osub and its leaf everything that can be absent is, or nothing
        if p.optional && (a == 0 || a == 1 || a == 2 && leaf) && ch.flag() {
            d.threads.push(Thread::write(i, sample(p.kind, i as u64 + 3, kinds_of(p.path)), i % 3));
        }
    }
    complete(&mut d)?;
    let there: Vec<usize> = d.done.keys().cloned().collect();
    ch.state(&(memory, &there, &d.created));
    ch.outcome(&(osub, leaf));
    let ctx = format!("parts {:?}, archives {:?}, memory {}", there, d.created, memory);
    ch.step(|| ctx.clone());
    judge(&mut d, ch, &ctx)
}

/// Every interleaving of writing some parts, each with up to so many elements.
pub fn interleavings(ch: &mut Ch, threads: usize, max: u64, peek: bool, judge: Judge) -> Result<(), String> {
    let memory = ch.flag();
    let ps = parts();
    let mut chosen: Vec<usize> = Vec::new();
    for _ in 0..threads {
        let from = chosen.last().map_or(0, |x| x + 1);
        if from >= ps.len() {
            return Ok(());
        }
        chosen.push(from + ch.choose(ps.len() - from));
    }
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let mut archives: Vec<usize> = vec![];
    for i in &chosen {
        for a in archives_for(Builders::archive_of(ps[*i].path)) {
            if !archives.contains(a) {
                archives.push(*a);
            }
        }
    }
    archives.sort();
    for a in archives {
        d.threads.push(Thread::create(a));
    }
    for i in &chosen {
        let p = &ps[*i];
        let (n, way) = match p.kind {
            Kind::Vector => (ch.choose(max as usize + 1) as u64, 2),
            Kind::Multi => (ch.choose(max as usize + 1) as u64, 2),
            _ => (3, 0),
        };
        let c = match p.kind {
            Kind::Vector => Content::Vector((0..n).map(|k| k + 10 * *i as u64 + 1).collect()),
            Kind::Multi => Content::Multi((0..n).map(|k| (0..(k + 1) % 3).map(|j| ((k + j) as usize % kinds_of(p.path), k + j + 10 * *i as u64)).collect()).collect()),
            k => sample(k, n + *i as u64, 1),
        };
        d.threads.push(Thread::write(*i, c, way));
    }
    d.interleave(ch, &|d, ch| {
        if peek {
            look(d, ch)
        } else {
            Ok(())
        }
    })?;
    complete(&mut d)?;
    let ctx = format!("after interleaved writing of {:?}, memory {}", chosen.iter().map(|i| ps[*i].path).collect::<Vec<_>>(), memory);
    ch.outcome(&chosen);
    judge(&mut d, ch, &ctx)
}

/// Opens what there is so far.
pub fn look(d: &Drive, _ch: &mut Ch) -> Result<(), String> {
    for root in &d.created {
        compare(open_and_see(*root, &d.root), d.expected(*root), &format!("opening {:?} in between", ARCHIVES[*root].0))?;
    }
    Ok(())
}

/// All orders of writing everything in Sub and its Leaf.
pub fn orders(ch: &mut Ch, judge: Judge) -> Result<(), String> {
    let memory = ch.flag();
    let mut d = Drive::new(memory, ch.scratch.fresh())?;
    let which = *ch.pick(&[1usize, 3]);
    d.threads.push(Thread::create(which));
    d.threads.push(Thread::create(which + 1));
    for (i, p) in parts().iter().enumerate() {
        let a = Builders::archive_of(p.path);
        if a == which || a == which + 1 {
            // in one step, except multivectors
            let c = if p.kind == Kind::Multi { Content::Multi(vec![]) } else { sample(p.kind, i as u64 + 2, 1) };
            d.threads.push(Thread::write(i, c, 0));
        }
    }
    d.interleave(ch, &|_, _| Ok(()))?;
    complete(&mut d)?;
    ch.outcome(&which);
    judge(&mut d, ch, &format!("after writing {} in some order, memory {}", ARCHIVES[which].0, memory))
}
