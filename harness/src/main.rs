//! oxh: drives the public API of oxyroot from scenario programs (one JSON object per line on
//! stdin) and reports every call, callback, provider poll and tracked write as one JSON event
//! per line on stdout.  A panic of the code under test is an event like any other.
mod cursor;
#[cfg(feature = "rows")]
mod rows;
#[cfg(feature = "rows")]
mod shapes;
mod sys;
#[macro_use]
mod val;

use oxyroot::{Branch, Named, Object, ReaderTree, RootFile, StateCallBack, WriterTree};
#[allow(unused_imports)]
use oxyroot::Slice;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;
#[allow(unused_imports)]
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use val::*;

thread_local! {
    /// fields of the current op's "tag" object: copied into the event of that op
    static TAG: RefCell<Map<String, Value>> = RefCell::new(Map::new());
    /// the world whose tree is being written
    static WORLD: std::cell::Cell<*mut World> = const { std::cell::Cell::new(std::ptr::null_mut()) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

pub fn emit(v: Value) {
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        serde_json::to_writer(&mut *o, &v).unwrap();
        o.push(b'\n');
    });
}
pub fn flush_events() {
    OUT.with(|o| {
        if let Ok(mut o) = o.try_borrow_mut() {
            let mut s: &[u8] = &o;
            while !s.is_empty() {
                let n = unsafe { libc::syscall(libc::SYS_write, 1, s.as_ptr(), s.len()) };
                if n <= 0 {
                    break;
                }
                s = &s[n as usize..];
            }
            o.clear();
        }
    });
}

/// groups consecutive values of one column into blocks of `blk`
pub struct Blocks {
    blk: u64,
    n: u64,
    h: u64,
    first: String,
}
impl Blocks {
    pub fn new(blk: u64) -> Self {
        Blocks { blk: blk.max(1), n: 0, h: FNV0, first: String::new() }
    }
    pub fn push(&mut self, tok: String) -> Option<(u64, String)> {
        self.n += 1;
        self.h = fnv(self.h, tok.as_bytes());
        self.h = fnv(self.h, b"|");
        if self.n == 1 {
            self.first = tok;
        }
        if self.n >= self.blk {
            self.take()
        } else {
            None
        }
    }
    pub fn take(&mut self) -> Option<(u64, String)> {
        if self.n == 0 {
            return None;
        }
        let r = if self.n == 1 { (1, short(&self.first)) } else { (self.n, format!("#{}:{:016x}", self.n, self.h)) };
        self.n = 0;
        self.h = FNV0;
        Some(r)
    }
}

struct Provider<T> {
    g: Gen,
    idxs: Option<Vec<u64>>,
    n: u64,
    i: u64,
    t: String,
    b: u64,
    blocks: Blocks,
    quiet: bool,
    /// report every time the provider has nothing to give, not only the first
    every: bool,
    ended: bool,
    /// panic at this element
    boom: Option<u64>,
    _p: std::marker::PhantomData<T>,
}
impl<T: WVal> Iterator for Provider<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.boom == Some(self.i) {
            panic!("provider gives up");
        }
        if self.i >= self.n {
            if let Some((n, tok)) = self.blocks.take() {
                if !self.quiet {
                    emit(json!({"ev":"Poll","t":self.t,"b":self.b,"n":n,"tok":tok}));
                }
            }
            if !self.quiet && (self.every || !self.ended) {
                self.ended = true;
                emit(json!({"ev":"PollEnd","t":self.t,"b":self.b}));
            }
            return None;
        }
        let k = match &self.idxs {
            Some(v) => v[self.i as usize],
            None => self.i,
        };
        self.i += 1;
        let v = T::gen(&self.g, k);
        if !self.quiet {
            if let Some((n, tok)) = self.blocks.push(token(&v)) {
                emit(json!({"ev":"Poll","t":self.t,"b":self.b,"n":n,"tok":tok}));
            }
        }
        Some(v)
    }
}

/// the path a program uses may be another spelling of the one the specification knows
fn real(o: &Value) -> &str {
    s(o, if o["as"].is_string() { "as" } else { "path" })
}

pub fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap_or_else(|| panic!("harness: op lacks string {k}: {o}"))
}
pub fn u(o: &Value, k: &str, d: u64) -> u64 {
    o[k].as_u64().unwrap_or(d)
}
fn gen_of(o: &Value) -> Gen {
    Gen {
        seed: u(o, "seed", 1),
        edge: o["vals"].as_str() == Some("edge"),
        zero: o["vals"].as_str() == Some("zero"),
        nul: o["vals"].as_str() == Some("nul"),
        lens: o["lens"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default(),
    }
}

type It = Box<dyn Iterator<Item = String>>;

#[derive(Default)]
struct World {
    files: HashMap<String, RootFile>,
    wtrees: HashMap<String, WriterTree>,
    nbranch: HashMap<String, u64>,
    rtrees: HashMap<String, &'static ReaderTree>,
    iters: HashMap<String, It>,
}

pub fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    m.chars().take(160).collect()
}

/// run a call of the code under test; outcome is "ok", "err" or "panic"
fn call<R, E: std::fmt::Debug>(ev: &mut Map<String, Value>, f: impl FnOnce() -> Result<R, E>) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => {
            ev.insert("res".into(), "ok".into());
            Some(r)
        }
        Ok(Err(e)) => {
            ev.insert("res".into(), "err".into());
            ev.insert("why".into(), format!("{e:?}").chars().take(200).collect::<String>().into());
            None
        }
        Err(p) => {
            ev.insert("res".into(), "panic".into());
            ev.insert("why".into(), msg(p).into());
            None
        }
    }
}
fn done(ev: Map<String, Value>) {
    emit(Value::Object(ev));
}
fn ev(name: &str) -> Map<String, Value> {
    let mut m = TAG.with(|t| t.borrow().clone());
    m.insert("ev".into(), name.into());
    m
}

fn bmeta(b: &Branch) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        json!({"name":b.name(),"class":b.class(),"ty":b.item_type_name(),"interp":b.interpretation(),"entries":b.entries()})
    }));
    match r {
        Ok(v) => v,
        Err(p) => json!({"name":"?","class":"?","ty":"panic","interp":msg(p),"entries":-1}),
    }
}

/// follows steps {i | key, as} through lists and maps: "=text", "#length of a list", "map" or "-" (no such key)
fn list_at(l: &oxyroot::rcont::list::ReaderList, steps: &[Value]) -> String {
    let i = steps[0]["i"].as_u64().unwrap() as usize;
    match s(&steps[0], "as") {
        "str" => format!("={}", l.at::<oxyroot::rbase::TObjString>(i).to_string()),
        "map" => map_at(l.at::<oxyroot::rcont::TMap>(i), &steps[1..]),
        _ => {
            let x = l.at::<oxyroot::rcont::list::ReaderList>(i);
            if steps.len() == 1 { format!("#{}", x.len()) } else { list_at(x, &steps[1..]) }
        }
    }
}

fn map_at(m: &oxyroot::rcont::TMap, steps: &[Value]) -> String {
    if steps.is_empty() {
        return "map".into();
    }
    let k = oxyroot::rcont::tmap::Key::String(s(&steps[0], "key").to_string());
    match s(&steps[0], "as") {
        "str" => m.get::<oxyroot::rbase::TObjString>(&k).map_or("-".into(), |x| format!("={}", x.to_string())),
        "map" => m.get::<oxyroot::rcont::TMap>(&k).map_or("-".into(), |x| map_at(x, &steps[1..])),
        _ => m.get::<oxyroot::rcont::list::ReaderList>(&k).map_or("-".into(), |x| {
            if steps.len() == 1 { format!("#{}", x.len()) } else { list_at(x, &steps[1..]) }
        }),
    }
}

/// what a column says of itself without its type
fn light(b: &Branch) -> Value {
    json!({"name": b.name(), "entries": b.entries()})
}

fn find<'a>(t: &'a ReaderTree, o: &Value) -> Option<&'a Branch> {
    if let Some(i) = o["bi"].as_u64() {
        return t.branches().nth(i as usize);
    }
    t.branch(s(o, "b"))
}

fn one(p: &str, r: &mut oxyroot::RBuffer) -> String {
    if let Some((ty, n)) = p.split_once('*') {
        // a fixed number of elements
        let n = n.parse::<usize>().expect("harness: count");
        return with_num!(ty, T => { token(&(0..n).map(|_| r.read_object_into::<T>().unwrap()).collect::<Vec<T>>()) },
            other => panic!("harness: element type {other}"));
    }
    with_rtype!(p, T => token(&r.read_object_into::<T>().unwrap()))
}

/// "i32,f64": a fixed sequence of reads (a struct); "f64*5000": that many elements
fn parse_closure(kind: &str) -> impl FnMut(&mut oxyroot::RBuffer) -> String + 'static {
    let parts: Vec<String> = kind.split(',').map(|x| x.to_string()).collect();
    move |r| {
        if parts.len() == 1 {
            return one(&parts[0], r);
        }
        let v: Vec<String> = parts.iter().map(|p| one(p, r)).collect();
        format!("({})", v.join(";"))
    }
}

fn drain(it: &mut It, max: u64, blk: u64, tag: &str, whole: bool) -> bool {
    let mut bl = Blocks::new(blk);
    let mut k = 0u64;
    let mut sent = 0u64;
    loop {
        // no scenario writes that much: the column does not end
        if k > 30_000_000 || sent > 400_000 {
            emit(json!({"ev":"NextEndless","it":tag}));
            return false;
        }
        if k >= max {
            if let Some((n, tok)) = bl.take() {
                emit(json!({"ev":"Next","it":tag,"n":n,"tok":tok}));
            }
            return true;
        }
        k += 1;
        match catch_unwind(AssertUnwindSafe(|| it.next())) {
            Ok(Some(t)) => {
                if let Some((n, tok)) = bl.push(t) {
                    sent += 1;
                    emit(json!({"ev":"Next","it":tag,"n":n,"tok":tok}));
                }
            }
            Ok(None) => {
                if let Some((n, tok)) = bl.take() {
                    emit(json!({"ev":"Next","it":tag,"n":n,"tok":tok}));
                }
                emit(json!({"ev":"NextEnd","it":tag}));
                return true;
            }
            Err(p) => {
                // the values of a group that was not finished; `whole`: only finished groups are told
                if let (Some((n, tok)), false) = (bl.take(), whole) {
                    emit(json!({"ev":"Next","it":tag,"n":n,"tok":tok}));
                }
                emit(json!({"ev":"NextPanic","it":tag,"why":msg(p)}));
                return false;
            }
        }
    }
}

impl World {
    fn op(&mut self, o: &Value) {
        // ops that only make sense if that file could be opened
        if let Some(f) = o["iff"].as_str() {
            if !self.files.contains_key(f) {
                return;
            }
        }
        TAG.with(|t| *t.borrow_mut() = o["tag"].as_object().cloned().unwrap_or_default());
        match s(o, "op") {
            "create" => {
                let mut e = ev("Create");
                e.insert("f".into(), o["f"].clone());
                e.insert("path".into(), o["path"].clone());
                if let Some(f) = call(&mut e, || RootFile::create(real(o))) {
                    self.files.insert(s(o, "f").into(), f);
                }
                done(e);
            }
            "tree" => {
                let t = WriterTree::new(s(o, "name"));
                self.wtrees.insert(s(o, "t").into(), t);
                self.nbranch.insert(s(o, "t").into(), 0);
                let mut e = ev("NewTree");
                e.insert("t".into(), o["t"].clone());
                e.insert("name".into(), o["name"].clone());
                done(e);
            }
            "branch" => {
                let t = s(o, "t");
                let k = self.nbranch.get_mut(t).unwrap();
                *k += 1;
                let b = *k;
                let mut e = ev("NewBranch");
                for key in ["t", "name", "ty"] {
                    e.insert(key.into(), o[key].clone());
                }
                e.insert("b".into(), b.into());
                let idxs: Option<Vec<u64>> = o["idxs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
                let n = idxs.as_ref().map(|v| v.len() as u64).unwrap_or(u(o, "n", 0));
                e.insert("n".into(), n.into());
                e.insert("blk".into(), u(o, "blk", 1).into());
                let tree = self.wtrees.get_mut(t).unwrap();
                call::<(), ()>(&mut e, || {
                    with_wtype!(s(o, "ty"), T => {
                        tree.new_branch(s(o, "name"), Provider::<T> {
                            g: gen_of(o), idxs, n, i: 0, t: t.into(), b, blocks: Blocks::new(u(o, "blk", 1)),
                            quiet: o["quiet"].as_bool().unwrap_or(false), boom: o["boom"].as_u64(),
                            every: std::env::var_os("OXH_EVERY").is_some(), ended: false, _p: Default::default() })
                    });
                    Ok(())
                });
                done(e);
            }
            "cb" => {
                let t = s(o, "t").to_string();
                let id = o["id"].clone();
                let tree = self.wtrees.get_mut(&t).unwrap();
                emit(json!({"ev":"AddCallback","t":t,"id":id}));
                // another program that runs at the at-th round, in the middle of the writing
                let nested = o["ops"].as_array().cloned().map(|v| (u(o, "at", 0), v));
                let rounds = std::cell::Cell::new(0);
                let quiet = o["quiet"] == true;
                tree.add_callback(Box::new(move |st: StateCallBack| {
                    if let (StateCallBack::Before, Some((at, ops))) = (&st, &nested) {
                        rounds.set(rounds.get() + 1);
                        if rounds.get() == at + 1 {
                            // the tree and the file being written are not in the maps meanwhile
                            let w = WORLD.with(|p| p.get());
                            ops.iter().for_each(|x| unsafe { (*w).op(x) });
                        }
                    }
                    if quiet {
                        return;
                    }
                    let k = match st {
                        StateCallBack::Before => json!({"ev":"CbBefore","t":t,"id":id}),
                        StateCallBack::Branch(n) => json!({"ev":"CbBranch","t":t,"id":id,"name":n}),
                        StateCallBack::After => json!({"ev":"CbAfter","t":t,"id":id}),
                    };
                    emit(k);
                }));
            }
            "write" => {
                emit(json!({"ev":"WriteStart","t":o["t"],"f":o["f"]}));
                let mut e = ev("WriteEnd");
                e.insert("t".into(), o["t"].clone());
                e.insert("f".into(), o["f"].clone());
                let mut tree = self.wtrees.remove(s(o, "t")).unwrap();
                match self.files.remove(s(o, "f")) {
                    Some(mut f) => {
                        WORLD.with(|p| p.set(self as *mut World));
                        call(&mut e, || tree.write(&mut f));
                        self.files.insert(s(o, "f").into(), f);
                    }
                    None => {
                        e.insert("res".into(), "nofile".into());
                    }
                }
                self.wtrees.insert(s(o, "t").into(), tree);
                done(e);
            }
            "close" => {
                let mut e = ev("Close");
                e.insert("f".into(), o["f"].clone());
                match self.files.get_mut(s(o, "f")) {
                    Some(f) => {
                        call(&mut e, || f.close());
                    }
                    None => {
                        e.insert("res".into(), "nofile".into());
                    }
                }
                done(e);
            }
            "drop" => {
                let f = self.files.remove(s(o, "f"));
                let mut e = ev("Drop");
                e.insert("f".into(), o["f"].clone());
                call::<(), ()>(&mut e, || {
                    drop(f);
                    Ok(())
                });
                done(e);
            }
            "droptree" => {
                self.wtrees.remove(s(o, "t"));
            }
            "open" => {
                let mut e = ev("Open");
                e.insert("f".into(), o["f"].clone());
                e.insert("path".into(), o["path"].clone());
                if let Some(f) = call(&mut e, || RootFile::open(real(o))) {
                    self.files.insert(s(o, "f").into(), f);
                }
                done(e);
            }
            "keys" => {
                let mut e = ev("Keys");
                e.insert("f".into(), o["f"].clone());
                if let Some(f) = self.files.get(s(o, "f")) {
                    if let Some((a, b)) = call::<_, ()>(&mut e, || {
                        let a: Vec<String> = f.keys_name().map(|x| x.to_string()).collect();
                        let b: Vec<Value> = f.keys().iter().map(|k| json!([k.name(), k.class_name()])).collect();
                        Ok((a, b))
                    }) {
                        e.insert("names".into(), json!(a));
                        e.insert("keys".into(), json!(b));
                    }
                } else {
                    e.insert("res".into(), "nofile".into());
                }
                done(e);
            }
            "get" => {
                let mut e = ev("Get");
                for k in ["f", "name", "rt"] {
                    e.insert(k.into(), o[k].clone());
                }
                if let Some(f) = self.files.get_mut(s(o, "f")) {
                    if let Some(t) = call(&mut e, || f.get_tree(s(o, "name"))) {
                        let t: &'static ReaderTree = Box::leak(Box::new(t));
                        e.insert("entries".into(), t.entries().into());
                        e.insert("branches".into(), t.branches().map(if o["light"] == true { light } else { bmeta }).collect::<Vec<_>>().into());
                        self.rtrees.insert(s(o, "rt").into(), t);
                    }
                } else {
                    e.insert("res".into(), "nofile".into());
                }
                done(e);
            }
            "all_branches" => {
                let mut e = ev("AllBranches");
                e.insert("rt".into(), o["rt"].clone());
                if let Some(t) = self.rtrees.get(s(o, "rt")) {
                    if let Some(v) = call::<_, ()>(&mut e, || Ok(t.branches_r().into_iter().map(if o["types"] == true { bmeta } else { light }).collect::<Vec<_>>())) {
                        e.insert("branches".into(), v.into());
                    }
                }
                done(e);
            }
            "lookup" => {
                // tree-level lookup; "from" = look up below this top-level branch instead
                let mut e = ev("Lookup");
                for k in ["rt", "name", "from"] {
                    if !o[k].is_null() {
                        e.insert(k.into(), o[k].clone());
                    }
                }
                if let Some(t) = self.rtrees.get(s(o, "rt")) {
                    if let Some(v) = call::<_, ()>(&mut e, || {
                        Ok(match o["from"].as_array() {
                            None => t.branch(s(o, "name")),
                            Some(path) => {
                                let mut b = t.branches().nth(path[0].as_u64().unwrap() as usize).unwrap();
                                for p in &path[1..] {
                                    b = b.branches().nth(p.as_u64().unwrap() as usize).unwrap();
                                }
                                b.branch(s(o, "name"))
                            }
                        }
                        .map(|b| json!({"m": light(b), "sub": b.branches().map(|x| x.name().to_string()).collect::<Vec<_>>(),
                                        "subr": b.branches_r().iter().map(|x| x.name().to_string()).collect::<Vec<_>>()})))
                    }) {
                        match v {
                            Some(v) => {
                                e.insert("hit".into(), true.into());
                                e.insert("found".into(), v)
                            }
                            None => e.insert("hit".into(), false.into()),
                        };
                    }
                }
                done(e);
            }
            "userinfo" => {
                let mut e = ev("UserInfo");
                e.insert("rt".into(), o["rt"].clone());
                if let Some(t) = self.rtrees.get(s(o, "rt")) {
                    let probe: Vec<Value> = o["probe"].as_array().cloned().unwrap_or_default();
                    e.insert("probe".into(), json!(probe));
                    if let Some(v) = call::<_, ()>(&mut e, || {
                        Ok(match t.user_info() {
                            None => Value::Null,
                            Some(l) => json!({"len": l.len(), "empty": l.is_empty(),
                                "vals": probe.iter().map(|p| list_at(l, p.as_array().unwrap())).collect::<Vec<_>>()}),
                        })
                    }) {
                        e.insert("hit".into(), (!v.is_null()).into());
                        if !v.is_null() {
                            e.insert("info".into(), v);
                        }
                    }
                }
                done(e);
            }
            "iter" => {
                let mut e = ev("Iter");
                for k in ["rt", "b", "bi", "ty", "it"] {
                    if !o[k].is_null() {
                        e.insert(k.into(), o[k].clone());
                    }
                }
                let unchecked = o["unchecked"].as_bool().unwrap_or(false);
                match self.rtrees.get(s(o, "rt")).and_then(|t| find(t, o)) {
                    Some(b) => {
                        e.insert("colty".into(), bmeta(b)["ty"].clone());
                        let it = call(&mut e, || -> Result<It, String> {
                            if let Some(k) = s(o, "ty").strip_prefix("struct:") {
                                return Ok(Box::new(b.get_basket(parse_closure(k))));
                            }
                            with_rtype!(s(o, "ty"), T => {
                                if unchecked {
                                    Ok(Box::new(b.as_iter_unchecked::<T>().map(|v| token(&v))))
                                } else {
                                    let i = b.as_iter::<T>().map_err(|e| format!("{e:?}"))?;
                                    Ok(Box::new(i.map(|v| token(&v))))
                                }
                            })
                        });
                        if let Some(it) = it {
                            self.iters.insert(s(o, "it").into(), it);
                        }
                    }
                    None => {
                        e.insert("res".into(), "nobranch".into());
                    }
                }
                done(e);
            }
            "next" => {
                let tag = s(o, "it").to_string();
                if let Some(it) = self.iters.get_mut(&tag) {
                    if !drain(it, u(o, "n", u64::MAX), u(o, "blk", 1), &tag, o.get("whole").is_some()) {
                        self.iters.remove(&tag);
                    }
                }
            }
            "dropit" => {
                self.iters.remove(s(o, "it"));
                emit(json!({"ev":"DropIter","it":o["it"]}));
            }
            "copy" => {
                let mut e = ev("Copy");
                e.insert("from".into(), o["from"].clone());
                e.insert("to".into(), o["to"].clone());
                call(&mut e, || std::fs::copy(s(o, "from"), s(o, "to")));
                done(e);
            }
            "truncate" => {
                let mut e = ev("Truncate");
                e.insert("path".into(), o["path"].clone());
                e.insert("len".into(), o["len"].clone());
                call(&mut e, || {
                    let f = std::fs::OpenOptions::new().write(true).open(s(o, "path"))?;
                    f.set_len(u(o, "len", 0))
                });
                done(e);
            }
            "exit" => {
                // the process ends at once: no destructor runs, nothing more is written
                flush_events();
                unsafe { libc::syscall(libc::SYS_exit_group, 137) };
            }
            "hash" => {
                // digest of a file's bytes as seen through the file system right now
                let b = std::fs::read(s(o, "path")).unwrap_or_default();
                emit(json!({"ev":"Hash","path":o["path"],"len":b.len(),"tok":format!("{:016x}", fnv(FNV0, &b))}));
            }
            "parallel" => {
                // programs on threads of their own; what they report is given one after the other
                let hs: Vec<_> = o["progs"].as_array().unwrap().iter().cloned().map(|p| {
                    std::thread::spawn(move || {
                        let mut w = World::default();
                        for x in p.as_array().unwrap() {
                            if let Err(e) = catch_unwind(AssertUnwindSafe(|| w.op(x))) {
                                emit(json!({"ev":"Panic","op":x["op"],"why":msg(e)}));
                            }
                        }
                        drop(w);
                        OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
                    })
                }).collect();
                for h in hs {
                    let b = h.join().expect("harness: thread");
                    OUT.with(|o| o.borrow_mut().extend(b));
                }
            }
            "chdir" => std::env::set_current_dir(s(o, "path")).expect("harness: chdir"),
            "mkdir" => std::fs::create_dir_all(s(o, "path")).expect("harness: mkdir"),
            "rename" => {
                let mut e = ev("Rename");
                e.insert("from".into(), o["from"].clone());
                e.insert("to".into(), o["to"].clone());
                call(&mut e, || std::fs::rename(s(o, "from"), s(o, "to")));
                done(e);
            }
            "unlink" => {
                let mut e = ev("Unlink");
                e.insert("path".into(), o["path"].clone());
                call(&mut e, || std::fs::remove_file(s(o, "path")));
                done(e);
            }
            "limit" => sys::limit(o["files"].as_u64().unwrap()),
            "clock" => sys::CLOCK.store(o["shift"].as_i64().unwrap(), SeqCst),
            "note" => {
                let mut m = o.as_object().unwrap().clone();
                m.remove("op");
                m.insert("ev".into(), "Note".into());
                emit(Value::Object(m));
            }
            "sys" => {
                let g = |k: &str, d: i64| o[k].as_i64().unwrap_or(d);
                if let Some(p) = o["prefix"].as_str() {
                    sys::set_prefix(p);
                }
                sys::COUNT.store(0, SeqCst);
                sys::FAILED.store(0, SeqCst);
                sys::LOG.lock().unwrap().clear();
                sys::CRASH_AT.store(g("crash_at", -1), SeqCst);
                sys::CRASH_PART.store(g("crash_part", 0), SeqCst);
                sys::FAIL_AT.store(g("fail_at", -1), SeqCst);
                sys::FAIL_MORE.store(g("fail_more", 0), SeqCst);
                sys::FAIL_ERRNO.store(g("errno", 28), SeqCst);
                sys::SHORT.store(g("short", 0), SeqCst);
                sys::SPARSE.store(o["sparse"].as_bool().unwrap_or(false), SeqCst);
                if g("fail_at", -1) >= 0 {
                    emit(json!({"ev":"Arm"}));
                }
                sys::TRACK.store(o["on"].as_bool().unwrap_or(true), SeqCst);
            }
            "syslog" => {
                let l = sys::LOG.lock().unwrap();
                let v: Vec<Value> = if o["list"].as_bool().unwrap_or(true) { l.iter().map(|x| json!([x.0, x.1])).collect() } else { vec![] };
                emit(json!({"ev":"SysLog","count":sys::COUNT.load(SeqCst),"failed":sys::FAILED.load(SeqCst),"writes":v}));
            }
            #[cfg(feature = "rows")]
            "rows_write" | "rows_read" => {
                let mut e = ev(if s(o, "op") == "rows_write" { "RowsWrite" } else { "RowsRead" });
                for k in ["t", "rt", "shape"] {
                    if !o[k].is_null() {
                        e.insert(k.into(), o[k].clone());
                    }
                }
                if s(o, "op") == "rows_write" {
                    *self.nbranch.get_mut(s(o, "t")).unwrap() += u(o, "cols", 0);
                    let t = self.wtrees.get_mut(s(o, "t")).unwrap();
                    if let Some(v) = call(&mut e, || rows::write(t, s(o, "shape"), &gen_of(o), u(o, "n", 0))) {
                        e.insert("rows".into(), v.into());
                    }
                } else if let Some(t) = self.rtrees.get(s(o, "rt")) {
                    if let Some(v) = call(&mut e, || rows::read(t, s(o, "shape"), u(o, "max", u64::MAX))) {
                        e.insert("rows".into(), v.into());
                    }
                } else {
                    e.insert("res".into(), "notree".into());
                }
                done(e);
            }
            "cursor" => cursor::run(o),
            "bname" => cursor::bname(o),
            other => panic!("harness: unknown op {other}"),
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("OXH_PANIC").is_some() {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).expect("harness: bad scenario");
        sys::limit(u64::MAX);
        emit(json!({"ev":"Scenario","id":sc["id"]}));
        sys::TRACK.store(false, SeqCst);
        let mut w = World::default();
        for o in sc["ops"].as_array().expect("harness: ops") {
            flush_events();
            let r = catch_unwind(AssertUnwindSafe(|| w.op(o)));
            if let Err(p) = r {
                let m = msg(p);
                if m.starts_with("harness") {
                    eprintln!("{m}");
                    std::process::exit(3);
                }
                // a panic of the code under test outside a recorded call
                emit(json!({"ev":"Panic","op":o["op"],"why":m}));
            }
        }
        sys::TRACK.store(false, SeqCst);
        drop(w);
        emit(json!({"ev":"End"}));
        flush_events();
    }
    flush_events();
    std::io::stdout().flush().ok();
}
