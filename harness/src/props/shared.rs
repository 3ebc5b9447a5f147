//! C22: nodes that are shared between threads.
use crate::{core::*, guarded, model::*, props::total};
use std::{
    collections::hash_map::DefaultHasher,
    fmt::{Debug, Formatter},
    hash::{Hash, Hasher},
    ops::Deref,
    sync::{
        atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Arc, Mutex, Weak,
    },
};
use yaml_peg::{
    dump, parse,
    parser::{Anchors, Loader, PError},
    repr::{ArcRepr, Repr},
    serde::SerdeError,
    Ind, Node, NodeArc, NodeRc, Yaml, YamlArc,
};

pub const SHARED: Prop = Prop {
    id: "C22",
    rule: "distinct orders in which the operations of the threads were started",
    fixed: Some(shared_fixed),
    case: shared,
    quick: 12_000,
    thorough: 250_000,
    must: &["read", "hash", "equal", "get", "dump", "serialize", "clone", "drop", "set", "edit", "sent", "received", "parse", "reject", "last.thread", "parsed", "built", "deserialize", "freed", "deep documents"],
    stack: 16 << 20,
    assumptions: &["the scheduler of the operating system, random delays and the schedules of the interpreter are the explored interleavings"],
};

/// Whether a type has the trait, decided without requiring it.
macro_rules! probe {
    ($t:ty, $tr:ident) => {{
        struct P<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait F {
            const YES: bool = false;
        }
        impl<T> F for P<T> {}
        #[allow(dead_code)]
        impl<T: $tr> P<T> {
            const YES: bool = true;
        }
        P::<$t>::YES
    }};
}

/// The monitor decides on races by what happens, not by the types.
struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}

/// A user-defined atomic representation, which counts its objects.
pub struct MonArcRepr;
pub struct Obj(Yaml<MonArcRepr>);
#[derive(Clone)]
pub struct MonArc(Arc<Obj>);
// Relaxed: the monitor must not order the threads
static LIVE: AtomicI64 = AtomicI64::new(0);
static CREATED: AtomicU64 = AtomicU64::new(0);

impl Drop for Obj {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl Deref for MonArc {
    type Target = Yaml<MonArcRepr>;
    fn deref(&self) -> &Self::Target {
        &self.0 .0
    }
}
impl Hash for MonArc {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0 .0.hash(h)
    }
}
impl PartialEq for MonArc {
    fn eq(&self, o: &Self) -> bool {
        self.0 .0 == o.0 .0
    }
}
impl Eq for MonArc {}
impl Debug for MonArc {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0 .0.fmt(f)
    }
}
impl Repr for MonArcRepr {
    type Rc = MonArc;
    fn new_rc(y: Yaml<Self>) -> MonArc {
        LIVE.fetch_add(1, Relaxed);
        CREATED.fetch_add(1, Relaxed);
        MonArc(Arc::new(Obj(y)))
    }
}

/// What the readers must see, in every thread and at any time.
struct Want {
    tree: N,
    facts: String,
    hash: u64,
    dump: String,
    json: String,
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn facts<R: Repr>(y: &Node<R>) -> String {
    let mut s = String::new();
    super::nodes::facts(y, &mut s, &mut 1_000_000);
    s
}

fn json<R: Repr>(y: &Node<R>) -> String {
    format!("{:?}", serde_json::to_string(y).map_err(|e| e.to_string()))
}

fn want<R: Repr>(y: &Node<R>) -> Want {
    Want { tree: unbuild(y), facts: facts(y), hash: hash64(y), dump: dump(&[y.clone()], &[]), json: json(y) }
}

/// Every object of the tree.
fn weaks(y: &NodeArc, out: &mut Vec<Weak<YamlArc>>) {
    out.push(Arc::downgrade(y.rc_ref()));
    match y.yaml() {
        Yaml::Seq(v) => v.iter().for_each(|n| weaks(n, out)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            weaks(k, out);
            weaks(v, out);
        }),
        _ => {}
    }
}

struct Scene<R: Repr> {
    wants: Vec<Want>,
    docs: Vec<(String, Option<String>, String)>,
    slots: Vec<Mutex<Option<(usize, Node<R>)>>>,
    seq: AtomicU64,
    gate: AtomicUsize,
    threads: usize,
    ops: usize,
    log: bool,
    /// The operation that all threads do most of the time.
    focus: Option<usize>,
}

#[derive(Default)]
struct Seen {
    counts: std::collections::BTreeMap<&'static str, u64>,
    order: Vec<u64>,
    decisions: u64,
    fails: Vec<(String, String)>,
}

impl Seen {
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) {
        self.decisions += 1;
        if !ok && self.fails.len() < 3 {
            self.fails.push((sig.into(), detail()));
        }
    }
}

fn delay(r: &mut Rng) {
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 if !cfg!(miri) => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

/// The operations of one thread, on its handles of the shared nodes.
fn thread<R: Repr>(sc: &Scene<R>, me: usize, mut shared: Vec<Node<R>>, r: &mut Rng, seen: &mut Seen) {
    // All threads start together
    sc.gate.fetch_add(1, Relaxed);
    while sc.gate.load(Relaxed) < sc.threads {
        std::thread::yield_now();
    }
    let mut private: Vec<(usize, Node<R>)> = vec![];
    for _ in 0..sc.ops {
        delay(r);
        if sc.log {
            seen.order.push(sc.seq.fetch_add(1, Relaxed));
        }
        let i = r.below(shared.len());
        let (n, w) = (&shared[i], &sc.wants[i]);
        let op = match sc.focus {
            Some(op) if r.chance(7, 8) => op,
            _ => r.below(16),
        };
        match op {
            0 => {
                seen.count("read");
                let f = facts(n);
                seen.check(f == w.facts, "a reader sees another content", || format!("{}\ninstead of {}", brief(&f), brief(&w.facts)));
            }
            1 => {
                seen.count("hash");
                let h = hash64(n);
                seen.check(h == w.hash, "a reader gets another hash", || format!("{h} instead of {}", w.hash));
            }
            2 => {
                seen.count("equal");
                let j = r.below(shared.len());
                let (a, b) = (*n == shared[j], w.tree == sc.wants[j].tree);
                seen.check(a == b, "a reader gets another equality", || format!("{a}: {n:?} and {:?}", shared[j]));
            }
            3 => {
                seen.count("get");
                match (n.yaml(), &w.tree.v) {
                    (Yaml::Map(m), V::Map(e)) if !e.is_empty() => {
                        let j = r.below(e.len());
                        let (k, v) = m.iter().nth(j).unwrap();
                        let ok = m.get(k).is_some_and(|x| std::ptr::eq(x.yaml(), v.yaml())) && same(&e[j].1, v, VAL).is_ok();
                        seen.check(ok, "a lookup finds another value", || format!("{k:?} in {n:?}"));
                        let g = n.get(k.clone()).map(|x| std::ptr::eq(x.yaml(), v.yaml()));
                        seen.check(g == Ok(true), "an access finds another value", || format!("{k:?} in {n:?}: {g:?}"));
                    }
                    (Yaml::Seq(_), V::Seq(e)) if !e.is_empty() => {
                        let j = r.below(e.len());
                        let ok = n.get_ind(Ind(j)).is_ok_and(|x| same(&e[j], x, VAL).is_ok());
                        seen.check(ok, "an index finds another value", || format!("{j} in {n:?}"));
                    }
                    _ => {
                        let a = format!("{:?} {:?} {:?} {:?} {:?}", n.as_bool(), n.as_int(), n.as_number(), n.as_str(), n.as_value());
                        let c = build::<R>(&w.tree);
                        let mut d = Node::<R>::new(n.yaml().clone(), n.pos(), "");
                        let b = format!("{:?} {:?} {:?} {:?} {:?}", d.as_bool(), d.as_int(), d.as_number(), d.as_str(), d.as_value());
                        seen.check(a == b && c == *n, "an accessor returns something else", || format!("{a} instead of {b}"));
                        d.set_yaml(false);
                    }
                }
            }
            4 => {
                seen.count("dump");
                let d = dump(&[n.clone()], &[]);
                seen.check(d == w.dump, "a reader gets another dump", || format!("{}\ninstead of {}", brief(&d), brief(&w.dump)));
            }
            5 => {
                seen.count("serialize");
                let d = json(n);
                seen.check(d == w.json, "a reader gets another serialization", || format!("{}\ninstead of {}", brief(&d), brief(&w.json)));
            }
            6 => {
                seen.count("deserialize");
                let d = <serde_json::Value as serde::Deserialize>::deserialize(n.clone()).map(|v| v.to_string()).map_err(|e| e.to_string());
                let c = <serde_json::Value as serde::Deserialize>::deserialize(build_at::<R>(n)).map(|v| v.to_string()).map_err(|e| e.to_string());
                seen.check(d == c, "a reader gets another value", || format!("{d:?} instead of {c:?}"));
            }
            7 | 8 => {
                seen.count("clone");
                if private.len() < 12 {
                    private.push((i, n.clone()));
                }
            }
            9 => {
                if !private.is_empty() {
                    seen.count("drop");
                    let j = r.below(private.len());
                    private.swap_remove(j);
                }
            }
            10 => {
                // Changes of a clone stay private
                seen.count("set");
                let mut c = n.clone();
                let x = (me * 1_000_000 + r.below(1000)) as u64;
                if r.chance(1, 2) {
                    c.set_yaml(x);
                } else {
                    c.set_repr(R::new_rc(Yaml::Int(x.to_string())));
                }
                delay(r);
                seen.check(c.as_int() == Ok(x as i64) && c.pos() == n.pos(), "a changed clone has another content", || format!("{c:?} instead of {x}"));
                let f = facts(n);
                seen.check(f == w.facts, "a change of a clone is visible", || format!("{}\ninstead of {}", brief(&f), brief(&w.facts)));
            }
            11 => {
                // Edit deep in a copy of the content
                seen.count("edit");
                let x = (me * 1_000_000 + r.below(1000)) as u64;
                let y = match n.yaml().clone() {
                    Yaml::Seq(mut v) => {
                        let j = r.below(v.len() + 1);
                        if let Some(e) = v.get_mut(j) {
                            e.set_yaml(x)
                        } else {
                            v.push(x.into())
                        }
                        Yaml::Seq(v)
                    }
                    Yaml::Map(mut m) => {
                        if r.chance(1, 2) {
                            m.iter_mut().for_each(|(_, v)| v.set_yaml(x));
                        } else {
                            m.pop_front();
                        }
                        m.insert("a new key".into(), x.into());
                        Yaml::Map(m)
                    }
                    _ => x.into(),
                };
                let c: Node<R> = Node::new(y, 0, "");
                delay(r);
                let ok = facts(&c).contains(&x.to_string());
                seen.check(ok, "an edited copy has another content", || format!("{c:?} without {x}"));
                let f = facts(n);
                seen.check(f == w.facts, "an edit of a copy is visible", || format!("{}\ninstead of {}", brief(&f), brief(&w.facts)));
            }
            12 => {
                // Hand a handle over to any other thread
                let j = r.below(sc.slots.len());
                let give = (i, n.clone());
                let old = sc.slots[j].lock().unwrap().replace(give);
                seen.count("sent");
                drop(old);
            }
            13 => {
                let j = r.below(sc.slots.len());
                let got = sc.slots[j].lock().unwrap().take();
                if let Some((k, y)) = got {
                    seen.count("received");
                    let f = facts(&y);
                    seen.check(f == sc.wants[k].facts, "a received node has another content", || format!("{}\ninstead of {}", brief(&f), brief(&sc.wants[k].facts)));
                    private.push((k, y));
                }
            }
            _ if !sc.docs.is_empty() => {
                // Loaders of the threads are independent
                let (doc, err, f) = &sc.docs[r.below(sc.docs.len())];
                match (parse::<R>(doc), err) {
                    (Ok(v), None) => {
                        seen.count("parse");
                        let g: String = v.iter().map(facts).collect();
                        seen.check(g == *f, "a loader returns another content", || format!("{}\ninstead of {}", brief(&g), brief(f)));
                    }
                    (Err(e), Some(m)) => {
                        seen.count("reject");
                        let e = e.to_string();
                        seen.check(e == *m, "a loader returns another error", || format!("{e} instead of {m}"));
                    }
                    (x, _) => seen.check(false, "a loader has another outcome", || format!("{:?} instead of {err:?}", x.err())),
                }
            }
            _ => {}
        }
        // Give up a handle, another thread will own the last one
        if r.chance(1, 40) && shared.len() > 1 {
            let j = r.below(shared.len());
            if j + 1 == shared.len() {
                seen.count("drop.shared");
                shared.pop();
            }
        }
    }
    for (k, y) in &private {
        let f = facts(y);
        seen.check(f == sc.wants[*k].facts, "a clone has another content", || format!("{}\ninstead of {}", brief(&f), brief(&sc.wants[*k].facts)));
    }
    delay(r);
    if r.chance(1, 2) {
        drop(private);
        drop(shared);
    } else {
        drop(shared);
        drop(private);
    }
    seen.count("last.thread");
}

/// The same data in fresh objects, with the positions.
fn build_at<R: Repr>(y: &Node<R>) -> Node<R> {
    let n: Yaml<R> = match y.yaml() {
        Yaml::Seq(v) => Yaml::Seq(v.iter().map(build_at).collect()),
        Yaml::Map(m) => Yaml::Map(m.iter().map(|(k, v)| (build_at(k), build_at(v))).collect()),
        y => y.clone(),
    };
    Node::new(n, y.pos(), y.tag())
}

fn scene<R: Repr>(cx: &mut Ctx, r: &mut Rng, check_freed: &mut dyn FnMut(&[Node<R>])) {
    let small = cfg!(miri);
    let o = TreeOpt { nodes: if small { 5 } else { 25 }, depth: if small { 2 } else { 5 }, width: if small { 3 } else { 5 }, ..TREE };
    let o = grow(r, o);
    let mut nodes: Vec<Node<R>> = vec![];
    let mut text = String::new();
    for _ in 0..r.range(1, if small { 2 } else { 4 }) {
        if !small && r.chance(1, 2) || small && r.chance(1, 8) {
            let doc = if small { "- &a [1, x]\n- *a\n- {a: b}\n".to_string() } else { total::rendered(r) };
            if let Ok(v) = parse::<R>(&doc) {
                if v.iter().all(|n| total::expanded(n, &mut std::collections::HashMap::new()) < 1000) {
                    cx.count("parsed");
                    nodes.extend(v);
                    text += &doc;
                    text.push_str("\n---\n");
                }
            }
        }
        let t = tree(r, &o);
        // Parts of it are shared in the tree already
        let y = build::<R>(&t);
        cx.count("built");
        text += &format!("{y:?}\n");
        nodes.push(if r.chance(1, 3) { Node::new(Yaml::Seq(vec![y.clone(), y.clone(), y]), 0, "") } else { y });
    }
    // Many threads in deep documents at the same time
    let deep = !small && r.chance(1, 10);
    let docs: Vec<String> = if deep {
        cx.count("deep documents");
        (0..4)
            .map(|_| {
                let n = r.range(40, 270);
                let (a, b) = *r.pick(&[("[", "]"), ("{\"a\": ", "}"), ("- ", ""), ("[[", "]]"), ("- [", "]")]);
                let n = n / a.matches(['[', '{', '-']).count().max(1);
                format!("{}x{}", a.repeat(n), b.repeat(n))
            })
            .collect()
    } else if small {
        if r.chance(1, 4) { vec!["a: [1".into(), "- a\n".into()] } else { vec![] }
    } else {
        (0..3)
            .map(|i| match i {
                0 => total::soup(r, 8),
                1 => total::rendered(r),
                _ => {
                    let mut d = total::rendered(r);
                    super::errors::mutate(r, &mut d);
                    d
                }
            })
            .collect()
    };
    text += &docs.join("\n======\n");
    cx.input(&text);
    let docs = docs
        .into_iter()
        .filter_map(|d| match parse::<R>(&d) {
            Ok(v) => {
                let big = v.iter().any(|n| total::expanded(n, &mut std::collections::HashMap::new()) > 1000);
                let f = v.iter().map(facts).collect();
                (!big).then_some((d, None, f))
            }
            Err(e) => Some((d, Some(e.to_string()), String::new())),
        })
        .collect();
    let threads = if small { r.range(2, 3) } else { r.range(2, 6) };
    let sc = Scene {
        wants: nodes.iter().map(want).collect(),
        docs,
        slots: (0..if r.chance(1, 2) { 1 } else { 3 }).map(|_| Mutex::new(None)).collect(),
        seq: AtomicU64::new(0),
        gate: AtomicUsize::new(0),
        threads,
        ops: if small { r.range(3, 6) } else { r.range(5, 60) },
        log: r.chance(3, 4),
        focus: if deep { Some(15) } else if r.chance(1, 3) { Some(r.below(16)) } else { None },
    };
    check_freed(&nodes);
    let own: Vec<_> = (0..threads).map(|i| Sh((i, nodes.clone(), Rng::new(r.next())))).collect();
    // The handles of the main thread go first, or stay until the end
    let kept = if r.chance(1, 2) { Some(nodes) } else { None };
    let shs = Sh(&sc);
    let all: Vec<Result<Seen, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = own
            .into_iter()
            .map(|o| {
                let shs = &shs;
                let b = std::thread::Builder::new().stack_size(if cfg!(miri) { 4 << 20 } else { 64 << 20 });
                b.spawn_scoped(s, move || {
                    let (o, shs): (Sh<_>, &Sh<&Scene<R>>) = (o, shs);
                    let Sh((i, n, mut r)) = o;
                    let mut seen = Seen::default();
                    guarded(|| thread(shs.0, i, n, &mut r, &mut seen)).map(|_| seen)
                })
                .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut order = vec![];
    for (i, a) in all.into_iter().enumerate() {
        match a {
            Ok(a) => {
                a.counts.iter().for_each(|(k, n)| cx.add(k, *n));
                cx.evals += a.decisions;
                a.fails.into_iter().for_each(|(s, d)| cx.fail(s, d));
                order.extend(a.order.into_iter().map(|n| (n, i)));
            }
            Err(m) => cx.fail("a thread panics", m),
        }
    }
    order.sort();
    let order: Vec<usize> = order.into_iter().map(|o| o.1).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    cx.add("switches between threads", switches);
    if switches > 0 {
        cx.nontrivial(&order);
    }
    if let Some(nodes) = kept {
        for (n, w) in nodes.iter().zip(&sc.wants) {
            let f = facts(n);
            cx.check(f == w.facts, "the content has changed", || format!("{}\ninstead of {}", brief(&f), brief(&w.facts)));
        }
        cx.count("last.main");
    }
    drop(sc);
}

fn shared(cx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 2) {
        let mut all = vec![];
        let weak = r.chance(1, 2);
        scene::<ArcRepr>(cx, r, &mut |v| {
            if weak {
                v.iter().for_each(|n| weaks(n, &mut all))
            }
        });
        if weak {
            cx.count("freed");
            let left = all.iter().filter(|w| w.strong_count() > 0).count();
            cx.check(left == 0, "objects are alive behind the last owner", || format!("{left} of {}", all.len()));
        }
    } else {
        let (before, made) = (LIVE.load(Relaxed), CREATED.load(Relaxed));
        scene::<MonArcRepr>(cx, r, &mut |_| ());
        let left = LIVE.load(Relaxed) - before;
        cx.count("freed");
        cx.add("objects", CREATED.load(Relaxed) - made);
        cx.check(left == 0, "objects are alive or were freed twice", || format!("{left} behind the last owner"));
    }
}

fn shared_fixed(cx: &mut Ctx) {
    cx.input("the types");
    let all = [
        ("NodeArc is not Send", probe!(NodeArc, Send)),
        ("NodeArc is not Sync", probe!(NodeArc, Sync)),
        ("YamlArc is not Send", probe!(YamlArc, Send)),
        ("YamlArc is not Sync", probe!(YamlArc, Sync)),
        ("the anchors of Arc are not Send", probe!(Anchors<ArcRepr>, Send)),
        ("the anchors of Arc are not Sync", probe!(Anchors<ArcRepr>, Sync)),
        ("NodeRc is Send", !probe!(NodeRc, Send)),
        ("NodeRc is Sync", !probe!(NodeRc, Sync)),
        ("a node of a user-defined atomic representation is not Send", probe!(Node<MonArcRepr>, Send)),
        ("a node of a user-defined atomic representation is not Sync", probe!(Node<MonArcRepr>, Sync)),
        ("the loader of Arc is not Send", probe!(Loader<'static, ArcRepr>, Send)),
        ("the error of the parser is not Send", probe!(PError, Send)),
        ("the error of the parser is not Sync", probe!(PError, Sync)),
        ("the error of Serde is not Send", probe!(SerdeError, Send)),
        ("the error of Serde is not Sync", probe!(SerdeError, Sync)),
    ];
    for (sig, ok) in all {
        cx.count("types");
        cx.check(ok, sig, String::new);
    }
}
