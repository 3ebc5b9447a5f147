//! C25: the wrappers for Serde.
use crate::{core::*, model::*, render::*};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;
use yaml_peg::{
    repr::{ArcRepr, RcRepr},
    serde::{from_str, to_arc_node, to_node, to_string, InlineList, Optional, Stringify},
    Node,
};

pub const WRAPPERS: Prop = Prop {
    id: "C25",
    rule: "distinct (node, target type) pairs",
    fixed: Some(fixed),
    case,
    quick: 800_000,
    thorough: 6_000_000,
    must: &[
        "InlineList.List", "InlineList.Inline", "Optional.Bool", "Optional.Some", "Stringify.Bool", "Stringify.Int", "Stringify.Float", "Stringify.Str", "rejected", "len.0", "len.1", "len.more", "text",
    ],
    stack: 16 << 20,
    assumptions: &[
        "integers beyond 64 bits are not representable by the untagged types of Serde and are errors",
        "integers beyond 32 bits become the nearest float in a Stringify, as its variants imply",
    ],
};

/// A type with a reference reading of a node.
trait Item: DeserializeOwned + Serialize + PartialEq + Debug + Default {
    fn gen(r: &mut Rng) -> N;
    fn model(n: &N) -> Option<Self>;
    /// The node of the serialized value.
    fn shape(&self) -> N;
    /// Direct checks of the value.
    fn probe(&self, _cx: &mut Ctx) {}
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Img {
    src: String,
    #[serde(default)]
    n: i64,
}

impl Default for Img {
    fn default() -> Self {
        Self { src: "default".into(), n: -7 }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Default)]
enum E {
    #[default]
    A,
    B(i64),
    C {
        x: bool,
    },
}

impl Item for () {
    fn gen(_: &mut Rng) -> N {
        V::Null.into()
    }
    fn model(n: &N) -> Option<Self> {
        matches!(n.v, V::Null).then_some(())
    }
    fn shape(&self) -> N {
        V::Null.into()
    }
}

impl Item for i64 {
    fn gen(r: &mut Rng) -> N {
        V::Int(int(r, false)).into()
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Int(i) => i.try_into().ok(),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Int(*self as i128).into()
    }
}

impl Item for u8 {
    fn gen(r: &mut Rng) -> N {
        V::Int(r.below(256) as i128).into()
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Int(i) => i.try_into().ok(),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Int(*self as i128).into()
    }
}

impl Item for bool {
    fn gen(r: &mut Rng) -> N {
        V::Bool(r.chance(1, 2)).into()
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Bool(*self).into()
    }
}

impl Item for f64 {
    fn gen(r: &mut Rng) -> N {
        V::Float(Some(float(r)).filter(|f| !f.is_nan()).unwrap_or(0.5)).into()
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Float(f) => Some(f),
            V::Int(i) => Some(i as f64),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Float(*self).into()
    }
}

impl Item for String {
    fn gen(r: &mut Rng) -> N {
        V::Str(string(r, 2)).into()
    }
    fn model(n: &N) -> Option<Self> {
        match &n.v {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        N::str(self)
    }
}

impl Item for Option<i64> {
    fn gen(r: &mut Rng) -> N {
        if r.chance(1, 2) {
            V::Null.into()
        } else {
            i64::gen(r)
        }
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Null => Some(None),
            _ => i64::model(n).map(Some),
        }
    }
    fn shape(&self) -> N {
        self.as_ref().map_or(V::Null.into(), Item::shape)
    }
}

impl<T: Item> Item for Vec<T> {
    fn gen(r: &mut Rng) -> N {
        let n = *r.pick(&[0, 1, 1, 2, 3]);
        V::Seq((0..n).map(|_| T::gen(r)).collect()).into()
    }
    fn model(n: &N) -> Option<Self> {
        match &n.v {
            V::Seq(v) => v.iter().map(T::model).collect(),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Seq(self.iter().map(T::shape).collect()).into()
    }
}

fn field<'a>(m: &'a [(N, N)], k: &str) -> Option<&'a N> {
    m.iter().find(|e| matches!(&e.0.v, V::Str(s) if s == k)).map(|e| &e.1)
}

impl Item for Img {
    fn gen(r: &mut Rng) -> N {
        let mut m = vec![(N::str("src"), String::gen(r))];
        if r.chance(2, 3) {
            m.insert(r.below(2), (N::str("n"), i64::gen(r)));
        }
        if r.chance(1, 5) {
            m.insert(r.below(m.len() + 1), (N::str("other"), leaf(r, &TreeOpt { big: false, ..TREE }).into()));
        }
        if r.chance(1, 8) {
            return V::Seq(m.into_iter().filter(|e| e.0.v == V::Str("src".into())).map(|e| e.1).collect()).into();
        }
        V::Map(m).into()
    }
    fn model(n: &N) -> Option<Self> {
        match &n.v {
            V::Map(m) => Some(Self { src: String::model(field(m, "src")?)?, n: field(m, "n").map_or(Some(0), i64::model)? }),
            V::Seq(v) if v.len() < 3 => Some(Self { src: String::model(v.first()?)?, n: v.get(1).map_or(Some(0), i64::model)? }),
            _ => None,
        }
    }
    fn shape(&self) -> N {
        V::Map(vec![(N::str("src"), N::str(&self.src)), (N::str("n"), self.n.shape())]).into()
    }
}

impl Item for E {
    fn gen(r: &mut Rng) -> N {
        match r.below(3) {
            0 => N::str("A"),
            1 => V::Map(vec![(N::str("B"), i64::gen(r))]).into(),
            _ => V::Map(vec![(N::str("C"), V::Map(vec![(N::str("x"), bool::gen(r))]).into())]).into(),
        }
    }
    fn model(n: &N) -> Option<Self> {
        match &n.v {
            V::Str(s) if s == "A" => Some(E::A),
            V::Map(m) if m.len() == 1 => match &m[0].0.v {
                V::Str(s) if s == "A" && m[0].1.v == V::Null => Some(E::A),
                V::Str(s) if s == "B" => i64::model(&m[0].1).map(E::B),
                V::Str(s) if s == "C" => match &m[0].1.v {
                    V::Map(f) => Some(E::C { x: bool::model(field(f, "x")?)? }),
                    V::Seq(f) if f.len() == 1 => Some(E::C { x: bool::model(&f[0])? }),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        }
    }
    fn shape(&self) -> N {
        match self {
            E::A => N::str("A"),
            E::B(i) => V::Map(vec![(N::str("B"), i.shape())]).into(),
            E::C { x } => V::Map(vec![(N::str("C"), V::Map(vec![(N::str("x"), x.shape())]).into())]).into(),
        }
    }
}

impl<T: Item> Item for InlineList<T> {
    fn gen(r: &mut Rng) -> N {
        if r.chance(1, 2) {
            Vec::<T>::gen(r)
        } else {
            T::gen(r)
        }
    }
    fn model(n: &N) -> Option<Self> {
        Vec::<T>::model(n).map(InlineList::List).or_else(|| T::model(n).map(InlineList::Inline))
    }
    fn shape(&self) -> N {
        match self {
            InlineList::List(v) => v.shape(),
            InlineList::Inline(e) => e.shape(),
        }
    }
    fn probe(&self, cx: &mut Ctx) {
        let v: Vec<&T> = match self {
            InlineList::List(v) => {
                cx.count("InlineList.List");
                v.iter().collect()
            }
            InlineList::Inline(e) => {
                cx.count("InlineList.Inline");
                vec![e]
            }
        };
        cx.count(match v.len() {
            0 => "len.0",
            1 => "len.1",
            _ => "len.more",
        });
        cx.check(self.len() == v.len(), "InlineList::len", || format!("{} of {self:?}", self.len()));
        cx.check(self.is_empty() == v.is_empty(), "InlineList::is_empty", || format!("{self:?}"));
        cx.check(self.is_single() == (v.len() == 1), "InlineList::is_single", || format!("{self:?}"));
        cx.check(self.iter().eq(v.iter().copied()), "InlineList::iter", || format!("{self:?}"));
        cx.check(self.iter().len() == v.len() && self.iter().rev().eq(v.iter().rev().copied()), "InlineList::iter", || format!("{self:?}"));
        if let Some(x) = Self::model(&self.shape()) {
            let x: Vec<T> = x.into_iter().collect();
            cx.check(x.iter().eq(v.iter().copied()), "InlineList::into_iter", || format!("{x:?} of {self:?}"));
        }
        v.iter().for_each(|e| e.probe(cx));
    }
}

impl<T: Item> Item for Optional<T> {
    fn gen(r: &mut Rng) -> N {
        if r.chance(1, 3) {
            bool::gen(r)
        } else {
            T::gen(r)
        }
    }
    fn model(n: &N) -> Option<Self> {
        match n.v {
            V::Bool(b) => Some(Optional::Bool(b)),
            _ => T::model(n).map(Optional::Some),
        }
    }
    fn shape(&self) -> N {
        match self {
            Optional::Bool(b) => b.shape(),
            Optional::Some(t) => t.shape(),
        }
    }
    fn probe(&self, cx: &mut Ctx) {
        // Which value is used by the function, if any
        let (own, default) = (T::default(), T::gen(&mut Rng::new(cx.case)));
        let Some(other) = T::model(&default) else { return };
        let (want, instead): (Option<&T>, Option<&T>) = match self {
            Optional::Bool(false) => (None, None),
            Optional::Bool(true) => (Some(&own), Some(&other)),
            Optional::Some(t) => (Some(t), Some(t)),
        };
        cx.count(if let Optional::Bool(_) = self { "Optional.Bool" } else { "Optional.Some" });
        let shape = |t: &T| t.shape().v;
        let once = |t: Option<&T>| t.map(shape).into_iter().collect::<Vec<_>>();
        let mut calls = vec![];
        self.ok(|t| calls.push(shape(t)));
        cx.check(calls == once(want), "Optional::ok", || format!("{calls:?} with {self:?}"));
        let mut calls = vec![];
        self.ok_instead(|t| calls.push(shape(t)), &other);
        cx.check(calls == once(instead), "Optional::ok_instead", || format!("{calls:?} with {self:?}"));
        for inst in [false, true] {
            let (mut calls, mut ors) = (vec![], 0);
            let ok = |t: &T| {
                calls.push(shape(t));
                calls.len() as i32
            };
            let or = || {
                ors += 1;
                -ors
            };
            let (got, want) = if inst { (self.ok_or_instead(ok, &other, or), instead) } else { (self.ok_or(ok, or), want) };
            let right = calls == once(want) && ors == want.is_none() as i32 && got == if want.is_some() { 1 } else { -1 };
            cx.check(right, if inst { "Optional::ok_or_instead" } else { "Optional::ok_or" }, || format!("{got} after {calls:?} and {ors} with {self:?}"));
        }
        if let Optional::Some(t) = self {
            t.probe(cx)
        }
    }
}

impl Item for Stringify {
    fn gen(r: &mut Rng) -> N {
        match r.below(4) {
            0 => bool::gen(r),
            1 => i64::gen(r),
            2 => f64::gen(r),
            _ => String::gen(r),
        }
    }
    fn model(n: &N) -> Option<Self> {
        Some(match &n.v {
            V::Bool(b) => Stringify::Bool(*b),
            V::Int(i) => i32::try_from(*i).map_or(Stringify::Float(*i as f32), Stringify::Int),
            V::Float(f) => Stringify::Float(*f as f32),
            V::Str(s) => Stringify::Str(s.clone()),
            _ => return None,
        })
    }
    fn shape(&self) -> N {
        match self {
            Stringify::Bool(b) => b.shape(),
            Stringify::Int(i) => V::Int(*i as i128).into(),
            // As the shortest decimal of this width
            Stringify::Float(f) => V::Float(f.to_string().parse().unwrap()).into(),
            Stringify::Str(s) => N::str(s),
        }
    }
    fn probe(&self, cx: &mut Ctx) {
        let (kind, text) = match self {
            Stringify::Bool(b) => ("Stringify.Bool", if *b { "true".into() } else { "false".into() }),
            Stringify::Int(i) => ("Stringify.Int", i.to_string()),
            Stringify::Float(f) => ("Stringify.Float", f.to_string()),
            Stringify::Str(s) => ("Stringify.Str", s.clone()),
        };
        cx.count(kind);
        cx.check(self.to_string() == text, "Stringify::to_string", || format!("{self} with {self:?}"));
    }
}

/// No alias, and all integers fit into 64 bits.
fn untagged(n: &N) -> bool {
    let mut ok = true;
    n.walk(&mut |n| match n.v {
        V::Alias(_) => ok = false,
        V::Int(i) => ok &= i64::try_from(i).is_ok() || u64::try_from(i).is_ok(),
        _ => {}
    });
    ok
}

/// One node read as `T` in all ways.
fn read<T: Item>(cx: &mut Ctx, r: &mut Rng, n: &N, what: &'static str) {
    cx.input(&format!("{what}\n{n:?}"));
    cx.nontrivial(&cx.input.clone());
    let want = if untagged(n) { T::model(n) } else { None };
    let node: Node<RcRepr> = build(n);
    let arc: Node<ArcRepr> = build(n);
    // From the node, and as a field of another type from text
    #[derive(Deserialize)]
    struct Field<T> {
        before: bool,
        field: T,
        after: Vec<String>,
    }
    let mut docs = vec![V::Map(vec![
        (N::str("after"), V::Seq(vec![N::str("x")]).into()),
        (N::str("field"), n.clone()),
        (N::str("before"), V::Bool(true).into()),
    ])
    .into()];
    let st = random_style(r);
    let (text, _) = render(r, st, vec![], &mut docs);
    let field = from_str::<Field<T>>(&text).map(|mut v| {
        let f = v.pop();
        f.filter(|f| v.is_empty() && f.before && f.after == ["x"]).map(|f| f.field)
    });
    let got = [T::deserialize(node).map_err(|e| e.to_string()), T::deserialize(arc).map_err(|e| e.to_string()), match field {
        Ok(Some(f)) => Ok(f),
        Ok(None) => Err("another document".into()),
        Err(e) => Err(e.to_string()),
    }];
    let ways = ["from Rc node", "from Arc node", "from text"];
    match &want {
        None => {
            cx.count("rejected");
            for (g, way) in got.iter().zip(ways) {
                cx.check(g.is_err(), &format!("{way}: accepted"), || format!("{g:?}"));
            }
            return;
        }
        Some(w) => {
            for (g, way) in got.iter().zip(ways) {
                cx.check(g.as_ref() == Ok(w), &format!("{way}: another value"), || format!("{g:?} instead of {w:?}\n{text}"));
            }
            w.probe(cx);
        }
    }
    let Some(w) = want else { return };
    // Serialized again
    let shape = w.shape();
    match (to_node(&w), to_arc_node(&w)) {
        (Ok(a), Ok(b)) => {
            for (e, what) in [(same(&shape, &a, VAL), "node of another shape"), (same(&shape, &b, VAL), "Arc node of another shape")] {
                cx.check(e.is_ok(), what, || format!("{w:?}: {e:?}"));
            }
            let back = T::deserialize(a);
            cx.check(back.as_ref().is_ok_and(|b| *b == w), "another value after the node", || format!("{back:?} instead of {w:?}"));
        }
        (a, b) => {
            cx.check(false, "not serialized", || format!("{a:?} {b:?}"));
        }
    }
    match to_string(&w) {
        Ok(s) => {
            cx.count("text");
            let back = from_str::<T>(&s);
            cx.check(back.as_ref().is_ok_and(|b| b.len() == 1 && b[0] == w), "another value after the text", || format!("{back:?} instead of {w:?}\n{s}"));
        }
        Err(e) => {
            cx.check(false, "no text", || e.to_string());
        }
    }
}

fn any<T: Item>(cx: &mut Ctx, r: &mut Rng, what: &'static str) {
    let mut n = T::gen(r);
    match r.below(8) {
        0 => n = leaf(r, &TREE).into(),
        1 => n = tree(r, &TreeOpt { nodes: 6, depth: 2, width: 3, typed_keys: false, complex_keys: false, ..TREE }),
        2 => {
            let bad: N = if r.chance(1, 6) { V::Null.into() } else { leaf(r, &TREE).into() };
            if let V::Seq(v) = &mut n.v {
                let at = r.below(v.len() + 1);
                v.insert(at, bad);
            }
        }
        3 => {
            let x = leaf(r, &TREE);
            if let V::Map(m) = &mut n.v {
                let at = r.below(m.len());
                m[at].1.v = x;
            }
        }
        4 => {
            if let V::Map(m) = &mut n.v {
                let at = r.below(m.len());
                m.remove(at);
            }
        }
        _ => {}
    }
    // Values are compared by `==`
    n.walk_mut(&mut |n| match n.v {
        V::Float(f) if f.is_nan() => n.v = V::Float(f64::INFINITY),
        _ => {}
    });
    read::<T>(cx, r, &n, what);
}

fn case(cx: &mut Ctx, r: &mut Rng) {
    macro_rules! types {
        ($($t:ty),+ $(,)?) => {{
            let all: &[fn(&mut Ctx, &mut Rng)] = &[$(|cx, r| any::<$t>(cx, r, stringify!($t))),+];
            r.pick(all)(cx, r)
        }};
    }
    types!(
        Stringify,
        Stringify,
        InlineList<i64>,
        InlineList<u8>,
        InlineList<String>,
        InlineList<bool>,
        InlineList<f64>,
        InlineList<Option<i64>>,
        InlineList<()>,
        Optional<()>,
        InlineList<Vec<i64>>,
        InlineList<Img>,
        InlineList<E>,
        InlineList<Stringify>,
        InlineList<InlineList<i64>>,
        InlineList<Optional<Img>>,
        Optional<i64>,
        Optional<u8>,
        Optional<String>,
        Optional<bool>,
        Optional<f64>,
        Optional<Vec<i64>>,
        Optional<Img>,
        Optional<E>,
        Optional<Stringify>,
        Optional<InlineList<Img>>,
        Vec<Stringify>,
        Vec<Optional<InlineList<Optional<i64>>>>,
    );
    if cx.case % 1009 == 0 {
        cx.sample(cx.input.clone());
    }
}

fn fixed(cx: &mut Ctx) {
    let mut r = Rng::new(1);
    // The default values
    let d = (InlineList::<i64>::default(), Optional::<i64>::default(), Stringify::default());
    cx.check(matches!(&d.0, InlineList::List(v) if v.is_empty()), "default InlineList", || format!("{:?}", d.0));
    cx.check(d.1 == Optional::Bool(true), "default Optional", || format!("{:?}", d.1));
    cx.check(d.2 == Stringify::Str(String::new()), "default Stringify", || format!("{:?}", d.2));
    for b in [7, 8, 15, 16, 31, 32, 63, 64, 65] {
        for o in -2..=2 {
            for i in [(1i128 << b) + o, -(1i128 << b) + o] {
                let n: N = V::Int(i).into();
                read::<Stringify>(cx, &mut r, &n, "Stringify");
                read::<InlineList<i64>>(cx, &mut r, &n, "InlineList<i64>");
                read::<InlineList<u8>>(cx, &mut r, &n, "InlineList<u8>");
                read::<Optional<u8>>(cx, &mut r, &n, "Optional<u8>");
                read::<Optional<f64>>(cx, &mut r, &n, "Optional<f64>");
                read::<InlineList<Optional<u8>>>(cx, &mut r, &V::Seq(vec![n.clone(), n]).into(), "InlineList<Optional<u8>>");
            }
        }
    }
}
