//! C12-C16: the push-based stages and reducers, against evaluation of whole sequences.
//!
//! Pipelines are generated as data and built at run time out of the library's own combinators: every stage is
//! boxed behind a newtype that implements the library's traits, so any nesting can be composed.

use super::util::*;
use crate::core::*;
use crate::dict;
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::{AdaptFnTrait, AdapterTrait, Filter, Map, NilAdapter};
use matchit::generator::generator::Generator;
use matchit::generator::groupby::{GroupBy, Merge};
use matchit::generator::reducer::{Fold, ReducerTrait, Split};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            rule: "the pipeline has at least three stages or reducers, one of them holding elements back (group or merge), and its last stage delivers at least two elements",
            assumptions: &["map, filter, key and fold functions are pure"],
            parts: vec![part(C12), part(C12Typed)],
        },
        Property {
            id: "C13",
            rule: "at least two runs, one of them longer than one element or dropped for lack of reflexivity",
            assumptions: &["the relation is a pure function of two elements"],
            parts: vec![part(C13), part(LongRuns)],
        },
        Property {
            id: "C14",
            rule: "at least two keys occur and the inner reducer depends on the order of the elements or holds elements back",
            assumptions: &["key functions are pure"],
            parts: vec![part(C14), part(C14It)],
        },
        Property {
            id: "C15",
            rule: "some group joins at least three inputs, and at least two values are emitted",
            assumptions: &["the criterion is symmetric and absorbing as the statement requires; the key is different for values that are not related"],
            parts: vec![part(C15 { kind: 0 }), part(C15 { kind: 1 }), part(C15 { kind: 2 }), part(C15 { kind: 3 }), part(C15 { kind: 4 }), part(C15 { kind: 5 })],
        },
        Property {
            id: "C16",
            rule: "the stage is a chain with at least one stage that holds elements back, and delivers at least two elements",
            assumptions: &[],
            parts: vec![part(C16)],
        },
    ]
}

// ---------------------------------------------------------------- values and functions

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum V {
    I(i64),
    P(Box<V>, Box<V>),
}

impl V {
    fn num(&self) -> i64 {
        match self {
            V::I(i) => *i,
            V::P(a, b) => a.num().wrapping_mul(3).wrapping_sub(b.num()),
        }
    }
    fn span(&self) -> (i64, i64) {
        match self {
            V::I(i) => (*i, *i),
            V::P(a, b) => {
                let (a, b) = (a.span(), b.span());
                (a.0.min(b.0), a.1.max(b.1))
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MapF {
    Id,
    Add(i64),
    Neg,
    Div(i64),
    Mod(i64),
    First,
    Second,
    Pair(i64),
    Swap,
}

impl MapF {
    fn on(&self, v: &V) -> V {
        let n = v.num();
        match self {
            MapF::Id => v.clone(),
            MapF::Add(k) => V::I(n.wrapping_add(*k)),
            MapF::Neg => V::I(n.wrapping_neg()),
            MapF::Div(k) => V::I(n.div_euclid((*k).max(1))),
            MapF::Mod(k) => V::I(n.rem_euclid((*k).max(1))),
            MapF::First => match v {
                V::P(a, _) => (**a).clone(),
                v => v.clone(),
            },
            MapF::Second => match v {
                V::P(_, b) => (**b).clone(),
                v => v.clone(),
            },
            MapF::Pair(k) => V::P(Box::new(V::I(n)), Box::new(V::I(n.wrapping_add(*k)))),
            MapF::Swap => match v {
                V::P(a, b) => V::P(b.clone(), a.clone()),
                v => v.clone(),
            },
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PredF {
    All,
    None,
    Lt(i64),
    Even,
    NotMod(i64),
    IsPair,
}

impl PredF {
    fn on(&self, v: &V) -> bool {
        let n = v.num();
        match self {
            PredF::All => true,
            PredF::None => false,
            PredF::Lt(k) => n < *k,
            PredF::Even => n % 2 == 0,
            PredF::NotMod(k) => n.rem_euclid((*k).max(2)) != 0,
            PredF::IsPair => matches!(v, V::P(..)),
        }
    }
}

/// Relations: reflexive, irreflexive, partly reflexive, not transitive, and arbitrary tables over classes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RelF {
    Le,
    Lt,
    Ge,
    Eq,
    Ne,
    All,
    None,
    Near(i64),
    Succ,
    SameMod(i64),
    /// class = num mod 4, bit 4*a+b set: related
    Table(u16),
}

impl RelF {
    pub fn on(&self, a: &V, b: &V) -> bool {
        let (x, y) = (a.num(), b.num());
        match self {
            RelF::Le => x <= y,
            RelF::Lt => x < y,
            RelF::Ge => x >= y,
            RelF::Eq => a == b,
            RelF::Ne => a != b,
            RelF::All => true,
            RelF::None => false,
            RelF::Near(k) => x.wrapping_sub(y).unsigned_abs() <= k.unsigned_abs(),
            RelF::Succ => x.wrapping_add(1) == y,
            RelF::SameMod(k) => x.rem_euclid((*k).max(1)) == y.rem_euclid((*k).max(1)),
            RelF::Table(t) => t >> (4 * x.rem_euclid(4) + y.rem_euclid(4)) & 1 == 1,
        }
    }
}

/// Joins two values whose spans overlap or touch within `0` of each other.
fn join_spans(a: &V, b: &V) -> Option<V> {
    let (x, y) = (a.span(), b.span());
    if x.0 <= y.1 && y.0 <= x.1 {
        Some(V::P(Box::new(V::I(x.0.min(y.0))), Box::new(V::I(x.1.max(y.1)))))
    } else {
        None
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stage {
    Map(MapF),
    Filter(PredF),
    Group(RelF),
    Merge,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Red {
    Count,
    Sum,
    Collect,
    Fold,
    Split(MapF, Box<Pipe>),
    Fork(Box<Pipe>, Box<Pipe>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pipe {
    pub stages: Vec<Stage>,
    pub red: Red,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    N(u64),
    L(Vec<V>),
    M(BTreeMap<V, Out>),
    F(Box<Out>, Box<Out>),
}

fn mapf() -> BoxedStrategy<MapF> {
    prop_oneof![
        Just(MapF::Id),
        (-5i64..6).prop_map(MapF::Add),
        Just(MapF::Neg),
        (1i64..5).prop_map(MapF::Div),
        (1i64..5).prop_map(MapF::Mod),
        Just(MapF::First),
        Just(MapF::Second),
        (-3i64..9).prop_map(MapF::Pair),
        Just(MapF::Swap)
    ]
    .boxed()
}
fn predf() -> BoxedStrategy<PredF> {
    prop_oneof![2 => Just(PredF::All), 1 => Just(PredF::None), 4 => (-5i64..15).prop_map(PredF::Lt), 3 => Just(PredF::Even), 4 => (2i64..5).prop_map(PredF::NotMod), 1 => Just(PredF::IsPair)].boxed()
}
fn relf() -> BoxedStrategy<RelF> {
    prop_oneof![
        3 => Just(RelF::Le),
        2 => Just(RelF::Lt),
        1 => Just(RelF::Ge),
        1 => Just(RelF::Eq),
        1 => Just(RelF::Ne),
        1 => Just(RelF::All),
        1 => Just(RelF::None),
        1 => (0i64..4).prop_map(RelF::Near),
        1 => Just(RelF::Succ),
        1 => (1i64..4).prop_map(RelF::SameMod),
        4 => any::<u16>().prop_map(RelF::Table),
    ]
    .boxed()
}
fn stage() -> BoxedStrategy<Stage> {
    prop_oneof![3 => mapf().prop_map(Stage::Map), 3 => predf().prop_map(Stage::Filter), 3 => relf().prop_map(Stage::Group), 2 => Just(Stage::Merge)].boxed()
}
fn val() -> BoxedStrategy<V> {
    let base = prop_oneof![
        8 => (0i64..12).prop_map(V::I),
        3 => (-40i64..60).prop_map(V::I),
        2 => (-9i64..30, 0i64..8).prop_map(|(a, d)| V::P(Box::new(V::I(a)), Box::new(V::I(a + d)))),
    ]
    .boxed();
    dict::mixed(base, 60, 0, 1 << 40, |n| V::I(n as i64))
}
pub fn vals(max: usize) -> BoxedStrategy<Vec<V>> {
    let sortedish = vec(val(), 0..max).prop_map(|mut v| {
        let n = v.len();
        v[n / 3..].sort();
        v
    });
    prop_oneof![1500 => vec(val(), 0..max), 500 => sortedish, 500 => vec((0i64..3).prop_map(V::I), 0..max), 1 => many()].boxed()
}
/// Sequences of hundreds and thousands, few or many of them different.
fn many() -> BoxedStrategy<Vec<V>> {
    let wide = prop_oneof![4 => (-3000i64..9000).prop_map(V::I), 1 => (-3000i64..9000, 0i64..9).prop_map(|(a, d)| V::P(Box::new(V::I(a)), Box::new(V::I(a + d))))];
    let up = vec(0i64..4, 257..1500).prop_map(|d| d.into_iter().scan(0, |s, x| { *s += x; Some(V::I(*s)) }).collect::<Vec<_>>());
    let many = prop_oneof![1 => vec(val(), 257..900), 1 => vec(wide, 257..900), 1 => up].boxed();
    // as many as a number of the code says
    match dict::num(17, 12_000) {
        Some(n) => prop_oneof![3 => many, 1 => (vec(val(), 1..7), n, 0i64..3).prop_map(|(v, n, up)| (0..n as usize).map(|i| match &v[i % v.len()] { V::I(x) => V::I(x + (i / v.len()) as i64 * up), p => p.clone() }).collect())].boxed(),
        None => many,
    }
}
fn pipe(stages: usize) -> BoxedStrategy<Pipe> {
    let leaf = (vec(stage(), 0..=stages), prop_oneof![1 => Just(Red::Count), 1 => Just(Red::Sum), 3 => Just(Red::Collect), 1 => Just(Red::Fold)]).prop_map(|(stages, red)| Pipe { stages, red });
    leaf.prop_recursive(3, 10, 2, move |inner| {
        let s = vec(stage(), 0..=stages);
        prop_oneof![
            (s.clone(), mapf(), inner.clone()).prop_map(|(stages, k, p)| Pipe { stages, red: Red::Split(k, Box::new(p)) }),
            (s, inner.clone(), inner).prop_map(|(stages, p, q)| Pipe { stages, red: Red::Fork(Box::new(p), Box::new(q)) }),
        ]
    })
    .boxed()
}

// ---------------------------------------------------------------- reference: whole sequences

fn runs(v: &[V], r: &RelF) -> Vec<V> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && r.on(&v[j], &v[j + 1]) {
            j += 1;
        }
        if j > i || r.on(&v[i], &v[i]) {
            out.push(V::P(Box::new(v[i].clone()), Box::new(v[j].clone())));
        }
        i = j + 1;
    }
    out
}

/// Connected groups under `rel`, by index.
fn groups<T>(v: &[T], rel: impl Fn(&T, &T) -> bool) -> Vec<Vec<usize>> {
    let mut seen = vec![false; v.len()];
    let mut out = vec![];
    for i in 0..v.len() {
        if seen[i] {
            continue;
        }
        seen[i] = true;
        let mut g = vec![i];
        let mut k = 0;
        while k < g.len() {
            for j in 0..v.len() {
                if !seen[j] && rel(&v[g[k]], &v[j]) {
                    seen[j] = true;
                    g.push(j);
                }
            }
            k += 1;
        }
        g.sort();
        out.push(g);
    }
    out
}

fn merged(v: &[V]) -> Vec<V> {
    let mut out: Vec<V> = groups(v, |a, b| join_spans(a, b).is_some())
        .into_iter()
        .map(|g| {
            if g.len() == 1 {
                return v[g[0]].clone();
            }
            let lo = g.iter().map(|i| v[*i].span().0).min().unwrap();
            let hi = g.iter().map(|i| v[*i].span().1).max().unwrap();
            V::P(Box::new(V::I(lo)), Box::new(V::I(hi)))
        })
        .collect();
    out.sort();
    out
}

fn eval_stages(stages: &[Stage], v: &[V]) -> Vec<V> {
    let mut v = v.to_vec();
    for s in stages {
        v = match s {
            Stage::Map(f) => v.iter().map(|x| f.on(x)).collect(),
            Stage::Filter(p) => v.into_iter().filter(|x| p.on(x)).collect(),
            Stage::Group(r) => runs(&v, r),
            Stage::Merge => merged(&v),
        };
    }
    v
}

fn step(acc: u64, v: &V) -> u64 {
    acc.wrapping_mul(31).wrapping_add(v.num() as u64).wrapping_add(7)
}

/// Numbers from 0 to 2^56, so that sums leave 32 bits and the integers a float can hold.
fn weight(v: &V) -> usize {
    let n = v.num().rem_euclid(1000) as usize;
    match n % 16 {
        5 => n << 30,
        7 => n << 46 | 1,
        _ => n,
    }
}

fn eval(p: &Pipe, v: &[V]) -> Out {
    let v = eval_stages(&p.stages, v);
    match &p.red {
        Red::Count => Out::N(v.len() as u64),
        Red::Sum => Out::N(v.iter().map(|x| weight(x) as u64).sum()),
        Red::Collect => Out::L(v),
        Red::Fold => Out::N(v.iter().fold(1, step)),
        Red::Split(k, inner) => {
            let mut m: BTreeMap<V, Vec<V>> = BTreeMap::new();
            for x in v {
                m.entry(k.on(&x)).or_default().push(x);
            }
            Out::M(m.into_iter().map(|(k, v)| (k, eval(inner, &v))).collect())
        }
        Red::Fork(a, b) => Out::F(Box::new(eval(a, &v)), Box::new(eval(b, &v))),
    }
}

// ---------------------------------------------------------------- the same, out of the library's combinators

type Flow<T> = ControlFlow<(), Option<T>>;

trait ObjAdapter {
    fn adapt(&mut self, v: V) -> Flow<V>;
    fn fin(&mut self) -> Flow<V>;
}
struct AnyA<A>(A);
impl<A: AdapterTrait<Input = V, Output = V>> ObjAdapter for AnyA<A> {
    fn adapt(&mut self, v: V) -> Flow<V> {
        self.0.adapt(v)
    }
    fn fin(&mut self) -> Flow<V> {
        self.0.finalize()
    }
}
struct Dyn(Box<dyn ObjAdapter>);
impl AdapterTrait for Dyn {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> Flow<V> {
        self.0.adapt(v)
    }
    fn finalize(&mut self) -> Flow<V> {
        self.0.fin()
    }
}
fn boxed<A: AdapterTrait<Input = V, Output = V> + 'static>(a: A) -> Dyn {
    Dyn(Box::new(AnyA(a)))
}

trait ObjRed {
    fn next(&mut self, v: V);
    fn fin(self: Box<Self>) -> Out;
}
struct AnyR<R, F>(R, F);
impl<R: ReducerTrait<Input = V>, F: Fn(R::Reduced) -> Out> ObjRed for AnyR<R, F> {
    fn next(&mut self, v: V) {
        self.0.next(v)
    }
    fn fin(self: Box<Self>) -> Out {
        let AnyR(r, f) = *self;
        f(r.finalize())
    }
}
struct DynRed(Box<dyn ObjRed>);
impl ReducerTrait for DynRed {
    type Input = V;
    type Reduced = Out;
    fn next(&mut self, v: V) {
        self.0.next(v)
    }
    fn finalize(self) -> Out {
        self.0.fin()
    }
}
fn red<R: ReducerTrait<Input = V> + 'static>(r: R, f: impl Fn(R::Reduced) -> Out + 'static) -> DynRed {
    DynRed(Box::new(AnyR(r, f)))
}

fn pair(p: &(V, V)) -> V {
    V::P(Box::new(p.0.clone()), Box::new(p.1.clone()))
}

fn add_stage(a: Option<Dyn>, s: &Stage) -> Dyn {
    // the first stage comes from Generator, the others from the adapter in front
    match (a, s.clone()) {
        (None, Stage::Map(f)) => boxed(Generator::map(move |v: &V| f.on(v))),
        (None, Stage::Filter(p)) => boxed(Generator::filter(move |v: &V| p.on(v))),
        (None, Stage::Group(r)) => boxed(Generator::groupby(move |a: &V, b: &V| r.on(a, b)).map(pair)),
        (None, Stage::Merge) => boxed(Generator::merge(join_spans, |v: &V| v.clone())),
        (Some(a), Stage::Map(f)) => boxed(a.map(move |v: &V| f.on(v))),
        (Some(a), Stage::Filter(p)) => boxed(a.filter(move |v: &V| p.on(v))),
        (Some(a), Stage::Group(r)) => boxed(a.groupby(move |a: &V, b: &V| r.on(a, b)).map(pair)),
        (Some(a), Stage::Merge) => boxed(a.merge(join_spans, |v: &V| v.clone())),
    }
}

fn build(p: &Pipe) -> DynRed {
    let mut a: Option<Dyn> = None;
    for s in &p.stages {
        a = Some(add_stage(a, s));
    }
    match (&p.red, a) {
        (Red::Count, None) => red(Generator::<V>::count(), |n| Out::N(n as u64)),
        (Red::Count, Some(a)) => red(a.map(|v: &V| v.clone()).count(), |n| Out::N(n as u64)),
        (Red::Sum, None) => red(Generator::map(|v: &V| weight(v)).sum(), |n| Out::N(n as u64)),
        (Red::Sum, Some(a)) => red(a.map(|v: &V| weight(v)).sum(), |n| Out::N(n as u64)),
        (Red::Collect, None) => red(Generator::filter(|_: &V| true).collect(), Out::L),
        (Red::Collect, Some(a)) => red(a.filter(|_: &V| true).collect(), Out::L),
        (Red::Fold, None) => red(Generator::fold(1u64, |acc, v: V| step(acc, &v)), Out::N),
        (Red::Fold, Some(a)) => red(a.fold(1u64, |acc, v: V| step(acc, &v)), Out::N),
        (Red::Split(k, inner), a) => {
            let (k, inner) = (k.clone(), inner.clone());
            let key = move |v: &V| k.on(v);
            match a {
                None => red(Generator::split(key, move |_: &V| build(&inner)), Out::M),
                Some(a) => red(a.split(key, move |_: &V| build(&inner)), Out::M),
            }
        }
        (Red::Fork(x, y), None) => red(Generator::fork(build(x), build(y)), |(x, y)| Out::F(Box::new(x), Box::new(y))),
        (Red::Fork(x, y), Some(a)) => red(a.fork(build(x), build(y)), |(x, y)| Out::F(Box::new(x), Box::new(y))),
    }
}

fn push(p: &Pipe, v: &[V]) -> Out {
    let mut r = build(p);
    for x in v {
        r.next(x.clone());
    }
    r.finalize()
}

fn size(p: &Pipe) -> (usize, bool) {
    let hold = p.stages.iter().any(|s| matches!(s, Stage::Group(_) | Stage::Merge));
    let (n, h) = match &p.red {
        Red::Split(_, q) => size(q),
        Red::Fork(a, b) => {
            let (a, b) = (size(a), size(b));
            (a.0 + b.0, a.1 || b.1)
        }
        _ => (0, false),
    };
    (n + p.stages.len() + 1, hold || h)
}

struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PipeCase {
    pipe: Pipe,
    input: Vec<V>,
}

pub fn pipe_case(stages: usize, len: usize) -> BoxedStrategy<PipeCase> {
    (pipe(stages), vals(len)).prop_map(|(pipe, input)| PipeCase { pipe, input }).boxed()
}

/// The elements pushed one by one, and the result at the end.
pub fn pipe_stream(c: &PipeCase) -> impl Iterator<Item = String> + '_ {
    let mut r = Some(build(&c.pipe));
    let mut input = c.input.iter();
    std::iter::from_fn(move || match input.next() {
        Some(v) => {
            r.as_mut()?.next(v.clone());
            Some(String::new())
        }
        None => r.take().map(|r| format!("{:?}", r.finalize())),
    })
}

impl Part for C12 {
    type Case = PipeCase;
    fn name(&self) -> &'static str {
        "pipelines"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<PipeCase> {
        let (n, m) = if tier == Tier::Quick { (6, 16) } else { (12, 40) };
        (pipe(n), vals(m)).prop_map(|(pipe, input)| PipeCase { pipe, input }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 700_000 } else { 12_000_000 }
    }
    fn check(&self, c: &PipeCase, cx: &mut Cx) -> Outcome {
        let (n, hold) = size(&c.pipe);
        cx.label_if(hold, "holds elements back");
        cx.label_if(matches!(c.pipe.red, Red::Split(..)), "split");
        cx.label_if(matches!(c.pipe.red, Red::Fork(..)), "fork");
        cx.nontrivial_if(n >= 3 && hold && eval_stages(&c.pipe.stages, &c.input).len() >= 2);
        let (got, want) = (push(&c.pipe, &c.input), eval(&c.pipe, &c.input));
        ensure(got == want, || format!("pushed: {got:?}\nevaluated: {want:?}"))?;
        // what the stages pass on, element by element: nothing at the end comes twice, and the end stays
        let mut a = boxed(NilAdapter::new());
        for s in &c.pipe.stages {
            a = add_stage(Some(a), s);
        }
        let mut out = vec![];
        for v in &c.input {
            if let ControlFlow::Continue(Some(o)) = a.adapt(v.clone()) {
                out.push(o);
            }
        }
        let early = out.len();
        let mut fuel = 10 * (c.input.len() + 2) * (c.pipe.stages.len() + 2);
        while let ControlFlow::Continue(o) = a.finalize() {
            out.extend(o);
            fuel -= 1;
            if fuel == 0 {
                return Err("finalising the stages does not come to an end".into());
            }
        }
        let want = eval_stages(&c.pipe.stages, &c.input);
        ensure(out == want, || format!("stages pass on {out:?} ({early} before the end), evaluated: {want:?}"))?;
        for _ in 0..3 {
            if let ControlFlow::Continue(Some(o)) = a.finalize() {
                return Err(format!("{o:?} is delivered after the end"));
            }
        }
        Ok(())
    }
}

/// The combinators at their own types, without any box in between (as the library's users write them).
struct C12Typed;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TypedCase {
    input: Vec<u32>,
    min: u32,
    modulus: u32,
    gap: u32,
    /// which of the pipelines
    #[serde(default)]
    shape: u8,
}

/// Something that can be summed up without being a number.
#[derive(Clone, Copy, Debug)]
struct Coin(u32);
impl std::ops::Add<usize> for Coin {
    type Output = usize;
    fn add(self, n: usize) -> usize {
        n + self.0 as usize * 5
    }
}

fn feed<I: Clone, R: ReducerTrait<Input = I>>(mut r: R, v: &[I]) -> R::Reduced {
    for x in v {
        r.next(x.clone());
    }
    r.finalize()
}

/// Ranges of ascending values, in order.
fn ascending(v: &[u32]) -> Vec<(u32, u32)> {
    let mut rs: Vec<(u32, u32)> = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 && v[i - 1] <= *x {
            rs.last_mut().unwrap().1 = *x;
        } else {
            rs.push((*x, *x));
        }
    }
    rs
}

fn by_key<K: Ord, T: Clone>(v: &[T], key: impl Fn(&T) -> K) -> BTreeMap<K, Vec<T>> {
    let mut m: BTreeMap<K, Vec<T>> = BTreeMap::new();
    for x in v {
        m.entry(key(x)).or_default().push(x.clone());
    }
    m
}

fn typed_shape(c: &TypedCase, cx: &mut Cx) -> Outcome {
    fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Outcome {
        ensure(got == want, || format!("{what}: {got:?}, expected {want:?}"))
    }
    let (v, m, min) = (&c.input, c.modulus, c.min);
    let asc = |a: &u32, b: &u32| a <= b;
    cx.nontrivial_if(v.len() >= 3);
    match c.shape {
        1 => {
            let coins: Vec<Coin> = v.iter().map(|x| Coin(*x)).collect();
            let total: usize = v.iter().map(|x| *x as usize * 5).sum();
            same("sum", feed(Generator::sum(), &coins), total)?;
            let big: Vec<usize> = v.iter().map(|x| (*x as usize) << 20).collect();
            same("sum of numbers", feed(Generator::<usize>::sum(), &big), big.iter().sum())?;
            same("count", feed(Generator::<u32>::count(), v), v.len())?;
            same("fork", feed(Generator::fork(Generator::sum(), Generator::count()), &coins), (total, v.len()))?;
            let fork = Generator::fork(Generator::fork(Generator::<Coin>::count(), Generator::sum()), Generator::filter(move |x: &Coin| x.0 < min).count());
            same("fork of a fork", feed(fork, &coins), ((v.len(), total), v.iter().filter(|x| **x < min).count()))
        }
        2 => {
            let runs = ascending(v);
            same("runs", feed(Generator::groupby(asc).count(), v), runs.len())?;
            same("collected runs", feed(Generator::groupby(asc).collect(), v), runs.clone())?;
            same("lengths of runs", feed(Generator::groupby(asc).map(|r: &(u32, u32)| (r.1 - r.0) as usize).sum(), v), runs.iter().map(|r| (r.1 - r.0) as usize).sum())?;
            let text = |s: String, r: (u32, u32)| format!("{s}{}-{} ", r.0, r.1);
            same("folded runs", feed(Generator::groupby(asc).fold(String::new(), text), v), runs.iter().fold(String::new(), |s, r| text(s, *r)))?;
            let far = |a: &(u32, u32), b: &(u32, u32)| a.1 > b.0 + min;
            let mut rr: Vec<((u32, u32), (u32, u32))> = vec![];
            for (i, r) in runs.iter().enumerate() {
                if i > 0 && far(&runs[i - 1], r) {
                    rr.last_mut().unwrap().1 = *r;
                } else {
                    rr.push((*r, *r));
                }
            }
            // a run of one element comes out if the relation holds between it and itself
            let single = |x: &((u32, u32), (u32, u32))| x.0 != x.1 || far(&x.0, &x.1);
            let got: Vec<_> = feed(Generator::groupby(asc).groupby(far).collect(), v).into_iter().filter(single).collect();
            let want: Vec<_> = rr.into_iter().filter(single).collect();
            same("runs of runs", got, want)
        }
        3 => {
            let gap = c.gap;
            let union = move |a: &(u32, u32), b: &(u32, u32)| if a.0 <= b.1 + gap && b.0 <= a.1 + gap { Some((a.0.min(b.0), a.1.max(b.1))) } else { None };
            let spans: Vec<(u32, u32)> = v.iter().map(|x| (x * 2, x * 2 + x % 4)).collect();
            let g = groups(&spans, |a, b| union(a, b).is_some());
            let mut want: Vec<(u32, u32)> = g.iter().map(|g| (g.iter().map(|i| spans[*i].0).min().unwrap(), g.iter().map(|i| spans[*i].1).max().unwrap())).collect();
            want.sort();
            same("merged", feed(Generator::merge(union, |p: &(u32, u32)| *p).collect(), &spans), want.clone())?;
            same("number of merged", feed(Generator::merge(union, |p: &(u32, u32)| *p).count(), &spans), want.len())?;
            let len = |p: &(u32, u32)| (p.1 - p.0) as usize;
            let covered = Generator::map(|x: &u32| (x * 2, x * 2 + x % 4)).merge(union, |p: &(u32, u32)| *p).map(len).filter(|l: &usize| *l > 2).sum();
            same("lengths of merged", feed(covered, v), want.iter().map(len).filter(|l| *l > 2).sum())
        }
        4 => {
            let half = Generator::map(|x: &u32| *x as f64 / 2.0).filter(move |x: &f64| *x < min as f64).fold(0.0, |a: f64, x: f64| a + x);
            same("fold of numbers", feed(half, v), v.iter().map(|x| *x as f64 / 2.0).filter(|x| *x < min as f64).sum::<f64>())?;
            let words = Generator::filter(move |x: &u32| *x >= min).map(|x: &u32| x.to_string()).collect();
            let want: Vec<String> = v.iter().filter(|x| **x >= min).map(|x| x.to_string()).collect();
            same("words", feed(words, v), want.clone())?;
            let joined = Generator::filter(|w: &String| w.len() > 1).fold(String::new(), |a: String, w: String| a + &w + ",");
            same("joined words", feed(joined, &want), want.iter().filter(|w| w.len() > 1).fold(String::new(), |a, w| a + w + ","))
        }
        5 => {
            let parts = by_key(v, |x| x % m);
            let same_key = |f: &dyn Fn(&Vec<u32>) -> usize| -> BTreeMap<u32, usize> { parts.iter().map(|(k, v)| (*k, f(v))).collect() };
            same("split into counts", feed(Generator::split(move |x: &u32| *x % m, |_| Generator::count()), v), same_key(&|v| v.len()))?;
            let sums = Generator::split(move |x: &u32| *x % m, |_| Generator::map(|x: &u32| Coin(*x)).sum());
            same("split into sums", feed(sums, v), same_key(&|v| v.iter().map(|x| *x as usize * 5).sum()))?;
            same("iterator split into counts", v.iter().copied().split(move |x: &u32| *x % m, |_| Generator::count()), same_key(&|v| v.len()))?;
            // split in split, and fork in split
            let two = Generator::split(move |x: &u32| *x % m, |_| Generator::split(|x: &u32| x / 10, |_| Generator::fork(Generator::count(), Generator::filter(|x: &u32| x % 2 == 0).collect())));
            let want: BTreeMap<u32, BTreeMap<u32, (usize, Vec<u32>)>> =
                parts.iter().map(|(k, v)| (*k, by_key(v, |x| x / 10).into_iter().map(|(k, v)| (k, (v.len(), v.iter().copied().filter(|x| x % 2 == 0).collect()))).collect())).collect();
            same("split of splits", feed(two, v), want)?;
            let words = Generator::map(|x: &u32| x.to_string()).split(|w: &String| w.len(), |n: &usize| { let n = *n; Generator::filter(move |w: &String| w.len() == n).collect() });
            let texts: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            same("split words", feed(words, v), by_key(&texts, |w| w.len()))
        }
        _ => Ok(()),
    }
}

impl Part for C12Typed {
    type Case = TypedCase;
    fn name(&self) -> &'static str {
        "typed"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<TypedCase> {
        let one = dict::mixed((0u32..40).boxed(), 60, 0, 1 << 30, |n| n as u32);
        (vec(one, 0..30), 0u32..20, 1u32..6, 0u32..6, 0u8..8).prop_map(|(input, min, modulus, gap, shape)| TypedCase { input, min, modulus, gap, shape }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 600_000 } else { 10_000_000 }
    }
    fn check(&self, c: &TypedCase, cx: &mut Cx) -> Outcome {
        if (1..6).contains(&c.shape) {
            return typed_shape(c, cx);
        }
        let (min, m, gap) = (c.min, c.modulus, c.gap);
        // groupby -> map -> filter -> fork(split(groupby -> merge -> collect), fold)
        let union = move |a: &(u32, u32), b: &(u32, u32)| if a.0 <= b.1 + gap && b.0 <= a.1 + gap { Some((a.0.min(b.0), a.1.max(b.1))) } else { None };
        let key = |p: &(u32, u32)| *p;
        let red1 = Generator::split(move |v: &u32| *v % m, move |_| Generator::groupby(|a: &u32, b: &u32| a <= b).merge(union, key).collect());
        let red2 = Generator::map(|v: &u32| *v as usize).sum();
        let mut r = Generator::filter(move |v: &u32| *v >= min).map(|v: &u32| v * 2 + 1).fork(red1, red2);
        for v in &c.input {
            r.next(*v);
        }
        let (got1, got2) = r.finalize();

        let v: Vec<u32> = c.input.iter().filter(|v| **v >= min).map(|v| v * 2 + 1).collect();
        let mut parts: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for x in &v {
            parts.entry(x % m).or_default().push(*x);
        }
        let mut want1 = BTreeMap::new();
        let mut joined = false;
        for (k, xs) in parts {
            let mut rs: Vec<(u32, u32)> = vec![];
            for (i, x) in xs.iter().enumerate() {
                if i > 0 && xs[i - 1] <= *x {
                    rs.last_mut().unwrap().1 = *x;
                } else {
                    rs.push((*x, *x));
                }
            }
            let g = groups(&rs, |a, b| union(a, b).is_some());
            joined |= g.len() < rs.len();
            let mut js: Vec<(u32, u32)> = g.iter().map(|g| (g.iter().map(|i| rs[*i].0).min().unwrap(), g.iter().map(|i| rs[*i].1).max().unwrap())).collect();
            js.sort();
            want1.insert(k, js);
        }
        cx.nontrivial_if(joined && want1.len() >= 2);
        ensure(got1 == want1, || format!("split of merged runs: {got1:?}, expected {want1:?}"))?;
        let want2: usize = v.iter().map(|x| *x as usize).sum();
        ensure(got2 == want2, || format!("sum: {got2}, expected {want2}"))
    }
}

// ---------------------------------------------------------------- C13

struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GroupCase {
    rel: RelF,
    input: Vec<V>,
}

impl Part for C13 {
    type Case = GroupCase;
    fn name(&self) -> &'static str {
        "runs"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<GroupCase> {
        (relf(), vals(if tier == Tier::Quick { 20 } else { 60 })).prop_map(|(rel, input)| GroupCase { rel, input }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 4_000_000 } else { 80_000_000 }
    }
    fn check(&self, c: &GroupCase, cx: &mut Cx) -> Outcome {
        // identify elements by position, so that equal values are told apart
        let n = c.input.len();
        let rel = |a: &usize, b: &usize| c.rel.on(&c.input[*a], &c.input[*b]);
        let mut want = vec![];
        let (mut i, mut longer, mut dropped, mut count) = (0, false, false, 0);
        while i < n {
            let mut j = i;
            while j + 1 < n && rel(&j, &(j + 1)) {
                j += 1;
            }
            count += 1;
            longer |= j > i;
            if j > i || rel(&i, &i) {
                want.push((i, j));
            } else {
                dropped = true;
            }
            i = j + 1;
        }
        cx.label_if(dropped, "dropped single element");
        cx.label_if((0..n).any(|i| rel(&i, &i)) && (0..n).any(|i| !rel(&i, &i)), "partly reflexive");
        cx.nontrivial_if(count >= 2 && (longer || dropped));

        let pulled = drive_ways(|| (0..n).groupby(rel), |x| x.0 * 1_000_003 + x.1, n + 5, "groupby on an iterator")?;
        ensure(pulled == want, || format!("iterator form gives runs {pulled:?}, expected {want:?}"))?;
        // pushed: a run is complete at the latest when the element behind the next run's first one comes, and in order
        let input = c.input.clone();
        let r = c.rel.clone();
        let mut a = Generator::groupby(move |a: &usize, b: &usize| r.on(&input[*a], &input[*b]));
        let mut out = vec![];
        for i in 0..n {
            if let ControlFlow::Continue(Some(p)) = a.adapt(i) {
                out.push(p);
            }
        }
        let mut fuel = 20;
        while let ControlFlow::Continue(o) = a.finalize() {
            out.extend(o);
            fuel -= 1;
            if fuel == 0 {
                return Err("finalising does not come to an end".into());
            }
        }
        ensure(out == want, || format!("push form gives runs {out:?}, expected {want:?}"))?;
        // through a reducer
        let (input, r) = (c.input.clone(), c.rel.clone());
        let mut red = Generator::groupby(move |a: &usize, b: &usize| r.on(&input[*a], &input[*b])).collect();
        for i in 0..n {
            red.next(i);
        }
        let out: Vec<(usize, usize)> = red.finalize();
        ensure(out == want, || format!("reducer form gives runs {out:?}, expected {want:?}"))
    }
}

/// Runs, and numbers of runs, beyond 65536.
struct LongRuns;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCase {
    rel: RelF,
    pattern: Vec<i64>,
    /// added at every repetition of the pattern
    up: i64,
    len: u32,
}

impl Part for LongRuns {
    type Case = LongCase;
    fn name(&self) -> &'static str {
        "long"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongCase> {
        (relf(), vec(0i64..9, 1..12), prop_oneof![0i64..3, -2i64..9], dict::mixed(prop_oneof![200u32..5000, 60_000u32..140_000].boxed(), 6, 17, 250_000, |n| n as u32)).prop_map(|(rel, pattern, up, len)| LongCase { rel, pattern, up, len }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 1_000 } else { 20_000 }
    }
    fn check(&self, c: &LongCase, cx: &mut Cx) -> Outcome {
        let n = c.pattern.len();
        let v: Vec<i64> = (0..c.len as usize).map(|i| c.pattern[i % n] + (i / n) as i64 * c.up).collect();
        let rel = |a: &(usize, i64), b: &(usize, i64)| c.rel.on(&V::I(a.1), &V::I(b.1));
        let it = || v.iter().copied().enumerate();
        let mut want = vec![];
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j + 1 < v.len() && rel(&(j, v[j]), &(j + 1, v[j + 1])) {
                j += 1;
            }
            if j > i || rel(&(i, v[i]), &(i, v[i])) {
                want.push((i, j));
            }
            i = j + 1;
        }
        cx.label_if(want.iter().any(|r| r.1 - r.0 >= 65536), "run longer than 65536");
        cx.label_if(want.len() > 65536, "more than 65536 runs");
        cx.nontrivial_if(want.len() >= 2 && want.iter().any(|r| r.0 < r.1));
        let differ = |what: &str, got: Vec<(usize, usize)>| {
            ensure(got == want, || {
                let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
                format!("{what}: run {i} is {:?}, expected {:?} ({} runs, {} expected)", got.get(i), want.get(i), got.len(), want.len())
            })
        };
        differ("iterator form", drive_ways(|| it().groupby(rel), |x| x.0 .0 * 1_000_003 + x.1 .0, v.len() + 5, "groupby on an iterator")?.into_iter().map(|(a, b)| (a.0, b.0)).collect())?;
        // collect() copies what it has so far with every element: only for short results
        let mk = || {
            let r = c.rel.clone();
            Generator::groupby(move |a: &(usize, i64), b: &(usize, i64)| r.on(&V::I(a.1), &V::I(b.1)))
        };
        let mut a = mk();
        let mut got: Vec<_> = it().filter_map(|x| if let ControlFlow::Continue(o) = a.adapt(x) { o } else { None }).collect();
        for _ in 0..5 {
            if let ControlFlow::Continue(o) = a.finalize() {
                got.extend(o);
            }
        }
        differ("push form", got.into_iter().map(|(a, b)| (a.0, b.0)).collect())?;
        let mut n = mk().count();
        it().for_each(|x| n.next(x));
        let n = n.finalize();
        ensure(n == want.len(), || format!("pushed into a count: {n} runs, expected {}", want.len()))?;
        let step = |h: u64, p: &(usize, usize)| (h.rotate_left(7) ^ p.0 as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(p.1 as u64);
        let mut f = mk().fold(1u64, move |h, p: ((usize, i64), (usize, i64))| step(h, &(p.0 .0, p.1 .0)));
        it().for_each(|x| f.next(x));
        ensure(f.finalize() == want.iter().fold(1, step), || "pushed into a fold: other runs than expected".into())?;
        if want.len() < 3000 {
            let mut red = mk().collect();
            it().for_each(|x| red.next(x));
            let got: Vec<_> = red.finalize();
            differ("reducer form", got.into_iter().map(|(a, b)| (a.0, b.0)).collect())?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RouteCase {
    key: MapF,
    pre: Vec<Stage>,
    inner: Pipe,
    other: Pipe,
    input: Vec<V>,
}

/// Records everything that happens to it.
struct Spy(Rc<RefCell<Vec<(usize, String)>>>, usize, Vec<V>);
impl ReducerTrait for Spy {
    type Input = V;
    type Reduced = Vec<V>;
    fn next(&mut self, v: V) {
        self.0.borrow_mut().push((self.1, "next".into()));
        self.2.push(v);
    }
    fn finalize(self) -> Vec<V> {
        self.0.borrow_mut().push((self.1, "finalize".into()));
        self.2
    }
}

impl Part for C14 {
    type Case = RouteCase;
    fn name(&self) -> &'static str {
        "push"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<RouteCase> {
        (mapf(), vec(stage(), 0..3), pipe(3), pipe(3), vals(20)).prop_map(|(key, pre, inner, other, input)| RouteCase { key, pre, inner, other, input }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 500_000 } else { 8_000_000 }
    }
    fn check(&self, c: &RouteCase, cx: &mut Cx) -> Outcome {
        // 1. split with a spy per key that knows its key
        let log = Rc::new(RefCell::new(vec![]));
        let made = Rc::new(RefCell::new(0usize));
        let k = c.key.clone();
        let (l2, m2) = (log.clone(), made.clone());
        let asked: Rc<RefCell<BTreeMap<usize, V>>> = Default::default();
        let a2 = asked.clone();
        let mut s = Split::new(move |v: &V| k.on(v), move |key: &V| {
            let mut n = m2.borrow_mut();
            *n += 1;
            a2.borrow_mut().insert(*n, key.clone());
            Spy(l2.clone(), *n, vec![])
        });
        for v in &c.input {
            s.next(v.clone());
        }
        let got = s.finalize();
        let mut want: BTreeMap<V, Vec<V>> = BTreeMap::new();
        for v in &c.input {
            want.entry(c.key.on(v)).or_default().push(v.clone());
        }
        cx.label_if(want.len() >= 2, "several keys");
        cx.label_if(want.is_empty(), "empty input");
        cx.nontrivial_if(want.len() >= 2 && (size(&c.inner).1 || matches!(c.inner.red, Red::Fold | Red::Collect)));
        ensure(got == want, || format!("split routes {got:?}, expected {want:?}"))?;
        // every reducer that got elements was made for the key it stands under, and was finalised exactly once
        let log = log.borrow();
        for id in 1..=*made.borrow() {
            let nexts = log.iter().filter(|e| e.0 == id && e.1 == "next").count();
            let fins = log.iter().filter(|e| e.0 == id && e.1 == "finalize").count();
            if nexts > 0 {
                ensure(fins == 1, || format!("reducer {id} got {nexts} elements and was finalised {fins} times"))?;
            }
        }
        let mut used: Vec<V> = (1..=*made.borrow()).filter(|id| log.iter().any(|e| e.0 == *id && e.1 == "next")).map(|id| asked.borrow()[&id].clone()).collect();
        used.sort();
        ensure(used == want.keys().cloned().collect::<Vec<_>>(), || format!("reducers were made for keys {used:?}, used keys are {:?}", want.keys()))?;

        // 2. fork: both sides, in order
        let p = Pipe { stages: c.pre.clone(), red: Red::Fork(Box::new(c.inner.clone()), Box::new(c.other.clone())) };
        let (got, w) = (push(&p, &c.input), eval(&p, &c.input));
        ensure(got == w, || format!("fork gives {got:?}, expected {w:?}"))?;
        // 3. stages, then split, then arbitrary inner pipelines
        let p = Pipe { stages: c.pre.clone(), red: Red::Split(c.key.clone(), Box::new(c.inner.clone())) };
        let (got, w) = (push(&p, &c.input), eval(&p, &c.input));
        ensure(got == w, || format!("split gives {got:?}, expected {w:?}"))
    }
}

struct C14It;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ItCase {
    input: Vec<i32>,
    m: i32,
    inner: u8,
}

impl Part for C14It {
    type Case = ItCase;
    fn name(&self) -> &'static str {
        "iterator-split"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ItCase> {
        let some = |n: u32| vec(prop_oneof![-9000i32..9000, 0i32..50], n as usize..n as usize + 1);
        let len = dict::mixed((257u32..6000).boxed(), 4, 17, 30_000, |n| n as u32);
        let long = (len.prop_flat_map(some), dict::mixed((1i32..5000).boxed(), 4, 17, 20_000, |n| n as i32), 0u8..3);
        let one = dict::mixed(prop_oneof![-20i32..40, 0i32..5].boxed(), 60, 0, 1 << 30, |n| n as i32);
        prop_oneof![1500 => (vec(one, 0..30), 1i32..7, 0u8..3), 1 => long].prop_map(|(input, m, inner)| ItCase { input, m, inner }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 1_500_000 } else { 25_000_000 }
    }
    fn check(&self, c: &ItCase, cx: &mut Cx) -> Outcome {
        let key = |v: &i32| v.rem_euclid(c.m);
        let mut want: BTreeMap<i32, Vec<i32>> = BTreeMap::new();
        for v in &c.input {
            want.entry(key(v)).or_default().push(*v);
        }
        cx.nontrivial_if(want.len() >= 2);
        match c.inner {
            0 => {
                let got = c.input.iter().copied().split(key, |_| Generator::fold(vec![], |mut a: Vec<i32>, v: i32| { a.push(v); a }));
                ensure(got == want, || format!("split gives {got:?}, expected {want:?}"))
            }
            1 => {
                // a reducer that depends on its key
                let got = c.input.iter().copied().split(key, |k: &i32| { let k = *k as i64; Fold::new(k * 1000, |a: i64, v: i32| a * 3 + v as i64 % 7) });
                let w: BTreeMap<i32, i64> = want.iter().map(|(k, v)| (*k, v.iter().fold(*k as i64 * 1000, |a, v| a.wrapping_mul(3).wrapping_add(*v as i64 % 7)))).collect();
                ensure(got == w, || format!("split gives {got:?}, expected {w:?}"))
            }
            _ => {
                let got = c.input.iter().copied().split(key, |_| Generator::groupby(|a: &i32, b: &i32| b >= a).count());
                let w: BTreeMap<i32, usize> = want.iter().map(|(k, v)| (*k, 1 + v.windows(2).filter(|w| w[1] < w[0]).count())).collect();
                ensure(got == w, || format!("split gives {got:?}, expected {w:?}"))
            }
        }
    }
}

// ---------------------------------------------------------------- C15

/// A value to be merged; `who` are the inputs it was joined from.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Mv {
    lo: i64,
    hi: i64,
    class: u64,
    who: Vec<u32>,
}

struct C15 {
    /// 0: intervals; 1: shared classes; 2: intervals of the same class; 3, 4, 5: very many as 0, 2 and 1
    kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MergeCase {
    /// low, high, class set, place in another input order
    input: Vec<(i64, i64, u64, u8)>,
    /// what the key is made of; all of them tell unrelated values apart
    #[serde(default)]
    key: u8,
}

fn related(kind: u8, a: &Mv, b: &Mv) -> bool {
    let overlap = a.lo <= b.hi && b.lo <= a.hi;
    match kind {
        0 | 3 => overlap,
        1 | 5 => a.class & b.class != 0,
        _ => a.class == b.class && overlap,
    }
}

fn join(a: &Mv, b: &Mv) -> Mv {
    let mut who = a.who.clone();
    who.extend(&b.who);
    who.sort();
    Mv { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), class: a.class | b.class, who }
}

impl Part for C15 {
    type Case = MergeCase;
    fn name(&self) -> &'static str {
        ["intervals", "shared-classes", "intervals-per-class", "many-intervals", "many-intervals-per-class", "many-shared-classes"][self.kind as usize]
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<MergeCase> {
        let n = if tier == Tier::Quick { 20 } else { 40 };
        let kind = self.kind;
        let one = (0i64..60, prop_oneof![60 => 0i64..4, 20 => 0i64..20, 1 => 0i64..60], 0u32..12, prop::option::weighted(0.4, 0u32..12), any::<u8>()).prop_map(move |(lo, d, c1, c2, p)| match kind {
            0 => (lo, lo + d, 1, p),
            1 => (lo, lo, 1 << c1 | c2.map_or(0, |c| 1 << c), p),
            _ => (lo, lo + d, 1 << (c1 % 3), p),
        });
        if kind == 5 {
            // now and then one that joins many groups
            let class = prop_oneof![60 => (0u32..64).prop_map(|c| 1 << c), 6 => (0u32..64, 0u32..64).prop_map(|(c, d)| 1 << c | 1 << d), 2 => any::<u64>(), 1 => Just(u64::MAX)];
            let len = prop_oneof![3 => 10usize..70, 1 => 70usize..300];
            return (len.prop_flat_map(move |n| vec((Just(0), Just(0), class.clone(), any::<u8>()), n..n + 1)), 0u8..4).prop_map(|(input, key)| MergeCase { input, key }).boxed();
        }
        if kind >= 3 {
            // hundreds of values, few or most of them apart from each other
            let len = dict::mixed((100u32..700).boxed(), 5, 17, 1500, |n| n as u32);
            let many = |w: i64| len.clone().prop_flat_map(move |n| vec((0..w, 0i64..12, 0u32..3, any::<u8>()), n as usize..n as usize + 1).prop_flat_map(move |v| {
                // some that reach over many others
                let n = v.len();
                (Just(v), prop_oneof![1 => Just(vec![]), 1 => vec((0..n, 0..w), 1..4)]).prop_map(|(mut v, wide)| {
                    for (i, d) in wide {
                        v[i].1 = d;
                    }
                    v
                })
            })).prop_map(move |v| v.into_iter().map(|(lo, d, c, p)| (lo, lo + d, if kind == 3 { 1 } else { 1 << c }, p)).collect::<Vec<_>>());
            return (prop_oneof![many(500), many(6000), many(100_000)], 0u8..4).prop_map(|(input, key)| MergeCase { input, key }).boxed();
        }
        (vec(one, 0..n), 0u8..4).prop_map(|(input, key)| MergeCase { input, key }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if self.kind >= 3 {
            return if tier == Tier::Quick { 300 } else { 6_000 };
        }
        if tier == Tier::Quick { 1_000_000 } else { 15_000_000 }
    }
    fn check(&self, c: &MergeCase, cx: &mut Cx) -> Outcome {
        let kind = self.kind;
        let input: Vec<Mv> = c.input.iter().enumerate().map(|(i, (lo, hi, class, _))| Mv { lo: *lo, hi: *hi, class: *class, who: vec![i as u32] }).collect();
        let gs = groups(&input, |a, b| related(kind, a, b));
        let mut want: Vec<Mv> = gs.iter().map(|g| g[1..].iter().fold(input[g[0]].clone(), |a, i| join(&a, &input[*i]))).collect();
        // the key orders values differently from the order they are written down in
        let mode = c.key;
        let classes = kind == 1 || kind == 5;
        let key = move |v: &Mv| match mode {
            0 => (v.hi, v.lo, v.class, v.who.clone()),
            1 => (v.hi, v.lo, v.class, vec![]),
            // unrelated values differ in where they begin, if they have the same class
            2 if classes => (0, 0, !v.class, vec![]),
            2 => (0, -v.lo, v.class, vec![]),
            _ if classes => (v.class.trailing_zeros() as i64, 0, 0, vec![]),
            _ => (v.class as i64, v.hi, 0, vec![]),
        };
        want.sort_by_key(key);
        cx.label_if(gs.iter().any(|g| g.len() >= 3), "three or more joined");
        cx.nontrivial_if(gs.len() >= 2 && gs.iter().any(|g| g.len() >= 3));
        let f = move |a: &Mv, b: &Mv| related(kind, a, b).then(|| join(a, b));
        let mut orders = vec![input.clone(), input.iter().rev().cloned().collect()];
        let mut sh = input.clone();
        sh.sort_by_key(|v| c.input[v.who[0] as usize].3);
        orders.push(sh);
        for (i, o) in orders.iter().enumerate() {
            let order: Vec<u32> = o.iter().map(|v| v.who[0]).collect();
            let mut a = Generator::merge(f, key);
            let mut got = vec![];
            for v in o {
                if let ControlFlow::Continue(Some(x)) = a.adapt(v.clone()) {
                    return Err(format!("{x:?} is emitted before the input has ended"));
                }
            }
            let mut fuel = 2 * o.len() + 5;
            while let ControlFlow::Continue(x) = a.finalize() {
                got.extend(x);
                fuel -= 1;
                if fuel == 0 {
                    return Err("finalising does not come to an end".into());
                }
            }
            ensure(got == want, || format!("input order {order:?}: emits {got:?}, expected {want:?}"))?;
            for _ in 0..2 {
                if let ControlFlow::Continue(Some(x)) = a.finalize() {
                    return Err(format!("{x:?} is emitted again"));
                }
            }
            if i == 0 {
                let mut r = Generator::merge(f, key).collect();
                for v in o {
                    r.next(v.clone());
                }
                let got: Vec<Mv> = r.finalize();
                ensure(got == want, || format!("through a reducer: {got:?}, expected {want:?}"))?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

/// A whole chain as one stage, for the iterator adaptation.
struct Chain(Dyn);
impl AdaptFnTrait for Chain {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, v: V) -> Flow<V> {
        AdapterTrait::adapt(&mut self.0, v)
    }
    fn finalize(&mut self) -> Flow<V> {
        AdapterTrait::finalize(&mut self.0)
    }
}

struct C16;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChainCase {
    stages: Vec<Stage>,
    input: Vec<V>,
}

impl Part for C16 {
    type Case = ChainCase;
    fn name(&self) -> &'static str {
        "chains"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<ChainCase> {
        let (n, m) = if tier == Tier::Quick { (6, 18) } else { (12, 50) };
        (vec(stage(), 1..n), vals(m)).prop_map(|(stages, input)| ChainCase { stages, input }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 2_000_000 } else { 30_000_000 }
    }
    fn check(&self, c: &ChainCase, cx: &mut Cx) -> Outcome {
        let hold = c.stages.iter().any(|s| matches!(s, Stage::Group(_) | Stage::Merge));
        let cap = c.input.len() + 9;
        // 1. the push pipeline
        let p = Pipe { stages: c.stages.clone(), red: Red::Collect };
        let Out::L(pushed) = push(&p, &c.input) else { unreachable!() };
        cx.label_if(c.stages.len() == 1, "single stage");
        cx.nontrivial_if(c.stages.len() >= 2 && hold && pushed.len() >= 2);
        // 2. the chain as one stage
        let chain = || {
            let mut a: Option<Dyn> = None;
            for s in &c.stages {
                a = Some(add_stage(a, s));
            }
            FromAdaptFn::new(Chain(a.unwrap()), c.input.clone().into_iter())
        };
        let key = |v: &V| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.hash(&mut h);
            h.finish() as usize
        };
        let pulled = drive_ways(chain, key, cap, "chain as an iterator")?;
        ensure(pulled == pushed, || format!("as an iterator: {pulled:?}\npushed: {pushed:?}"))?;
        // 3. every stage adapted on its own, iterators chained
        let mut it: Box<dyn Iterator<Item = V>> = Box::new(c.input.clone().into_iter());
        for s in &c.stages {
            it = match s.clone() {
                Stage::Map(f) => Box::new(FromAdaptFn::new(Map::new(move |v: &V| f.on(v)), it)),
                Stage::Filter(p) => Box::new(FromAdaptFn::new(Filter::new(move |v: &V| p.on(v)), it)),
                Stage::Group(r) => Box::new(FromAdaptFn::new(GroupBy::new(move |a: &V, b: &V| r.on(a, b)), it).map(|p| pair(&p))),
                Stage::Merge => Box::new(FromAdaptFn::new(Merge::new(join_spans, |v: &V| v.clone()), it)),
            };
        }
        let chained = drive(it, cap, "chained iterators")?;
        ensure(chained == pushed, || format!("chained iterators: {chained:?}\npushed: {pushed:?}"))
    }
}
