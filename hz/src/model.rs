//! Reference model (abstract labelled graph) and the comparison of a real graph with it.
use rust_graph::generic::{EdgeTrait, GeneralGraph, IdType, MapTrait, NodeTrait};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Ctx {
    pub r: Rng,
    pub size: usize,
    pub log: Vec<String>,
    pub steps: u64,
    pub dir: std::path::PathBuf,
}
impl Ctx {
    pub fn log(&mut self, s: String) {
        if self.log.len() < 400 {
            self.log.push(s)
        }
    }
}

pub type R = Result<(), String>;

/// Label types used in the harness.
pub trait Lb: Hash + Eq + Ord + Clone + Debug + serde::Serialize + for<'de> serde::Deserialize<'de> + 'static {
    fn mk(k: u32) -> Self;
    fn un(&self) -> u32;
}
impl Lb for u32 {
    fn mk(k: u32) -> u32 { k }
    fn un(&self) -> u32 { *self }
}
impl Lb for String {
    fn mk(k: u32) -> String { format!("l{}", k) }
    fn un(&self) -> u32 { self[1..].parse().unwrap() }
}
pub trait Ix: IdType + for<'de> serde::Deserialize<'de> {}
impl Ix for u8 {}
impl Ix for u16 {}
impl Ix for u32 {}
impl Ix for usize {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct M {
    pub dir: bool,
    pub nodes: BTreeMap<usize, Option<u32>>,
    pub edges: BTreeMap<(usize, usize), Option<u32>>,
    pub maxid: Option<usize>,
}
impl M {
    pub fn new(dir: bool) -> M {
        M { dir, nodes: BTreeMap::new(), edges: BTreeMap::new(), maxid: None }
    }
    pub fn canon(&self) -> BTreeMap<(usize, usize), Option<u32>> {
        self.edges.iter().filter(|(k, _)| self.dir || k.0 <= k.1).map(|(k, v)| (*k, *v)).collect()
    }
    pub fn add_node(&mut self, n: usize, l: Option<u32>) -> bool {
        self.maxid = Some(self.maxid.map_or(n, |m| m.max(n)));
        self.nodes.insert(n, l).is_none()
    }
    pub fn add_edge(&mut self, s: usize, t: usize, l: Option<u32>) -> bool {
        for x in [s, t] {
            if !self.nodes.contains_key(&x) {
                self.add_node(x, None);
            }
        }
        let new = !self.edges.contains_key(&(s, t));
        self.edges.insert((s, t), l);
        if !self.dir {
            self.edges.insert((t, s), l);
        }
        new
    }
    pub fn remove_node(&mut self, n: usize) -> Option<Option<u32>> {
        let r = self.nodes.remove(&n);
        if r.is_some() {
            self.edges.retain(|k, _| k.0 != n && k.1 != n);
        }
        r
    }
    pub fn remove_edge(&mut self, s: usize, t: usize) -> Option<Option<u32>> {
        let r = self.edges.remove(&(s, t));
        if !self.dir {
            self.edges.remove(&(t, s));
        }
        r
    }
    pub fn relabel_edge(&mut self, s: usize, t: usize, l: Option<u32>) {
        self.edges.insert((s, t), l);
        if !self.dir {
            self.edges.insert((t, s), l);
        }
    }
    pub fn nb(&self, n: usize) -> BTreeSet<usize> {
        self.edges.range((n, 0)..=(n, usize::MAX)).map(|(k, _)| k.1).collect()
    }
    pub fn inb(&self, n: usize) -> BTreeSet<usize> {
        self.edges.keys().filter(|k| k.1 == n).map(|k| k.0).collect()
    }
    pub fn same(&self, o: &M) -> bool {
        self.dir == o.dir && self.nodes == o.nodes && self.edges == o.edges
    }
    pub fn restrict(&self, keep: &BTreeSet<usize>) -> M {
        let mut m = M::new(self.dir);
        for (n, l) in &self.nodes {
            if keep.contains(n) {
                m.add_node(*n, *l);
            }
        }
        for (k, l) in &self.edges {
            if keep.contains(&k.0) && keep.contains(&k.1) {
                m.edges.insert(*k, *l);
            }
        }
        m
    }
}

macro_rules! ck {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b)); }
    }};
}
pub(crate) use ck;
macro_rules! req {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}
pub(crate) use req;

fn cap<I: Iterator>(it: I, n: usize) -> Vec<I::Item> {
    it.take(n).collect()
}

/// What to compare.
#[derive(Clone, Copy)]
pub struct Opt {
    pub sorted: bool,      // neighbour lists are ascending (static graphs)
    pub maxid: bool,       // compare max_seen_id with m.maxid
}
pub const FULL: Opt = Opt { sorted: false, maxid: true };

pub fn probes<Id: Ix>(m: &M, extra: &[usize], lim: usize) -> Vec<usize> {
    let mx = Id::max_usize();
    let mut p: BTreeSet<usize> = m.nodes.keys().cloned().collect();
    if p.len() > lim {
        let step = p.len() / lim + 1;
        let last = *p.iter().next_back().unwrap();
        p = p.into_iter().step_by(step).collect();
        p.insert(last);
    }
    for e in extra.iter().chain([0, 1, mx].iter()) {
        if *e <= mx {
            p.insert(*e);
        }
    }
    if let Some(x) = m.nodes.keys().next_back() {
        if *x < mx {
            p.insert(*x + 1);
        }
    }
    p.into_iter().collect()
}

/// Everything a reader of the graph can observe agrees with the model.
pub fn check_view<Id: Ix, NL: Lb, EL: Lb, L: Ix>(
    g: &dyn GeneralGraph<Id, NL, EL, L>,
    m: &M,
    o: Opt,
    extra: &[usize],
) -> R {
    let ix = |x: usize| Id::new(x);
    ck!(g.is_directed(), m.dir, "is_directed()");
    ck!(g.as_digraph().is_some(), m.dir, "as_digraph().is_some()");
    ck!(g.node_count(), m.nodes.len(), "node_count()");
    let canon = m.canon();
    let n = m.nodes.len() + 3;
    let e = canon.len() + 3;
    ck!(g.edge_count(), canon.len(), "edge_count()");
    let mut v: Vec<usize> = cap(g.node_indices(), n).iter().map(|x| x.id()).collect();
    v.sort();
    ck!(v, m.nodes.keys().cloned().collect::<Vec<_>>(), "node_indices() as a multiset");
    let nlm = g.get_node_label_map();
    let elm = g.get_edge_label_map();
    let nl = |l: Option<L>| -> Result<Option<u32>, String> {
        match l {
            None => Ok(None),
            Some(l) => match nlm.get_item(l.id()) {
                Some(x) => Ok(Some(x.un())),
                None => Err(format!("node label id {:?} is not in the label table", l)),
            },
        }
    };
    let el = |l: Option<L>| -> Result<Option<u32>, String> {
        match l {
            None => Ok(None),
            Some(l) => match elm.get_item(l.id()) {
                Some(x) => Ok(Some(x.un())),
                None => Err(format!("edge label id {:?} is not in the label table", l)),
            },
        }
    };
    let mut v = vec![];
    for x in cap(g.nodes(), n) {
        req!(x.is_some(), "nodes() yields None");
        v.push((x.get_id().id(), nl(x.get_label_id())?));
    }
    v.sort();
    ck!(v, m.nodes.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "nodes() as a multiset");
    let mut v: Vec<(usize, usize)> = cap(g.edge_indices(), e).iter().map(|x| (x.0.id(), x.1.id())).collect();
    v.sort();
    ck!(v, canon.keys().cloned().collect::<Vec<_>>(), "edge_indices() as a multiset");
    let mut v = vec![];
    for x in cap(g.edges(), e) {
        req!(x.is_some(), "edges() yields None");
        v.push(((x.get_start().id(), x.get_target().id()), el(x.get_label_id())?));
    }
    v.sort();
    ck!(v, canon.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "edges() as a multiset");
    if o.maxid {
        ck!(g.max_seen_id().map(|x| x.id()), m.maxid, "max_seen_id()");
    }
    ck!(g.max_possible_id().id(), Id::max_usize(), "max_possible_id()");
    ck!(g.max_possible_label_id().id(), L::max_usize(), "max_possible_label_id()");
    // labels
    ck!(g.num_of_node_labels(), nlm.len(), "num_of_node_labels()");
    ck!(g.num_of_edge_labels(), elm.len(), "num_of_edge_labels()");
    ck!(g.has_node_labels(), nlm.len() > 0, "has_node_labels()");
    ck!(g.has_edge_labels(), elm.len() > 0, "has_edge_labels()");
    for (i, x) in cap(g.node_labels(), nlm.len() + 2).into_iter().enumerate() {
        ck!(Some(x), nlm.get_item(i), "node_labels() item {}", i);
        ck!(nlm.find_index(x), Some(i), "index of node label {}", i);
    }
    for (i, x) in cap(g.edge_labels(), elm.len() + 2).into_iter().enumerate() {
        ck!(Some(x), elm.get_item(i), "edge_labels() item {}", i);
        ck!(elm.find_index(x), Some(i), "index of edge label {}", i);
    }
    let mut cn: BTreeMap<u32, usize> = BTreeMap::new();
    for l in m.nodes.values().flatten() {
        *cn.entry(*l).or_insert(0) += 1;
    }
    let mut ce: BTreeMap<u32, usize> = BTreeMap::new();
    for l in canon.values().flatten() {
        *ce.entry(*l).or_insert(0) += 1;
    }
    let c: BTreeMap<u32, usize> = g.get_node_label_counter().most_common().into_iter().map(|(k, v)| (k.un(), v)).collect();
    ck!(c, cn, "get_node_label_counter()");
    let c: BTreeMap<u32, usize> = g.get_edge_label_counter().most_common().into_iter().map(|(k, v)| (k.un(), v)).collect();
    ck!(c, ce, "get_edge_label_counter()");
    let mut c = BTreeMap::new();
    for (k, v) in g.get_node_label_id_counter().most_common() {
        c.insert(nl(Some(k))?.unwrap(), v);
    }
    ck!(c, cn, "get_node_label_id_counter()");
    let mut c = BTreeMap::new();
    for (k, v) in g.get_edge_label_id_counter().most_common() {
        c.insert(el(Some(k))?.unwrap(), v);
    }
    ck!(c, ce, "get_edge_label_id_counter()");
    // point queries
    let p = probes::<Id>(m, extra, 24);
    for &x in &p {
        let here = m.nodes.contains_key(&x);
        ck!(g.has_node(ix(x)), here, "has_node({})", x);
        let nd = g.get_node(ix(x));
        ck!(nd.is_some(), here, "get_node({}).is_some()", x);
        ck!(nd.is_none(), !here, "get_node({}).is_none()", x);
        ck!(g.get_node_label(ix(x)).map(|l| l.un()), m.nodes.get(&x).cloned().unwrap_or(None), "get_node_label({})", x);
        if here {
            ck!(nd.get_id().id(), x, "get_node({}).get_id()", x);
            ck!(nl(nd.get_label_id())?, m.nodes[&x], "label of get_node({})", x);
            check_nb(g.degree(ix(x)), cap(g.neighbors_iter(ix(x)), n), g.neighbors(ix(x)).to_vec(), m.nb(x), o.sorted, "", x)?;
            if let Some(d) = g.as_digraph() {
                check_nb(d.in_degree(ix(x)), cap(d.in_neighbors_iter(ix(x)), n), d.in_neighbors(ix(x)).to_vec(), m.inb(x), o.sorted, "in_", x)?;
            }
        }
        for &y in &p {
            let lab = m.edges.get(&(x, y));
            ck!(g.has_edge(ix(x), ix(y)), lab.is_some(), "has_edge({},{})", x, y);
            let ed = g.get_edge(ix(x), ix(y));
            ck!(ed.is_some(), lab.is_some(), "get_edge({},{}).is_some()", x, y);
            if let Some(l) = lab {
                ck!((ed.get_start().id(), ed.get_target().id()), (x, y), "ends of get_edge({},{})", x, y);
                ck!(el(ed.get_label_id())?, *l, "label of get_edge({},{})", x, y);
            }
            ck!(g.get_edge_label(ix(x), ix(y)).map(|l| l.un()), lab.cloned().unwrap_or(None), "get_edge_label({},{})", x, y);
        }
    }
    // the views through the other trait objects
    ck!(g.as_graph().node_count(), m.nodes.len(), "as_graph().node_count()");
    ck!(g.as_labeled_graph().edge_count(), canon.len(), "as_labeled_graph().edge_count()");
    ck!(g.as_general_graph().is_directed(), m.dir, "as_general_graph().is_directed()");
    Ok(())
}

fn check_nb<Id: Ix>(deg: usize, it: Vec<Id>, v: Vec<Id>, want: BTreeSet<usize>, sorted: bool, pre: &str, x: usize) -> R {
    ck!(deg, want.len(), "{}degree({})", pre, x);
    for (what, l) in [("neighbors_iter", it), ("neighbors", v)] {
        let mut l: Vec<usize> = l.iter().map(|x| x.id()).collect();
        if !sorted {
            l.sort();
        }
        ck!(l, want.iter().cloned().collect::<Vec<_>>(), "{}{}({})", pre, what, x);
    }
    Ok(())
}

/// Random model.
pub fn rand_model<Id: Ix>(c: &mut Ctx, dir: bool, style: Style) -> M {
    let mut m = M::new(dir);
    let mx = Id::max_usize();
    let n = match c.r.below(8) {
        0 => c.r.below(3),
        _ => 1 + c.r.below(c.size + 1),
    };
    let mut pool: Vec<usize> = (0..n).collect();
    match style {
        Style::Any => {
            if c.r.chance(1, 3) {
                for x in pool.iter_mut() {
                    if c.r.chance(1, 3) {
                        *x = c.r.below(mx.min(1 << 40)) ;
                    }
                }
                if c.r.chance(1, 2) {
                    pool.push(mx);
                }
            }
        }
        Style::Gaps => {
            if c.r.chance(1, 3) {
                pool.push(mx.min(n + c.r.below(60)));
            }
        }
        Style::Dense => {}
    }
    pool.retain(|x| *x <= mx);
    pool.sort();
    pool.dedup();
    // now and then more labels than a small table holds
    let many = |c: &mut Ctx| if c.size > 12 && c.r.chance(1, 3) { 20 + c.r.below(230) } else { c.r.below(4) };
    let nl = many(c);
    let elb = many(c);
    let lab = |c: &mut Ctx, k: usize| if k == 0 || c.r.chance(1, 4) { None } else { Some(c.r.below(k) as u32) };
    for &x in &pool {
        if style == Style::Dense || c.r.chance(9, 10) {
            let l = lab(c, nl);
            m.add_node(x, l);
        }
    }
    if pool.is_empty() {
        return m;
    }
    let e = match c.r.below(4) {
        0 => c.r.below(3),
        1 => c.r.below(pool.len() * pool.len().min(12) + 1),
        _ => c.r.below(2 * pool.len() + 1),
    };
    // shapes that chance seldom builds
    let p = pool.len();
    let back = c.r.chance(1, 2);
    let skip = c.r.below(12);
    let mut shape: Vec<(usize, usize)> = vec![];
    if c.size > 4 && c.r.chance(1, if c.size > 12 { 2 } else { 4 }) {
        match c.r.below(6) {
            0 => {
                // a hub
                let h = c.r.below(p);
                shape = (0..p).map(|i| (h, i)).collect();
            }
            1 => {
                // two of them
                let (h, k) = (c.r.below(p), c.r.below(p));
                shape = (0..p).flat_map(|i| [(h, i), (k, i)]).collect();
            }
            5 => shape = (1..p).map(|i| (i - 1, i)).collect(),
            2 => shape = (0..p).map(|i| (i, (i + 1) % p)).collect(),
            3 => shape = (0..p.min(24)).flat_map(|i| (0..p.min(24)).map(move |j| (i, j))).collect(),
            _ => {
                // pairs of pairs of pairs ...
                let mut k = 1;
                while k < p {
                    let mut i = 0;
                    while i + k < p {
                        shape.push((i, i + k));
                        i += 2 * k;
                    }
                    k *= 2;
                }
            }
        }
        if c.r.chance(1, 2) {
            c.r.shuffle(&mut pool);
        }
    }
    for (i, j) in shape {
        if skip == 0 && c.r.chance(1, 10) {
            continue;
        }
        let (s, t) = if back { (pool[j], pool[i]) } else { (pool[i], pool[j]) };
        let l = lab(c, elb);
        m.add_edge(s, t, l);
        if m.dir && skip == 1 {
            let l = lab(c, elb);
            m.add_edge(t, s, l);
        }
    }
    for _ in 0..e {
        let s = pool[c.r.below(pool.len())];
        let t = if c.r.chance(1, 8) { s } else { pool[c.r.below(pool.len())] };
        let l = lab(c, elb);
        m.add_edge(s, t, l);
    }
    m
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Style {
    Any,
    Gaps,
    Dense,
}

pub fn describe(m: &M) -> String {
    format!("{} nodes {:?} edges {:?}", if m.dir { "directed" } else { "undirected" }, m.nodes, m.canon())
}
