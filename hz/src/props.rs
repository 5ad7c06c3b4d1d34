//! One randomized case per property, each against the reference model.
use crate::model::*;
use rust_graph::algorithm::*;
use rust_graph::generic::*;
use rust_graph::graph_gen::*;
use rust_graph::graph_impl::graph_map::new_general_graphmap;
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::graph_impl::*;
use rust_graph::io::csv::{read_from_csv, write_to_csv, CSVReader, CSVWriter};
use rust_graph::io::mmap::{dump, TypedMemoryMap};
use rust_graph::io::serde::{Deserialize as De, Deserializer, Serialize as Se, Serializer};
use rust_graph::map::{SetMap, VecMap};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

macro_rules! by_type {
    ($c:expr, $f:ident) => {{
        let dir = $c.r.chance(1, 2);
        match ($c.r.below(4), dir) {
            (0, true) => $f::<u32, u32, String, Directed, u32>($c, true),
            (1, true) => $f::<u8, String, u32, Directed, u8>($c, true),
            (2, true) => $f::<usize, u32, u32, Directed, u16>($c, true),
            (_, true) => $f::<u16, String, String, Directed, usize>($c, true),
            (0, false) => $f::<u32, u32, String, Undirected, u32>($c, false),
            (1, false) => $f::<u8, String, u32, Undirected, u8>($c, false),
            (2, false) => $f::<usize, u32, u32, Undirected, u16>($c, false),
            (_, false) => $f::<u16, String, String, Undirected, usize>($c, false),
        }
    }};
}

pub fn case(prop: &str, c: &mut Ctx) -> R {
    match prop {
        "C01" | "C02" | "C03" => by_type!(c, ops),
        "C04" => maps(c),
        "C05" => by_type!(c, stat),
        "C06" => by_type!(c, into_stat),
        "C07" => by_type!(c, mmap),
        "C08" => by_type!(c, bfs),
        "C09" => by_type!(c, dfs),
        "C10" => by_type!(c, conncomp),
        "C11" => by_type!(c, connsub),
        "C12" => by_type!(c, union),
        "C13" => by_type!(c, minus),
        "C14" => by_type!(c, reorder),
        "C15" => by_type!(c, equality),
        "C16" => by_type_gen(c),
        "C17" => ids(c),
        "C18" => by_type!(c, export),
        "C19" => csv(c),
        "C20" => tmm(c),
        "C21" => ldbc(c),
        _ => panic!("unknown property"),
    }
}

type Gm<Id, NL, EL, Ty, L> = TypedGraphMap<Id, NL, EL, Ty, L>;
type Sg<Id, NL, EL, Ty, L> = TypedStaticGraph<Id, NL, EL, Ty, L>;

/// Bridges `Ty` to the trait objects, which the crate only provides for the two concrete markers.
pub trait Dir: GraphType + 'static {
    fn map<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>) -> &dyn GeneralGraph<Id, NL, EL, L>;
    fn mapbox<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: Gm<Id, NL, EL, Self, L>) -> Box<dyn GeneralGraph<Id, NL, EL, L>>;
    fn mapmut<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &mut Gm<Id, NL, EL, Self, L>) -> &mut dyn GeneralGraph<Id, NL, EL, L>;
    fn stat<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>) -> &dyn GeneralGraph<Id, NL, EL, L>;
    fn statbox<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: Sg<Id, NL, EL, Self, L>) -> Box<dyn GeneralGraph<Id, NL, EL, L>>;
    fn bfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L>;
    fn sbfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L>;
    fn dfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>, s: Option<Option<Id>>) -> Dfs<'_, Id, NL, EL, L>;
    fn sdfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>, s: Option<Option<Id>>) -> Dfs<'_, Id, NL, EL, L>;
    fn add<Id: Ix, NL: Lb, EL: Lb, L: Ix>(a: Gm<Id, NL, EL, Self, L>, b: Gm<Id, NL, EL, Self, L>, boxed: bool) -> Gm<Id, NL, EL, Self, L>;
    fn sub<Id: Ix, NL: Lb, EL: Lb, L: Ix>(a: Gm<Id, NL, EL, Self, L>, b: Gm<Id, NL, EL, Self, L>, boxed: bool) -> Gm<Id, NL, EL, Self, L>;
}
macro_rules! dir_impl {
    ($t:ty) => {
        impl Dir for $t {
            fn map<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>) -> &dyn GeneralGraph<Id, NL, EL, L> { g }
            fn mapbox<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: Gm<Id, NL, EL, Self, L>) -> Box<dyn GeneralGraph<Id, NL, EL, L>> { Box::new(g) }
            fn mapmut<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &mut Gm<Id, NL, EL, Self, L>) -> &mut dyn GeneralGraph<Id, NL, EL, L> { g }
            fn stat<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>) -> &dyn GeneralGraph<Id, NL, EL, L> { g }
            fn statbox<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: Sg<Id, NL, EL, Self, L>) -> Box<dyn GeneralGraph<Id, NL, EL, L>> { Box::new(g) }
            fn bfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L> { Bfs::new(g, s) }
            fn sbfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>, s: Option<Id>) -> Bfs<'_, Id, NL, EL, L> { Bfs::new(g, s) }
            fn dfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Gm<Id, NL, EL, Self, L>, s: Option<Option<Id>>) -> Dfs<'_, Id, NL, EL, L> {
                match s { Some(s) => Dfs::new(g, s), None => Dfs::with_capacity(g) }
            }
            fn sdfs<Id: Ix, NL: Lb, EL: Lb, L: Ix>(g: &Sg<Id, NL, EL, Self, L>, s: Option<Option<Id>>) -> Dfs<'_, Id, NL, EL, L> {
                match s { Some(s) => Dfs::new(g, s), None => Dfs::with_capacity(g) }
            }
            fn add<Id: Ix, NL: Lb, EL: Lb, L: Ix>(a: Gm<Id, NL, EL, Self, L>, b: Gm<Id, NL, EL, Self, L>, boxed: bool) -> Gm<Id, NL, EL, Self, L> {
                if boxed { Box::new(a) + Box::new(b) } else { a + b }
            }
            fn sub<Id: Ix, NL: Lb, EL: Lb, L: Ix>(a: Gm<Id, NL, EL, Self, L>, b: Gm<Id, NL, EL, Self, L>, boxed: bool) -> Gm<Id, NL, EL, Self, L> {
                if boxed { Box::new(a) - Box::new(b) } else { a - b }
            }
        }
    };
}
dir_impl!(Directed);
dir_impl!(Undirected);

fn nlab<X: Lb>(l: Option<u32>) -> Option<X> {
    l.map(X::mk)
}

/// Build the real graph of a model, in random order and with history noise.
fn build<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, m: &M) -> Gm<Id, NL, EL, Ty, L> {
    let mut g: Gm<Id, NL, EL, Ty, L> = match c.r.below(3) {
        0 => TypedGraphMap::new(),
        1 => TypedGraphMap::with_capacity(c.r.below(9), c.r.below(5), c.r.below(5)),
        _ => TypedGraphMap::default(),
    };
    let mut ns: Vec<_> = m.nodes.iter().map(|(a, b)| (*a, *b)).collect();
    let mut es: Vec<_> = m.canon().into_iter().collect();
    c.r.shuffle(&mut ns);
    c.r.shuffle(&mut es);
    let noise = c.r.chance(1, 3);
    for (n, l) in &ns {
        if noise && c.r.chance(1, 3) {
            let k = c.r.below(5) as u32;
            g.add_node(Id::new(*n), Some(NL::mk(k)));
        }
        g.add_node(Id::new(*n), nlab(*l));
    }
    for ((s, t), l) in &es {
        let (s, t) = if !m.dir && c.r.chance(1, 2) { (*t, *s) } else { (*s, *t) };
        if noise && c.r.chance(1, 3) {
            let k = c.r.below(5) as u32;
            g.add_edge(Id::new(s), Id::new(t), Some(EL::mk(k)));
            if c.r.chance(1, 2) {
                g.remove_edge(Id::new(s), Id::new(t));
            }
        }
        g.add_edge(Id::new(s), Id::new(t), nlab(*l));
    }
    c.log(format!("graph {}", describe(m)));
    g
}

fn ops<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let mx = Id::max_usize();
    let mut m = M::new(dir);
    c.log(format!("{} Id::MAX={} L::MAX={}", if dir { "directed" } else { "undirected" }, mx, L::max_usize()));
    let mut g: Gm<Id, NL, EL, Ty, L>;
    let k = 1 + c.r.below(c.size + 1);
    let mut pool: Vec<usize> = (0..k.min(mx - 1)).collect();
    if c.r.chance(1, 3) {
        pool.push(mx);
        pool.push(mx - 1);
    }
    let mut ntab: Vec<u32> = vec![];
    let mut etab: Vec<u32> = vec![];
    // number of distinct labels; sometimes as many as the label id type can number
    let lc = if L::max_usize() == 255 && c.r.chance(1, 40) { 256 } else if c.size > 12 && c.r.chance(1, 2) { 30 + c.r.below(200) } else { 1 + c.r.below(5) };
    match c.r.below(4) {
        0 => {
            let es: Vec<(usize, usize)> = (0..c.r.below(2 * k + 1)).map(|_| (pool[c.r.below(pool.len())], pool[c.r.below(pool.len())])).collect();
            c.log(format!("from_edges {:?}", es));
            for (s, t) in &es {
                m.add_node(*s, None);
                m.add_node(*t, None);
                m.add_edge(*s, *t, None);
            }
            g = TypedGraphMap::from_edges(es.iter().map(|(s, t)| (Id::new(*s), Id::new(*t))));
        }
        1 => {
            ntab = (0..lc.min(3)).map(|x| x as u32).collect();
            etab = (0..lc.min(2)).map(|x| x as u32).collect();
            c.log(format!("with_label_map {:?} {:?}", ntab, etab));
            g = TypedGraphMap::with_label_map(
                ntab.iter().map(|x| NL::mk(*x)).collect(),
                etab.iter().map(|x| EL::mk(*x)).collect(),
            );
        }
        2 => g = TypedGraphMap::with_capacity(3, 2, 1),
        _ => g = TypedGraphMap::new(),
    }
    if lc == 256 {
        for x in 0..256u32 {
            m.add_node(0, Some(x));
            g.add_node(Id::new(0), Some(NL::mk(x)));
            ntab.push(x);
        }
        ntab = dedup(ntab);
        c.log("add_node(0, l) for 256 labels".into());
    }
    let ext: Vec<usize> = pool.iter().cloned().take(6).chain(pool.iter().cloned().rev().take(6)).collect();
    let big = c.size > 12;
    macro_rules! view {
        () => {
            check_view(Ty::map(&g), &m, FULL, &ext)?
        };
    }
    view!();
    let n = 3 + c.r.below(6 * c.size + 6);
    // now and then most edges share an end
    let hub = if big && c.r.chance(1, 2) { Some((pool[c.r.below(pool.len())], c.r.below(4))) } else { None };
    for _ in 0..n {
        c.steps += 1;
        let mut a = pool[c.r.below(pool.len())];
        let mut b = if c.r.chance(1, 6) { a } else { pool[c.r.below(pool.len())] };
        if let Some((h, k)) = hub {
            match k { 0 => b = h, 1 => a = h, 2 if c.r.chance(1, 2) => b = h, 2 => a = h, _ if c.r.chance(1, 3) => b = h, _ => {} }
        }
        let l = if c.r.chance(1, 4) { None } else { Some(c.r.below(lc) as u32) };
        let (ia, ib) = (Id::new(a), Id::new(b));
        match c.r.below(20) {
            0 | 1 | 2 => {
                c.log(format!("add_node({},{:?})", a, l));
                push(&mut ntab, l);
                ck!(g.add_node(ia, nlab(l)), m.add_node(a, l), "add_node({},{:?})", a, l);
            }
            3 | 4 | 5 | 6 | 7 | 8 => {
                c.log(format!("add_edge({},{},{:?})", a, b, l));
                push(&mut etab, l);
                ck!(g.add_edge(ia, ib, nlab(l)), m.add_edge(a, b, l), "add_edge({},{},{:?})", a, b, l);
            }
            9 if hub.map_or(true, |h| h.0 != a || c.r.chance(1, 9)) => {
                c.log(format!("remove_node({})", a));
                let want = m.nodes.get(&a).cloned();
                let nb = m.nb(a);
                let inb = m.inb(a);
                m.remove_node(a);
                let r = g.remove_node(ia);
                ck!(r.is_some(), want.is_some(), "remove_node({}) found", a);
                if let Some(w) = want {
                    ck!(r.get_id().id(), a, "id of the removed node {}", a);
                    ck!(lab_of(g.get_node_label_map(), r.get_label_id()), w, "label of the removed node {}", a);
                    let nm = match r { OwnedNodeType::NodeMap(x) => x, _ => unreachable!() };
                    ck!(nm.neighbors().iter().map(|x| x.id()).collect::<BTreeSet<_>>(), nb, "neighbours of the removed node {}", a);
                    if dir {
                        ck!(nm.in_neighbors().iter().map(|x| x.id()).collect::<BTreeSet<_>>(), inb, "in-neighbours of the removed node {}", a);
                    }
                }
            }
            10 | 11 => {
                c.log(format!("remove_edge({},{})", a, b));
                let want = m.remove_edge(a, b);
                let r = g.remove_edge(ia, ib);
                ck!(r.is_some(), want.is_some(), "remove_edge({},{}) found", a, b);
                if let Some(w) = want {
                    ck!((r.get_start().id(), r.get_target().id()), (a, b), "ends of the removed edge");
                    ck!(lab_of(g.get_edge_label_map(), r.get_label_id()), w, "label of the removed edge ({},{})", a, b);
                }
            }
            12 => {
                c.log(format!("update_node_label({},{:?})", a, l));
                let has = m.nodes.contains_key(&a);
                if has {
                    push(&mut ntab, l);
                    m.add_node(a, l);
                }
                ck!(g.update_node_label(ia, nlab(l)), has, "update_node_label({})", a);
            }
            13 => {
                c.log(format!("update_edge_label({},{},{:?})", a, b, l));
                let has = m.edges.contains_key(&(a, b));
                if has {
                    push(&mut etab, l);
                    m.relabel_edge(a, b, l);
                }
                ck!(g.update_edge_label(ia, ib, nlab(l)), has, "update_edge_label({},{})", a, b);
            }
            14 => {
                let pick = if ntab.is_empty() || c.r.chance(1, 3) { None } else { Some(c.r.below(ntab.len())) };
                c.log(format!("get_node_mut({}).set_label_id({:?})", a, pick));
                let has = m.nodes.contains_key(&a);
                let mut r = g.get_node_mut(ia);
                ck!(r.is_some(), has, "get_node_mut({}) found", a);
                if has {
                    ck!(r.get_id().id(), a, "id of get_node_mut({})", a);
                    r.set_label_id(pick.map(L::new));
                    m.nodes.insert(a, pick.map(|i| ntab[i]));
                }
            }
            15 => {
                // relabelling through an edge handle: directed graphs and self-loops
                // (the other case is a listed known finding)
                let pick = if etab.is_empty() || c.r.chance(1, 3) { None } else { Some(c.r.below(etab.len())) };
                let has = m.edges.contains_key(&(a, b));
                let mut r = g.get_edge_mut(ia, ib);
                ck!(r.is_some(), has, "get_edge_mut({},{}) found", a, b);
                if has {
                    ck!((r.get_start().id(), r.get_target().id()), (a, b), "ends of get_edge_mut");
                    if dir || a == b {
                        c.log(format!("get_edge_mut({},{}).set_label_id({:?})", a, b, pick));
                        r.set_label_id(pick.map(L::new));
                        m.edges.insert((a, b), pick.map(|i| etab[i]));
                    }
                }
            }
            16 => {
                c.log("nodes_mut: relabel all".into());
                let pick = if ntab.is_empty() || c.r.chance(1, 3) { None } else { Some(c.r.below(ntab.len())) };
                let mut seen = vec![];
                for mut x in g.nodes_mut() {
                    seen.push(x.get_id().id());
                    x.set_label_id(pick.map(L::new));
                }
                seen.sort();
                ck!(seen, m.nodes.keys().cloned().collect::<Vec<_>>(), "nodes_mut()");
                for v in m.nodes.values_mut() {
                    *v = pick.map(|i| ntab[i]);
                }
            }
            17 => {
                let pick = if etab.is_empty() || c.r.chance(1, 3) { None } else { Some(c.r.below(etab.len())) };
                c.log(format!("edges_mut, relabel with {:?}", pick));
                let mut seen = vec![];
                for mut x in g.edges_mut() {
                    let k = (x.get_start().id(), x.get_target().id());
                    seen.push((k, x.get_label_id().map(|l| etab[l.id()])));
                    if dir || k.0 == k.1 {
                        x.set_label_id(pick.map(L::new));
                    }
                }
                seen.sort();
                ck!(seen, m.canon().into_iter().collect::<Vec<_>>(), "edges_mut()");
                for (k, v) in m.edges.iter_mut() {
                    if dir || k.0 == k.1 {
                        *v = pick.map(|i| etab[i]);
                    }
                }
            }
            18 => {
                if c.r.chance(1, 2) {
                    c.log(format!("add_node_label({:?})", l));
                    push(&mut ntab, l);
                    ck!(g.add_node_label(nlab(l)).map(|x| x.id()), l.map(|l| ntab.iter().position(|y| *y == l).unwrap()), "add_node_label");
                } else {
                    c.log(format!("add_edge_label({:?})", l));
                    push(&mut etab, l);
                    ck!(g.add_edge_label(nlab(l)).map(|x| x.id()), l.map(|l| etab.iter().position(|y| *y == l).unwrap()), "add_edge_label");
                }
            }
            _ => match c.r.below(4) {
                0 => {
                    c.log("refine_edge_count".into());
                    g.refine_edge_count()
                }
                1 => {
                    c.log("shrink_to_fit".into());
                    g.shrink_to_fit()
                }
                2 => {
                    c.log("clone, edit the original, keep the clone".into());
                    let h = g.clone();
                    g.add_edge(Id::new(0), Id::new(1), None);
                    g.remove_node(ia);
                    g = h;
                }
                _ => {
                    // through the trait object
                    c.log(format!("as_mut_graph().add_edge({},{},{:?})", a, b, l));
                    push(&mut etab, l);
                    let want = m.add_edge(a, b, l);
                    match Ty::mapmut(&mut g).as_mut_graph() {
                        None => return Err("as_mut_graph() of a graph map is None".into()),
                        Some(x) => ck!(x.add_edge(ia, ib, nlab(l)), want, "as_mut_graph().add_edge"),
                    }
                }
            },
        }
        if !big || c.r.chance(1, 25) {
            view!();
        }
        ck!(g.get_node_label_map().items().map(|x| x.un()).collect::<Vec<_>>(), ntab, "node label table");
        ck!(g.get_edge_label_map().items().map(|x| x.un()).collect::<Vec<_>>(), etab, "edge label table");
    }
    view!();
    req!(g.implementation() == GraphImpl::GraphMap, "implementation()");
    Ok(())
}
fn push(t: &mut Vec<u32>, l: Option<u32>) {
    if let Some(l) = l {
        if !t.contains(&l) {
            t.push(l)
        }
    }
}
fn dedup(v: Vec<u32>) -> Vec<u32> {
    let mut o = vec![];
    for x in v {
        if !o.contains(&x) {
            o.push(x)
        }
    }
    o
}
fn lab_of<X: Lb, L: Ix>(t: &SetMap<X>, l: Option<L>) -> Option<u32> {
    l.map(|l| t.get_item(l.id()).unwrap().un())
}

fn maps(c: &mut Ctx) -> R {
    if c.r.chance(1, 2) {
        maps_of::<SetMap<String>>(c)
    } else {
        maps_of::<VecMap<String>>(c)
    }
}
trait Mp: MapTrait<String> + MutMapTrait<String> + Clone + PartialEq + Hash + std::iter::FromIterator<String> + From<Vec<String>> {
    fn mk(c: &mut Ctx) -> Self;
    fn conv(v: &Vec<String>, how: usize) -> Self;
    fn clr(&mut self);
    fn to_vecmap(&self, by_ref: bool) -> VecMap<String>;
    fn to_setmap(&self, by_ref: bool) -> SetMap<String>;
}
impl Mp for SetMap<String> {
    fn mk(c: &mut Ctx) -> Self {
        match c.r.below(3) {
            0 => SetMap::new(),
            1 => SetMap::with_capacity(c.r.below(9)),
            _ => SetMap::default(),
        }
    }
    fn conv(v: &Vec<String>, how: usize) -> Self {
        match how {
            0 => SetMap::from(v.clone()),
            1 => SetMap::from(v),
            2 => SetMap::from_vec(v.clone()),
            3 => SetMap::from(VecMap::from(v.clone())),
            4 => SetMap::from(&VecMap::from(v.clone())),
            _ => v.iter().cloned().collect(),
        }
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn to_vecmap(&self, by_ref: bool) -> VecMap<String> {
        if by_ref { VecMap::from(self) } else { VecMap::from(self.clone()) }
    }
    fn to_setmap(&self, _: bool) -> SetMap<String> {
        self.clone()
    }
}
impl Mp for VecMap<String> {
    fn mk(c: &mut Ctx) -> Self {
        match c.r.below(3) {
            0 => VecMap::new(),
            1 => VecMap::with_capacity(c.r.below(9)),
            _ => VecMap::default(),
        }
    }
    fn conv(v: &Vec<String>, how: usize) -> Self {
        match how {
            0 => VecMap::from(v.clone()),
            1 => VecMap::from(v),
            2 => VecMap::from(SetMap::from(v.clone())),
            3 => VecMap::from(&SetMap::from(v.clone())),
            _ => v.iter().cloned().collect(),
        }
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn to_vecmap(&self, _: bool) -> VecMap<String> {
        self.clone()
    }
    fn to_setmap(&self, by_ref: bool) -> SetMap<String> {
        if by_ref { SetMap::from(self) } else { SetMap::from(self.clone()) }
    }
}
fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn map_ok<T: MapTrait<String>>(m: &T, w: &Vec<String>) -> R {
    ck!(m.len(), w.len(), "len()");
    ck!(m.is_empty(), w.is_empty(), "is_empty()");
    ck!(m.items().take(w.len() + 2).cloned().collect::<Vec<_>>(), w.clone(), "items()");
    for i in 0..w.len() + 2 {
        ck!(m.get_item(i), w.get(i), "get_item({})", i);
    }
    for k in 0..12 {
        let s = String::mk(k);
        ck!(m.find_index(&s), w.iter().position(|x| *x == s), "find_index({})", s);
        ck!(m.contains(&s), w.contains(&s), "contains({})", s);
    }
    Ok(())
}
fn maps_of<T: Mp>(c: &mut Ctx) -> R {
    c.log(std::any::type_name::<T>().to_string());
    let mut m = T::mk(c);
    let mut w: Vec<String> = vec![];
    let big = c.size > 12;
    let u = if big { 10 + c.r.below(2 * c.size) } else { 10 };
    if c.r.chance(1, 2) {
        let v: Vec<String> = (0..c.r.below(c.size + 3)).map(|_| String::mk(c.r.below(u) as u32)).collect();
        let how = c.r.below(6);
        c.log(format!("from {:?} way {}", v, how));
        m = T::conv(&v, how);
        for x in v {
            if !w.contains(&x) {
                w.push(x)
            }
        }
    }
    map_ok(&m, &w)?;
    for _ in 0..c.r.below(4 * c.size + 6) {
        c.steps += 1;
        match c.r.below(10) {
            0..=5 => {
                let s = String::mk(c.r.below(u) as u32);
                c.log(format!("add_item({})", s));
                let i = m.add_item(s.clone());
                if !w.contains(&s) {
                    w.push(s.clone());
                }
                ck!(Some(i), w.iter().position(|x| *x == s), "add_item({})", s);
            }
            6 => {
                c.log("pop_item".into());
                ck!(m.pop_item(), w.pop(), "pop_item()");
            }
            7 if !big || c.r.chance(1, 20) => {
                let by = c.r.chance(1, 2);
                map_ok(&m.to_vecmap(by), &w)?;
                map_ok(&m.to_setmap(by), &w)?;
                ck!(m.clone().items_vec(), w.clone(), "items_vec()");
            }
            8 if !big || c.r.chance(1, 20) => {
                let o = T::conv(&w, 5);
                req!(m == o, "a map with the same items in the same order is not equal");
                ck!(hash_of(&m), hash_of(&o), "hashes of equal maps");
                let mut w2 = w.clone();
                match c.r.below(4) {
                    0 => c.r.shuffle(&mut w2),
                    1 if w.len() > 1 => {
                        let i = if c.r.chance(1, 2) { 0 } else { c.r.below(w.len() - 1) };
                        w2.swap(i, i + 1)
                    }
                    2 if !w.is_empty() => {
                        // one item is another one
                        let i = match c.r.below(3) { 0 => 0, 1 => w.len() - 1, _ => c.r.below(w.len()) };
                        w2[i] = String::mk(3 * u as u32 + 7);
                    }
                    _ => {
                        w2.pop();
                    }
                }
                let o = T::conv(&w2, 5);
                ck!(m == o, w == w2, "equality with the permuted map {:?}", w2);
            }
            _ => {
                if c.r.chance(1, if big { 60 } else { 4 }) {
                    c.log("clear".into());
                    m.clr();
                    w.clear();
                }
            }
        }
        if !big || c.r.chance(1, 20) {
            map_ok(&m, &w)?;
        }
    }
    map_ok(&m, &w)
}

/// A static graph built directly from arrays.
fn static_of<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, m: &mut M) -> Sg<Id, NL, EL, Ty, L> {
    // m has dense nodes 0..n; labels become ids of a label table
    let n = m.nodes.len();
    let nl_used = m.nodes.values().any(|x| x.is_some());
    let el_used = m.edges.values().any(|x| x.is_some());
    let (mut off, mut ed, mut la) = (vec![0usize], vec![], vec![]);
    let (mut ioff, mut ied) = (vec![0usize], vec![]);
    let perm: Vec<u32> = {
        let top = m.nodes.values().chain(m.edges.values()).flatten().max().map_or(5, |x| (*x + 1).max(5));
        let mut v: Vec<u32> = (0..top).collect();
        c.r.shuffle(&mut v);
        v
    };
    let lid = |x: Option<u32>| match x {
        Some(x) => L::new(perm.iter().position(|y| *y == x).unwrap()),
        None => L::max_value(),
    };
    for s in 0..n {
        for t in m.nb(s) {
            ed.push(Id::new(t));
            la.push(lid(m.edges[&(s, t)]));
        }
        off.push(ed.len());
        for t in m.inb(s) {
            ied.push(Id::new(t));
        }
        ioff.push(ied.len());
    }
    let empty_off = n == 0 && c.r.chance(1, 2);
    if empty_off {
        off.clear();
        ioff.clear();
    }
    let labelled = el_used || c.r.chance(1, 3);
    let ev = match (labelled, c.r.chance(1, 2)) {
        (true, true) => EdgeVec::with_labels(off, ed, la),
        (true, false) => EdgeVec::from_raw(off, ed, Some(la)),
        (false, true) => EdgeVec::new(off, ed),
        (false, false) => EdgeVec::from_raw(off, ed, None),
    };
    let iev = if m.dir { Some(EdgeVec::new(ioff, ied)) } else { None };
    let nmap: SetMap<NL> = perm.iter().map(|x| NL::mk(*x)).collect();
    let emap: SetMap<EL> = perm.iter().map(|x| EL::mk(*x)).collect();
    let labs: Vec<L> = m.nodes.values().map(|x| lid(*x)).collect();
    let cnt = m.canon().len();
    c.log(format!("static {}", describe(m)));
    let how = c.r.below(3);
    if !nl_used && !el_used && how == 0 {
        c.log("TypedStaticGraph::new".into());
        TypedStaticGraph::new(ev, iev, if c.r.chance(1, 2) { Some(n) } else { None }, if c.r.chance(1, 2) { Some(cnt) } else { None })
    } else if how == 1 {
        c.log("TypedStaticGraph::with_labels".into());
        TypedStaticGraph::with_labels(ev, iev, labs, nmap, emap, if c.r.chance(1, 2) { Some(n) } else { None }, if c.r.chance(1, 2) { Some(cnt) } else { None })
    } else {
        c.log("TypedStaticGraph::from_raw".into());
        let l = if nl_used || c.r.chance(1, 2) { Some(labs) } else { None };
        TypedStaticGraph::from_raw(n, cnt, ev, iev, l, nmap, emap)
    }
}
fn dense<Id: Ix>(c: &mut Ctx, dir: bool) -> M {
    let mut m = rand_model::<Id>(c, dir, Style::Dense);
    // fill every id of a small id type now and then
    if Id::max_usize() == 255 && c.r.chance(1, 60) {
        for i in 0..256 {
            if !m.nodes.contains_key(&i) {
                m.add_node(i, None);
            }
        }
        let (s, t) = (c.r.below(256), c.r.below(256));
        m.add_edge(s, t, None);
        m.add_edge(255, t, None);
        m.add_edge(s, 255, None);
    }
    m.maxid = m.nodes.keys().next_back().cloned();
    m
}
const STAT: Opt = Opt { sorted: true, maxid: true };

fn stat<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    if c.r.chance(1, 30) {
        return edge_vec_lengths(c);
    }
    let mut m = dense::<Id>(c, dir);
    let mut g = static_of::<Id, NL, EL, Ty, L>(c, &mut m);
    c.steps += 1;
    check_view(Ty::stat(&g), &m, STAT, &[])?;
    req!(g.implementation() == GraphImpl::StaticGraph, "implementation()");
    for _ in 0..c.r.below(3) {
        match c.r.below(4) {
            0 => {
                c.log("remove_node_labels".into());
                g.remove_node_labels();
                m.nodes.values_mut().for_each(|x| *x = None);
            }
            1 => {
                c.log("remove_edge_labels".into());
                g.remove_edge_labels();
                m.edges.values_mut().for_each(|x| *x = None);
            }
            2 => {
                c.log("remove_labels".into());
                g.remove_labels();
                m.nodes.values_mut().for_each(|x| *x = None);
                m.edges.values_mut().for_each(|x| *x = None);
            }
            _ => {
                c.log("shrink_to_fit".into());
                g.shrink_to_fit();
            }
        }
        check_view(Ty::stat(&g), &m, STAT, &[])?;
    }
    edge_vec_ok(g.get_edge_vec(), &m)?;
    for (i, (s, t)) in m.edges.keys().enumerate() {
        ck!(g.find_edge_index(Id::new(*s), Id::new(*t)), Some(i), "find_edge_index({},{})", s, t);
    }
    if let Some(v) = g.get_in_edge_vec() {
        let mut t = M::new(true);
        t.nodes = m.nodes.clone();
        for (k, _) in &m.edges {
            t.edges.insert((k.1, k.0), None);
        }
        edge_vec_ok(v, &t)?;
    }
    if c.r.chance(1, 3) {
        g.get_edge_vec_mut().clear();
        ck!(g.get_edge_vec().num_nodes(), 0, "num_nodes() after clear");
        ck!(g.get_edge_vec().num_edges(), 0, "num_edges() after clear");
    }
    Ok(())
}
fn edge_vec_lengths(c: &mut Ctx) -> R {
    if c.r.chance(1, 3) {
        // a directed graph is not made without its in-edges
        let how = c.r.below(3);
        let r = std::panic::catch_unwind(|| {
            let e = EdgeVec::<u32>::new(vec![0, 1, 1], vec![1]);
            let _: TypedStaticGraph<u32, u32, u32, Directed> = match how {
                0 => TypedStaticGraph::new(e, None, None, None),
                1 => TypedStaticGraph::with_labels(e, None, vec![0, 0], SetMap::new(), SetMap::new(), None, None),
                _ => TypedStaticGraph::from_raw(2, 1, e, None, None, SetMap::new(), SetMap::new()),
            };
        });
        req!(r.is_err(), "a directed static graph was made without in-edges");
        return Ok(());
    }
    let (n, k) = (c.r.below(4), c.r.below(4));
    let raw = c.r.chance(1, 2);
    let r = std::panic::catch_unwind(|| {
        let (o, e, l) = (vec![0usize, n], (0..n as u32).collect::<Vec<u32>>(), (0..k as u32).collect::<Vec<u32>>());
        if raw { EdgeVec::<u32>::from_raw(o, e, Some(l)) } else { EdgeVec::<u32>::with_labels(o, e, l) }
    });
    req!(r.is_ok() == (n == k), "an EdgeVec of {} edges and {} labels was {}", n, k, if n == k { "refused" } else { "accepted" });
    Ok(())
}
fn edge_vec_ok<Id: Ix, L: Ix>(v: &dyn EdgeVecTrait<Id, L>, m: &M) -> R {
    ck!(v.num_nodes(), m.nodes.len(), "EdgeVec::num_nodes()");
    ck!(v.num_edges(), m.edges.len(), "EdgeVec::num_edges()");
    for s in 0..m.nodes.len().min(30) {
        ck!(v.neighbors(Id::new(s)).iter().map(|x| x.id()).collect::<Vec<_>>(), m.nb(s).into_iter().collect::<Vec<_>>(), "EdgeVec::neighbors({})", s);
        ck!(v.degree(Id::new(s)), m.nb(s).len(), "EdgeVec::degree({})", s);
        for t in 0..m.nodes.len().min(30) {
            ck!(v.has_edge(Id::new(s), Id::new(t)), m.edges.contains_key(&(s, t)), "EdgeVec::has_edge({},{})", s, t);
            ck!(v.find_edge_index(Id::new(s), Id::new(t)), m.edges.keys().position(|k| *k == (s, t)), "EdgeVec::find_edge_index({},{})", s, t);
        }
    }
    ck!(v.has_node(Id::max_value()), m.nodes.len() > Id::max_usize(), "EdgeVec::has_node(MAX)");
    Ok(())
}
/// Model with the gap ids filled in as isolated unlabelled nodes.
fn fill(m: &M) -> M {
    let mut f = m.clone();
    if let Some(x) = m.nodes.keys().next_back().cloned() {
        for i in 0..x {
            f.nodes.entry(i).or_insert(None);
        }
    }
    f.maxid = f.nodes.keys().next_back().cloned();
    f
}
fn gappy<Id: Ix>(c: &mut Ctx, dir: bool) -> M {
    let mut m = rand_model::<Id>(c, dir, Style::Gaps);
    if Id::max_usize() == 255 && c.r.chance(1, 20) {
        m.add_edge(255, 3, Some(1));
        m.add_node(254, None);
    }
    m
}
fn into_stat<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let m = gappy::<Id>(c, dir);
    let mut g = build::<Id, NL, EL, Ty, L>(c, &m);
    if c.r.chance(1, 4) {
        // remove a node or two first
        let mut m2 = m.clone();
        for _ in 0..2 {
            let k = m2.nodes.keys().cloned().nth(c.r.below(m2.nodes.len()));
            if let Some(k) = k {
                c.log(format!("remove_node({})", k));
                g.remove_node(Id::new(k));
                m2.remove_node(k);
            }
        }
        c.steps += 1;
        return into_stat2::<Id, NL, EL, Ty, L>(g, m2);
    }
    c.steps += 1;
    into_stat2::<Id, NL, EL, Ty, L>(g, m)
}
fn into_stat2<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(g: Gm<Id, NL, EL, Ty, L>, m: M) -> R {
    let (nt, et) = (g.get_node_label_map().clone(), g.get_edge_label_map().clone());
    let s = g.into_static();
    let f = fill(&m);
    check_view(Ty::stat(&s), &f, STAT, &[])?;
    req!(*GraphLabelTrait::get_node_label_map(&s) == nt, "node label table changed");
    req!(*GraphLabelTrait::get_edge_label_map(&s) == et, "edge label table changed");
    edge_vec_ok(s.get_edge_vec(), &f)
}
fn mmap<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let p = c.dir.join("g");
    let p = p.to_str().unwrap();
    for _ in 0..1 + c.r.below(2) {
        let mut m;
        let g: Sg<Id, NL, EL, Ty, L> = if c.r.chance(1, 2) {
            m = dense::<Id>(c, dir);
            static_of(c, &mut m)
        } else {
            m = gappy::<Id>(c, dir);
            let g = build::<Id, NL, EL, Ty, L>(c, &m);
            m = fill(&m);
            g.into_static()
        };
        c.log("dump_mmap, StaticGraphMmap::new".into());
        c.steps += 1;
        g.dump_mmap(p).map_err(|e| format!("dump_mmap: {}", e))?;
        let h = StaticGraphMmap::<Id, NL, EL, L>::new(p);
        check_view(&h, &m, STAT, &[])?;
        check_view(Ty::stat(&g), &m, STAT, &[])?;
        req!(h.implementation() == GraphImpl::StaicGraphMmap, "implementation()");
        req!(*h.get_node_label_map() == *GraphLabelTrait::get_node_label_map(&g), "node label table");
        req!(*h.get_edge_label_map() == *GraphLabelTrait::get_edge_label_map(&g), "edge label table");
        for n in m.nodes.keys().take(30) {
            ck!(h.inner_neighbors(Id::new(*n)), &*g.neighbors(Id::new(*n)), "inner_neighbors({})", n);
            if dir {
                ck!(h.inner_in_neighbors(Id::new(*n)).iter().map(|x| x.id()).collect::<BTreeSet<_>>(), m.inb(*n), "inner_in_neighbors({})", n);
            }
        }
        // without the auxiliary file the counts are derived from the arrays
        if c.r.chance(1, 3) {
            c.log("without the auxiliary file".into());
            drop(h);
            std::fs::remove_file(format!("{}_aux.bin", p)).map_err(|e| e.to_string())?;
            let h = StaticGraphMmap::<Id, NL, EL, L>::new(p);
            ck!(h.node_count(), m.nodes.len(), "node_count() without aux");
            ck!(h.edge_count(), m.canon().len(), "edge_count() without aux");
        } else if c.r.chance(1, 4) {
            // a file that cannot be written
            drop(h);
            let mut fs: Vec<_> = std::fs::read_dir(&c.dir).unwrap().map(|e| e.unwrap().path()).filter(|x| x.is_file() && x.to_str().unwrap().starts_with(p) && (dir || !x.to_str().unwrap().contains("_IN"))).collect();
            fs.sort();
            if !fs.is_empty() {
                let x = fs[c.r.below(fs.len())].clone();
                c.log(format!("dump_mmap over a directory in the place of {:?}", x.file_name().unwrap()));
                std::fs::remove_file(&x).unwrap();
                std::fs::create_dir(&x).unwrap();
                let r = g.dump_mmap(p);
                if std::fs::remove_dir(&x).is_ok() {
                    req!(r.is_err(), "dump_mmap() reported success over {:?}, which it could not write", x.file_name().unwrap());
                }
            }
        }
    }
    Ok(())
}
struct Slow {
    out: Vec<u8>,
    n: usize,
    every: usize,
    most: usize,
}
impl<'a> std::io::Write for &'a mut Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n % self.every == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let k = b.len().min(self.most);
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn tmm(c: &mut Ctx) -> R {
    let p = c.dir.join("t.bin");
    macro_rules! t {
        ($t:ty) => {{
            let n = match c.r.below(5) { 0 => 0, 1 => c.r.below(4), 2 => 9990 + c.r.below(30), 3 => c.r.below(12000), _ => c.r.below(100) };
            let v: Vec<$t> = (0..n).map(|_| c.r.next() as $t).collect();
            c.log(format!("{} values of {}", n, stringify!($t)));
            c.log("dump, TypedMemoryMap".into());
            unsafe { dump(&v[..], std::fs::File::create(&p).unwrap()).map_err(|e| e.to_string())?; }
            ck!(std::fs::metadata(&p).unwrap().len() as usize, n * std::mem::size_of::<$t>(), "size of the dump file");
            let m = TypedMemoryMap::<$t>::new(&p);
            ck!(m.len, n, "len");
            req!(&m[..] == &v[..], "[..] differs from the dumped slice");
            for k in [0, 1, n / 2, n.saturating_sub(1), n] {
                if k <= n {
                    req!(&m[k..] == &v[k..], "[{}..] differs", k);
                    req!(&m[..k] == &v[..k], "[..{}] differs", k);
                }
            }
            // an existing mapping, and files that end within an element
            let m = TypedMemoryMap::<$t>::with_mmap(TypedMemoryMap::<u8>::new(&p).map);
            if n > 0 {
                req!(&m[..] == &v[..], "with_mmap: [..] differs from the dumped slice");
            }
            let cut = n * std::mem::size_of::<$t>();
            let cut = cut - c.r.below(cut.min(40) + 1);
            if cut > 0 {
                std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(cut as u64).unwrap();
                let k = cut / std::mem::size_of::<$t>();
                let m = TypedMemoryMap::<$t>::new(&p);
                ck!(m[..].len(), k, "elements of a file of {} bytes", cut);
                req!(&m[..] == &v[..k] && m.len == k, "elements of a file of {} bytes", cut);
                let m = TypedMemoryMap::<$t>::with_mmap(TypedMemoryMap::<u8>::new(&p).map);
                ck!(m[..].len(), k, "with_mmap: elements of a file of {} bytes", cut);
                req!(&m[..] == &v[..k] && m.len == k, "with_mmap: elements of a file of {} bytes", cut);
            }
            // a writer that takes a part of what it is given
            let mut w = Slow { out: vec![], n: 0, every: 2 + c.r.below(5), most: 1 + c.r.below(9000) };
            unsafe { dump(&v[..], &mut w).map_err(|e| e.to_string())?; }
            req!(w.out == rust_graph::io::mmap::typed_as_byte_slice(&v[..]), "dump to a writer that takes at most {} bytes at a time", w.most);
            let mut w = Slow { out: vec![], n: 0, every: 2, most: 0 };
            unsafe { req!(n == 0 || dump(&v[..], &mut w).is_err(), "dump to a writer that takes nothing is reported as a success"); }
            if std::path::Path::new("/dev/full").exists() {
                let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
                unsafe { req!(n == 0 || dump(&v[..], f).is_err(), "dump to a full device is reported as a success"); }
            }
            let m = { unsafe { dump(&v[..], std::fs::File::create(&p).unwrap()).map_err(|e| e.to_string())?; } TypedMemoryMap::<$t>::new(&p) };
            for k in [n + 1, n + 7, usize::MAX / 8, usize::MAX] {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m[k..].len()));
                req!(r.is_err(), "[{}..] of {} values is accepted", k, n);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m[..k].len()));
                req!(r.is_err(), "[..{}] of {} values is accepted", k, n);
            }
        }};
    }
    c.steps += 1;
    match c.r.below(3) { 0 => t!(u8), 1 => t!(u32), _ => t!(usize) }
    Ok(())
}

/// seq is a legal breadth-first order of the graph.
fn bfs_ok(m: &M, seq: &[usize], start: Option<usize>) -> R {
    let mut s = seq.to_vec();
    s.sort();
    ck!(s, m.nodes.keys().cloned().collect::<Vec<_>>(), "visited nodes of {:?}", seq);
    if let Some(st) = start {
        ck!(seq.first(), Some(&st), "first node");
    }
    // positions; the queue is simulated: the discovered nodes form segments, one per parent
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let mut queue: std::collections::VecDeque<BTreeSet<usize>> = Default::default();
    let mut disc: BTreeSet<usize> = BTreeSet::new();
    for &v in seq {
        while queue.front().map_or(false, |q| q.is_empty()) {
            queue.pop_front();
        }
        match queue.front_mut() {
            Some(q) => req!(q.remove(&v), "{:?} is no breadth-first order: {} comes while {:?} are waiting", seq, v, q),
            None => {
                req!(!disc.contains(&v), "{} twice", v);
                disc.insert(v);
            }
        }
        done.insert(v);
        let new: BTreeSet<usize> = m.nb(v).into_iter().filter(|x| !disc.contains(x)).collect();
        disc.extend(new.iter().cloned());
        queue.push_back(new);
    }
    Ok(())
}
fn dfs_ok(m: &M, seq: &[usize], start: Option<usize>) -> R {
    let mut s = seq.to_vec();
    s.sort();
    ck!(s, m.nodes.keys().cloned().collect::<Vec<_>>(), "visited nodes of {:?}", seq);
    if let Some(st) = start {
        ck!(seq.first(), Some(&st), "first node");
    }
    let mut vis: BTreeSet<usize> = BTreeSet::new();
    let mut stack: Vec<usize> = vec![];
    for &v in seq {
        while let Some(t) = stack.last() {
            if m.nb(*t).iter().all(|x| vis.contains(x)) {
                stack.pop();
            } else {
                break;
            }
        }
        if let Some(t) = stack.last() {
            req!(m.nb(*t).contains(&v), "{:?} is no depth-first order: {} does not follow {}", seq, v, t);
        }
        vis.insert(v);
        stack.push(v);
    }
    Ok(())
}
fn bfs<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    trav::<Id, NL, EL, Ty, L>(c, dir, true)
}
fn dfs<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    trav::<Id, NL, EL, Ty, L>(c, dir, false)
}
fn trav<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool, b: bool) -> R {
    let mut m = gappy::<Id>(c, dir);
    if m.nodes.is_empty() {
        m.add_node(0, None);
    }
    let mut g = build::<Id, NL, EL, Ty, L>(c, &m);
    if c.r.chance(1, 5) && m.nodes.len() > 1 {
        let k = *m.nodes.keys().nth(c.r.below(m.nodes.len())).unwrap();
        c.log(format!("remove_node({})", k));
        g.remove_node(Id::new(k));
        m.remove_node(k);
    }
    let ks: Vec<usize> = m.nodes.keys().cloned().collect();
    let start = if c.r.chance(1, 4) { None } else { Some(ks[c.r.below(ks.len())]) };
    let st = c.r.chance(1, 3);
    let sg;
    let f;
    c.log(format!("start {:?} static {}", start, st));
    c.steps += 1;
    let n = m.nodes.len();
    let s = start.map(Id::new);
    macro_rules! run {
        ($it:expr, $m:expr, $ok:ident) => {{
            let mut it = $it;
            let k = c.r.below(n + 1);
            let mut seq: Vec<usize> = vec![];
            for _ in 0..k {
                if let Some(x) = it.next() {
                    seq.push(x.id());
                }
            }
            let cl = it.clone();
            let mut seq2 = seq.clone();
            seq.extend(it.take($m.nodes.len() + 2).map(|x| x.id()));
            $ok($m, &seq, start)?;
            let mut cl = cl;
            for _ in 0..$m.nodes.len() + 2 {
                match cl.next() {
                    Some(x) => seq2.push(x.id()),
                    None => break,
                }
            }
            ck!(seq2, seq, "a clone of the traversal");
            ck!(cl.next().map(|x| x.id()), None, "next() after the end");
            cl
        }};
    }
    if !st {
        if b {
            run!(Ty::bfs(&g, s), &m, bfs_ok);
        } else {
            let mut d = run!(Ty::dfs(&g, if c.r.chance(1, 6) && start.is_none() { None } else { Some(s) }), &m, dfs_ok);
            if c.r.chance(1, 3) {
                if c.r.chance(1, 2) {
                    // in the middle of a traversal
                    d = Ty::dfs(&g, Some(s));
                    for _ in 0..c.r.below(n + 1) {
                        d.next();
                    }
                }
                c.log("reset".into());
                d.reset();
                let seq: Vec<usize> = d.take(n + 2).map(|x| x.id()).collect();
                dfs_ok(&m, &seq, None)?;
            }
        }
    } else {
        f = fill(&m);
        sg = g.into_static();
        if b {
            run!(Ty::sbfs(&sg, s), &f, bfs_ok);
        } else {
            run!(Ty::sdfs(&sg, Some(s)), &f, dfs_ok);
        }
    }
    Ok(())
}

/// Weakly connected components as a map node -> smallest member.
fn comps(m: &M) -> BTreeMap<usize, usize> {
    let mut p: BTreeMap<usize, usize> = m.nodes.keys().map(|k| (*k, *k)).collect();
    loop {
        let mut ch = false;
        for (a, b) in m.edges.keys() {
            let x = p[a].min(p[b]);
            for k in [a, b] {
                if p[k] != x {
                    p.insert(*k, x);
                    ch = true;
                }
            }
        }
        if !ch {
            return p;
        }
    }
}
fn cc_ok<Id: Ix>(cc: &ConnComp<Id>, m: &M) -> R {
    let p = comps(m);
    let cnt = p.values().collect::<BTreeSet<_>>().len();
    ck!(cc.get_count(), cnt, "get_count()");
    let pr = probes::<Id>(m, &[], 12);
    let mut roots: HashMap<usize, usize> = HashMap::new();
    for &a in &pr {
        let ia = Id::new(a);
        let r = cc.get_root(ia);
        ck!(r.is_some(), p.contains_key(&a), "get_root({}).is_some()", a);
        ck!(cc.get_parent(ia).is_some(), p.contains_key(&a), "get_parent({}).is_some()", a);
        if let Some(r) = r {
            ck!(p.get(&r.id()), Some(&p[&a]), "component of the root of {}", a);
            let e = roots.entry(p[&a]).or_insert(r.id());
            ck!(*e, r.id(), "root of the component of {}", a);
            ck!(p.get(&cc.get_parent(ia).unwrap().id()), Some(&p[&a]), "component of the parent of {}", a);
        }
        for &b in &pr {
            let want = p.contains_key(&a) && p.contains_key(&b) && p[&a] == p[&b];
            ck!(cc.is_connected(ia, Id::new(b)), want, "is_connected({},{})", a, b);
        }
        let w = p.get(&a).map(|x| p.iter().filter(|y| y.1 == x).map(|y| *y.0).collect::<Vec<_>>());
        ck!(cc.get_connected_nodes(ia).map(|v| { let mut v: Vec<_> = v.iter().map(|x| x.id()).collect(); v.sort(); v }), w, "get_connected_nodes({})", a);
    }
    ck!(cc.parent().len(), p.len(), "parent().len()");
    Ok(())
}
fn conncomp<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let mut m = rand_model::<Id>(c, dir, Style::Any);
    let g = build::<Id, NL, EL, Ty, L>(c, &m);
    let mut cc;
    if c.r.chance(1, 4) {
        let d = gappy::<Id>(c, dir);
        let sg = build::<Id, NL, EL, Ty, L>(c, &d).into_static();
        m = fill(&d);
        cc = ConnComp::new(Ty::stat(&sg));
    } else if c.r.chance(1, 4) {
        c.log("empty().run_detection".into());
        cc = ConnComp::empty();
        cc.run_detection(Ty::map(&g));
    } else {
        cc = ConnComp::new(Ty::map(&g));
    }
    c.steps += 1;
    cc_ok(&cc, &m)?;
    if c.r.chance(1, 6) {
        c.log("reset".into());
        cc.reset();
        m = M::new(dir);
        cc_ok(&cc, &m)?;
    }
    for _ in 0..c.r.below(c.size + 3) {
        let mx = Id::max_usize().min(c.size + 3);
        let (a, b) = (c.r.below(mx), c.r.below(mx));
        c.log(format!("process_new_edge({},{})", a, b));
        let e: Edge<Id, L> = Edge::new(Id::new(a), Id::new(b), None);
        cc.process_new_edge(&e);
        m.add_edge(a, b, None);
        c.steps += 1;
        if c.r.chance(1, 2) {
            cc_ok(&cc, &m)?;
        }
    }
    if c.r.chance(1, 4) {
        // a second detection adds the other graph's nodes and edges
        let m2 = rand_model::<Id>(c, dir, Style::Any);
        let g2 = build::<Id, NL, EL, Ty, L>(c, &m2);
        c.log("run_detection again".into());
        cc.run_detection(Ty::map(&g2));
        for n in m2.nodes.keys() {
            m.nodes.entry(*n).or_insert(None);
        }
        for k in m2.edges.keys() {
            m.edges.insert(*k, None);
        }
    }
    cc_ok(&cc, &m)?;
    cc_ok(&cc.clone(), &m)
}
fn connsub<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let mut m = rand_model::<Id>(c, dir, Style::Any);
    let g = build::<Id, NL, EL, Ty, L>(c, &m);
    c.steps += 1;
    let two = c.r.chance(1, 5);
    let res: Vec<Box<dyn GeneralGraph<Id, NL, EL, L>>>;
    let cs = if c.r.chance(1, 4) {
        let d = gappy::<Id>(c, dir);
        let sg = build::<Id, NL, EL, Ty, L>(c, &d).into_static();
        m = fill(&d);
        ConnSubgraph::new(Ty::stat(&sg))
    } else if two {
        c.log("empty + run_subgraph_enumeration".into());
        let mut cs = ConnSubgraph::empty(Ty::map(&g));
        cs.run_subgraph_enumeration(Ty::map(&g));
        cs
    } else {
        ConnSubgraph::new(Ty::map(&g))
    };
    let p = comps(&m);
    let cc = ConnComp::new(Ty::map(&build::<Id, NL, EL, Ty, L>(c, &m)));
    let _ = cc;
    let mut idx = vec![];
    for n in m.nodes.keys() {
        if let Some(i) = cs.root_to_subgraph(Id::new(*n)) {
            idx.push((*n, i));
        }
    }
    res = cs.into_result();
    let groups: BTreeSet<usize> = p.values().cloned().collect();
    ck!(res.len(), groups.len(), "number of subgraphs");
    ck!(idx.iter().map(|x| x.1).collect::<BTreeSet<_>>(), (0..res.len()).collect::<BTreeSet<_>>(), "root_to_subgraph() indices");
    for (n, i) in &idx {
        req!(res[*i].has_node(Id::new(*n)), "root {} is not in its subgraph {}", n, i);
    }
    let mut seen = BTreeSet::new();
    for s in &res {
        let first = match s.node_indices().next() {
            Some(x) => x.id(),
            None => return Err("an empty subgraph".into()),
        };
        let gr = match p.get(&first) {
            Some(x) => *x,
            None => return Err(format!("unknown node {} in a subgraph", first)),
        };
        req!(seen.insert(gr), "component of {} twice", gr);
        let keep: BTreeSet<usize> = p.iter().filter(|x| *x.1 == gr).map(|x| *x.0).collect();
        let sub = m.restrict(&keep);
        check_view(s.as_ref(), &sub, FULL, &m.nodes.keys().cloned().take(10).collect::<Vec<_>>())?;
    }
    Ok(())
}
enum AnyG<Id: Ix, NL: Lb, EL: Lb, L: Ix> {
    B(Box<dyn GeneralGraph<Id, NL, EL, L>>),
}
fn any_graph<Id: Ix, NL: Lb, EL: Lb, L: Ix>(c: &mut Ctx, dir: bool) -> (M, AnyG<Id, NL, EL, L>) {
    fn f<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> (M, AnyG<Id, NL, EL, L>) {
        if c.r.chance(1, 4) {
            let d = gappy::<Id>(c, dir);
            c.log("static:".into());
            let sg = build::<Id, NL, EL, Ty, L>(c, &d).into_static();
            (fill(&d), AnyG::B(Ty::statbox(sg)))
        } else {
            let m = rand_model::<Id>(c, dir, Style::Any);
            let g = build::<Id, NL, EL, Ty, L>(c, &m);
            (m, AnyG::B(Ty::mapbox(g)))
        }
    }
    if dir { f::<Id, NL, EL, Directed, L>(c, dir) } else { f::<Id, NL, EL, Undirected, L>(c, dir) }
}
fn m_union(a: &M, b: &M) -> M {
    let mut u = M::new(a.dir);
    for x in [a, b] {
        for (n, l) in &x.nodes {
            u.add_node(*n, *l);
        }
    }
    for x in [a, b] {
        for ((s, t), l) in x.canon() {
            u.add_edge(s, t, l);
        }
    }
    u
}
fn m_minus(a: &M, b: &M) -> M {
    let keep: BTreeSet<usize> = a.nodes.keys().filter(|x| !b.nodes.contains_key(x)).cloned().collect();
    a.restrict(&keep)
}
const NOMAX: Opt = Opt { sorted: false, maxid: false };
fn union<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    setop::<Id, NL, EL, Ty, L>(c, dir, true)
}
fn minus<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    setop::<Id, NL, EL, Ty, L>(c, dir, false)
}
fn setop<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool, un: bool) -> R {
    c.steps += 1;
    let op = |a: &M, b: &M| if un { m_union(a, b) } else { m_minus(a, b) };
    match c.r.below(5) {
        0 => {
            c.log("typed operator".into());
            let a = rand_model::<Id>(c, dir, Style::Any);
            let b = rand_model::<Id>(c, dir, Style::Any);
            let (ga, gb) = (build::<Id, NL, EL, Ty, L>(c, &a), build::<Id, NL, EL, Ty, L>(c, &b));
            let boxed = c.r.chance(1, 2);
            let r = if un { Ty::add(ga, gb, boxed) } else { Ty::sub(ga, gb, boxed) };
            check_view(Ty::map(&r), &op(&a, &b), NOMAX, &[])
        }
        1 => {
            c.log("Box operator".into());
            let (a, AnyG::B(ga)) = any_graph::<Id, NL, EL, L>(c, dir);
            let (b, AnyG::B(gb)) = any_graph::<Id, NL, EL, L>(c, dir);
            let r = if un { ga + gb } else { ga - gb };
            check_view(r.as_ref(), &op(&a, &b), NOMAX, &[])
        }
        2 => {
            c.log("& operator".into());
            let (a, AnyG::B(ga)) = any_graph::<Id, NL, EL, L>(c, dir);
            let (b, AnyG::B(gb)) = any_graph::<Id, NL, EL, L>(c, dir);
            let r = if un { ga.as_ref() + gb.as_ref() } else { ga.as_ref() - gb.as_ref() };
            check_view(r.as_ref(), &op(&a, &b), NOMAX, &[])?;
            check_view(ga.as_ref(), &a, NOMAX, &[])?;
            check_view(gb.as_ref(), &b, NOMAX, &[])
        }
        3 if un => {
            c.log("clone of a boxed graph".into());
            let (a, AnyG::B(ga)) = any_graph::<Id, NL, EL, L>(c, dir);
            let r = ga.clone();
            check_view(r.as_ref(), &a, NOMAX, &[])?;
            req!(r == ga, "the clone is not equal");
            Ok(())
        }
        _ => {
            let d2 = if !un && c.r.chance(1, 4) { !dir } else { dir };
            let (a, AnyG::B(ga)) = any_graph::<Id, NL, EL, L>(c, dir);
            let (b, AnyG::B(gb)) = any_graph::<Id, NL, EL, L>(c, d2);
            let mut r = if un { graph_union(ga.as_ref(), gb.as_ref()) } else { graph_minus(ga.as_ref(), gb.as_ref()) };
            let mut w = op(&a, &b);
            check_view(r.as_ref(), &w, NOMAX, &[])?;
            check_view(ga.as_ref(), &a, NOMAX, &[])?;
            check_view(gb.as_ref(), &b, NOMAX, &[])?;
            match r.as_mut_graph() {
                None => return Err("the result cannot be changed".into()),
                Some(x) => {
                    x.add_edge(Id::new(0), Id::new(1), None);
                }
            }
            w.add_edge(0, 1, None);
            check_view(r.as_ref(), &w, NOMAX, &[])
        }
    }
}
fn reorder<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let m = rand_model::<Id>(c, dir, Style::Any);
    let g = build::<Id, NL, EL, Ty, L>(c, &m);
    let (bi, bn, be) = (c.r.chance(1, 2), c.r.chance(1, 2), c.r.chance(1, 2));
    c.steps += 1;
    let n = m.nodes.len();
    if c.r.chance(1, 3) {
        // explicit maps
        let mut perm: Vec<usize> = m.nodes.keys().cloned().collect();
        c.r.shuffle(&mut perm);
        c.log(format!("reorder_id_with ids {:?}", perm));
        let im: Option<VecMap<Id>> = if bi { Some(perm.iter().map(|x| Id::new(*x)).collect()) } else { None };
        let mut lp: Vec<usize> = (0..g.get_node_label_map().len()).collect();
        c.r.shuffle(&mut lp);
        let nm: Option<SetMap<L>> = if bn { Some(lp.iter().map(|x| L::new(*x)).collect()) } else { None };
        let mut ep: Vec<usize> = (0..g.get_edge_label_map().len()).collect();
        c.r.shuffle(&mut ep);
        let em: Option<VecMap<L>> = if be { Some(ep.iter().map(|x| L::new(*x)).collect()) } else { None };
        let mut w = M::new(dir);
        let f = |x: usize| if bi { perm.iter().position(|y| *y == x).unwrap() } else { x };
        for (k, l) in &m.nodes {
            w.add_node(f(*k), *l);
        }
        for (k, l) in &m.edges {
            w.edges.insert((f(k.0), f(k.1)), *l);
        }
        let h = g.reorder_id_with(&im, &nm, &em);
        return check_view(Ty::map(&h), &w, NOMAX, &[]);
    }
    c.log(format!("reorder_id({},{},{})", bi, bn, be));
    let mut r = g.reorder_id(bi, bn, be);
    let h = match r.take_graph() {
        Some(h) => h,
        None => return Err("no graph".into()),
    };
    req!(r.take_graph().is_none(), "take_graph twice");
    let mut f: BTreeMap<usize, usize> = BTreeMap::new();
    for k in m.nodes.keys() {
        let x = r.find_new_node_id(Id::new(*k));
        ck!(r.get_original_node_id(x).id(), *k, "get_original_node_id(find_new_node_id({}))", k);
        f.insert(*k, x.id());
    }
    ck!(r.get_node_id_map().is_some(), bi, "get_node_id_map().is_some()");
    if bi {
        ck!(f.values().cloned().collect::<BTreeSet<_>>(), (0..n).collect::<BTreeSet<_>>(), "new ids");
        let mut by: Vec<(usize, usize)> = f.iter().map(|(k, v)| (*v, m.nb(*k).len() + if dir { m.inb(*k).len() } else { 0 })).collect();
        by.sort();
        for w in by.windows(2) {
            req!(w[0].1 <= w[1].1, "new ids are not in degree order: {:?}", by);
        }
    } else {
        req!(f.iter().all(|(k, v)| k == v), "ids changed");
    }
    let mut w = M::new(dir);
    for (k, l) in &m.nodes {
        w.add_node(f[k], *l);
    }
    for (k, l) in &m.edges {
        w.edges.insert((f[&k.0], f[&k.1]), *l);
    }
    check_view(Ty::map(&h), &w, Opt { maxid: bi, ..FULL }, &[])?;
    for (on, cnt, tab) in [
        (bn, h.get_node_label_counter().most_common().into_iter().map(|(k, v)| (k.un(), v)).collect::<BTreeMap<_, _>>(), h.get_node_label_map().items().map(|x| x.un()).collect::<Vec<_>>()),
        (be, h.get_edge_label_counter().most_common().into_iter().map(|(k, v)| (k.un(), v)).collect::<BTreeMap<_, _>>(), h.get_edge_label_map().items().map(|x| x.un()).collect::<Vec<_>>()),
    ] {
        if on {
            let fr: Vec<usize> = tab.iter().map(|x| cnt.get(x).cloned().unwrap_or(0)).collect();
            for w in fr.windows(2) {
                req!(w[0] <= w[1], "label ids are not in frequency order: {:?}", fr);
            }
        }
    }
    Ok(())
}
fn mutate(c: &mut Ctx, m: &M) -> M {
    let mut o = m.clone();
    let ns: Vec<usize> = m.nodes.keys().cloned().collect();
    let es: Vec<(usize, usize)> = m.edges.keys().cloned().collect();
    match c.r.below(7) {
        0 => {}
        1 if !ns.is_empty() => {
            let k = ns[c.r.below(ns.len())];
            o.nodes.insert(k, if c.r.chance(1, 3) { None } else { Some(c.r.below(4) as u32) });
        }
        2 if !es.is_empty() => {
            let k = es[c.r.below(es.len())];
            let l = if c.r.chance(1, 3) { None } else { Some(c.r.below(4) as u32) };
            o.relabel_edge(k.0, k.1, l);
        }
        3 if !es.is_empty() => {
            let k = es[c.r.below(es.len())];
            o.remove_edge(k.0, k.1);
        }
        4 if !ns.is_empty() => {
            let k = ns[c.r.below(ns.len())];
            o.remove_node(k);
        }
        5 => {
            let k = c.r.below(6);
            if !o.nodes.contains_key(&k) {
                o.add_node(k, None);
            }
        }
        _ if !es.is_empty() => {
            // move an edge
            let k = es[c.r.below(es.len())];
            let l = o.remove_edge(k.0, k.1).unwrap();
            let (a, b) = (ns[c.r.below(ns.len())], ns[c.r.below(ns.len())]);
            if !o.edges.contains_key(&(a, b)) {
                o.add_edge(a, b, l);
            }
        }
        _ => {}
    }
    o
}
fn equality<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R {
    let a = rand_model::<Id>(c, dir, Style::Gaps);
    let b = mutate(c, &a);
    let d = if c.r.chance(1, 4) { rand_model::<Id>(c, dir, Style::Gaps) } else { mutate(c, &b) };
    c.steps += 1;
    let ms = [a.clone(), b, d];
    let gs: Vec<Gm<Id, NL, EL, Ty, L>> = ms.iter().map(|m| build::<Id, NL, EL, Ty, L>(c, m)).collect();
    for i in 0..3 {
        for j in 0..3 {
            let w = ms[i].same(&ms[j]);
            ck!(gs[i] == gs[j], w, "TypedGraphMap equality of graphs {} and {}", i, j);
            ck!(equal(Ty::map(&gs[i]), Ty::map(&gs[j])), w, "equal() of graphs {} and {}", i, j);
            if w {
                ck!(hash_of(&gs[i]), hash_of(&gs[j]), "hashes of equal graph maps");
            }
        }
    }
    // another label id type
    let g2 = build::<Id, NL, EL, Ty, usize>(c, &ms[1]);
    ck!(graph_equal(Ty::map(&gs[0]), Ty::map(&g2)), ms[0].same(&ms[1]), "equal() across label id types");
    // the other directedness
    let mut o = M::new(!dir);
    for (k, l) in &a.nodes {
        o.add_node(*k, *l);
    }
    for ((s, t), l) in a.canon() {
        o.add_edge(s, t, l);
    }
    let ob: Box<dyn GeneralGraph<Id, NL, EL, L>> = if dir {
        Undirected::mapbox(build::<Id, NL, EL, Undirected, L>(c, &o))
    } else {
        Directed::mapbox(build::<Id, NL, EL, Directed, L>(c, &o))
    };
    req!(!graph_equal(Ty::map(&gs[0]), ob.as_ref()), "a directed graph equals an undirected one");
    // static and mixed
    let fs: Vec<M> = ms.iter().map(fill).collect();
    let ss: Vec<Sg<Id, NL, EL, Ty, L>> = ms.iter().map(|m| build::<Id, NL, EL, Ty, L>(c, m).into_static()).collect();
    for i in 0..3 {
        for j in 0..3 {
            let w = fs[i].same(&fs[j]);
            ck!(ss[i] == ss[j], w, "TypedStaticGraph equality of graphs {} and {}", i, j);
            if w {
                ck!(hash_of(&ss[i]), hash_of(&ss[j]), "hashes of equal static graphs");
            }
            ck!(graph_equal(Ty::map(&gs[i]), Ty::stat(&ss[j])), ms[i].same(&fs[j]), "equal() of map {} and static {}", i, j);
            ck!(graph_equal(Ty::stat(&ss[j]), Ty::map(&gs[i])), ms[i].same(&fs[j]), "equal() of static {} and map {}", j, i);
        }
    }
    let mut bx: Vec<(M, Box<dyn GeneralGraph<Id, NL, EL, L>>)> = vec![];
    for (m, g) in ms.iter().cloned().zip(gs) {
        bx.push((m, Ty::mapbox(g)));
    }
    for (m, g) in fs.iter().cloned().zip(ss) {
        bx.push((m, Ty::statbox(g)));
    }
    for (m, g) in &bx {
        for (m2, g2) in &bx {
            let w = m.same(m2);
            ck!(g == g2, w, "equality of boxed graphs");
            if w {
                ck!(hash_of(g), hash_of(g2), "hashes of equal boxed graphs");
            }
        }
    }
    Ok(())
}
fn graph_equal<Id: Ix, NL: Lb, EL: Lb, L: Ix, LL: Ix>(a: &dyn GeneralGraph<Id, NL, EL, L>, b: &dyn GeneralGraph<Id, NL, EL, LL>) -> bool {
    equal(a, b)
}
use rust_graph::generic::graph::equal;

fn by_type_gen(c: &mut Ctx) -> R {
    match (c.r.below(3), c.r.chance(1, 2)) {
        (0, true) => gener::<u32, u32, String, Directed>(c, true),
        (0, false) => gener::<u32, u32, String, Undirected>(c, false),
        (1, true) => gener::<u8, String, u32, Directed>(c, true),
        (1, false) => gener::<u8, String, u32, Undirected>(c, false),
        (_, true) => gener::<usize, u32, u32, Directed>(c, true),
        (_, false) => gener::<usize, u32, u32, Undirected>(c, false),
    }
}
fn gener<Id: Ix, NL: Lb, EL: Lb, Ty: Dir>(c: &mut Ctx, dir: bool) -> R {
    c.steps += 1;
    if c.r.chance(1, 40) {
        return subsets::<Id, NL, EL, Ty>(c, dir);
    }
    let big = c.size > 60 && Id::max_usize() > 1000;
    let n = if big { 250 + c.r.below(80) } else { c.r.below(c.size.min(40) + 3) };
    let (a, b) = if c.size > 12 && c.r.chance(1, 4) { (60, 100) } else { (4, 3) };
    let nl: Vec<NL> = (0..c.r.below(a)).map(|_| NL::mk(c.r.below(b) as u32)).collect();
    let el: Vec<EL> = (0..c.r.below(a)).map(|_| EL::mk(c.r.below(b) as u32)).collect();
    let all = if dir { n * n.saturating_sub(1) } else { n * n.saturating_sub(1) / 2 };
    let kind = if big { 2 + c.r.below(2) } else { c.r.below(8) };
    let m = if c.r.chance(1, 4) { all } else { c.r.below(all + 1) };
    let p = match c.r.below(3) {
        0 => 0f32,
        1 => 1f32,
        _ => 0.4,
    };
    c.log(format!("generator {} n={} m={} p={} dir={} labels {:?} {:?}", kind, n, m, p, dir, nl, el));
    c.log("generate".into());
    let labelled = kind % 2 == 0;
    let (g, lo, hi): (Gm<Id, NL, EL, Ty, Id>, usize, usize) = match kind {
        0 => (empty_graph(n, nl.clone(), el.clone()), 0, 0),
        1 => (empty_graph_unlabeled(n), 0, 0),
        2 => (complete_graph(n, nl.clone(), el.clone()), all, all),
        3 => (complete_graph_unlabeled(n), all, all),
        4 => (random_gnm_graph(n, m, nl.clone(), el.clone()), m, m),
        5 => (random_gnm_graph_unlabeled(n, m), m, m),
        6 => (random_gnp_graph(n, p, nl.clone(), el.clone()), if p == 1f32 { all } else { 0 }, if p == 0f32 { 0 } else { all }),
        _ => (random_gnp_graph_unlabeled(n, p), if p == 1f32 { all } else { 0 }, if p == 0f32 { 0 } else { all }),
    };
    let k = g.edge_count();
    req!(lo <= k && k <= hi, "edge_count() {} not in {}..={}", k, lo, hi);
    if big {
        ck!(g.node_count(), n, "node_count()");
        for s in 0..n {
            for t in 0..n {
                ck!(g.has_edge(Id::new(s), Id::new(t)), s != t, "has_edge({}, {})", s, t);
            }
        }
        return Ok(());
    }
    let mut md = M::new(dir);
    for i in 0..n {
        let l = g.get_node_label(Id::new(i)).map(|x| x.un());
        if labelled && !nl.is_empty() {
            req!(l.map_or(false, |l| nl.contains(&NL::mk(l))), "node {} has label {:?}", i, l);
        } else {
            ck!(l, None, "label of node {}", i);
        }
        md.add_node(i, l);
    }
    for (s, t) in g.edge_indices().take(k + 2) {
        req!(s != t, "self-loop at {:?}", s);
        req!(s.id() < n && t.id() < n, "edge outside");
        let l = g.get_edge_label(s, t).map(|x| x.un());
        if labelled && !el.is_empty() {
            req!(l.map_or(false, |l| el.contains(&EL::mk(l))), "edge ({:?},{:?}) has label {:?}", s, t, l);
        } else {
            ck!(l, None, "label of an edge");
        }
        md.add_edge(s.id(), t.id(), l);
    }
    check_view(Ty::map(&g), &md, FULL, &[])?;
    if c.r.chance(1, 4) {
        let r = std::panic::catch_unwind(|| random_gnm_graph_unlabeled::<Id, NL, EL, Ty>(n, all + 1).edge_count());
        req!(r.is_err(), "random_gnm_graph accepts m={} of {} pairs", all + 1, all);
        let r = std::panic::catch_unwind(|| random_gnp_graph_unlabeled::<Id, NL, EL, Ty>(n, 1.5).edge_count());
        req!(r.is_err(), "random_gnp_graph accepts p=1.5");
        let r = std::panic::catch_unwind(|| random_gnp_graph_unlabeled::<Id, NL, EL, Ty>(n, -0.5).edge_count());
        req!(r.is_err(), "random_gnp_graph accepts p=-0.5");
    }
    Ok(())
}
/// The random generators can yield any subset: over 150 graphs each pair is joined in some and not in others,
/// and each label is given (the chance that this fails is below 10^-18).
fn subsets<Id: Ix, NL: Lb, EL: Lb, Ty: Dir>(c: &mut Ctx, dir: bool) -> R {
    let n = 2 + c.r.below(5);
    let all = if dir { n * (n - 1) } else { n * (n - 1) / 2 };
    let gnm = all > 1 && c.r.chance(1, 2);
    let nl: Vec<NL> = (0..1 + c.r.below(2)).map(|i| NL::mk(i as u32)).collect();
    let el: Vec<EL> = (0..1 + c.r.below(2)).map(|i| EL::mk(i as u32)).collect();
    c.log(format!("150 random graphs, gnm {} n={} dir={} labels {:?} {:?}", gnm, n, dir, nl, el));
    let mut seen: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let (mut ns, mut es) = (BTreeSet::new(), BTreeSet::new());
    for _ in 0..150 {
        let g: Gm<Id, NL, EL, Ty, Id> = if gnm { random_gnm_graph(n, all / 2, nl.clone(), el.clone()) } else { random_gnp_graph(n, 0.5, nl.clone(), el.clone()) };
        for (s, t) in g.edge_indices().take(all + 1) {
            *seen.entry((s.id(), t.id())).or_insert(0) += 1;
            es.insert(g.get_edge_label(s, t).map(|x| x.un()));
        }
        for i in 0..n {
            ns.insert(g.get_node_label(Id::new(i)).map(|x| x.un()));
        }
    }
    for s in 0..n {
        for t in 0..n {
            if s < t || dir && s != t {
                let k = seen.get(&(s, t)).cloned().unwrap_or(0);
                req!(0 < k && k < 150, "({}, {}) is an edge of {} of 150 random graphs", s, t, k);
            }
        }
    }
    ck!(ns, nl.iter().map(|x| Some(x.un())).collect(), "node labels of 150 random graphs");
    ck!(es, el.iter().map(|x| Some(x.un())).collect(), "edge labels of 150 random graphs");
    Ok(())
}
fn ids(c: &mut Ctx) -> R {
    c.steps += 1;
    macro_rules! t {
        ($t:ty) => {{
            c.log(stringify!($t).to_string());
            let mx = <$t>::MAX as usize;
            ck!(<$t as IdType>::max_usize(), mx, "max_usize()");
            ck!(<$t as IdType>::max_value(), <$t>::MAX, "max_value()");
            for _ in 0..40 {
                let x = match c.r.below(6) {
                    0 => 0,
                    1 => mx,
                    2 => mx - c.r.below(4),
                    3 => c.r.below(300).min(mx),
                    _ => (c.r.next() as usize) & mx,
                };
                let y = (c.r.next() as usize) & mx;
                c.log(format!("{} {}", x, y));
                let (a, b) = (<$t as IdType>::new(x), <$t as IdType>::new(y));
                ck!(a.id(), x, "new({}).id()", x);
                ck!(a as usize, x, "new({})", x);
                ck!(a.cmp(&b), x.cmp(&y), "order of {} and {}", x, y);
                if x < mx {
                    ck!(a.increment().id(), x + 1, "increment of {}", x);
                }
            }
        }};
    }
    match c.r.below(4) {
        0 => {
            t!(u8);
            c.log("()".to_string());
            ck!(<() as IdType>::max_usize(), 0, "max_usize()");
            ck!(<() as IdType>::new(0).id(), 0, "new(0).id()");
            ck!(<() as IdType>::max_value().id(), 0, "max_value().id()");
        }
        1 => t!(u16),
        2 => t!(u32),
        _ => t!(usize),
    }
    Ok(())
}
fn export<Id: Ix, NL: Lb, EL: Lb, Ty: Dir, L: Ix>(c: &mut Ctx, dir: bool) -> R
where
    Gm<Id, NL, EL, Ty, L>: serde::Serialize + for<'de> serde::Deserialize<'de>,
    Sg<Id, NL, EL, Ty, L>: serde::Serialize + for<'de> serde::Deserialize<'de>,
    Ty: serde::Serialize + for<'de> serde::Deserialize<'de>,
{
    let p = c.dir.join("x.bin");
    let m = gappy::<Id>(c, dir);
    c.steps += 1;
    let g = build::<Id, NL, EL, Ty, L>(c, &m);
    c.log("export, import".into());
    let how = c.r.below(2);
    if how == 0 { Serializer::export(&g, &p) } else { Se::export(&g, &p) }.map_err(|e| e.to_string())?;
    let h: Gm<Id, NL, EL, Ty, L> = if how == 0 { Deserializer::import(&p) } else { De::import(&p) }.map_err(|e| e.to_string())?;
    check_view(Ty::map(&h), &m, NOMAX, &[])?;
    req!(g == h, "the imported graph is not equal");
    ck!(g.max_seen_id(), h.max_seen_id(), "max_seen_id()");
    req!(g.get_node_label_map() == h.get_node_label_map() && g.get_edge_label_map() == h.get_edge_label_map(), "label tables");
    let full = std::path::Path::new("/dev/full");
    if full.exists() && c.r.chance(1, 8) {
        req!(Serializer::export(&g, full).is_err(), "exporting to a full device is reported as a success");
        req!(Se::export(&g, full).is_err(), "exporting to a full device is reported as a success");
        req!(Serializer::export(&7u8, full).is_err(), "exporting one byte to a full device is reported as a success");
    }
    if c.r.chance(1, 8) {
        req!(Serializer::export(&g, c.dir.join("none/x.bin")).is_err(), "exporting into a directory that does not exist is reported as a success");
        let r: Result<Gm<Id, NL, EL, Ty, L>, _> = Deserializer::import(c.dir.join("none.bin"));
        req!(r.is_err(), "a file that does not exist was imported");
    }
    {
        // parts and results
        let t = c.dir.join("y.bin");
        let sm = GraphLabelTrait::get_node_label_map(&g).clone();
        Se::export(&sm, &t).map_err(|e| e.to_string())?;
        let sm2: SetMap<NL> = De::import(&t).map_err(|e| e.to_string())?;
        req!(sm == sm2 && sm.len() == sm2.len() && sm.items().all(|i| sm.find_index(i) == sm2.find_index(i)), "the imported SetMap differs");
        let vm: VecMap<NL> = sm.items().cloned().collect();
        Se::export(&vm, &t).map_err(|e| e.to_string())?;
        let vm2: VecMap<NL> = De::import(&t).map_err(|e| e.to_string())?;
        req!(vm == vm2, "the imported VecMap differs");
    }
    {
        // later behaviour: the same edits lead to the same graph
        let (mut g, mut h, mut m) = (g.clone(), h, m.clone());
        for _ in 0..1 + c.r.below(4) {
            let ids: Vec<usize> = m.nodes.keys().cloned().collect();
            let pick = |c: &mut Ctx| if ids.is_empty() || c.r.chance(1, 4) { c.r.below(100) } else { ids[c.r.below(ids.len())] };
            let (s, t, l) = (pick(c), pick(c), if c.r.chance(1, 2) { Some(c.r.below(6) as u32) } else { None });
            c.log(format!("edit both at ({}, {}) {:?}", s, t, l));
            match c.r.below(4) {
                0 | 1 => {
                    let w = m.add_edge(s, t, l);
                    for x in [&mut g, &mut h] {
                        ck!(x.add_edge(Id::new(s), Id::new(t), l.map(EL::mk)), w, "add_edge");
                    }
                }
                2 => {
                    let w = m.remove_edge(s, t).is_some();
                    for x in [&mut g, &mut h] {
                        x.remove_edge(Id::new(s), Id::new(t));
                    }
                    let _ = w;
                }
                _ => {
                    m.add_node(s, l);
                    for x in [&mut g, &mut h] {
                        x.add_node(Id::new(s), l.map(NL::mk));
                    }
                }
            }
        }
        check_view(Ty::map(&h), &m, NOMAX, &[]).map_err(|e| format!("after editing the imported graph: {}", e))?;
        req!(g == h && g.max_seen_id() == h.max_seen_id(), "the imported graph behaves differently");
        req!(g.get_node_label_map() == h.get_node_label_map() && g.get_edge_label_map() == h.get_edge_label_map(), "label tables after edits");
    }
    let len = std::fs::metadata(&p).unwrap().len();
    if len > 0 && c.r.chance(1, 3) {
        let f = std::fs::OpenOptions::new().write(true).open(&p).unwrap();
        f.set_len(c.r.below(len as usize) as u64).unwrap();
        let r: Result<Gm<Id, NL, EL, Ty, L>, _> = Deserializer::import(&p);
        req!(r.is_err(), "a truncated file was imported");
    }
    if c.r.chance(1, 3) {
        let r = g.clone().reorder_id(c.r.chance(1, 2), c.r.chance(1, 2), c.r.chance(1, 2));
        again(&r, &p)?;
    }
    let s = g.into_static();
    Serializer::export(&s, &p).map_err(|e| e.to_string())?;
    let t: Sg<Id, NL, EL, Ty, L> = Deserializer::import(&p).map_err(|e| e.to_string())?;
    check_view(Ty::stat(&t), &fill(&m), STAT, &[])?;
    req!(s == t, "the imported static graph is not equal");
    Ok(())
}
fn again<T: PartialEq + serde::Serialize + for<'de> serde::Deserialize<'de>>(x: &T, p: &std::path::Path) -> R {
    Serializer::export(x, p).map_err(|e| e.to_string())?;
    let y: T = Deserializer::import(p).map_err(|e| e.to_string())?;
    req!(*x == y, "an imported result differs");
    Ok(())
}
/// Labels that need quoting.
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Odd(String);
const ODD: [&str; 12] = ["a,b", "\"q\"", "x\ny", " sp ", "\u{e9}", ";|", "\ttab", "7", "null", "x\"", "l1", "nodeId:ID"];
impl Lb for Odd {
    fn mk(k: u32) -> Odd {
        let k = k as usize;
        Odd(if k < ODD.len() { ODD[k].to_string() } else { format!("{}{}", ODD[k % ODD.len()], k) })
    }
    fn un(&self) -> u32 {
        (0..100000).find(|k| Odd::mk(*k) == *self).expect("a label that was never used")
    }
}
fn csv(c: &mut Ctx) -> R {
    match c.r.below(8) {
        0 => csv_ty::<u32, Odd, u32, Directed>(c, true)?,
        1 => csv_ty::<u32, String, Odd, Undirected>(c, false)?,
        2 => csv_ty::<u8, Odd, Odd, Directed>(c, true)?,
        3 => csv_ty::<usize, u32, String, Undirected>(c, false)?,
        4 => csv_ty::<u16, u32, u32, Undirected>(c, false)?,
        5 => csv_ty::<u16, Odd, u32, Directed>(c, true)?,
        6 => csv_ty::<u32, String, u32, Directed>(c, true)?,
        _ => csv_ty::<u32, String, u32, Undirected>(c, false)?,
    }
    if c.r.chance(1, 2) { csv_rows::<u32, Directed>(c, true) } else { csv_rows::<u32, Undirected>(c, false) }
}
fn csv_ty<Id: Ix, NL: Lb, EL: Lb, Ty: Dir>(c: &mut Ctx, dir: bool) -> R {
    c.steps += 1;
    let (pn, pe) = (c.dir.join("n.csv"), c.dir.join("e.csv"));
    let m = rand_model::<Id>(c, dir, Style::Any);
    let g = build::<Id, NL, EL, Ty, Id>(c, &m);
    let any = ((33 + c.r.below(94)) as u8 as char).to_string();
    let sep = if c.r.chance(1, 2) && any != "\"" { any.as_str() } else { ["comma", "space", "tab", ",", ";", "|", " ", "\t"][c.r.below(8)] };
    c.log(format!("separator {}", sep));
    let plain = sep == "comma" && c.r.chance(1, 2);
    if plain {
        write_to_csv(Ty::map(&g), &pn, &pe).map_err(|e| e.to_string())?;
    } else {
        CSVWriter::with_separator(Ty::map(&g), &pn, &pe, sep).write().map_err(|e| e.to_string())?;
    }
    let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    if plain {
        read_from_csv(&mut h, Some(&pn), &pe, None, true, c.r.chance(1, 2)).map_err(|e| e.to_string())?;
    } else {
        read_from_csv(&mut h, Some(&pn), &pe, Some(sep), true, c.r.chance(1, 2)).map_err(|e| e.to_string())?;
    }
    check_view(Ty::map(&h), &m, NOMAX, &[])?;
    let r: CSVReader<Id, NL, EL> = CSVReader::with_separator(Some(&pn), &pe, sep);
    let ns: BTreeMap<usize, Option<u32>> = r.node_iter().map_err(|e| e.to_string())?.map(|(i, l)| (i.id(), l.map(|x| x.un()))).collect();
    ck!(ns, m.nodes, "node_iter()");
    let es: BTreeMap<(usize, usize), Option<u32>> = r.edge_iter().map_err(|e| e.to_string())?.map(|(s, t, l)| ((s.id(), t.id()), l.map(|x| x.un()))).collect();
    ck!(es, m.canon(), "edge_iter()");
    // what cannot be read or written is an error
    if c.r.chance(1, 8) {
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        ck!(CSVReader::<Id, NL, EL>::new(Some(c.dir.join("none.csv")), pe.clone()).read(&mut h).is_err(), true, "read() without a nodes file");
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        ck!(CSVReader::<Id, NL, EL>::new(Some(pn.clone()), c.dir.join("none.csv")).read(&mut h).is_err(), true, "read() without an edges file");
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        ck!(CSVReader::<Id, NL, EL>::new(Some(c.dir.clone()), pe.clone()).read(&mut h).is_err(), true, "read() of a nodes file that cannot be read (a directory)");
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        ck!(CSVReader::<Id, NL, EL>::new(Some(pn.clone()), c.dir.clone()).read(&mut h).is_err(), true, "read() of an edges file that cannot be read (a directory)");
        if g.node_count() > 0 && std::path::Path::new("/dev/full").exists() {
            ck!(CSVWriter::new(Ty::map(&g), std::path::PathBuf::from("/dev/full"), pe.clone()).write().is_err(), true, "write() of the nodes to a full device");
        }
        if g.edge_count() > 0 && std::path::Path::new("/dev/full").exists() {
            ck!(CSVWriter::new(Ty::map(&g), c.dir.join("n2.csv"), std::path::PathBuf::from("/dev/full")).write().is_err(), true, "write() of the edges to a full device");
        }
    }
    if c.r.chance(1, 8) {
        ck!(CSVReader::<Id, NL, EL>::new(Some(c.dir.clone()), pe.clone()).node_iter().is_err(), true, "node_iter() of a file that cannot be read (a directory)");
        ck!(CSVReader::<Id, NL, EL>::new(Some(pn.clone()), c.dir.clone()).edge_iter().is_err(), true, "edge_iter() of a file that cannot be read (a directory)");
    }
    // rows alone, without the line of headers
    {
        let strip = |p: &std::path::Path| { let t = std::fs::read_to_string(p).unwrap(); std::fs::write(p, t.splitn(2, '\n').nth(1).unwrap_or("")).unwrap(); };
        strip(&pn);
        strip(&pe);
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        read_from_csv(&mut h, Some(&pn), &pe, Some(sep), false, c.r.chance(1, 2)).map_err(|e| e.to_string())?;
        check_view(Ty::map(&h), &m, NOMAX, &[]).map_err(|e| format!("read without headers: {}", e))?;
    }
    Ok(())
}
fn csv_rows<Id: Ix, Ty: Dir>(c: &mut Ctx, dir: bool) -> R {
    type NL = String;
    type EL = u32;
    let (pn, pe) = (c.dir.join("n.csv"), c.dir.join("e.csv"));
    // unparsable rows are skipped, a missing label column is no label
    let mut txt = String::from("nodeId:ID,:LABEL\n");
    let mut w = M::new(dir);
    let most = if c.r.chance(1, 10) { 60 } else { 5 };
    // the rows that are as long as the line of headers
    let (mut nrows, mut erows) = (BTreeSet::new(), vec![]);
    for i in 0..1 + c.r.below(most) {
        match c.r.below(3) {
            0 => txt.push_str("zz,l1\n"),
            1 => {
                nrows.insert(i);
                txt.push_str(&format!("{},\n", i));
                w.add_node(i, None);
            }
            _ => {
                nrows.insert(i);
                txt.push_str(&format!("{},l{}\n", i, i));
                w.add_node(i, Some(i as u32));
            }
        }
    }
    std::fs::write(&pn, &txt).unwrap();
    let mut te = String::from(":START_ID,:END_ID,:TYPE\n");
    for i in 0..1 + c.r.below(most) {
        match c.r.below(4) {
            0 => te.push_str("1,q,3\n"),
            1 => {
                te.push_str(&format!("{},{}\n", i, i + 1));
                w.add_edge(i, i + 1, None);
            }
            2 => {
                erows.push((i, None));
                te.push_str(&format!("{},{},x7\n", i, i + 1));
                w.add_edge(i, i + 1, None);
            }
            _ => {
                erows.push((i, Some(7)));
                te.push_str(&format!("{},{},7\n", i, i + 1));
                w.add_edge(i, i + 1, Some(7));
            }
        }
    }
    std::fs::write(&pe, &te).unwrap();
    c.log(format!("nodes file {:?} edges file {:?}", txt, te));
    let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    let r: CSVReader<Id, NL, EL> = CSVReader::new(Some(&pn), &pe).flexible(true);
    r.read(&mut h).map_err(|e| e.to_string())?;
    check_view(Ty::map(&h), &w, NOMAX, &[])?;
    let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    for (i, l) in r.node_iter().map_err(|e| e.to_string())? {
        h.add_node(i, l);
    }
    for (s, t, l) in r.edge_iter().map_err(|e| e.to_string())? {
        h.add_edge(s, t, l);
    }
    check_view(Ty::map(&h), &w, NOMAX, &[]).map_err(|e| format!("node_iter(), edge_iter(): {}", e))?;
    // without the line of headers; rows of another length are skipped unless the reader is flexible
    {
        let cut = |t: &String| t.splitn(2, '\n').nth(1).unwrap_or("").to_string();
        std::fs::write(&pn, cut(&txt)).unwrap();
        std::fs::write(&pe, cut(&te)).unwrap();
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        let r: CSVReader<Id, NL, EL> = CSVReader::new(Some(&pn), &pe).headers(false).flexible(true);
        let r = if c.r.chance(1, 2) { r.clone() } else { r };
        r.read(&mut h).map_err(|e| e.to_string())?;
        check_view(Ty::map(&h), &w, NOMAX, &[]).map_err(|e| format!("without headers: {}", e))?;
        std::fs::write(&pn, &txt).unwrap();
        std::fs::write(&pe, &te).unwrap();
        let mut w2 = M::new(dir);
        for (i, l) in &w.nodes {
            if nrows.contains(i) {
                w2.add_node(*i, *l);
            }
        }
        for (i, l) in &erows {
            w2.add_edge(*i, *i + 1, *l);
        }
        let r: CSVReader<Id, NL, EL> = CSVReader::with_separator(Some(&pn), &pe, "comma");
        let r = if c.r.chance(1, 2) { r.flexible(true).flexible(false) } else { r };
        let r = if c.r.chance(1, 2) { r.clone() } else { r };
        let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
        r.read(&mut h).map_err(|e| e.to_string())?;
        check_view(Ty::map(&h), &w2, NOMAX, &[]).map_err(|e| format!("not flexible: {}", e))?;
    }
    // node labels of another type
    {
        let head = c.r.chance(1, 2);
        let mut t = String::from(if head { "nodeId:ID,:LABEL\n" } else { "" });
        let mut w2 = M::new(dir);
        for i in 0..1 + c.r.below(5) {
            let (f, l) = match c.r.below(3) { 0 => ("x7", None), 1 => ("", None), _ => ("7", Some(7)) };
            t.push_str(&format!("{},{}\n", i, f));
            w2.add_node(i, l);
        }
        let (qn, qe) = (c.dir.join("n2.csv"), c.dir.join("e2.csv"));
        std::fs::write(&qn, &t).unwrap();
        std::fs::write(&qe, "").unwrap();
        let mut h: Gm<Id, u32, EL, Ty, Id> = TypedGraphMap::new();
        CSVReader::new(Some(&qn), &qe).headers(head).read(&mut h).map_err(|e| e.to_string())?;
        check_view(Ty::map(&h), &w2, NOMAX, &[]).map_err(|e| format!("nodes {:?}: {}", t, e))?;
    }
    // the edges alone; columns in another order
    let mut w2 = M::new(dir);
    for ((s, t), l) in &w.edges {
        w2.add_edge(*s, *t, *l);
    }
    let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    CSVReader::new(None, &pe).flexible(true).read(&mut h).map_err(|e| e.to_string())?;
    check_view(Ty::map(&h), &w2, NOMAX, &[]).map_err(|e| format!("edges alone: {}", e))?;
    let mut tn = String::from(":LABEL,nodeId:ID\n");
    for (n, l) in &w.nodes {
        tn.push_str(&format!("{},{}\n", l.map_or(String::new(), |l| format!("l{}", l)), n));
    }
    let mut te = String::from(":TYPE,:END_ID,:START_ID\n");
    for ((s, t), l) in &w.canon() {
        te.push_str(&format!("{},{},{}\n", l.map_or(String::new(), |l| l.to_string()), t, s));
    }
    std::fs::write(&pn, &tn).unwrap();
    std::fs::write(&pe, &te).unwrap();
    let mut h: Gm<Id, NL, EL, Ty, Id> = TypedGraphMap::new();
    CSVReader::new(Some(&pn), &pe).read(&mut h).map_err(|e| e.to_string())?;
    check_view(Ty::map(&h), &w, NOMAX, &[]).map_err(|e| format!("columns in another order: {}", e))
}
#[allow(dead_code)]
fn unused() {
    let _ = new_general_graphmap::<u32, u32, u32, u32>;
}

/// Known findings: true if the defect still shows.
pub fn finding(name: &str) -> bool {
    match name {
        "set_label_one_direction" => {
            let mut g = TypedUnGraphMap::<u32, &str, &str>::new();
            g.add_edge(0, 1, Some("a"));
            g.add_edge_label(Some("b"));
            g.get_edge_mut(1, 0).set_label_id(Some(1));
            g.get_edge_label(0, 1) != g.get_edge_label(1, 0)
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ C21
const RELS: [(&str, &str, &str); 23] = [
    ("comment", "hasCreator", "person"), ("comment", "hasTag", "tag"), ("comment", "isLocatedIn", "place"), ("comment", "replyOf", "comment"), ("comment", "replyOf", "post"),
    ("forum", "containerOf", "post"), ("forum", "hasMember", "person"), ("forum", "hasModerator", "person"), ("forum", "hasTag", "tag"), ("organisation", "isLocatedIn", "place"),
    ("person", "hasInterest", "tag"), ("person", "isLocatedIn", "place"), ("person", "knows", "person"), ("person", "likes", "comment"), ("person", "likes", "post"),
    ("person", "studyAt", "organisation"), ("person", "workAt", "organisation"), ("place", "isPartOf", "place"), ("post", "hasCreator", "person"), ("post", "hasTag", "tag"),
    ("post", "isLocatedIn", "place"), ("tag", "hasType", "tagclass"), ("tagclass", "isSubclassOf", "tagclass"),
];
type Ent = (String, usize);
fn ldbc(c: &mut Ctx) -> R {
    match c.r.below(4) {
        0 => ldbc_ty::<u32, Directed>(c, true, 1000),
        1 => ldbc_ty::<u32, Undirected>(c, false, 1000),
        2 => ldbc_ty::<u8, Directed>(c, true, 256),
        _ => ldbc_ty::<u8, Undirected>(c, false, 256),
    }
}
fn ldbc_ty<Id: Ix, Ty: Dir>(c: &mut Ctx, dir: bool, room: usize) -> R {
    c.steps += 1;
    let d = c.dir.join("ldbc");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let mut nodes: BTreeMap<Ent, String> = BTreeMap::new();
    let mut edges: BTreeMap<(Ent, Ent), String> = BTreeMap::new();
    // the nodes that have files of their own, in several parts
    for (kind, lab, head) in [("organisation", 1, "id|type|name|url"), ("place", 3, "id|name|url|type")] {
        for part in 0..c.r.below(3) {
            let mut t = format!("{}\n", head);
            for _ in 0..c.r.below(2 + c.size.min(12)) {
                let id = c.r.below(8);
                let l = format!("{}{}", if kind == "place" { "city" } else { "company" }, id % 5);
                let mut row = vec![id.to_string(), "n".into(), "u".into(), "x".into()];
                row[lab] = l.clone();
                t.push_str(&format!("{}\n", row.join("|")));
                nodes.insert((kind.into(), id), l);
            }
            let name = format!("{}_{}_0.csv", kind, part);
            c.log(format!("{}: {:?}", name, t));
            std::fs::write(d.join(name), t).unwrap();
        }
    }
    let mut used: BTreeMap<(Ent, Ent), String> = BTreeMap::new();
    let full = room == 256 && c.r.chance(1, 6);
    // pairs with relations of different names: one of them is kept
    let loose = !full && c.r.chance(1, 4);
    let mut names: BTreeSet<(Ent, String, Ent)> = BTreeSet::new();
    let n_rels = 1 + c.r.below(1 + c.size.min(14));
    for k in 0..n_rels {
        let (a, l, b) = if full { RELS[12] } else { RELS[c.r.below(RELS.len())] };
        let extra = c.r.chance(1, 3);
        let mut t = format!("{}.id|{}.id{}\n", a, b, if extra { "|creationDate" } else { "" });
        let rows = if full { if k == 0 { 300 } else { 0 } } else { c.r.below(2 + c.size.min(12)) };
        for i in 0..rows {
            let big = c.r.chance(1, 20);
            let (x, y): (Ent, Ent) = if full { ((a.into(), i), (b.into(), i + 1)) } else { ((a.into(), c.r.below(8) + if big { 1000000 } else { 0 }), (b.into(), c.r.below(8))) };
            let q = if x <= y { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
            // one relation between two entities: a simple graph holds no more
            if !loose && used.get(&q).map_or(false, |u| u != l) { continue; }
            let more = nodes.len() + !nodes.contains_key(&x) as usize + (x != y && !nodes.contains_key(&y)) as usize;
            if more > room { continue; }
            used.insert(q, l.into());
            t.push_str(&format!("{}|{}{}\n", x.1, y.1, if extra { "|2010-01-01" } else { "" }));
            for e in [&x, &y] { if !nodes.contains_key(e) { nodes.insert(e.clone(), e.0.clone()); } }
            names.insert((x.clone(), l.into(), y.clone()));
            if !dir { names.insert((y.clone(), l.into(), x.clone())); }
            edges.insert((x.clone(), y.clone()), l.into());
            if !dir { edges.insert((y, x), l.into()); }
        }
        let name = format!("{}_{}_{}_{}_{}.csv", a, l, b, k, c.r.below(10));
        c.log(format!("{}: {:?}", name, t));
        std::fs::write(d.join(name), t).unwrap();
    }
    // what is no file of these is left alone
    if c.r.chance(1, 2) { std::fs::write(d.join("person_0_0.csv"), "id|firstName\n77|x\n").unwrap(); }
    if c.r.chance(1, 2) { std::fs::write(d.join("person_email_emailaddress_0_0.csv"), "Person.id|email\n78|x\n").unwrap(); }
    if c.r.chance(1, 4) { std::fs::create_dir_all(d.join("tag_hasType_tagclass_99_9.csv")).unwrap(); }
    let g: Gm<Id, String, String, Ty, Id> = rust_graph::io::read_ldbc_from_path(&d);
    ck!(g.node_count(), nodes.len(), "node_count() of the loaded graph");
    let canon = if dir { edges.len() } else { edges.keys().filter(|(a, b)| a <= b).count() };
    ck!(g.edge_count(), canon, "edge_count() of the loaded graph");
    let ids: Vec<Id> = g.node_indices().collect();
    ck!(ids.iter().collect::<BTreeSet<_>>().len(), nodes.len(), "ids of the loaded graph");
    // the same graph but for the ids: labels, then the labels of neighbours, and so on
    fn refine<K: Ord + Clone>(lab: &BTreeMap<K, String>, out: &BTreeMap<K, Vec<(String, K)>>, inn: &BTreeMap<K, Vec<(String, K)>>) -> Vec<String> {
        let mut col = lab.clone();
        for round in 0..4 {
            let raw: BTreeMap<K, String> = col.iter().map(|(k, v)| {
                let side = |m: &BTreeMap<K, Vec<(String, K)>>| { let mut s: Vec<String> = m.get(k).map_or(vec![], |v| v.iter().map(|(l, t)| format!("{}>{}", l, col[t])).collect()); s.sort(); s.join(",") };
                (k.clone(), format!("{}[{}|{}]", v, side(out), side(inn)))
            }).collect();
            if round == 3 { let mut v: Vec<String> = raw.into_iter().map(|(_, v)| v).collect(); v.sort(); return v; }
            col = raw.into_iter().map(|(k, v)| { let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); (k, if round == 0 { v } else { format!("{:x}", h.finish()) }) }).collect();
        }
        unreachable!()
    }
    let (mut o1, mut i1) = (BTreeMap::new(), BTreeMap::new());
    for ((a, b), l) in &edges {
        o1.entry(a.clone()).or_insert(vec![]).push((l.clone(), b.clone()));
        i1.entry(b.clone()).or_insert(vec![]).push((l.clone(), a.clone()));
    }
    let lab: BTreeMap<Id, String> = ids.iter().map(|&i| (i, g.get_node_label(i).cloned().unwrap_or("(none)".into()))).collect();
    let (mut o2, mut i2) = (BTreeMap::new(), BTreeMap::new());
    for &a in &ids {
        for b in g.neighbors_iter(a) {
            let l = g.get_edge_label(a, b).cloned().unwrap_or("(none)".into());
            o2.entry(a).or_insert(vec![]).push((l.clone(), b));
            i2.entry(b).or_insert(vec![]).push((l, a));
        }
    }
    let count = |v: Vec<String>| v.into_iter().fold(BTreeMap::new(), |mut m: BTreeMap<String, usize>, x| { *m.entry(x).or_insert(0) += 1; m });
    ck!(count(lab.values().cloned().collect()), count(nodes.values().cloned().collect()), "node labels of the loaded graph");
    if loose {
        let names: BTreeSet<(String, String, String)> = names.iter().map(|(a, l, b)| (nodes[a].clone(), l.clone(), nodes[b].clone())).collect();
        for (a, v) in &o2 {
            for (l, b) in v {
                let t = (lab[a].clone(), l.clone(), lab[b].clone());
                req!(names.contains(&t), "no file has the relation {:?}", t);
            }
        }
        return Ok(());
    }
    let tri = |o: Vec<(String, String, String)>| count(o.into_iter().map(|(a, l, b)| format!("{} {} {}", a, l, b)).collect());
    ck!(tri(o2.iter().flat_map(|(a, v)| v.iter().map(|(l, b)| (lab[a].clone(), l.clone(), lab[b].clone())).collect::<Vec<_>>()).collect()),
        tri(edges.iter().map(|((a, b), l)| (nodes[a].clone(), l.clone(), nodes[b].clone())).collect()), "relations of the loaded graph, by labels");
    ck!(refine(&lab, &o2, &i2), refine(&nodes, &o1, &i1), "the loaded graph, apart from its ids");
    Ok(())
}
