//! G02: every edge storage implementation answers reachability like a plain graph.
//! G35: the statistics describe the component.
use crate::engine::*;
use graphannis_core::annostorage::NodeAnnotationStorage;
use graphannis_core::annostorage::AnnotationStorage;
use graphannis_core::graph::storage::adjacencylist::AdjacencyListStorage;
use graphannis_core::graph::storage::dense_adjacency::DenseAdjacencyListStorage;
use graphannis_core::graph::storage::disk_adjacency::DiskAdjacencyListStorage;
use graphannis_core::graph::storage::disk_path::DiskPathStorage;
use graphannis_core::graph::storage::linear::LinearGraphStorage;
use graphannis_core::graph::storage::prepost::PrePostOrderStorage;
use graphannis_core::graph::storage::union::UnionEdgeContainer;
use graphannis_core::graph::storage::{EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::path::Path;

pub fn property() -> Property {
    Property {
        id: "G02",
        rule: "random components (chains, path forests, rooted forests, DAGs, cyclic graphs; 0-40 edges, scattered node ids, some edges deleted and added again) converted into every implementation that can hold their shape, with random distance ranges for all node pairs; non-trivial: at least 4 edges and at least 2 implementations compared",
        level: "exploration",
        assumptions: &[
            "paths in cyclic components are simple paths (no node twice), as documented for the cycle safe traversal",
            "an excluded upper distance bound is at least 1; minimum <= maximum",
            "implementations are only used for the component shapes they are selected for",
        ],
        checks: vec![
            Check { name: "reachability", f: reachability, quick: 64000, thorough: 2000000 },
            Check { name: "selected", f: selected, quick: 24000, thorough: 600000 },
            Check { name: "deep", f: deep, quick: 256, thorough: 4000 },
            Check { name: "union", f: union, quick: 8000, thorough: 200000 },
        ],
    }
}

pub fn property_stats() -> Property {
    Property {
        id: "G35",
        rule: "random components of all shapes including several unconnected parts, with deleted edges; in-memory and on-disk adjacency list; non-trivial: at least 4 edges",
        level: "exploration",
        assumptions: &["a component without edges reports the depth 1"],
        checks: vec![Check { name: "statistics", f: statistics, quick: 150000, thorough: 6000000 }],
    }
}

/// The plain reference graph.
#[derive(Default, Clone, Debug)]
pub struct Plain {
    pub out: BTreeMap<NodeID, BTreeSet<NodeID>>,
    pub inn: BTreeMap<NodeID, BTreeSet<NodeID>>,
    pub annos: BTreeMap<(NodeID, NodeID), BTreeMap<(String, String), String>>,
}
impl Plain {
    pub fn add(&mut self, a: NodeID, b: NodeID) {
        if a != b {
            self.out.entry(a).or_default().insert(b);
            self.inn.entry(b).or_default().insert(a);
        }
    }
    pub fn del(&mut self, a: NodeID, b: NodeID) {
        if let Some(x) = self.out.get_mut(&a) {
            x.remove(&b);
            if x.is_empty() {
                self.out.remove(&a);
            }
        }
        if let Some(x) = self.inn.get_mut(&b) {
            x.remove(&a);
            if x.is_empty() {
                self.inn.remove(&b);
            }
        }
        self.annos.remove(&(a, b));
    }
    pub fn edges(&self) -> Vec<(NodeID, NodeID)> {
        self.out.iter().flat_map(|(a, bs)| bs.iter().map(|b| (*a, *b))).collect()
    }
    pub fn nodes(&self) -> BTreeSet<NodeID> {
        self.out.keys().chain(self.inn.keys()).copied().collect()
    }
    pub fn roots(&self) -> BTreeSet<NodeID> {
        self.out.keys().filter(|n| !self.inn.contains_key(n)).copied().collect()
    }
    /// all lengths of simple paths from a node to every node
    pub fn simple_paths(&self, from: NodeID, inverse: bool) -> BTreeMap<NodeID, BTreeSet<usize>> {
        fn rec(
            m: &BTreeMap<NodeID, BTreeSet<NodeID>>,
            path: &mut Vec<NodeID>,
            r: &mut BTreeMap<NodeID, BTreeSet<usize>>,
        ) {
            let n = *path.last().unwrap();
            r.entry(n).or_default().insert(path.len() - 1);
            if let Some(o) = m.get(&n) {
                for x in o {
                    if !path.contains(x) {
                        path.push(*x);
                        rec(m, path, r);
                        path.pop();
                    }
                }
            }
        }
        let mut r = BTreeMap::new();
        rec(if inverse { &self.inn } else { &self.out }, &mut vec![from], &mut r);
        r
    }
    pub fn cyclic(&self) -> bool {
        // Kahn's algorithm
        let mut indeg: BTreeMap<NodeID, usize> = self.nodes().into_iter().map(|n| (n, 0)).collect();
        for (_, b) in self.edges() {
            *indeg.get_mut(&b).unwrap() += 1;
        }
        let mut todo: Vec<NodeID> = indeg.iter().filter(|(_, d)| **d == 0).map(|(n, _)| *n).collect();
        let mut seen = 0;
        while let Some(n) = todo.pop() {
            seen += 1;
            if let Some(o) = self.out.get(&n) {
                for b in o {
                    let d = indeg.get_mut(b).unwrap();
                    *d -= 1;
                    if *d == 0 {
                        todo.push(*b);
                    }
                }
            }
        }
        seen != self.nodes().len()
    }
    fn max_out(&self) -> usize {
        self.out.values().map(|x| x.len()).max().unwrap_or(0)
    }
    fn tree(&self) -> bool {
        !self.cyclic() && self.inn.values().all(|x| x.len() <= 1)
    }
    /// longest path from any root and number of (root, path) visits
    fn depth_and_visits(&self) -> (usize, u64) {
        fn rec(m: &BTreeMap<NodeID, BTreeSet<NodeID>>, n: NodeID, d: usize, max: &mut usize, v: &mut u64) {
            *v += 1;
            *max = (*max).max(d);
            if let Some(o) = m.get(&n) {
                for x in o {
                    rec(m, *x, d + 1, max, v);
                }
            }
        }
        let mut max = 0;
        let mut v = 0;
        for r in self.roots() {
            rec(&self.out, r, 0, &mut max, &mut v);
        }
        (max, v)
    }
}

fn gen_plain(s: &mut Src, size: usize) -> (Plain, Vec<NodeID>) {
    let shape = s.idx(6);
    let n = s.size(2, 4 + size / 9);
    // node ids: dense or scattered, in random order
    let mut ids: Vec<NodeID> = if s.chance(2, 3) {
        (0..n as u64 + 2).collect()
    } else {
        let mut set = BTreeSet::new();
        while set.len() < n + 2 {
            set.insert(s.below(300));
        }
        set.into_iter().collect()
    };
    s.shuffle(&mut ids);
    let outside = ids.split_off(n);
    let mut g = Plain::default();
    match shape {
        0 => {
            // chains
            for i in 1..n {
                if !s.chance(1, 6) {
                    g.add(ids[i - 1], ids[i]);
                }
            }
        }
        1 => {
            // paths: at most one outgoing edge
            for i in 1..n {
                if !s.chance(1, 8) {
                    let t = s.idx(i);
                    g.add(ids[i], ids[t]);
                }
            }
        }
        2 => {
            // rooted forest
            for i in 1..n {
                if !s.chance(1, 8) {
                    let t = s.idx(i);
                    g.add(ids[t], ids[i]);
                }
            }
        }
        3 => {
            // almost a forest
            for i in 1..n {
                if !s.chance(1, 8) {
                    let t = s.idx(i);
                    g.add(ids[t], ids[i]);
                }
            }
            for _ in 0..s.size(1, 2) {
                let a = s.idx(n);
                let b = s.idx(n);
                if a < b {
                    g.add(ids[a], ids[b]);
                }
            }
        }
        4 => {
            // DAG
            let m = s.size(1, (n * 2).min(14));
            for _ in 0..m {
                let a = s.idx(n);
                let b = s.idx(n);
                if a < b {
                    g.add(ids[a], ids[b]);
                }
            }
        }
        _ => {
            let m = s.size(1, (n * 2).min(12));
            for _ in 0..m {
                let a = s.idx(n);
                let b = s.idx(n);
                g.add(ids[a], ids[b]);
            }
        }
    }
    ids.extend(outside);
    (g, ids)
}

fn edge(a: NodeID, b: NodeID) -> Edge {
    Edge { source: a, target: b }
}
fn anno(k: &(String, String), v: &str) -> Annotation {
    Annotation {
        key: AnnoKey { ns: k.0.as_str().into(), name: k.1.as_str().into() },
        val: v.into(),
    }
}

/// Fill a writable storage with the graph, using a detour of additional edges.
fn fill(s: &mut Src, g: &mut Plain, ids: &[NodeID], gs: &mut dyn WriteableGraphStorage) -> R {
    let mut es = g.edges();
    if s.chance(1, 2) {
        s.shuffle(&mut es);
    }
    let detour = s.chance(1, 2);
    if detour {
        for _ in 0..s.size(1, 6) {
            let a = *s.pick(ids);
            let b = *s.pick(ids);
            gs.add_edge(edge(a, b)).must("add_edge")?;
            if s.chance(1, 2) {
                gs.add_edge_annotation(edge(a, b), anno(&("x".into(), "y".into()), "z")).must("add_edge_annotation")?;
            }
        }
        match s.idx(3) {
            0 => gs.clear().must("clear")?,
            1 => {
                for n in ids {
                    gs.delete_node(*n).must("delete_node")?;
                }
            }
            _ => {
                for a in ids {
                    for b in ids {
                        gs.delete_edge(&edge(*a, *b)).must("delete_edge")?;
                    }
                }
            }
        }
    }
    for (a, b) in es {
        gs.add_edge(edge(a, b)).must("add_edge")?;
        if s.chance(1, 3) {
            let k = (s.pick(&["", "ns"]).to_string(), s.pick(&["f", "g"]).to_string());
            let v = s.pick(&["1", "2", ""]).to_string();
            gs.add_edge_annotation(edge(a, b), anno(&k, &v)).must("add_edge_annotation")?;
            g.annos.entry((a, b)).or_default().insert(k, v);
        }
    }
    if detour && s.chance(1, 2) && !g.edges().is_empty() {
        let e = *s.pick(&g.edges());
        gs.delete_edge(&edge(e.0, e.1)).must("delete_edge")?;
        g.del(e.0, e.1);
    }
    gs.calculate_statistics().must("calculate_statistics")
}

fn set(it: Box<dyn Iterator<Item = graphannis_core::errors::Result<NodeID>> + '_>, who: &str) -> R<BTreeSet<NodeID>> {
    let mut r = BTreeSet::new();
    for x in it {
        let x = x.must(who)?;
        if !r.insert(x) {
            return fail("duplicate", format!("{who}: node {x} returned twice"));
        }
    }
    Ok(r)
}

pub fn compare_edges(who: &str, g: &Plain, ids: &[NodeID], gs: &dyn EdgeContainer) -> R {
    let eq = |what: String, exp: BTreeSet<NodeID>, act: BTreeSet<NodeID>| -> R {
        if exp != act {
            return fail(format!("edges:{}", what.split('(').next().unwrap()), format!("{who}: {what} is {act:?}, but should be {exp:?}"));
        }
        Ok(())
    };
    eq("source_nodes()".into(), g.out.keys().copied().collect(), set(gs.source_nodes(), who)?)?;
    eq("root_nodes()".into(), g.roots(), set(gs.root_nodes(), who)?)?;
    for n in ids {
        let o = g.out.get(n).cloned().unwrap_or_default();
        let i = g.inn.get(n).cloned().unwrap_or_default();
        if gs.has_outgoing_edges(*n).must("has_outgoing_edges")? == o.is_empty() {
            return fail("edges:has_outgoing_edges", format!("{who}: has_outgoing_edges({n}) but edges are {o:?}"));
        }
        if gs.has_ingoing_edges(*n).must("has_ingoing_edges")? == i.is_empty() {
            return fail("edges:has_ingoing_edges", format!("{who}: has_ingoing_edges({n}) but edges are {i:?}"));
        }
        eq(format!("get_outgoing_edges({n})"), o, set(gs.get_outgoing_edges(*n), who)?)?;
        eq(format!("get_ingoing_edges({n})"), i, set(gs.get_ingoing_edges(*n), who)?)?;
    }
    Ok(())
}

fn in_range(d: usize, min: usize, max: Bound<usize>) -> bool {
    d >= min
        && match max {
            Bound::Unbounded => true,
            Bound::Included(m) => d <= m,
            Bound::Excluded(m) => d < m,
        }
}

fn gen_range(s: &mut Src) -> (usize, Bound<usize>) {
    let min = s.weighted(&[4, 6, 3, 2, 1]);
    let max = match s.idx(4) {
        0 => Bound::Unbounded,
        1 => Bound::Excluded(min + 1 + s.size(0, 3)),
        2 => Bound::Included(min + s.size(0, 3)),
        _ => Bound::Included(if s.chance(1, 4) { usize::MAX } else { min }),
    };
    (min, max)
}

/// The existing tests state that a node has no distance to itself in the disk
/// path storage, in contrast to all other ones: nothing is checked there.
fn defines_self(who: &str) -> bool {
    !who.starts_with("DiskPath")
}

pub fn compare_storage(
    s: &mut Src,
    who: &str,
    g: &Plain,
    ids: &[NodeID],
    ranges: &[(usize, Bound<usize>)],
    gs: &dyn GraphStorage,
) -> R {
    let _ = s;
    compare_edges(who, g, ids, gs.as_edgecontainer())?;
    for n in ids {
        let fwd = g.simple_paths(*n, false);
        let bwd = g.simple_paths(*n, true);
        for (min, max) in ranges {
            let sel = |m: &BTreeMap<NodeID, BTreeSet<usize>>| -> BTreeSet<NodeID> {
                m.iter().filter(|(_, l)| l.iter().any(|d| in_range(*d, *min, *max))).map(|(n, _)| *n).collect()
            };
            let exp = sel(&fwd);
            let act = set(gs.find_connected(*n, *min, *max), &format!("{who} find_connected({n},{min},{max:?})"))?;
            if exp != act {
                return fail("find_connected", format!("{who}: find_connected({n}, {min}, {max:?}) is {act:?}, but should be {exp:?}"));
            }
            let act = set(gs.find_connected_inverse(*n, *min, *max), &format!("{who} find_connected_inverse({n},{min},{max:?})"))?;
            let iexp = sel(&bwd);
            if iexp != act {
                return fail("find_connected_inverse", format!("{who}: find_connected_inverse({n}, {min}, {max:?}) is {act:?}, but should be {iexp:?}"));
            }
            for t in ids.iter().filter(|t| *t != n || defines_self(who)) {
                let c = gs.is_connected(*n, *t, *min, *max).must("is_connected")?;
                if c != exp.contains(t) {
                    return fail("is_connected", format!("{who}: is_connected({n}, {t}, {min}, {max:?}) is {c}, but should be {}", exp.contains(t)));
                }
            }
        }
        for t in ids.iter().filter(|t| *t != n || defines_self(who)) {
            let d = gs.distance(*n, *t).must("distance")?;
            let e = fwd.get(t).and_then(|l| l.iter().next().copied());
            if d != e {
                return fail("distance", format!("{who}: distance({n}, {t}) is {d:?}, but should be {e:?}"));
            }
        }
    }
    // annotations
    let an = gs.get_anno_storage();
    let total: usize = g.annos.values().map(|a| a.len()).sum();
    if an.number_of_annotations().must("number of annotations")? != total {
        return fail("annos", format!("{who}: {:?} edge annotations, expected {total}", an.number_of_annotations()));
    }
    for (a, b) in g.edges() {
        let mut act = BTreeMap::new();
        for x in an.get_annotations_for_item(&edge(a, b)).must("annotations")? {
            act.insert((x.key.ns.to_string(), x.key.name.to_string()), x.val.to_string());
        }
        let exp = g.annos.get(&(a, b)).cloned().unwrap_or_default();
        if act != exp {
            return fail("annos", format!("{who}: annotations of {a}->{b} are {act:?}, but should be {exp:?}"));
        }
    }
    Ok(())
}

fn node_annos(ids: &[NodeID]) -> R<impl NodeAnnotationStorage> {
    let mut na = graphannis_core::annostorage::inmemory::AnnoStorageImpl::<NodeID>::new();
    for n in ids {
        na.insert(*n, anno(&("annis".into(), "node_type".into()), "node")).must("insert")?;
        na.insert(*n, anno(&("annis".into(), "node_name".into()), &format!("n{n}"))).must("insert")?;
    }
    Ok(na)
}

/// copy `orig` to a storage of the type, compare, save, load and compare again
#[allow(clippy::too_many_arguments)]
fn check_impl<G: GraphStorage>(
    s: &mut Src,
    mut gs: G,
    who: &str,
    g: &Plain,
    ids: &[NodeID],
    ranges: &[(usize, Bound<usize>)],
    na: &dyn NodeAnnotationStorage,
    orig: &dyn GraphStorage,
    prior: Option<&dyn GraphStorage>,
    dir: &Path,
) -> R<()> {
    if let Some(prior) = prior {
        // the content is replaced by copying
        gs.copy(na, prior).must("copy")?;
    }
    gs.copy(na, orig).must("copy")?;
    compare_storage(s, who, g, ids, ranges, &gs)?;
    let d = dir.join(who);
    std::fs::create_dir_all(&d).must("mkdir")?;
    gs.save_to(&d).must("save_to")?;
    let l = G::load_from(&d).must("load_from")?;
    compare_storage(s, &format!("{who} (loaded)"), g, ids, ranges, &l)?;
    stats_equal(who, gs.get_statistics(), l.get_statistics())?;
    // a loaded storage can be saved to another place
    let d2 = dir.join(format!("{who}-2"));
    std::fs::create_dir_all(&d2).must("mkdir")?;
    l.save_to(&d2).must("save_to")?;
    drop(l);
    std::fs::remove_dir_all(&d).must("rm")?;
    let l2 = G::load_from(&d2).must("load_from")?;
    compare_storage(s, &format!("{who} (saved from loaded)"), g, ids, ranges, &l2)?;
    // and converted back
    let mut back = AdjacencyListStorage::new();
    back.copy(na, &l2).must("copy")?;
    compare_storage(s, &format!("{who} (copied back)"), g, ids, &ranges[..1], &back)?;
    drop(l2);
    std::fs::remove_dir_all(&d2).must("rm")?;
    Ok(())
}

fn stats_equal(who: &str, a: Option<&GraphStatistic>, b: Option<&GraphStatistic>) -> R {
    let f = |x: Option<&GraphStatistic>| x.map(|x| format!("{x} {}", x.dfs_visit_ratio));
    if f(a) != f(b) {
        return fail("stats-load", format!("{who}: statistics {:?} became {:?} by saving", f(a), f(b)));
    }
    Ok(())
}

fn reachability(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut g, ids) = gen_plain(s, ctx.size);
    let mut adj = AdjacencyListStorage::new();
    fill(s, &mut g, &ids, &mut adj)?;
    let mut ranges = vec![];
    for _ in 0..3 {
        ranges.push(gen_range(s));
    }
    ctx.note(format!("edges {:?}", g.edges()));
    ctx.note(format!("nodes {ids:?} ranges {ranges:?}"));
    compare_storage(s, "AdjacencyList", &g, &ids, &ranges, &adj)?;
    let dir = ctx.dir();
    let na = node_annos(&ids)?;
    // other content to be replaced by the copy
    let prior = if s.chance(1, 3) {
        let mut p = AdjacencyListStorage::new();
        p.add_edge(edge(ids[0], ids[1])).must("add_edge")?;
        p.add_edge_annotation(edge(ids[0], ids[1]), anno(&("p".into(), "q".into()), "r")).must("anno")?;
        p.calculate_statistics().must("stats")?;
        Some(p)
    } else {
        None
    };
    let prior = prior.as_ref().map(|p| p as &dyn GraphStorage);
    let cyclic = g.cyclic();
    let tree = g.tree();
    let fan = g.max_out();
    let depth = if cyclic { usize::MAX } else { g.depth_and_visits().0 };
    let mut which: Vec<usize> = vec![0, 1];
    if fan <= 1 {
        which.push(2);
        if !cyclic && fan == 1 && depth <= 15 {
            which.push(3);
        }
    }
    if tree && fan <= 1 {
        which.extend([4, 5, 6, 7]);
    }
    if !cyclic {
        which.extend([8, 9, 10, 11, 12, 13, 14]);
    }
    // check some of the possible ones
    let mut n = 0;
    let k = if ctx.thorough { which.len() } else { 4 };
    for _ in 0..k {
        if which.is_empty() {
            break;
        }
        let i = if ctx.thorough { 0 } else { s.idx(which.len()) };
        let w = which.remove(i);
        n += 1;
        macro_rules! c {
            ($gs:expr, $name:expr) => {{
                ctx.label($name);
                check_impl(s, $gs, $name, &g, &ids, &ranges, &na, &adj, prior, &dir)?
            }};
        }
        match w {
            0 => c!(AdjacencyListStorage::new(), "AdjacencyList"),
            1 => c!(DiskAdjacencyListStorage::new().must("new")?, "DiskAdjacencyList"),
            2 => c!(DenseAdjacencyListStorage::new(), "DenseAdjacencyList"),
            3 => c!(DiskPathStorage::new().must("new")?, "DiskPath"),
            4 => c!(LinearGraphStorage::<u8>::new(), "Linear8"),
            5 => c!(LinearGraphStorage::<u16>::new(), "Linear16"),
            6 => c!(LinearGraphStorage::<u32>::new(), "Linear32"),
            7 => c!(LinearGraphStorage::<u64>::new(), "Linear64"),
            8 => c!(PrePostOrderStorage::<u64, u64>::new(), "PrePost64-64"),
            9 => c!(PrePostOrderStorage::<u64, u32>::new(), "PrePost64-32"),
            10 => c!(PrePostOrderStorage::<u64, u8>::new(), "PrePost64-8"),
            11 => c!(PrePostOrderStorage::<u32, u32>::new(), "PrePost32-32"),
            12 => c!(PrePostOrderStorage::<u32, u8>::new(), "PrePost32-8"),
            13 => c!(PrePostOrderStorage::<u16, u32>::new(), "PrePost16-32"),
            _ => c!(PrePostOrderStorage::<u16, u8>::new(), "PrePost16-8"),
        }
    }
    ctx.label_if(cyclic, "cyclic");
    ctx.label_if(tree, "tree");
    ctx.label_if(!cyclic && !tree, "DAG");
    ctx.nontrivial_if(g.edges().len() >= 4 && n >= 2);
    Ok(())
}

/// The implementation chosen by optimizing a graph.
fn selected(s: &mut Src, ctx: &mut Ctx) -> R {
    use graphannis_core::graph::Graph;
    use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
    use graphannis_core::types::{Component, DefaultComponentType};
    let disk = s.chance(1, 2);
    let ncomp = s.size(1, 2);
    let mut gs: Vec<(Plain, Component<DefaultComponentType>)> = vec![];
    let mut all: BTreeSet<NodeID> = BTreeSet::new();
    let mut u = GraphUpdate::new();
    for i in 0..ncomp {
        let (mut p, ids) = gen_plain(s, ctx.size);
        if s.chance(1, 3) {
            // an additional, not connected part with a shape of its own
            let (p2, ids2) = gen_plain(s, ctx.size / 2);
            let off = ids.iter().max().unwrap() + 1;
            for (a, b) in p2.edges() {
                p.add(a + off, b + off);
            }
            all.extend(ids2.iter().map(|x| x + off));
        }
        all.extend(ids);
        gs.push((p, Component::new(DefaultComponentType::Edge, "l".into(), format!("c{i}").into())));
    }
    let name = |n: &NodeID| format!("n{n}");
    for n in &all {
        u.add_event(UpdateEvent::AddNode { node_name: name(n), node_type: "node".into() }).must("event")?;
    }
    for (p, c) in gs.iter_mut() {
        ctx.note(format!("{} {:?}", c.name, p.edges()));
        for (a, b) in p.edges() {
            u.add_event(UpdateEvent::AddEdge {
                source_node: name(&a),
                target_node: name(&b),
                layer: "l".into(),
                component_type: "Edge".into(),
                component_name: c.name.to_string(),
            })
            .must("event")?;
            if s.chance(1, 4) {
                p.annos.entry((a, b)).or_default().insert(("".into(), "f".into()), "v".into());
                u.add_event(UpdateEvent::AddEdgeLabel {
                    source_node: name(&a),
                    target_node: name(&b),
                    layer: "l".into(),
                    component_type: "Edge".into(),
                    component_name: c.name.to_string(),
                    anno_ns: "".into(),
                    anno_name: "f".into(),
                    anno_value: "v".into(),
                })
                .must("event")?;
            }
        }
    }
    let mut graph: Graph<DefaultComponentType> = Graph::with_default_graphstorages(s.chance(1, 2)).must("new")?;
    graph.apply_update(&mut u, |_| {}).must("apply_update")?;
    graph.optimize_impl(disk).must("optimize")?;
    let mut ranges = vec![];
    for _ in 0..3 {
        ranges.push(gen_range(s));
    }
    ctx.note(format!("disk={disk} ranges {ranges:?}"));
    let mut n = 0;
    for (p, c) in &gs {
        let mut q = Plain::default();
        let mut ids = vec![];
        let mut map = BTreeMap::new();
        for x in &all {
            let id = graph.get_node_annos().get_node_id_from_name(&name(x)).must("id")?;
            let Some(id) = id else { return fail("node", format!("node n{x} is missing")) };
            map.insert(*x, id);
            ids.push(id);
        }
        for (a, b) in p.edges() {
            q.add(map[&a], map[&b]);
        }
        for ((a, b), v) in &p.annos {
            q.annos.insert((map[a], map[b]), v.clone());
        }
        n += p.edges().len();
        match graph.get_graphstorage(c) {
            Some(gs) => {
                ctx.label(&gs.serialization_id());
                compare_storage(s, &gs.serialization_id(), &q, &ids, &ranges, gs.as_ref())?
            }
            None => {
                if !p.edges().is_empty() {
                    return fail("component", format!("component {c} is missing"));
                }
            }
        }
    }
    ctx.nontrivial_if(n >= 4);
    Ok(())
}

/// Deep components around the capacity limits of the compact encodings.
fn deep(s: &mut Src, ctx: &mut Ctx) -> R {
    use graphannis_core::graph::Graph;
    use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
    use graphannis_core::types::{Component, DefaultComponentType};
    let disk = s.chance(1, 4);
    let mut depths = vec![14usize, 15, 16, 17, 253, 254, 255, 256, 257, 300];
    if ctx.thorough {
        depths.extend([32765, 32767, 32768, 65534, 65535, 65536, 65537]);
    }
    let depth = *s.pick(&depths);
    let twig = s.chance(1, 2);
    let two = s.chance(1, 3);
    let mut u = GraphUpdate::new();
    let name = |n: usize| format!("n{n}");
    let add = |u: &mut GraphUpdate, a: usize, b: usize| {
        u.add_event(UpdateEvent::AddEdge {
            source_node: name(a),
            target_node: name(b),
            layer: "l".into(),
            component_type: "Edge".into(),
            component_name: "c".into(),
        })
    };
    for i in 0..depth + 3 {
        u.add_event(UpdateEvent::AddNode { node_name: name(i), node_type: "node".into() }).must("event")?;
    }
    // edges i -> i+1 for i < depth
    for i in 0..depth {
        add(&mut u, i, i + 1).must("event")?;
    }
    if twig {
        add(&mut u, depth - 1, depth + 1).must("event")?;
    }
    if two {
        add(&mut u, depth + 2, if twig { depth } else { depth - 1 }).must("event")?;
    }
    ctx.note(format!("depth {depth} twig {twig} two roots {two} disk {disk}"));
    let mut g: Graph<DefaultComponentType> = Graph::with_default_graphstorages(disk).must("new")?;
    g.apply_update(&mut u, |_| {}).must("apply_update")?;
    g.optimize_impl(disk).must("optimize")?;
    let c = Component::new(DefaultComponentType::Edge, "l".into(), "c".into());
    let Some(gs) = g.get_graphstorage(&c) else { return fail("component", "missing") };
    let who = gs.serialization_id();
    ctx.label(&who);
    let id: Vec<NodeID> = (0..depth + 3)
        .map(|i| g.get_node_annos().get_node_id_from_name(&name(i)).ok().flatten().unwrap_or(NodeID::MAX))
        .collect();
    for _ in 0..12 {
        let a = match s.idx(3) {
            0 => s.size(0, 3),
            1 => depth - s.size(0, 3),
            _ => s.size(0, depth),
        };
        let b = match s.idx(3) {
            0 => depth - s.size(0, 3),
            1 => s.size(0, 3),
            _ => s.size(0, depth),
        };
        if a == b && !defines_self(&who) {
            continue;
        }
        let exp = if a <= b { Some(b - a) } else { None };
        let act = gs.distance(id[a], id[b]).must("distance")?;
        if act != exp {
            return fail("distance", format!("{who}: distance of node {a} and {b} in the chain is {act:?}, expected {exp:?}"));
        }
        let d = exp.unwrap_or(3);
        for (min, max) in [(1, Bound::Unbounded), (d.max(1), Bound::Included(d)), (d + 1, Bound::Included(d + 2)), (1, Bound::Excluded(d.max(1)))] {
            let c = gs.is_connected(id[a], id[b], min, max).must("is_connected")?;
            let e = exp.map(|d| in_range(d, min, max)).unwrap_or(false);
            if c != e {
                return fail("is_connected", format!("{who}: is_connected({a}, {b}, {min}, {max:?}) is {c}, expected {e}"));
            }
        }
        // counts
        let extra = usize::from(twig) * usize::from(a < depth);
        let cnt = set(gs.find_connected(id[a], 1, Bound::Unbounded), &who)?.len();
        if cnt != depth - a + extra {
            return fail("find_connected", format!("{who}: node {a} of the chain reaches {cnt} nodes, expected {}", depth - a + extra));
        }
        let up = set(gs.find_connected_inverse(id[a], 1, Bound::Unbounded), &who)?.len();
        let top = if twig { depth } else { depth - 1 };
        let e = a + usize::from(two && a >= top);
        if up != e {
            return fail("find_connected_inverse", format!("{who}: node {a} of the chain is reached by {up} nodes, expected {e}"));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn union(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.size(1, 3);
    let mut gss = vec![];
    let mut all = Plain::default();
    let mut ids: BTreeSet<NodeID> = BTreeSet::new();
    for _ in 0..k {
        let (mut g, i) = gen_plain(s, ctx.size / 2);
        let mut adj = AdjacencyListStorage::new();
        fill(s, &mut g, &i, &mut adj)?;
        ctx.note(format!("{:?}", g.edges()));
        for (a, b) in g.edges() {
            all.add(a, b);
        }
        ids.extend(i);
        gss.push(adj);
    }
    let u = UnionEdgeContainer::new(gss.iter().map(|x| x.as_edgecontainer()).collect());
    ctx.nontrivial_if(k > 1 && all.edges().len() > 3);
    compare_edges("union", &all, &ids.into_iter().collect::<Vec<_>>(), &u)
}

fn statistics(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut g, mut ids) = gen_plain(s, ctx.size);
    if s.chance(1, 2) {
        let (p2, i2) = gen_plain(s, ctx.size / 2);
        let off = ids.iter().max().unwrap() + 1;
        for (a, b) in p2.edges() {
            g.add(a + off, b + off);
        }
        ids.extend(i2.iter().map(|x| x + off));
    }
    if s.chance(1, 12) {
        // many source nodes
        let off = ids.iter().max().unwrap() + 1;
        let n = s.size(90, 260) as u64;
        let step = s.size(1, 3) as u64;
        let big = s.size(0, 3) as u64;
        for i in 0..n {
            let k = if i < big { 5 } else { 1 + (i % step) };
            for j in 0..k {
                g.add(off + i, off + n + ((i * 3 + j) % (n + 7)));
            }
        }
    }
    ctx.note(format!("{:?}", g.edges()));
    let disk = s.chance(1, 6);
    let mut a;
    let mut d;
    let gs: &mut dyn WriteableGraphStorage = if disk {
        d = DiskAdjacencyListStorage::new().must("new")?;
        &mut d
    } else {
        a = AdjacencyListStorage::new();
        &mut a
    };
    fill(s, &mut g, &ids, gs)?;
    let Some(st) = gs.get_statistics().cloned() else { return fail("none", "no statistics after calculating them") };
    let who = if disk { "DiskAdjacencyList" } else { "AdjacencyList" };
    let es = g.edges();
    let c = g.cyclic();
    let check = |what: &str, a: String, e: String| -> R {
        if a != e { fail(what, format!("{who}: {what} is {a}, but should be {e}")) } else { Ok(()) }
    };
    check("cyclic", st.cyclic.to_string(), c.to_string())?;
    check("rooted_tree", st.rooted_tree.to_string(), g.tree().to_string())?;
    check("nodes", st.nodes.to_string(), g.nodes().len().to_string())?;
    check("root_nodes", st.root_nodes.to_string(), g.roots().len().to_string())?;
    check("max_fan_out", st.max_fan_out.to_string(), g.max_out().to_string())?;
    if es.is_empty() {
        check("avg_fan_out", st.avg_fan_out.to_string(), "0".into())?;
    } else {
        check("avg_fan_out", st.avg_fan_out.to_string(), (es.len() as f64 / g.nodes().len() as f64).to_string())?;
    }
    let pct = |m: &BTreeMap<NodeID, BTreeSet<NodeID>>, v: usize| -> bool {
        // at least 99% have at most this fan-out, and it is a value that occurs
        let n = m.len();
        let le = m.values().filter(|x| x.len() <= v).count();
        n == 0 || (le * 100 >= n * 99 && m.values().any(|x| x.len() == v))
    };
    if !pct(&g.out, st.fan_out_99_percentile) {
        return fail("fan_out_99", format!("{who}: fan_out_99_percentile {} is exceeded by more than 1% of {} nodes", st.fan_out_99_percentile, g.out.len()));
    }
    if !pct(&g.inn, st.inverse_fan_out_99_percentile) {
        return fail("inverse_fan_out_99", format!("{who}: inverse_fan_out_99_percentile {} is exceeded by more than 1% of {} nodes", st.inverse_fan_out_99_percentile, g.inn.len()));
    }
    if !c && !es.is_empty() {
        let (depth, visits) = g.depth_and_visits();
        check("max_depth", st.max_depth.to_string(), depth.to_string())?;
        check("dfs_visit_ratio", st.dfs_visit_ratio.to_string(), (visits as f64 / g.nodes().len() as f64).to_string())?;
    }
    ctx.label_if(c, "cyclic");
    ctx.label_if(disk, "disk");
    ctx.nontrivial_if(es.len() >= 4);
    Ok(())
}
