//! Reference model of an annotation graph and helpers shared by the checks.

use crate::engine::*;
use graphannis::AnnotationGraph;
use graphannis::model::AnnotationComponentType as CTy;
use graphannis::update::{GraphUpdate, UpdateEvent};
use graphannis_core::annostorage::ValueSearch;
use graphannis_core::graph::Graph;
use graphannis_core::types::{ComponentType, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};

pub type Key = (String, String); // (namespace, name)
pub type Annos = BTreeMap<Key, String>;
/// (type, layer, name)
pub type Comp = (String, String, String);

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MGraph {
    pub nodes: BTreeMap<String, Annos>,
    pub edges: BTreeMap<Comp, BTreeMap<(String, String), Annos>>,
}

pub fn k(ns: &str, name: &str) -> Key {
    (ns.to_string(), name.to_string())
}
pub fn comp(t: &str, layer: &str, name: &str) -> Comp {
    (t.into(), layer.into(), name.into())
}

pub const CTYPES: [&str; 7] =
    ["Coverage", "Dominance", "Pointing", "Ordering", "LeftToken", "RightToken", "PartOf"];

impl MGraph {
    pub fn apply(&mut self, e: &UpdateEvent, types: &dyn Fn(&str) -> bool) {
        match e {
            UpdateEvent::AddNode { node_name, node_type } => {
                if !self.nodes.contains_key(node_name) {
                    let mut a = Annos::new();
                    a.insert(k("annis", "node_name"), node_name.clone());
                    a.insert(k("annis", "node_type"), node_type.clone());
                    self.nodes.insert(node_name.clone(), a);
                }
            }
            UpdateEvent::DeleteNode { node_name } => {
                self.nodes.remove(node_name);
                for es in self.edges.values_mut() {
                    es.retain(|(s, t), _| s != node_name && t != node_name);
                }
            }
            UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
                if let Some(a) = self.nodes.get_mut(node_name) {
                    a.insert(k(anno_ns, anno_name), anno_value.clone());
                }
            }
            UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {
                if let Some(a) = self.nodes.get_mut(node_name) {
                    a.remove(&k(anno_ns, anno_name));
                }
            }
            UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
                if types(component_type)
                    && self.nodes.contains_key(source_node)
                    && self.nodes.contains_key(target_node)
                    && source_node != target_node
                {
                    self.edges
                        .entry(comp(component_type, layer, component_name))
                        .or_default()
                        .entry((source_node.clone(), target_node.clone()))
                        .or_default();
                }
            }
            UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
                if let Some(es) = self.edges.get_mut(&comp(component_type, layer, component_name)) {
                    es.remove(&(source_node.clone(), target_node.clone()));
                }
            }
            UpdateEvent::AddEdgeLabel {
                source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value,
            } => {
                if let Some(a) = self
                    .edges
                    .get_mut(&comp(component_type, layer, component_name))
                    .and_then(|es| es.get_mut(&(source_node.clone(), target_node.clone())))
                {
                    a.insert(k(anno_ns, anno_name), anno_value.clone());
                }
            }
            UpdateEvent::DeleteEdgeLabel {
                source_node, target_node, layer, component_type, component_name, anno_ns, anno_name,
            } => {
                if let Some(a) = self
                    .edges
                    .get_mut(&comp(component_type, layer, component_name))
                    .and_then(|es| es.get_mut(&(source_node.clone(), target_node.clone())))
                {
                    a.remove(&k(anno_ns, anno_name));
                }
            }
        }
    }

    pub fn apply_all(&mut self, es: &[UpdateEvent]) {
        for e in es {
            self.apply(e, &|t| CTYPES.contains(&t));
        }
    }

    /// Drop components without edges (a component exists to hold edges).
    pub fn normalized(&self) -> MGraph {
        let mut r = self.clone();
        r.edges.retain(|_, e| !e.is_empty());
        r
    }

    /// Without the helper edges which are maintained automatically.
    pub fn without_index(&self) -> MGraph {
        let mut r = self.normalized();
        r.edges.retain(|c, _| !is_index_component(c));
        r
    }

    pub fn edge_count(&self) -> usize {
        self.edges.values().map(|e| e.len()).sum()
    }

    /// The events that construct this graph from scratch.
    pub fn to_events(&self) -> Vec<UpdateEvent> {
        let mut r = vec![];
        for (n, a) in &self.nodes {
            r.push(UpdateEvent::AddNode {
                node_name: n.clone(),
                node_type: a.get(&k("annis", "node_type")).cloned().unwrap_or_default(),
            });
            for ((ns, name), v) in a {
                if ns == "annis" && (name == "node_name" || name == "node_type") {
                    continue;
                }
                r.push(UpdateEvent::AddNodeLabel {
                    node_name: n.clone(),
                    anno_ns: ns.clone(),
                    anno_name: name.clone(),
                    anno_value: v.clone(),
                });
            }
        }
        for ((t, l, cn), es) in &self.edges {
            for ((s, tg), a) in es {
                r.push(UpdateEvent::AddEdge {
                    source_node: s.clone(),
                    target_node: tg.clone(),
                    layer: l.clone(),
                    component_type: t.clone(),
                    component_name: cn.clone(),
                });
                for ((ns, name), v) in a {
                    r.push(UpdateEvent::AddEdgeLabel {
                        source_node: s.clone(),
                        target_node: tg.clone(),
                        layer: l.clone(),
                        component_type: t.clone(),
                        component_name: cn.clone(),
                        anno_ns: ns.clone(),
                        anno_name: name.clone(),
                        anno_value: v.clone(),
                    });
                }
            }
        }
        r
    }
}

pub fn is_index_component(c: &Comp) -> bool {
    c.0 == "LeftToken"
        || c.0 == "RightToken"
        || (c.0 == "Coverage" && c.1 == "annis" && c.2 == "inherited-coverage")
}

/// First difference between two graphs, as text.
pub fn diff(expected: &MGraph, actual: &MGraph) -> Option<String> {
    for (n, a) in &expected.nodes {
        match actual.nodes.get(n) {
            None => return Some(format!("node {n:?} is missing (expected labels {a:?})")),
            Some(b) if a != b => {
                return Some(format!("node {n:?}: expected labels {a:?}, got {b:?}"));
            }
            _ => {}
        }
    }
    for n in actual.nodes.keys() {
        if !expected.nodes.contains_key(n) {
            return Some(format!("unexpected node {n:?}"));
        }
    }
    for (c, es) in &expected.edges {
        let empty = BTreeMap::new();
        let bs = actual.edges.get(c).unwrap_or(&empty);
        for (e, a) in es {
            match bs.get(e) {
                None => return Some(format!("component {c:?}: edge {e:?} is missing")),
                Some(b) if a != b => {
                    return Some(format!("component {c:?} edge {e:?}: expected labels {a:?}, got {b:?}"));
                }
                _ => {}
            }
        }
        for e in bs.keys() {
            if !es.contains_key(e) {
                return Some(format!("component {c:?}: unexpected edge {e:?}"));
            }
        }
    }
    for (c, es) in &actual.edges {
        if !expected.edges.contains_key(c)
            && let Some(e) = es.keys().next()
        {
            return Some(format!("component {c:?}: unexpected edge {e:?}"));
        }
    }
    None
}

pub fn same(sig: &str, what: &str, expected: &MGraph, actual: &MGraph) -> R {
    match diff(expected, actual) {
        None => Ok(()),
        Some(d) => fail(sig, format!("{what}: {d}")),
    }
}

/// Read the complete content of a graph through its public accessors, also
/// checking that the redundant views agree with each other.
pub fn dump<CT: ComponentType>(g: &Graph<CT>) -> R<MGraph> {
    let mut r = MGraph::default();
    let mut names: BTreeMap<NodeID, String> = BTreeMap::new();
    let na = g.get_node_annos();
    for m in na.exact_anno_search(Some("annis"), "node_name", ValueSearch::Any) {
        let m = m.must("node search")?;
        let name = na
            .get_value_for_item(&m.node, &m.anno_key)
            .must("get value")?
            .map(|v| v.to_string());
        let Some(name) = name else {
            return fail("dump:name", format!("node {} found by node_name search has no name", m.node));
        };
        if names.insert(m.node, name.clone()).is_some() {
            return fail("dump:dup", format!("node {} reported twice", m.node));
        }
        let mut annos = Annos::new();
        for a in na.get_annotations_for_item(&m.node).must("get annotations")? {
            if annos.insert((a.key.ns.clone(), a.key.name.clone()), a.val.clone()).is_some() {
                return fail("dump:dupanno", format!("label {:?} of {name:?} reported twice", a.key));
            }
        }
        if r.nodes.insert(name.clone(), annos).is_some() {
            return fail("dump:dupname", format!("two nodes with the name {name:?}"));
        }
        match na.get_node_id_from_name(&name).must("id from name")? {
            Some(id) if id == m.node => {}
            o => return fail("dump:id", format!("name {name:?} maps to {o:?} instead of {}", m.node)),
        }
    }
    let nm = |n: NodeID, c: &str| -> R<String> {
        match names.get(&n) {
            Some(s) => Ok(s.clone()),
            None => fail("dump:dangling", format!("component {c}: edge to/from the non-existing node id {n}")),
        }
    };
    for c in g.get_all_components(None, None) {
        let cs = format!("{c}");
        let Some(gs) = g.get_graphstorage(&c) else {
            return fail("dump:notloaded", format!("component {cs} is not loaded"));
        };
        let key = (c.get_type().to_string(), c.layer.to_string(), c.name.to_string());
        let mut es: BTreeMap<(String, String), Annos> = BTreeMap::new();
        let mut ids: BTreeSet<(NodeID, NodeID)> = BTreeSet::new();
        let mut sources = BTreeSet::new();
        for s in gs.source_nodes() {
            let s = s.must("source node")?;
            if !sources.insert(s) {
                return fail("dump:dupsource", format!("component {cs}: source {s} reported twice"));
            }
            let mut any = false;
            for t in gs.get_outgoing_edges(s) {
                let t = t.must("outgoing")?;
                any = true;
                if !ids.insert((s, t)) {
                    return fail("dump:dupedge", format!("component {cs}: edge {s}->{t} reported twice"));
                }
                let mut annos = Annos::new();
                for a in gs
                    .get_anno_storage()
                    .get_annotations_for_item(&Edge { source: s, target: t })
                    .must("edge annotations")?
                {
                    annos.insert((a.key.ns.clone(), a.key.name.clone()), a.val.clone());
                }
                es.insert((nm(s, &cs)?, nm(t, &cs)?), annos);
            }
            if !any {
                return fail("dump:emptysource", format!("component {cs}: source node {s} has no outgoing edge"));
            }
        }
        // ingoing and outgoing edges have to be inverse to each other
        let mut inv: BTreeSet<(NodeID, NodeID)> = BTreeSet::new();
        for t in names.keys() {
            for s in gs.get_ingoing_edges(*t) {
                let s = s.must("ingoing")?;
                if !inv.insert((s, *t)) {
                    return fail("dump:dupin", format!("component {cs}: ingoing edge {s}->{t} reported twice"));
                }
            }
            if !sources.contains(t)
                && let Some(x) = gs.get_outgoing_edges(*t).next()
            {
                return fail("dump:source", format!("component {cs}: {t} -> {x:?} exists, but is not in the source nodes"));
            }
        }
        if inv != ids {
            return fail(
                "dump:inverse",
                format!(
                    "component {cs}: outgoing and ingoing edges differ: {:?}",
                    ids.symmetric_difference(&inv).take(3).collect::<Vec<_>>()
                ),
            );
        }
        // number of edge labels visible by search = number of labels of existing edges
        let total: usize = es.values().map(|a| a.len()).sum();
        let n = gs.get_anno_storage().number_of_annotations().must("number of edge labels")?;
        if n != total {
            return fail("dump:edgelabels", format!("component {cs}: {n} edge labels stored, but existing edges have {total}"));
        }
        if !es.is_empty() {
            r.edges.insert(key, es);
        }
    }
    Ok(r)
}

pub fn to_update(es: &[UpdateEvent]) -> R<GraphUpdate> {
    let mut u = GraphUpdate::new();
    for e in es {
        u.add_event(e.clone()).must("add_event")?;
    }
    Ok(u)
}

pub fn build_graph(es: &[UpdateEvent], disk_based: bool) -> R<AnnotationGraph> {
    let mut g = AnnotationGraph::with_default_graphstorages(disk_based).must("new graph")?;
    let mut u = to_update(es)?;
    g.apply_update(&mut u, |_| {}).must("apply_update")?;
    Ok(g)
}

pub fn ctype(s: &str) -> CTy {
    s.parse().expect("component type")
}

// ---------------------------------------------------------------- generators

/// Strings as they can be expected in corpora, including troublesome ones.
pub const NASTY: [&str; 34] = [
    "a", "b", "c", "A", "ab", "abc", "", " ", "a b", "ä", "日本語", "é", "\u{1F600}", "a\"b", "'", "<x>&amp;", "&", "]]>",
    "a/b", "..", "%20", "%", "a\nb", "\t", "\\", "a;b", "#", ":", "::", ".*", "^a$", "0", "\u{FFFD}", "a\u{301}",
];

pub fn nasty(s: &mut Src) -> String {
    match s.weighted(&[20, 3, 1]) {
        0 => s.pick(&NASTY).to_string(),
        1 => {
            let a = s.pick(&NASTY).to_string();
            let b = s.pick(&NASTY).to_string();
            a + &b
        }
        _ => {
            let n = s.size(1, 400);
            let c = *s.pick(&['x', 'ö', '本']);
            (0..n).map(|_| c).collect()
        }
    }
}

pub struct NameSpace {
    pub node_names: Vec<String>,
    pub comps: Vec<Comp>,
    pub ns: Vec<&'static str>,
    pub names: Vec<&'static str>,
}

/// A random update event over a limited set of names, so that events interact.
pub fn gen_event(s: &mut Src, sp: &NameSpace) -> UpdateEvent {
    let kind = s.weighted(&[14, 22, 16, 8, 5, 4, 4, 3]);
    let node = |s: &mut Src| s.pick(&sp.node_names).clone();
    let val = |s: &mut Src| nasty(s);
    match kind {
        0 => UpdateEvent::AddNode {
            node_name: node(s),
            node_type: s.pick(&["node", "corpus", "datasource", ""]).to_string(),
        },
        1 => {
            let c = s.pick(&sp.comps).clone();
            UpdateEvent::AddEdge {
                source_node: node(s),
                target_node: node(s),
                layer: c.1,
                component_type: c.0,
                component_name: c.2,
            }
        }
        2 => UpdateEvent::AddNodeLabel {
            node_name: node(s),
            anno_ns: s.pick(&sp.ns).to_string(),
            anno_name: s.pick(&sp.names).to_string(),
            anno_value: val(s),
        },
        3 => {
            let c = s.pick(&sp.comps).clone();
            UpdateEvent::AddEdgeLabel {
                source_node: node(s),
                target_node: node(s),
                layer: c.1,
                component_type: c.0,
                component_name: c.2,
                anno_ns: s.pick(&sp.ns).to_string(),
                anno_name: s.pick(&sp.names).to_string(),
                anno_value: val(s),
            }
        }
        4 => UpdateEvent::DeleteNode { node_name: node(s) },
        5 => UpdateEvent::DeleteNodeLabel {
            node_name: node(s),
            anno_ns: s.pick(&sp.ns).to_string(),
            anno_name: s.pick(&sp.names).to_string(),
        },
        6 => {
            let c = s.pick(&sp.comps).clone();
            UpdateEvent::DeleteEdge {
                source_node: node(s),
                target_node: node(s),
                layer: c.1,
                component_type: c.0,
                component_name: c.2,
            }
        }
        _ => {
            let c = s.pick(&sp.comps).clone();
            UpdateEvent::DeleteEdgeLabel {
                source_node: node(s),
                target_node: node(s),
                layer: c.1,
                component_type: c.0,
                component_name: c.2,
                anno_ns: s.pick(&sp.ns).to_string(),
                anno_name: s.pick(&sp.names).to_string(),
            }
        }
    }
}

pub fn namespace(s: &mut Src, nodes: usize) -> NameSpace {
    let nice = s.chance(3, 4);
    let mut node_names = vec![];
    for i in 0..nodes {
        if nice || i < nodes / 2 {
            node_names.push(format!("n{i}"));
        } else {
            // names with unusual characters
            let x = nasty(s);
            node_names.push(format!("{x}{i}"));
        }
    }
    let layers = ["", "l1", "annis", "ä ö", "default_ns"];
    let cnames = ["", "dep", "edge", "x y", "ß"];
    // Coverage/Dominance/Ordering trigger index maintenance; keep them acyclic elsewhere
    let types = ["Pointing", "Dominance", "Coverage", "PartOf", "Ordering"];
    let n = s.size(1, 4);
    let mut comps = vec![];
    for _ in 0..n {
        comps.push((s.pick(&types).to_string(), s.pick(&layers).to_string(), s.pick(&cnames).to_string()));
    }
    if s.chance(1, 12) {
        comps.push(("NoSuchType".into(), "".into(), "x".into()));
    }
    NameSpace { node_names, comps, ns: vec!["", "ns", "annis", "ä"], names: vec!["pos", "lemma", "tok", "x y"] }
}

pub fn show_event(e: &UpdateEvent) -> String {
    match e {
        UpdateEvent::AddNode { node_name, node_type } => format!("+node {node_name:?} ({node_type:?})"),
        UpdateEvent::DeleteNode { node_name } => format!("-node {node_name:?}"),
        UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
            format!("+label {node_name:?} {anno_ns:?}:{anno_name:?}={:?}", short(anno_value))
        }
        UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {
            format!("-label {node_name:?} {anno_ns:?}:{anno_name:?}")
        }
        UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
            format!("+edge {component_type}/{layer}/{component_name} {source_node:?}->{target_node:?}")
        }
        UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
            format!("-edge {component_type}/{layer}/{component_name} {source_node:?}->{target_node:?}")
        }
        UpdateEvent::AddEdgeLabel {
            source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value,
        } => format!(
            "+edgelabel {component_type}/{layer}/{component_name} {source_node:?}->{target_node:?} {anno_ns:?}:{anno_name:?}={:?}",
            short(anno_value)
        ),
        UpdateEvent::DeleteEdgeLabel {
            source_node, target_node, layer, component_type, component_name, anno_ns, anno_name,
        } => format!(
            "-edgelabel {component_type}/{layer}/{component_name} {source_node:?}->{target_node:?} {anno_ns:?}:{anno_name:?}"
        ),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 40 {
        let n = s.chars().count();
        let p: String = s.chars().take(8).collect();
        format!("{p}…({n} chars)")
    } else {
        s.to_string()
    }
}
