//! G27: query indexes after arbitrary editing histories.
use super::query::*;
use crate::aql::*;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::AnnotationGraph;
use graphannis::update::UpdateEvent;
use graphannis::update::UpdateEvent::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn property() -> Property {
    Property {
        id: "G27",
        rule: "chains of 1-3 random corpora; the difference between two consecutive ones (nodes, labels and edges removed, added or replaced by new ones) is applied as 1-6 update batches in random order to the same graph, with optimisation, re-loading and recalculated statistics in between; non-trivial: at least 3 batches",
        level: "exploration",
        assumptions: &["only corpora at the end of a chain step are well-formed; the states between the batches of a step are arbitrary"],
        checks: vec![Check { name: "history", f: history, quick: 3000, thorough: 150000 }],
    }
}

fn label_event(n: &str, key: &Key, v: &str) -> UpdateEvent {
    AddNodeLabel { node_name: n.into(), anno_ns: key.0.clone(), anno_name: key.1.clone(), anno_value: v.into() }
}
fn edge_event(c: &Comp, a: &str, b: &str, add: bool) -> UpdateEvent {
    let (source_node, target_node, layer, component_type, component_name) = (a.to_string(), b.to_string(), c.1.clone(), c.0.clone(), c.2.clone());
    if add {
        AddEdge { source_node, target_node, layer, component_type, component_name }
    } else {
        DeleteEdge { source_node, target_node, layer, component_type, component_name }
    }
}

/// Events leading from one graph to the other, in a random possible order.
pub fn edit(s: &mut Src, from: &MGraph, to: &MGraph) -> Vec<UpdateEvent> {
    let mut evs: Vec<(u64, UpdateEvent)> = vec![];
    // time at which a node (again) exists
    let mut exists: BTreeMap<&String, u64> = BTreeMap::new();
    let mut fresh: BTreeSet<&String> = BTreeSet::new();
    let spread = 1000;
    let late = |s: &mut Src, t: u64| t + 1 + s.below(spread);
    let system = |k: &Key| k.0 == "annis" && (k.1 == "node_name" || k.1 == "node_type");
    for (n, a) in &from.nodes {
        let replace = to.nodes.contains_key(n) && (s.chance(1, 12) || to.nodes[n].get(&k("annis", "node_type")) != a.get(&k("annis", "node_type")));
        if !to.nodes.contains_key(n) || replace {
            let t = late(s, 0);
            evs.push((t, DeleteNode { node_name: n.clone() }));
            if replace {
                exists.insert(n, t);
            }
        }
    }
    for (n, a) in &to.nodes {
        let new = exists.contains_key(n) || !from.nodes.contains_key(n);
        if new {
            let t = if s.chance(2, 3) { exists.get(n).copied().unwrap_or(0) + 1 + s.below(20) } else { late(s, exists.get(n).copied().unwrap_or(0)) };
            exists.insert(n, t);
            fresh.insert(n);
            evs.push((t, AddNode { node_name: n.clone(), node_type: a.get(&k("annis", "node_type")).cloned().unwrap_or_default() }));
        } else {
            exists.insert(n, 0);
        }
        let old = if new { None } else { from.nodes.get(n) };
        for (key, v) in a {
            if !system(key) && old.and_then(|o| o.get(key)) != Some(v) {
                evs.push((late(s, exists[n]), label_event(n, key, v)));
            }
        }
        for key in old.into_iter().flat_map(|o| o.keys()) {
            if !system(key) && !a.contains_key(key) {
                evs.push((late(s, 0), DeleteNodeLabel { node_name: n.clone(), anno_ns: key.0.clone(), anno_name: key.1.clone() }));
            }
        }
    }
    let none = BTreeMap::new();
    let comps: BTreeSet<&Comp> = from.edges.keys().chain(to.edges.keys()).filter(|c| !is_index_component(c)).collect();
    for c in comps {
        let (old, new) = (from.edges.get(c).unwrap_or(&none), to.edges.get(c).unwrap_or(&none));
        for (a, b) in old.keys() {
            if !new.contains_key(&(a.clone(), b.clone())) {
                // edges of removed nodes may be removed before or not at all
                if !fresh.contains(a) && !fresh.contains(b) && to.nodes.contains_key(a) && to.nodes.contains_key(b) || s.chance(1, 3) {
                    evs.push((late(s, 0), edge_event(c, a, b, false)));
                }
            }
        }
        for ((a, b), an) in new {
            let keep = !fresh.contains(a) && !fresh.contains(b) && old.contains_key(&(a.clone(), b.clone()));
            let mut t = exists[a].max(exists[b]);
            if !keep {
                t = late(s, t);
                evs.push((t, edge_event(c, a, b, true)));
            }
            let oa = if keep { old.get(&(a.clone(), b.clone())) } else { None };
            for (key, v) in an {
                if oa.and_then(|o| o.get(key)) != Some(v) {
                    evs.push((
                        late(s, t),
                        AddEdgeLabel {
                            source_node: a.clone(),
                            target_node: b.clone(),
                            layer: c.1.clone(),
                            component_type: c.0.clone(),
                            component_name: c.2.clone(),
                            anno_ns: key.0.clone(),
                            anno_name: key.1.clone(),
                            anno_value: v.clone(),
                        },
                    ));
                }
            }
            for key in oa.into_iter().flat_map(|o| o.keys()) {
                if !an.contains_key(key) {
                    evs.push((
                        late(s, 0),
                        DeleteEdgeLabel {
                            source_node: a.clone(),
                            target_node: b.clone(),
                            layer: c.1.clone(),
                            component_type: c.0.clone(),
                            component_name: c.2.clone(),
                            anno_ns: key.0.clone(),
                            anno_name: key.1.clone(),
                        },
                    ));
                }
            }
        }
    }
    evs.sort_by_key(|e| e.0);
    evs.into_iter().map(|e| e.1).collect()
}

/// The corpus including the derived edges used by queries.
fn with_index(m: &MGraph, v: &View) -> MGraph {
    let mut r = m.without_index();
    let mut direct: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (c, es) in &m.edges {
        if c.0 == "Coverage" && !is_index_component(c) {
            direct.extend(es.keys().map(|(a, b)| (v.id[a], v.id[b])));
        }
    }
    let mut add = |c: Comp, a: usize, b: usize| {
        r.edges.entry(c).or_default().insert((v.names[a].clone(), v.names[b].clone()), Annos::new());
    };
    for n in 0..v.names.len() {
        if v.token[n] {
            continue;
        }
        if let (Some(a), Some(b)) = (v.left[n], v.right[n]) {
            add(comp("LeftToken", "annis", ""), n, a);
            add(comp("RightToken", "annis", ""), n, b);
        }
        for t in &v.covered[n] {
            if *t != n && !direct.contains(&(n, *t)) {
                add(comp("Coverage", "annis", "inherited-coverage"), n, *t);
            }
        }
    }
    r
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = Opts { max_docs: 2, cyclic_pointing: true, ..opts(s, ctx) };
    let disk = s.chance(1, 5);
    let mut g = AnnotationGraph::with_default_graphstorages(disk).must("new graph")?;
    let mut m = MGraph::default();
    let steps = s.size(1, 3);
    ctx.note(format!("disk_based={disk}"));
    let mut batches = 0;
    for step in 0..steps {
        let c = gen_corpus(s, &o);
        let target = c.m.normalized();
        let evs = edit(s, &m, &target);
        let n = s.size(1, 6);
        let mut cuts: Vec<usize> = (0..n - 1).map(|_| s.idx(evs.len() + 1)).collect();
        cuts.push(0);
        cuts.push(evs.len());
        cuts.sort();
        cuts.dedup();
        for w in cuts.windows(2) {
            let b = &evs[w[0]..w[1]];
            ctx.note("batch:");
            for e in b {
                ctx.note(format!("  {}", show_event(e)));
            }
            let mut u = to_update(b)?;
            if s.chance(1, 6) {
                g.apply_update_keep_statistics(&mut u, |_| {}).must("apply_update")?;
            } else {
                g.apply_update(&mut u, |_| {}).must("apply_update")?;
            }
            batches += 1;
            match s.idx(10) {
                0 => {
                    let d = s.chance(1, 2);
                    ctx.note(format!("optimize({d})"));
                    g.optimize_impl(d).must("optimize")?;
                }
                1 => g.calculate_all_statistics().must("statistics")?,
                2 if step > 0 || w[0] > 0 => {
                    ctx.note("save and load");
                    let dir = ctx.dir().join(format!("g{batches}"));
                    std::fs::create_dir_all(&dir).unwrap();
                    g.save_to(&dir).must("save")?;
                    let mut h = AnnotationGraph::new(disk).must("new")?;
                    h.load_from(&dir, s.chance(1, 2)).must("load")?;
                    h.ensure_loaded_all().must("load all")?;
                    g = h;
                }
                _ => {}
            }
        }
        m = target;
        // the last batch might have kept outdated statistics
        g.calculate_all_statistics().must("statistics")?;
        let v = View::new(&m);
        ctx.note("compare");
        same("index", "graph with derived edges", &with_index(&m, &v), &dump(&g)?.normalized())?;
        let st = Setup { ids: ids(&g, &v)?, c, v, g };
        for _ in 0..3 {
            let n = s.size(1, 3);
            let q = Query { alts: vec![gen_alt(s, &st.v, &st.c, n, Family::All)] };
            check(s, ctx, &st, &q)?;
        }
        g = st.g;
    }
    ctx.label_if(steps > 1, "edited");
    ctx.nontrivial_if(batches >= 3);
    Ok(())
}
