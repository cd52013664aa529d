//! G01: the effect of update batches equals the abstract model.
use crate::engine::*;
use crate::model::*;
use graphannis::AnnotationGraph;
use graphannis_core::graph::Graph;
use graphannis_core::types::DefaultComponentType;

pub fn property() -> Property {
    Property {
        id: "G01",
        rule: "histories of 1-5 update batches (1-60 events over 2-12 node names and 1-5 components, odd strings included) applied to in-memory and on-disk graphs; non-trivial: at least 2 batches or 10 events, and at least one event deletes something that exists",
        level: "exploration",
        assumptions: &["node names are not changed by label updates on annis::node_name", "self-loop edges are ignored by design"],
        checks: vec![
            Check { name: "batches", f: batches, quick: 40000, thorough: 1000000 },
            Check { name: "generic", f: generic, quick: 20000, thorough: 500000 },
        ],
    }
}

fn gen_batches(s: &mut Src, ctx: &mut Ctx, sp: &NameSpace) -> Vec<Vec<graphannis::update::UpdateEvent>> {
    let nb = s.size(1, 4);
    let mut res = vec![];
    for _ in 0..nb {
        let n = s.size(1, 4 + ctx.size / 2);
        let b: Vec<_> = (0..n).map(|_| gen_event(s, sp)).collect();
        res.push(b);
    }
    res
}

/// For the annotation graph only acyclic coverage/dominance/ordering is sensible.
pub fn acyclic_guard(sp: &NameSpace, e: &graphannis::update::UpdateEvent) -> bool {
    use graphannis::update::UpdateEvent::*;
    match e {
        AddEdge { source_node, target_node, component_type, .. } if component_type != "Pointing" && component_type != "PartOf" => {
            let a = sp.node_names.iter().position(|x| x == source_node);
            let b = sp.node_names.iter().position(|x| x == target_node);
            a < b
        }
        _ => true,
    }
}

fn batches(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(2, 12);
    let sp = namespace(s, n);
    let disk = s.chance(1, 3);
    let bs = gen_batches(s, ctx, &sp);
    let mut g = AnnotationGraph::with_default_graphstorages(disk).must("new graph")?;
    let mut m = MGraph::default();
    ctx.note(format!("disk_based={disk}"));
    let mut deletes = 0;
    let mut total = 0;
    for b in bs {
        let b: Vec<_> = b.into_iter().filter(|e| acyclic_guard(&sp, e)).collect();
        let optimize = s.chance(1, 3);
        let opt_disk = s.chance(1, 2);
        let keep = s.chance(1, 6);
        ctx.note(format!("batch (keep_statistics={keep}):"));
        for e in &b {
            ctx.note(format!("  {}", show_event(e)));
            let before = (m.nodes.len(), m.edge_count());
            let labels: usize = m.nodes.values().map(|a| a.len()).sum();
            m.apply(e, &|t| CTYPES.contains(&t));
            let labels2: usize = m.nodes.values().map(|a| a.len()).sum();
            if m.nodes.len() < before.0 || m.edge_count() < before.1 || labels2 < labels {
                deletes += 1;
            }
            total += 1;
        }
        let mut u = to_update(&b)?;
        if keep {
            g.apply_update_keep_statistics(&mut u, |_| {}).must("apply_update")?;
        } else {
            g.apply_update(&mut u, |_| {}).must("apply_update")?;
        }
        same("content", "graph after the batch", &m.without_index(), &dump(&g)?.without_index())?;
        if optimize {
            ctx.note(format!("optimize(disk_based={opt_disk})"));
            g.optimize_impl(opt_disk).must("optimize")?;
            same("content-opt", "graph after the batch and optimizing", &m.without_index(), &dump(&g)?.without_index())?;
        }
    }
    ctx.label_if(disk, "disk");
    ctx.label_if(deletes > 0, "with effective deletes");
    ctx.nontrivial_if(deletes > 0 && total >= 10);
    Ok(())
}

fn generic(s: &mut Src, ctx: &mut Ctx) -> R {
    // core graph without any model specific index; cyclic components allowed
    let n = s.size(2, 12);
    let mut sp = namespace(s, n);
    for c in sp.comps.iter_mut() {
        if c.0 != "NoSuchType" {
            c.0 = "Edge".into();
        }
    }
    let disk = s.chance(1, 3);
    let bs = gen_batches(s, ctx, &sp);
    let mut g: Graph<DefaultComponentType> = Graph::with_default_graphstorages(disk).must("new graph")?;
    let mut m = MGraph::default();
    let mut deletes = 0;
    let mut total = 0;
    ctx.note(format!("disk_based={disk}"));
    for b in bs {
        let optimize = s.chance(1, 2);
        let opt_disk = s.chance(1, 2);
        ctx.note("batch:");
        for e in &b {
            ctx.note(format!("  {}", show_event(e)));
            let before = (m.nodes.len(), m.edge_count());
            m.apply(e, &|t| t == "Edge");
            if m.nodes.len() < before.0 || m.edge_count() < before.1 {
                deletes += 1;
            }
            total += 1;
        }
        let mut u = to_update(&b)?;
        g.apply_update(&mut u, |_| {}).must("apply_update")?;
        same("content", "graph after the batch", &m.normalized(), &dump(&g)?)?;
        if optimize {
            ctx.note(format!("optimize(disk_based={opt_disk})"));
            g.optimize_impl(opt_disk).must("optimize")?;
            same("content-opt", "graph after the batch and optimizing", &m.normalized(), &dump(&g)?)?;
        }
    }
    ctx.label_if(disk, "disk");
    ctx.label_if(deletes > 0, "with effective deletes");
    ctx.nontrivial_if(deletes > 0 && total >= 10);
    Ok(())
}
