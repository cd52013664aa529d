//! G24, G25, G26: subgraphs and listings of a corpus storage.
use super::cs::*;
use super::query::opts;
use crate::aql::*;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::corpusstorage::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn property_context() -> Property {
    Property {
        id: "G24",
        rule: "1-2 random corpora in a corpus storage; sets of 1-4 nodes (tokens, spans, syntax nodes, corpora, nodes without text, matches of queries), context sizes from 0 to the maximal integer and all segmentations; non-trivial: the subgraph has at least two separate token regions, or does not contain all nodes",
        level: "exploration",
        assumptions: &["every node covers tokens of a single text only"],
        checks: vec![Check { name: "context", f: context, quick: 1500, thorough: 60000 }],
    }
}
pub fn property_extract() -> Property {
    Property {
        id: "G25",
        rule: "1-2 random corpora in a corpus storage; random queries with and without filter for the edge type, sets of documents, and the corpus structure; non-trivial: at least one and not all nodes are part of the subgraph",
        level: "exploration",
        assumptions: &[
            "edges marking gaps between tokens are allowed in the subgraph of a query, but not required",
            "queries for which the query language leaves the membership of tuples open are skipped",
        ],
        checks: vec![Check { name: "extract", f: extract, quick: 1500, thorough: 60000 }],
    }
}
pub fn property_listing() -> Property {
    Property {
        id: "G26",
        rule: "1-3 random corpora in a corpus storage with random updates, evictions and re-opening in between; listings of corpora, components, node and edge annotations and corpus information are compared with the data; non-trivial: the corpora have at least three annotation keys and two components with edges",
        level: "exploration",
        assumptions: &[],
        checks: vec![Check { name: "listing", f: listing, quick: 800, thorough: 40000 }],
    }
}

/// Edges which connect tokens included in the subgraph if the tokens between them are missing.
fn gap_edges(v: &View, nodes: &BTreeSet<usize>) -> BTreeSet<(usize, usize)> {
    let mut texts: BTreeMap<usize, BTreeMap<usize, usize>> = BTreeMap::new();
    for n in nodes {
        if v.token[*n] {
            let (c, p) = v.pos[n];
            texts.entry(c).or_default().insert(p, *n);
        }
    }
    let mut r = BTreeSet::new();
    for t in texts.values() {
        let l: Vec<(&usize, &usize)> = t.iter().collect();
        for w in l.windows(2) {
            if *w[1].0 > w[0].0 + 1 {
                r.insert((*w[0].1, *w[1].1));
            }
        }
    }
    r
}

/// The part of the corpus with the given nodes and the edges between them.
fn restrict(p: &Part, nodes: &BTreeSet<usize>, ctype: Option<&str>) -> MGraph {
    let mut g = MGraph::default();
    for n in nodes {
        g.nodes.insert(p.v.names[*n].clone(), p.v.annos[*n].clone());
    }
    for (c, es) in &p.c.m.edges {
        if is_index_component(c) || ctype.is_some_and(|t| t != c.0) {
            continue;
        }
        let sub: BTreeMap<_, _> = es
            .iter()
            .filter(|((a, b), _)| g.nodes.contains_key(a) && g.nodes.contains_key(b))
            .map(|(e, a)| (e.clone(), a.clone()))
            .collect();
        if !sub.is_empty() {
            g.edges.insert(c.clone(), sub);
        }
    }
    g
}

fn gap_comp() -> Comp {
    comp("Ordering", "annis", "datasource-gap")
}
fn with_gaps(p: &Part, nodes: &BTreeSet<usize>, mut g: MGraph) -> MGraph {
    let gaps = gap_edges(&p.v, nodes);
    if !gaps.is_empty() {
        let es = gaps.iter().map(|(a, b)| ((p.v.names[*a].clone(), p.v.names[*b].clone()), Annos::new())).collect();
        g.edges.insert(gap_comp(), es);
    }
    g
}

fn ancestors(v: &View, n: usize) -> BTreeSet<usize> {
    let mut r = BTreeSet::new();
    let Some(part) = v.comps.get(&comp("PartOf", "annis", "")) else { return r };
    let mut todo = vec![n as u64];
    while let Some(x) = todo.pop() {
        for y in part.plain.out.get(&x).into_iter().flatten() {
            if r.insert(*y as usize) {
                todo.push(*y);
            }
        }
    }
    r
}

/// nodes of the subgraph with context
fn expected_context(p: &Part, matched: &BTreeSet<usize>, left: usize, right: usize, seg: Option<&str>) -> Option<BTreeSet<usize>> {
    let v = &p.v;
    let mut r: BTreeSet<usize> = matched.clone();
    for n in matched {
        r.extend(ancestors(v, *n));
        let cov = &v.covered[*n];
        let Some(first) = cov.iter().min_by_key(|t| v.pos[t]) else { continue };
        let last = cov.iter().max_by_key(|t| v.pos[t]).unwrap();
        let (chain, a) = v.pos[first];
        let (chain2, b) = v.pos[last];
        if chain != chain2 {
            return None;
        }
        let (mut lo, mut hi) = (a, b);
        match seg {
            None => {
                lo = lo.saturating_sub(left);
                hi = hi.saturating_add(right);
            }
            Some(seg) => {
                let c = v.comps.get(&comp("Ordering", "default_ns", seg))?;
                // segmentation nodes covering one of the tokens
                let s: Vec<usize> =
                    (0..v.names.len()).filter(|x| !v.token[*x] && c.member(*x) && v.covered[*x].iter().any(|t| cov.contains(t))).collect();
                if !s.is_empty() {
                    let firsts: Vec<usize> = s.iter().copied().filter(|x| s.iter().all(|y| x == y || c.connected(*x, *y, 1, None))).collect();
                    let lasts: Vec<usize> = s.iter().copied().filter(|x| s.iter().all(|y| x == y || c.connected(*y, *x, 1, None))).collect();
                    if firsts.len() != 1 || lasts.len() != 1 {
                        return None;
                    }
                    let walk = |mut x: usize, n: usize, back: bool| {
                        for _ in 0..n.min(1000) {
                            let e = if back { c.plain.inn.get(&(x as u64)) } else { c.plain.out.get(&(x as u64)) };
                            match e.and_then(|e| e.iter().next()) {
                                Some(y) => x = *y as usize,
                                None => break,
                            }
                        }
                        x
                    };
                    let x = walk(firsts[0], left, true);
                    let y = walk(lasts[0], right, false);
                    if let (Some(x), Some(y)) = (v.left[x], v.right[y]) {
                        lo = lo.min(v.pos[&x].1);
                        hi = hi.max(v.pos[&y].1);
                    }
                }
            }
        }
        let toks: BTreeSet<usize> =
            (0..v.names.len()).filter(|t| v.token[*t] && v.pos[t].0 == chain && v.pos[t].1 >= lo && v.pos[t].1 <= hi).collect();
        for x in 0..v.names.len() {
            if v.covered[x].iter().any(|t| toks.contains(t)) {
                r.insert(x);
            }
        }
    }
    Some(r)
}

fn small(o: Opts) -> Opts {
    Opts { max_docs: 2, token_segmentation: false, ..o }
}

fn context(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = small(opts(s, ctx));
    let max_tok = if s.chance(1, 4) { 14 } else { o.max_tok.max(6) };
    let st = setup(s, ctx, 2, &Opts { max_tok, ..o })?;
    for _ in 0..6 {
        let p = &st.parts[s.idx(st.parts.len())];
        let n = p.v.names.len();
        let mut matched = BTreeSet::new();
        let mut ids: Vec<String> = vec![];
        let cnt = s.size(1, 4);
        let text_only = s.chance(3, 4);
        let pool: Vec<usize> = if text_only { (0..n).filter(|i| !p.v.covered[*i].is_empty()).collect() } else { (0..n).collect() };
        if pool.is_empty() {
            continue;
        }
        for _ in 0..cnt {
            let x = *s.pick(&pool);
            matched.insert(x);
            ids.push(p.v.names[x].clone());
        }
        let size = |s: &mut Src| match s.idx(8) {
            0 => usize::MAX - s.idx(2),
            1 => 1_000_000_000,
            2 => s.size(0, 20),
            _ => s.size(0, 3),
        };
        let (left, right) = (size(s), size(s));
        let segs: Vec<&String> = p.c.segs.iter().collect();
        let seg = match s.idx(3) {
            0 if !segs.is_empty() => Some(s.pick(&segs).to_string()),
            _ => None,
        };
        let seg_missing = seg.as_ref().is_some_and(|x| !p.v.comps.contains_key(&comp("Ordering", "default_ns", x)));
        ctx.note(format!("subgraph of {ids:?} in {:?} with context {left},{right} {seg:?}", p.name));
        if s.chance(1, 12) {
            let mut ids = ids.clone();
            ids.push("does/not#exist".into());
            if st.cs().subgraph(&p.name, ids, left, right, seg.clone()).is_ok() {
                return fail("context:unknown", "subgraph for a non-existing node does not report an error");
            }
        }
        if seg_missing {
            ctx.label("segmentation without edges");
            continue;
        }
        let Some(nodes) = expected_context(p, &matched, left, right, seg.as_deref()) else {
            ctx.label("skipped: ambiguous segmentation");
            continue;
        };
        let exp = with_gaps(p, &nodes, restrict(p, &nodes, None));
        let g = st.cs().subgraph(&p.name, ids.clone(), left, right, seg.clone()).must("subgraph")?;
        let g = dump(&g)?;
        same("context", &format!("subgraph of {ids:?} with context {left},{right} {seg:?}"), &exp, &g)?;
        let gaps = gap_edges(&p.v, &nodes).len();
        ctx.label_if(gaps > 0, "separate regions");
        ctx.label_if(seg.is_some(), "segmentation");
        ctx.label_if(seg.is_some() && left < 100 && right < 100 && left + right > 0, "segmentation with context");
        ctx.label_if(matched.len() > 1, "several nodes");
        ctx.nontrivial_if(gaps > 0 || nodes.len() < n);
        disturb(s, ctx, &st)?;
    }
    Ok(())
}

fn extract(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = small(opts(s, ctx));
    let st = setup(s, ctx, 2, &Opts { max_docs: 3, ..o })?;
    for _ in 0..4 {
        let pi = s.idx(st.parts.len());
        let p = &st.parts[pi];
        let all = p.v.names.len();
        match s.weighted(&[5, 3, 1]) {
            0 => {
                let Some(c) = gen_case(s, ctx, &st, 3, true)? else { continue };
                let at = s.idx(c.sel.len());
                let p = &st.parts[c.sel[at]];
                let e = &c.exp[at];
                let members = |x: &BTreeSet<Tuple>| -> BTreeSet<usize> { x.iter().flatten().map(|m| m.0).collect() };
                let nodes = members(&e.sure);
                if nodes != members(&e.possible) {
                    ctx.label("skipped: open tuples");
                    continue;
                }
                let filter = match s.idx(3) {
                    0 => Some(*s.pick(&["Coverage", "Dominance", "Pointing", "Ordering", "PartOf"])),
                    _ => None,
                };
                ctx.note(format!("subgraph for this query in {:?} with filter {filter:?}", p.name));
                let g = st
                    .cs()
                    .subgraph_for_query(&p.name, &c.text, QueryLanguage::AQL, filter.map(ctype))
                    .must("subgraph for query")?;
                let g = dump(&g)?;
                let mut exp = restrict(p, &nodes, filter);
                if filter.is_none_or(|f| f == "Ordering") {
                    exp = with_gaps(p, &nodes, exp);
                }
                same("extract:query", &format!("subgraph for {:?} with edges of type {filter:?}", c.text), &exp, &g)?;
                ctx.label_if(filter.is_some(), "with filter");
                ctx.label_if(c.query.alts.iter().any(|a| a.nodes.iter().any(|n| n.optional)), "optional nodes");
                ctx.nontrivial_if(!nodes.is_empty() && nodes.len() < all);
            }
            1 => {
                let n = s.size(1, 3);
                let pool: Vec<usize> =
                    if s.chance(4, 5) { p.c.docs.iter().map(|d| p.v.id[d]).collect() } else { (0..all).filter(|i| p.v.val(*i, "annis", "node_type").is_some_and(|t| t != "node")).collect() };
                let ids: BTreeSet<usize> = (0..n).map(|_| *s.pick(&pool)).collect();
                let names: Vec<String> = ids
                    .iter()
                    .map(|i| {
                        let n = p.v.names[*i].clone();
                        if s.chance(1, 6) { format!("salt:/{n}") } else { n }
                    })
                    .collect();
                ctx.note(format!("sub-corpora {names:?} of {:?}", p.name));
                let nodes: BTreeSet<usize> = (0..all)
                    .filter(|x| matches!(p.v.val(*x, "annis", "node_type").map(|s| s.as_str()), Some("node") | Some("datasource")))
                    .filter(|x| ancestors(&p.v, *x).iter().any(|a| ids.contains(a)))
                    .collect();
                let g = dump(&st.cs().subcorpus_graph(&p.name, names.clone()).must("subcorpus graph")?)?;
                let exp = with_gaps(p, &nodes, restrict(p, &nodes, None));
                same("extract:subcorpus", &format!("subgraph of the sub-corpora {names:?}"), &exp, &g)?;
                ctx.label("sub-corpora");
                ctx.nontrivial_if(!nodes.is_empty() && nodes.len() < all);
            }
            _ => {
                ctx.note(format!("corpus graph of {:?}", p.name));
                let nodes: BTreeSet<usize> =
                    (0..all).filter(|x| p.v.val(*x, "annis", "node_type").is_some_and(|t| t == "corpus")).collect();
                let g = dump(&st.cs().corpus_graph(&p.name).must("corpus graph")?)?;
                same("extract:corpus", "corpus graph", &restrict(p, &nodes, Some("PartOf")), &g)?;
                ctx.label("corpus graph");
            }
        }
        disturb(s, ctx, &st)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- listings

fn annos_list(all: &[&Annos], values: bool, frequent: bool, got: &[graphannis::graph::Annotation], what: &str) -> R {
    let mut counts: BTreeMap<Key, BTreeMap<String, usize>> = BTreeMap::new();
    for a in all {
        for (k, v) in a.iter() {
            *counts.entry(k.clone()).or_default().entry(v.clone()).or_default() += 1;
        }
    }
    let mut seen: BTreeMap<Key, BTreeSet<String>> = BTreeMap::new();
    for a in got {
        let key = (a.key.ns.to_string(), a.key.name.to_string());
        if !seen.entry(key.clone()).or_default().insert(a.val.to_string()) {
            return fail("listing:dup", format!("{what}: {key:?} with value {:?} is listed twice", a.val));
        }
    }
    for (key, vals) in &counts {
        let Some(g) = seen.get(key) else {
            return fail("listing:missing", format!("{what}: {key:?} is not listed"));
        };
        if !values {
            if g.len() != 1 || !g.contains("") {
                return fail("listing:values", format!("{what}: values {g:?} are listed for {key:?}, but not requested"));
            }
        } else if frequent {
            let max = vals.values().max().unwrap();
            if g.len() != 1 || g.iter().any(|v| vals.get(v) != Some(max)) {
                return fail("listing:frequent", format!("{what}: the most frequent value of {key:?} is given as {g:?}, counts are {vals:?}"));
            }
        } else {
            let e: BTreeSet<String> = vals.keys().cloned().collect();
            if e != *g {
                return fail("listing:values", format!("{what}: values for {key:?} are {g:?}, expected {e:?}"));
            }
        }
    }
    for k in seen.keys() {
        if !counts.contains_key(k) {
            return fail("listing:extra", format!("{what}: {k:?} is listed, but does not exist"));
        }
    }
    Ok(())
}

fn listing(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let mut st = setup(s, ctx, 3, &Opts { max_docs: 2, max_tok: o.max_tok.min(5), ..o })?;
    for _ in 0..6 {
        match s.weighted(&[2, 4, 3, 5, 3]) {
            0 => {
                let mut l: Vec<String> = st.cs().list().must("list")?.into_iter().map(|i| i.name).collect();
                l.sort();
                let mut e: Vec<String> = st.parts.iter().map(|p| p.name.clone()).collect();
                e.sort();
                if l != e {
                    return fail("listing:corpora", format!("the corpora {l:?} are listed, expected {e:?}"));
                }
            }
            1 => {
                let p = s.pick(&st.parts);
                let (v, f) = (s.chance(2, 3), s.chance(1, 2));
                ctx.note(format!("list node annotations of {:?} {v} {f}", p.name));
                let got = st.cs().list_node_annotations(&p.name, v, f).must("list node annotations")?;
                let all: Vec<&Annos> = p.c.m.nodes.values().collect();
                annos_list(&all, v, f, &got, "node annotations")?;
            }
            2 => {
                let p = s.pick(&st.parts);
                let t = if s.chance(1, 2) { Some(*s.pick(&CTYPES)) } else { None };
                let name = if s.chance(1, 2) { Some(s.pick(&["", "edge", "dep", "norm"]).to_string()) } else { None };
                ctx.note(format!("list components of {:?} with type {t:?} and name {name:?}", p.name));
                let got = st.cs().list_components(&p.name, t.map(ctype), name.as_deref()).must("list components")?;
                let got: Vec<Comp> = got.iter().map(|c| (c.get_type().to_string(), c.layer.to_string(), c.name.to_string())).collect();
                let set: BTreeSet<Comp> = got.iter().cloned().collect();
                if set.len() != got.len() {
                    return fail("listing:dup", format!("components are listed several times: {got:?}"));
                }
                let fits = |c: &Comp| t.is_none_or(|t| t == c.0) && name.as_ref().is_none_or(|n| *n == c.2);
                for (c, es) in &p.c.m.edges {
                    if fits(c) && !es.is_empty() && !set.contains(c) {
                        return fail("listing:component", format!("component {c:?} is not listed for type {t:?} and name {name:?}"));
                    }
                }
                for c in &set {
                    let ever = is_index_component(c) || p.c.m.edges.contains_key(c) || ["annis", "new"].contains(&c.1.as_str());
                    if !fits(c) || !ever {
                        return fail("listing:component", format!("component {c:?} is listed for type {t:?} and name {name:?}"));
                    }
                }
            }
            3 => {
                let p = s.pick(&st.parts);
                let mut comps: Vec<Comp> = p.c.m.edges.keys().cloned().collect();
                comps.push(comp("Pointing", "not", "there"));
                let c = s.pick(&comps).clone();
                let (v, f) = (s.chance(2, 3), s.chance(1, 2));
                ctx.note(format!("list edge annotations of {c:?} in {:?} {v} {f}", p.name));
                let cc = graphannis::model::AnnotationComponent::new(ctype(&c.0), c.1.as_str().into(), c.2.as_str().into());
                let got = st.cs().list_edge_annotations(&p.name, &cc, v, f).must("list edge annotations")?;
                let empty = BTreeMap::new();
                let all: Vec<&Annos> = p.c.m.edges.get(&c).unwrap_or(&empty).values().collect();
                annos_list(&all, v, f, &got, "edge annotations")?;
                ctx.label_if(!got.is_empty(), "edge annotations");
            }
            _ => {
                // a small change
                let i = s.idx(st.parts.len());
                let p = &mut st.parts[i];
                let names: Vec<String> = p.c.m.nodes.keys().cloned().collect();
                let n = s.pick(&names).clone();
                use graphannis::update::UpdateEvent::*;
                let e = match s.idx(3) {
                    0 => AddNodeLabel { node_name: n, anno_ns: "new".into(), anno_name: s.pick(&["a", "b"]).to_string(), anno_value: s.pick(&ANNO_VALS).to_string() },
                    1 => DeleteNodeLabel { node_name: n, anno_ns: "default_ns".into(), anno_name: "pos".into() },
                    _ => AddEdge {
                        source_node: n,
                        target_node: s.pick(&names).clone(),
                        layer: "new".into(),
                        component_type: "Pointing".into(),
                        component_name: s.pick(&["dep", "x"]).to_string(),
                    },
                };
                ctx.note(format!("update of {:?}: {}", p.name, show_event(&e)));
                p.c.m.apply(&e, &|t| CTYPES.contains(&t));
                p.c.m = p.c.m.normalized();
                let u = &mut to_update(std::slice::from_ref(&e))?;
                st.cs.as_ref().unwrap().apply_update(&p.name, u).must("apply update")?;
                ctx.label("changed");
            }
        }
        if s.chance(1, 6) {
            disturb(s, ctx, &st)?;
        }
        if s.chance(1, 15) {
            ctx.note("re-open");
            st.cs = None;
            st.cs = Some(open(&st.dir, st.cache, st.parallel)?);
        }
    }
    // information about a corpus
    for p in &st.parts {
        let i = st.cs().info(&p.name).must("info")?;
        if i.name != p.name {
            return fail("listing:info", format!("information about {:?} has the name {:?}", p.name, i.name));
        }
        for c in &i.graphstorages {
            let key = (c.component.get_type().to_string(), c.component.layer.to_string(), c.component.name.to_string());
            if let (LoadStatus::FullyLoaded, Some(es)) = (&c.load_status, p.c.m.edges.get(&key)) {
                let a = c.number_of_annotations;
                let n: usize = es.values().map(|x| x.len()).sum();
                if a != n {
                    return fail("listing:info", format!("information about {key:?} says {a} edge annotations, but there are {n}"));
                }
            }
        }
    }
    let keys: BTreeSet<Key> = st.parts.iter().flat_map(|p| p.c.m.nodes.values()).flat_map(|a| a.keys().cloned()).collect();
    ctx.nontrivial_if(keys.len() >= 3 && st.parts.iter().any(|p| p.c.m.edges.len() >= 2));
    Ok(())
}
