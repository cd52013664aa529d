//! G12-G18: query results equal the definition of the query language.
use crate::aql::*;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::AnnotationGraph;
use std::collections::BTreeSet;

pub fn property_search() -> Property {
    Property {
        id: "G12",
        rule: "random corpora (1-3 documents with tokens, segmentations, spans, syntax nodes, meta data) and single-node queries of all kinds (exact, negated, regular expression, with and without namespace, token and text searches), several notations; non-trivial: at least one match expected",
        level: "exploration",
        assumptions: &["corpora are well-formed: tokens form chains per text, coverage edges lead to tokens"],
        checks: vec![Check { name: "search", f: search, quick: 16000, thorough: 400000 }],
    }
}
pub fn property_text() -> Property {
    Property {
        id: "G13",
        rule: "random corpora and two-node queries with the operators for precedence, nearness, overlap, inclusion, identical coverage, left and right alignment, with ranges and segmentations; non-trivial: at least one match expected",
        level: "exploration",
        assumptions: &[
            "for spans with gaps whose outer borders overlap without sharing a token, the overlap operator may answer either way",
        ],
        checks: vec![Check { name: "text", f: text_ops, quick: 16000, thorough: 400000 }],
    }
}
pub fn property_edge() -> Property {
    Property {
        id: "G14",
        rule: "random corpora and two-node queries with dominance, pointing relation, part-of-subcorpus and identical node operators, with ranges, edge annotations and arity; non-trivial: at least one match expected",
        level: "exploration",
        assumptions: &["path lengths are those of simple paths, also in cyclic components"],
        checks: vec![Check { name: "edges", f: edge_ops, quick: 16000, thorough: 400000 }],
    }
}
pub fn property_negation() -> Property {
    Property {
        id: "G15",
        rule: "random corpora and queries with negated operators, optional nodes, value comparison and arity; non-trivial: at least one match expected and at least one assignment excluded",
        level: "exploration",
        assumptions: &["whether a node may exclude itself in a negated operator with an optional operand is left open"],
        checks: vec![Check { name: "negation", f: negation, quick: 6000, thorough: 200000 }],
    }
}
pub fn property_boolean() -> Property {
    Property {
        id: "G16",
        rule: "random corpora and queries with 2-4 nodes, several operators, variables, and 1-3 alternatives; non-trivial: at least one match expected and at least three nodes or two alternatives",
        level: "exploration",
        assumptions: &["tuples in which operands of a non-reflexive operator coincide with another query node may be reported or not"],
        checks: vec![Check { name: "boolean", f: boolean, quick: 4500, thorough: 150000 }],
    }
}

/// node ids -> index in the view
pub struct Ids {
    pub map: std::collections::HashMap<u64, usize>,
}
pub fn ids(g: &AnnotationGraph, v: &View) -> R<Ids> {
    let mut map = std::collections::HashMap::new();
    for (i, n) in v.names.iter().enumerate() {
        match g.get_node_annos().get_node_id_from_name(n).must("id from name")? {
            Some(id) => {
                map.insert(id, i);
            }
            None => return fail("corpus", format!("node {n} is missing in the graph")),
        }
    }
    Ok(Ids { map })
}

pub fn run(g: &AnnotationGraph, ids: &Ids, q: &str, parallel: bool) -> R<Vec<Tuple>> {
    let d = graphannis::aql::parse(q, false).must("parse")?;
    let it = graphannis::aql::execute_query_on_graph(g, &d, parallel, None).must("execute")?;
    let mut r = vec![];
    for m in it {
        let m = m.must("match")?;
        let mut t: Tuple = vec![];
        for x in m.iter() {
            match ids.map.get(&x.node) {
                Some(i) => t.push((*i, (x.anno_key.ns.to_string(), x.anno_key.name.to_string()))),
                None => return fail("result:node", format!("query {q:?} returned the unknown node id {}", x.node)),
            }
        }
        r.push(t);
        if r.len() > 200_000 {
            return fail("result:endless", format!("query {q:?} does not end"));
        }
    }
    Ok(r)
}

pub fn show(v: &View, t: &Tuple) -> String {
    t.iter().map(|(n, key)| format!("{}::{}::{}", key.0, key.1, v.names[*n])).collect::<Vec<_>>().join(" ")
}

pub fn compare(v: &View, q: &str, e: &Expected, got: &[Tuple]) -> R {
    let mut seen: BTreeSet<&Tuple> = BTreeSet::new();
    for t in got {
        if !seen.insert(t) {
            return fail("result:duplicate", format!("query {q:?} reports {} twice", show(v, t)));
        }
        if !e.possible.contains(t) {
            return fail("result:wrong", format!("query {q:?} reports {}, which does not fulfil the query", show(v, t)));
        }
    }
    for t in &e.sure {
        if !seen.contains(t) {
            return fail(
                "result:missing",
                format!("query {q:?} misses {} ({} of {} expected matches found)", show(v, t), seen.len(), e.sure.len()),
            );
        }
    }
    Ok(())
}

pub struct Setup {
    pub c: Corpus,
    pub v: View,
    pub g: AnnotationGraph,
    pub ids: Ids,
}

pub fn show_corpus(ctx: &mut Ctx, c: &Corpus) {
    for (n, a) in &c.m.nodes {
        let a: Vec<_> = a
            .iter()
            .filter(|(k, _)| k.1 != "node_name")
            .map(|(k, v)| format!("{}:{}={:?}", k.0, k.1, short(v)))
            .collect();
        ctx.note(format!("node {n}: {}", a.join(" ")));
    }
    for (comp, es) in &c.m.edges {
        let es: Vec<_> = es
            .iter()
            .map(|((a, b), an)| {
                let an: Vec<_> = an.iter().map(|(k, v)| format!("{}:{}={v:?}", k.0, k.1)).collect();
                format!("{a}->{b}{}{}", if an.is_empty() { "" } else { " " }, an.join(","))
            })
            .collect();
        ctx.note(format!("{}/{}/{}: {}", comp.0, comp.1, comp.2, es.join("; ")));
    }
}

pub fn setup(s: &mut Src, ctx: &mut Ctx, o: &Opts) -> R<Setup> {
    let c = gen_corpus(s, o);
    show_corpus(ctx, &c);
    let v = View::new(&c.m);
    let disk = s.chance(1, 6);
    let mut evs = c.m.to_events();
    // the order in which nodes and edges are added must not matter
    if s.chance(1, 2) {
        let (mut nodes, rest): (Vec<_>, Vec<_>) =
            evs.into_iter().partition(|e| matches!(e, graphannis::update::UpdateEvent::AddNode { .. }));
        s.shuffle(&mut nodes);
        nodes.extend(rest);
        evs = nodes;
    }
    let mut g = build_graph(&evs, disk)?;
    let opt = s.idx(3);
    if opt == 1 {
        g.optimize_impl(disk).must("optimize")?;
    } else if opt == 2 {
        g.calculate_all_statistics().must("statistics")?;
    }
    ctx.note(format!("disk_based={disk} optimize={opt}"));
    ctx.label_if(disk, "disk-based");
    ctx.label_if(opt == 1, "optimized");
    let ids = ids(&g, &v)?;
    Ok(Setup { c, v, g, ids })
}

/// Print, run and compare one query.
pub fn check(s: &mut Src, ctx: &mut Ctx, st: &Setup, q: &Query) -> R<Option<Expected>> {
    let text = if s.chance(1, 3) { q.plain() } else { q.print(&mut |n| s.idx(n)) };
    let parallel = s.chance(1, 5);
    ctx.note(format!("query{} {text}", if parallel { " (parallel)" } else { "" }));
    let e = evaluate(&st.v, q);
    if e.too_big {
        ctx.label("skipped: too big");
        return Ok(None);
    }
    let got = run(&st.g, &st.ids, &text, parallel)?;
    compare(&st.v, &text, &e, &got)?;
    ctx.label_if(!e.sure.is_empty(), "with matches");
    ctx.label_if(e.sure.is_empty(), "without matches");
    ctx.label_if(e.sure.len() != e.possible.len(), "with open tuples");
    Ok(Some(e))
}

pub fn opts(s: &mut Src, ctx: &Ctx) -> Opts {
    Opts {
        max_docs: if ctx.size > 50 { 3 } else { 2 },
        max_tok: 2 + ctx.size / 14,
        odd_values: s.chance(1, 6),
        token_segmentation: s.chance(1, 4),
        odd_names: s.chance(1, 8),
        ..Opts::default()
    }
}

fn search(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, &o)?;
    for _ in 0..6 {
        let q = Query { alts: vec![gen_alt(s, &st.v, &st.c, 1, Family::All)] };
        if let Some(e) = check(s, ctx, &st, &q)? {
            ctx.nontrivial_if(!e.sure.is_empty());
        }
    }
    Ok(())
}

fn two(s: &mut Src, ctx: &mut Ctx, fam: Family) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, &o)?;
    for _ in 0..6 {
        let mut a = gen_alt(s, &st.v, &st.c, 2, fam);
        a.ops.truncate(1);
        if fam == Family::Edge && s.chance(1, 4) {
            let r = gen_range(s);
            a.arity.push((s.idx(2), r));
        }
        let q = Query { alts: vec![a] };
        if let Some(e) = check(s, ctx, &st, &q)? {
            ctx.nontrivial_if(!e.sure.is_empty());
        }
    }
    Ok(())
}
fn text_ops(s: &mut Src, ctx: &mut Ctx) -> R {
    two(s, ctx, Family::Text)
}
fn edge_ops(s: &mut Src, ctx: &mut Ctx) -> R {
    two(s, ctx, Family::Edge)
}

/// does the ordering of the segmentation exist in the corpus
pub fn known_seg(c: &Corpus, op: &Op) -> bool {
    match op {
        Op::Prec { seg: Some(x), .. } | Op::Near { seg: Some(x), .. } => {
            c.m.edges.iter().any(|(comp, es)| comp.0 == "Ordering" && comp.2 == *x && !es.is_empty())
        }
        _ => true,
    }
}

fn negation(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, &o)?;
    for _ in 0..6 {
        let mut a;
        match s.idx(4) {
            0 => {
                // optional operand
                a = gen_alt(s, &st.v, &st.c, 2, Family::All);
                a.ops.truncate(1);
                a.ops[0].neg = true;
                let x = s.idx(2);
                a.nodes[x].optional = true;
            }
            1 => {
                // optional operand in addition to a normal join
                a = gen_alt(s, &st.v, &st.c, 2, Family::All);
                a.ops.truncate(1);
                let q = QNode { optional: true, ..node(gen_spec(s, &st.v, &st.c)) };
                let pos = s.idx(3);
                for op in a.ops.iter_mut() {
                    if op.l >= pos {
                        op.l += 1;
                    }
                    if op.r >= pos {
                        op.r += 1;
                    }
                }
                a.nodes.insert(pos, q);
                let other = (pos + 1 + s.idx(2)) % 3;
                let op = gen_op(s, &st.c, Family::All);
                let (l, r) = if s.chance(1, 2) { (pos, other) } else { (other, pos) };
                a.ops.push(QOp { l, r, op, neg: true });
            }
            2 => {
                // negated operator between joined nodes
                a = gen_alt(s, &st.v, &st.c, 2, Family::All);
                a.ops.truncate(1);
                let op = gen_op(s, &st.c, Family::All);
                let (l, r) = if s.chance(1, 2) { (0, 1) } else { (1, 0) };
                a.ops.push(QOp { l, r, op, neg: true });
            }
            _ => {
                // value comparison
                a = gen_alt(s, &st.v, &st.c, 2, Family::All);
                a.ops.truncate(1);
                let op = if s.chance(1, 2) { Op::Equal } else { Op::NotEqual };
                let (l, r) = if s.chance(1, 2) { (0, 1) } else { (1, 0) };
                a.ops.push(QOp { l, r, op, neg: false });
            }
        }
        if a.ops.iter().any(|o| o.neg && !known_seg(&st.c, &o.op)) {
            continue;
        }
        if s.chance(1, 4) {
            let real: Vec<usize> = (0..a.nodes.len()).filter(|i| !a.nodes[*i].optional).collect();
            let n = *s.pick(&real);
            let r = gen_range(s);
            a.arity.push((n, r));
        }
        let mut b = a.clone();
        b.ops.retain(|o| !o.neg && o.op.binding());
        b.arity.clear();
        let q = Query { alts: vec![a] };
        if let Some(e) = check(s, ctx, &st, &q)? {
            let all = evaluate(&st.v, &Query { alts: vec![b] });
            ctx.nontrivial_if(!e.sure.is_empty() && all.sure.len() > e.possible.len());
        }
    }
    Ok(())
}

fn boolean(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut o = opts(s, ctx);
    o.max_tok = o.max_tok.min(5);
    let st = setup(s, ctx, &o)?;
    for _ in 0..5 {
        let na = s.size(1, 3);
        let mut q = Query::default();
        for i in 0..na {
            let n = if na == 1 { s.size(2, 4) } else { s.size(1, 3) };
            let mut a = gen_alt(s, &st.v, &st.c, n, Family::All);
            for x in a.nodes.iter_mut() {
                if let Some(v) = &mut x.var {
                    *v = format!("{v}{}", ["a", "b", "c"][i]);
                }
            }
            q.alts.push(a);
        }
        let nodes: usize = q.alts.iter().map(|a| a.nodes.len()).sum();
        if let Some(e) = check(s, ctx, &st, &q)? {
            ctx.nontrivial_if(!e.sure.is_empty() && (nodes > 2 || na > 1));
        }
    }
    Ok(())
}
