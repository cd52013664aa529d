//! G17, G23: parsing of queries and equivalent formulations.
use super::cs;
use super::query::*;
use crate::aql::*;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::corpusstorage::*;
use graphannis::errors::GraphAnnisError;
use std::collections::BTreeSet;

pub fn property_equivalent() -> Property {
    Property {
        id: "G17",
        rule: "random corpora and queries with nested disjunctions, chains of operators, named nodes that are used before or after their definition, and legacy queries with metadata conditions; the result is compared with the reference evaluator for the expanded query; non-trivial: at least one match expected and at least two alternatives, a chain or a metadata condition",
        level: "exploration",
        assumptions: &["tuples in which operands of a non-reflexive operator coincide with another query node may be reported or not"],
        checks: vec![
            Check { name: "nested", f: nested, quick: 2500, thorough: 100000 },
            Check { name: "legacy", f: legacy, quick: 2500, thorough: 100000 },
        ],
    }
}
pub fn property_parser() -> Property {
    Property {
        id: "G23",
        rule: "random character sequences, sequences of query language tokens and mutated valid queries; parsing returns a query or an error inside of the text, and validation, counting, finding and planning agree on it; non-trivial: at least one valid and one invalid query",
        level: "exploration",
        assumptions: &["texts are at most some hundred characters long and nested at most 60 levels deep"],
        checks: vec![
            Check { name: "total", f: total, quick: 4000, thorough: 300000 },
            Check { name: "agree", f: agree, quick: 700, thorough: 30000 },
            Check { name: "describe", f: describe, quick: 2000, thorough: 100000 },
        ],
    }
}

// ------------------------------------------------------------- nested queries

/// A part of a conjunction: nodes with variables and operators between variables.
#[derive(Clone, Default)]
struct Part {
    nodes: Vec<QNode>,
    ops: Vec<(String, String, Op, bool)>,
    arity: Vec<(String, Range)>,
    text: String,
}
enum Piece {
    Plain(Part),
    Or(Vec<Part>),
}

fn var(s: &mut Src, used: &mut Vec<String>) -> String {
    loop {
        let base = *s.pick(&["a", "x1", "tok", "node", "Z", "n2b", "b"]);
        let v = if used.contains(&base.to_string()) || s.chance(1, 2) { format!("{base}{}", used.len()) } else { base.into() };
        if !used.contains(&v) {
            used.push(v.clone());
            return v;
        }
    }
}

fn show_node(n: &QNode) -> String {
    format!("{}#{}", n.var.as_ref().unwrap(), n.spec.print())
}
fn show_op(s: &mut Src, op: &Op, neg: bool) -> String {
    format!("{}{}", if neg { "!" } else { "" }, op.print(s.chance(1, 2)))
}
fn space(s: &mut Src) -> &'static str {
    ["", " ", " ", "\n", " \t "][s.idx(5)]
}

/// One node which is connected to one of the given variables
fn linked(s: &mut Src, v: &View, c: &Corpus, shared: &[String], used: &mut Vec<String>) -> Part {
    let name = var(s, used);
    let mut n = node(gen_spec(s, v, c));
    n.var = Some(name.clone());
    let other = s.pick(shared).clone();
    let op = gen_op(s, c, Family::All);
    let (l, r) = if s.chance(1, 2) { (name, other) } else { (other, name) };
    let nt = show_node(&n);
    let ot = show_op(s, &op, false);
    let refs = format!("#{l} {ot} #{r}");
    let text = match s.idx(3) {
        0 => format!("{nt} & {refs}"),
        1 => format!("{refs} & {nt}"),
        _ => {
            let (a, b) = if Some(&l) == n.var.as_ref() { (nt, format!("#{r}")) } else { (format!("#{l}"), nt) };
            format!("{a} {ot} {b}")
        }
    };
    Part { nodes: vec![n], ops: vec![(l, r, op, false)], arity: vec![], text }
}
fn constraint(s: &mut Src, c: &Corpus, shared: &[String]) -> Part {
    let a = s.pick(shared).clone();
    let b = s.pick(shared).clone();
    if a == b || s.chance(1, 6) {
        let r = match gen_range0(s) {
            Range::Default => Range::Exact(1),
            r => r,
        };
        let t = match &r {
            Range::Exact(a) => format!("{a}"),
            Range::Between(a, b) => format!("{a},{b}"),
            _ => "*".into(),
        };
        let text = format!("#{a}:arity={t}");
        return Part { arity: vec![(a, r)], text, ..Part::default() };
    }
    let op = if s.chance(1, 5) { if s.chance(1, 2) { Op::Equal } else { Op::NotEqual } } else { gen_op(s, c, Family::All) };
    let neg = op.binding() && s.chance(1, 3) && known_seg(c, &op);
    let ot = show_op(s, &op, neg);
    let text = format!("#{a} {ot} #{b}");
    Part { ops: vec![(a, b, op, neg)], text, ..Part::default() }
}
fn join(parts: Vec<Part>, s: &mut Src) -> Part {
    let mut r = Part::default();
    let mut t = vec![];
    for p in parts {
        r.nodes.extend(p.nodes);
        r.ops.extend(p.ops);
        r.arity.extend(p.arity);
        t.push(if s.chance(1, 5) { format!("({})", p.text) } else { p.text });
    }
    r.text = t.join([" & ", "&", "\n&"][s.idx(3)]);
    r
}

fn to_alt(parts: &[&Part]) -> Alt {
    let mut a = Alt::default();
    for p in parts {
        a.nodes.extend(p.nodes.iter().cloned());
    }
    let at = |x: &String| a.nodes.iter().position(|n| n.var.as_ref() == Some(x)).unwrap();
    let mut ops = vec![];
    let mut ar = vec![];
    for p in parts {
        for (l, r, op, neg) in &p.ops {
            ops.push(QOp { l: at(l), r: at(r), op: op.clone(), neg: *neg });
        }
        for (v, r) in &p.arity {
            ar.push((at(v), r.clone()));
        }
    }
    a.ops = ops;
    a.arity = ar;
    a
}

fn nested(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut o = opts(s, ctx);
    o.max_tok = o.max_tok.min(5);
    let st = setup(s, ctx, &o)?;
    for _ in 0..4 {
        let mut used = vec![];
        let mut shared: Vec<String> = vec![];
        let mut pieces = vec![];
        let mut chain = false;
        if s.chance(1, 3) {
            // chain of operators
            let n = s.size(2, 3);
            let mut p = Part::default();
            for i in 0..n {
                if i > 0 {
                    let op = gen_op(s, &st.c, Family::All);
                    let neg = false;
                    p.text += &format!(" {} ", show_op(s, &op, neg));
                    let l = shared.last().unwrap().clone();
                    let name = var(s, &mut used);
                    p.ops.push((l, name.clone(), op, neg));
                    shared.push(name);
                } else {
                    shared.push(var(s, &mut used));
                }
                let mut q = node(gen_spec(s, &st.v, &st.c));
                q.var = shared.last().cloned();
                p.text += &show_node(&q);
                p.nodes.push(q);
            }
            chain = n > 2;
            pieces.push(Piece::Plain(p));
        } else {
            let name = var(s, &mut used);
            let mut q = node(gen_spec(s, &st.v, &st.c));
            q.var = Some(name.clone());
            shared.push(name);
            pieces.push(Piece::Plain(Part { text: show_node(&q), nodes: vec![q], ..Part::default() }));
            if s.chance(1, 2) {
                let p = linked(s, &st.v, &st.c, &shared.clone(), &mut used);
                shared.push(p.nodes[0].var.clone().unwrap());
                pieces.push(Piece::Plain(p));
            }
        }
        let mut nodes = shared.len();
        let groups = if nodes > 2 { 1 } else { s.weighted(&[1, 4, 1]) };
        for _ in 0..groups {
            let mut options = vec![];
            let mut extra = 0;
            for _ in 0..s.size(2, 3) {
                let mut ps = vec![];
                if nodes < 3 && s.chance(1, 2) {
                    ps.push(linked(s, &st.v, &st.c, &shared, &mut used));
                    extra = 1;
                }
                if ps.is_empty() || s.chance(1, 4) {
                    ps.push(constraint(s, &st.c, &shared));
                }
                s.shuffle(&mut ps);
                options.push(join(ps, s));
            }
            nodes += extra;
            pieces.push(Piece::Or(options));
        }
        // conditions for the whole query
        if s.chance(1, 4) && shared.len() > 1 {
            pieces.push(Piece::Plain(constraint(s, &st.c, &shared)));
        }
        if s.chance(1, 2) {
            s.shuffle(&mut pieces);
        }
        let mut text = vec![];
        let mut alts: Vec<Vec<&Part>> = vec![vec![]];
        for p in &pieces {
            match p {
                Piece::Plain(p) => {
                    text.push(p.text.clone());
                    for a in alts.iter_mut() {
                        a.push(p);
                    }
                }
                Piece::Or(options) => {
                    let mut t: Vec<String> = vec![];
                    for o in options {
                        t.push(if s.chance(1, 4) { format!("({})", o.text) } else { o.text.clone() });
                    }
                    let bar = format!("{}|{}", space(s), space(s));
                    let t = t.join(&bar);
                    text.push(if pieces.len() > 1 || s.chance(1, 2) { format!("({t})") } else { t });
                    let mut next = vec![];
                    for a in &alts {
                        for o in options {
                            let mut b = a.clone();
                            b.push(o);
                            next.push(b);
                        }
                    }
                    alts = next;
                }
            }
        }
        let mut t = String::new();
        for (i, x) in text.iter().enumerate() {
            if i > 0 {
                t += space(s);
                t += "&";
                t += space(s);
            }
            t += x;
        }
        let q = Query { alts: alts.iter().map(|a| to_alt(a)).collect() };
        let text = t;
        ctx.note(format!("query {text}"));
        let e = evaluate(&st.v, &q);
        if e.too_big {
            ctx.label("skipped: too big");
            continue;
        }
        let got = match run(&st.g, &st.ids, &text, s.chance(1, 5)) {
            Ok(got) => got,
            // some alternative may be invalid as it is, e.g. ambiguous comparisons
            Err(f) => {
                if run(&st.g, &st.ids, &q.plain(), false).is_ok() {
                    return Err(f);
                }
                ctx.label("invalid query");
                continue;
            }
        };
        compare(&st.v, &text, &e, &got)?;
        let expanded: BTreeSet<Tuple> = run(&st.g, &st.ids, &q.plain(), false)?.into_iter().collect();
        compare(&st.v, &text, &e, &expanded.into_iter().collect::<Vec<_>>())?;
        ctx.label_if(alts.len() > 1, "nested");
        ctx.label_if(chain, "chain");
        ctx.nontrivial_if(!e.sure.is_empty() && (alts.len() > 1 || chain));
    }
    Ok(())
}

// ------------------------------------------------------------- legacy queries

fn legacy(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut o = opts(s, ctx);
    o.max_tok = o.max_tok.min(5);
    o.max_docs = 3;
    let st = setup(s, ctx, &o)?;
    let v = &st.v;
    let doc_key = k("annis", "doc");
    let docs: Vec<usize> = (0..v.names.len()).filter(|i| v.annos[*i].contains_key(&doc_key)).collect();
    for _ in 0..4 {
        let mut q = Query::default();
        for i in 0..s.weighted(&[3, 1]) + 1 {
            let n = s.size(1, 2);
            let mut a = gen_alt(s, v, &st.c, n, Family::All);
            a.ops.truncate(1);
            for x in a.nodes.iter_mut() {
                if let Some(v) = &mut x.var {
                    *v = format!("{v}{}", ["a", "b"][i]);
                }
            }
            q.alts.push(a);
        }
        // metadata conditions hold for the document of the first node
        let mut metas: Vec<(Spec, String)> = vec![];
        for _ in 0..s.weighted(&[1, 4, 2]) {
            let mut keys: Vec<(Key, String)> =
                docs.iter().flat_map(|d| v.annos[*d].iter()).filter(|(x, _)| x.1 != "node_type").map(|(a, b)| (a.clone(), b.clone())).collect();
            keys.push((k("", "nothing"), "x".into()));
            let (key, val) = s.pick(&keys).clone();
            let id = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !x.starts_with(|c: char| c.is_ascii_digit());
            if !id(&key.1) || val.contains('"') {
                continue;
            }
            let ns = if s.chance(1, 2) && id(&key.0) { Some(key.0.clone()) } else { None };
            let name = key.1.clone();
            let val = if s.chance(1, 4) { "other".to_string() } else { val };
            let re = |x: &str| regex::escape(x).replace('/', "\\/");
            let spec = match s.idx(4) {
                0 => Spec::NotExact { ns, name, val },
                1 => Spec::Regex { ns, name, val: if s.chance(1, 2) { re(&val) } else { s.pick(&REGEXES).to_string() } },
                2 => Spec::NotRegex { ns, name, val: if s.chance(1, 2) { re(&val) } else { s.pick(&REGEXES).to_string() } },
                _ => Spec::Exact { ns, name, val: Some(val) },
            };
            let t = format!("meta::{}", spec.print());
            metas.push((spec, t));
        }
        let base: Vec<String> = {
            let mut off = 0;
            q.alts
                .iter()
                .map(|a| {
                    let t = a.print(off, &mut |n| s.idx(n));
                    off += a.nodes.len();
                    t
                })
                .collect()
        };
        let mut base = base;
        for (_, m) in &metas {
            let i = s.idx(base.len());
            base[i] = if s.chance(1, 4) { format!("{m} & {}", base[i]) } else { format!("{} & {m}", base[i]) };
        }
        let text = base.join(" | ");
        ctx.note(format!("legacy query {text}"));
        let e = evaluate(v, &q);
        if e.too_big {
            ctx.label("skipped: too big");
            continue;
        }
        let part_of = v.comps.get(&comp("PartOf", "annis", ""));
        let keep = |t: &Tuple| -> bool {
            if metas.is_empty() {
                return true;
            }
            let n = t[0].0;
            docs.iter().any(|d| {
                part_of.is_some_and(|p| p.connected(n, *d, 1, None))
                    && metas.iter().all(|(sp, _)| {
                        let key = match sp {
                            Spec::Exact { ns, name, .. } | Spec::NotExact { ns, name, .. } | Spec::Regex { ns, name, .. } | Spec::NotRegex { ns, name, .. } => {
                                (ns.clone(), name.clone())
                            }
                            _ => unreachable!(),
                        };
                        v.annos[*d].iter().any(|(x, val)| {
                            if key.1 != x.1 || key.0.as_ref().is_some_and(|n| *n != x.0) {
                                return false;
                            }
                            let re = |r: &str| regex::Regex::new(&format!("^(?:{r})$")).unwrap().is_match(val);
                            match sp {
                                Spec::Exact { val: Some(y), .. } => val == y,
                                Spec::NotExact { val: y, .. } => val != y,
                                Spec::Regex { val: y, .. } => re(y),
                                Spec::NotRegex { val: y, .. } => !re(y),
                                _ => unreachable!(),
                            }
                        })
                    })
            })
        };
        let e = Expected {
            sure: e.sure.into_iter().filter(|t| keep(t)).collect(),
            possible: e.possible.into_iter().filter(|t| keep(t)).collect(),
            too_big: false,
        };
        if !metas.is_empty() && graphannis::aql::parse(&text, false).is_ok() {
            return fail("legacy:mode", format!("{text:?} is valid without the legacy mode"));
        }
        let d = graphannis::aql::parse(&text, true).must("parse")?;
        let it = graphannis::aql::execute_query_on_graph(&st.g, &d, s.chance(1, 5), None).must("execute")?;
        let mut got = vec![];
        for m in it {
            let mut t: Tuple = vec![];
            for x in m.must("match")?.iter() {
                t.push((st.ids.map[&x.node], (x.anno_key.ns.to_string(), x.anno_key.name.to_string())));
            }
            got.push(t);
        }
        compare(v, &text, &e, &got)?;
        ctx.label_if(!metas.is_empty(), "metadata conditions");
        ctx.label_if(metas.len() > 1, "several metadata conditions");
        ctx.nontrivial_if(!e.sure.is_empty() && !metas.is_empty());
    }
    Ok(())
}

// ------------------------------------------------------------- parsing

const TOKENS: [&str; 78] = [
    "tok", "node", "&", "|", "(", ")", "#1", "#2", "#3", "#0", "#99999999999999999999", "#a", "a#", "b#", "#b", "pos", "default_ns:pos", ":", "=", "!=", "==",
    "\"a\"", "\"\"", "/a.*/", "/(/", "/[/", "//", "/\\//", "/a\\", "\"", "/", "?", "!", ".", ".*", ".1,2", ".2,1", ".0", ".99999999999999999999", ".1,99999999999999999999", ".norm", ".norm,1,2", "^", "^*",
    "^2", ">", ">*", ">edge", ">[x=\"1\"]", ">edge[a:b=/x/]", "->dep", "->dep *", "->dep,1,5", "->", "@", "@*", "@1,3", "_o_", "_i_", "_=_", "_l_", "_r_", "_ident_", ":arity=1", ":arity=1,2", ":arity=*",
    ":arity", "meta::", "meta::a=\"b\"", "annis:doc", "[", "]", "ä", "\u{0}", "\n", "_", "%", "-",
];

fn soup(s: &mut Src, n: usize) -> String {
    let mut r = String::new();
    for _ in 0..n {
        if s.chance(1, 8) {
            // a typical piece
            r += s.pick(&["tok & tok", "#1 . #2", "tok=\"a\" . pos", "(tok|node)", "tok?", "x#tok", "#1 == #2", "#1 !. #2"]);
        } else {
            r += s.pick(&TOKENS);
        }
        r += [" ", " ", "", "\n"][s.idx(4)];
    }
    r
}

fn garbage(s: &mut Src, n: usize) -> String {
    let chars: Vec<char> = "tok node#1&|().:*=!?\"/\\[]<>@^-_,09aäß\u{0}\n\r\t\u{1F600}\u{202E}%{}".chars().collect();
    (0..n)
        .map(|_| if s.chance(1, 20) { char::from_u32(s.below(0x11_0000) as u32).unwrap_or('x') } else { *s.pick(&chars) })
        .collect()
}

fn mutate(s: &mut Src, q: &str) -> String {
    let mut c: Vec<char> = q.chars().collect();
    for _ in 0..s.size(1, 3) {
        let i = s.idx(c.len() + 1);
        match s.idx(5) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 => {
                let t = s.pick(&TOKENS);
                let v: Vec<char> = t.chars().collect();
                c.splice(i..i, v);
            }
            2 if i < c.len() => {
                let j = s.idx(c.len());
                c.swap(i, j);
            }
            3 => c.truncate(i),
            _ => {
                let j = (i + s.size(1, 12)).min(c.len());
                let v: Vec<char> = c[i..j].to_vec();
                let p = s.idx(c.len() + 1);
                c.splice(p..p, v);
            }
        }
    }
    c.into_iter().collect()
}

fn valid(s: &mut Src, v: &View, c: &Corpus) -> String {
    let mut q = Query::default();
    for _ in 0..s.weighted(&[3, 1, 1]) + 1 {
        let n = s.size(1, 4);
        q.alts.push(gen_alt(s, v, c, n, Family::All));
    }
    q.print(&mut |n| s.idx(n))
}

fn text(s: &mut Src, v: &View, c: &Corpus) -> String {
    match s.weighted(&[3, 4, 5, 2, 2]) {
        0 => {
            let n = s.size(0, 30);
            garbage(s, n)
        }
        1 => {
            let n = s.size(0, 14);
            soup(s, n)
        }
        2 => {
            let q = valid(s, v, c);
            mutate(s, &q)
        }
        3 => {
            // deep nesting
            let d = s.size(1, 60);
            let q = valid(s, v, c);
            let extra = s.weighted(&[4, 1, 1]);
            format!("{}{q}{}", "(".repeat(d + (extra == 1) as usize), ")".repeat(d + (extra == 2) as usize))
        }
        _ => valid(s, v, c),
    }
}

fn location(q: &str, e: &GraphAnnisError) -> R {
    let (e, kind) = match e {
        GraphAnnisError::AQLSyntaxError(e) => (e, "syntax"),
        GraphAnnisError::AQLSemanticError(e) => (e, "semantic"),
        e => return fail("parse:error", format!("parsing {q:?} gives the error {e}, which is not an error in the query")),
    };
    if e.desc.is_empty() {
        return fail("parse:error", format!("the error for {q:?} has no description"));
    }
    let lines: Vec<&str> = q.split('\n').collect();
    let ok = |l: usize, c: usize| l < lines.len() && c >= 1 && c <= lines[l].len() + 1;
    if let Some(l) = &e.location {
        let mut good = ok(l.start.line, l.start.column) || (q.is_empty() && l.start.line == 0);
        if let Some(end) = &l.end {
            good &= ok(end.line, end.column) && (end.line, end.column) >= (l.start.line, l.start.column);
        }
        if !good {
            return fail("parse:location", format!("the {kind} error for {q:?} is located at {l}, which is not in the query"));
        }
    }
    Ok(())
}

fn dummy(s: &mut Src) -> (Corpus, View) {
    let c = gen_corpus(s, &Opts { max_docs: 1, max_tok: 3, ..Opts::default() });
    let v = View::new(&c.m);
    (c, v)
}

fn total(s: &mut Src, ctx: &mut Ctx) -> R {
    let (c, v) = dummy(s);
    let (mut good, mut bad) = (0, 0);
    for _ in 0..25 {
        let q = text(s, &v, &c);
        let quirks = s.chance(1, 4);
        ctx.note(format!("parse {q:?} quirks={quirks}"));
        match graphannis::aql::parse(&q, quirks) {
            Ok(_) => good += 1,
            Err(e) => {
                bad += 1;
                location(&q, &e)?;
                let again = graphannis::aql::parse(&q, quirks);
                if again.is_ok() || again.err().map(|e| e.to_string()) != Some(e.to_string()) {
                    return fail("parse:deterministic", format!("parsing {q:?} twice gives different results"));
                }
            }
        }
    }
    ctx.nontrivial_if(good > 0 && bad > 0);
    Ok(())
}

/// Kind and description of an error
fn err(e: &GraphAnnisError) -> String {
    e.to_string()
}

fn agree(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = Opts { max_docs: 2, max_tok: 3, ..Opts::default() };
    let st = cs::setup(s, ctx, 1, &o)?;
    let p = &st.parts[0];
    let names = vec![p.name.clone()];
    let (mut good, mut bad) = (0, 0);
    for _ in 0..12 {
        let q = text(s, &p.v, &p.c);
        // too many alternatives or unrestricted nodes
        if q.matches("tok").count() + q.matches("node").count() > 5 || q.matches('|').count() > 4 {
            ctx.label("skipped: expensive");
            continue;
        }
        let lang = if s.chance(1, 5) { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
        ctx.note(format!("query {q:?} {lang:?}"));
        let sq = || SearchQuery { corpus_names: &names, query: &q, query_language: lang, timeout: Some(std::time::Duration::from_secs(5)) };
        let v = st.cs().validate_query(&names, &q, lang);
        let results: Vec<(&str, Result<(), GraphAnnisError>)> = vec![
            ("count", st.cs().count(sq()).map(|_| ())),
            ("find", st.cs().find(sq(), 0, Some(10), ResultOrder::Normal).map(|_| ())),
            ("plan", st.cs().plan(&names, &q, lang).map(|_| ())),
            ("count_extra", st.cs().count_extra(sq()).map(|_| ())),
            ("subgraph_for_query", st.cs().subgraph_for_query(&p.name, &q, lang, None).map(|_| ())),
        ];
        let parsed = st.cs().node_descriptions(&q, lang);
        match &v {
            Ok(true) => good += 1,
            Ok(false) => return fail("agree:validate", format!("{q:?} is invalid without an error")),
            Err(e) => {
                bad += 1;
                location(&q, e)?;
                if let GraphAnnisError::AQLSyntaxError(_) = e
                    && parsed.is_ok()
                {
                    return fail("agree:describe", format!("{q:?} has the error {e}, but is described successfully"));
                }
            }
        }
        if v.is_ok() && parsed.is_err() {
            return fail("agree:describe", format!("{q:?} is valid, but can not be described"));
        }
        for (what, r) in results {
            match (&v, &r) {
                (_, Err(GraphAnnisError::Timeout)) => {}
                (Ok(_), Ok(_)) => {}
                (Ok(_), Err(e)) => return fail("agree:error", format!("{q:?} is valid, but {what} reports {e}")),
                (Err(e), Ok(_)) => return fail("agree:valid", format!("{q:?} is invalid ({e}), but {what} has a result")),
                (Err(e), Err(f)) => {
                    if err(e) != err(f) {
                        return fail("agree:different", format!("{q:?} is invalid with {e}, but {what} reports {f}"));
                    }
                }
            }
        }
    }
    ctx.nontrivial_if(good > 0 && bad > 0);
    Ok(())
}

fn describe(s: &mut Src, ctx: &mut Ctx) -> R {
    let (c, v) = dummy(s);
    let dir = ctx.dir();
    let st = cs::open(&dir, 0, false)?;
    for _ in 0..10 {
        let mut q = Query::default();
        let na = s.weighted(&[3, 1, 1]) + 1;
        for i in 0..na {
            let n = s.size(1, 4);
            let mut a = gen_alt(s, &v, &c, n, Family::All);
            for x in a.nodes.iter_mut() {
                if let Some(v) = &mut x.var {
                    *v = format!("{v}{}", ["a", "b", "c"][i]);
                }
            }
            if n == 2 && s.chance(1, 4) {
                a.ops.truncate(1);
                a.ops[0].neg = true;
                a.nodes[s.idx(2)].optional = true;
            }
            q.alts.push(a);
        }
        let text = q.print(&mut |n| s.idx(n));
        ctx.note(format!("describe {text}"));
        let got = st.node_descriptions(&text, QueryLanguage::AQL).must("describe")?;
        let mut nr = 0;
        let all: usize = q.alts.iter().map(|a| a.nodes.len()).sum();
        if got.len() != all {
            return fail("describe:count", format!("{} nodes are described for {text:?}, which has {all} nodes", got.len()));
        }
        for (i, a) in q.alts.iter().enumerate() {
            for n in &a.nodes {
                let g = &got[nr];
                nr += 1;
                let var = n.var.clone().unwrap_or(format!("{nr}"));
                if g.alternative != i || g.variable != var || g.optional != n.optional {
                    return fail(
                        "describe:node",
                        format!("node {nr} of {text:?} is described as {} in alternative {} optional={}", g.variable, g.alternative, g.optional),
                    );
                }
                let name = match &n.spec {
                    Spec::Exact { name, .. } | Spec::Regex { name, .. } => Some(name.clone()),
                    _ => None,
                };
                if g.anno_name != name {
                    return fail("describe:name", format!("node {nr} of {text:?} is described with the annotation {:?}", g.anno_name));
                }
                if g.query_fragment != n.spec.print() {
                    return fail("describe:fragment", format!("node {nr} of {text:?} is described by the fragment {:?}", g.query_fragment));
                }
                let again = st.node_descriptions(&g.query_fragment, QueryLanguage::AQL).must("describe fragment")?;
                if again.len() != 1 || again[0].query_fragment != g.query_fragment || again[0].anno_name != g.anno_name {
                    return fail("describe:fragment", format!("fragment {:?} of {text:?} is described differently", g.query_fragment));
                }
            }
        }
        ctx.nontrivial_if(all > 2);
    }
    Ok(())
}
