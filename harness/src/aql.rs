//! Query generator, printer and reference evaluator for the query language.
//!
//! The evaluator enumerates all assignments and checks the operators against
//! the [`View`]; it knows nothing about plans, indexes or estimations. An
//! operator result of `None` means that the specification leaves the answer
//! open (such tuples may, but need not be part of the result).
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    Exact { ns: Option<String>, name: String, val: Option<String> },
    NotExact { ns: Option<String>, name: String, val: String },
    Regex { ns: Option<String>, name: String, val: String },
    NotRegex { ns: Option<String>, name: String, val: String },
    Tok,
    Node,
    TokExact(String),
    TokNotExact(String),
    TokRegex(String),
    TokNotRegex(String),
    Text(String),
    TextRegex(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Range {
    Default,
    Exact(usize),
    Between(usize, usize),
    Any,
}
impl Range {
    pub fn min(&self) -> usize {
        match self {
            Range::Default | Range::Any => 1,
            Range::Exact(a) | Range::Between(a, _) => *a,
        }
    }
    pub fn max(&self) -> Option<usize> {
        match self {
            Range::Default => Some(1),
            Range::Any => None,
            Range::Exact(a) => Some(*a),
            Range::Between(_, b) => Some(*b),
        }
    }
    fn print(&self, named: bool, alt: bool) -> String {
        let sep = if named {
            if alt { "," } else { " " }
        } else {
            ""
        };
        match self {
            Range::Default => String::new(),
            Range::Exact(a) => format!("{sep}{a}"),
            Range::Between(a, b) => format!("{sep}{a},{b}"),
            Range::Any => if named { " *".into() } else { "*".into() },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct EdgeAnno {
    pub ns: Option<String>,
    pub name: String,
    pub val: String,
    pub neg: bool,
    pub re: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Dom { name: String, range: Range, anno: Option<EdgeAnno> },
    Point { name: String, range: Range, anno: Option<EdgeAnno> },
    Prec { seg: Option<String>, range: Range },
    Near { seg: Option<String>, range: Range },
    Overlap,
    Incl,
    IdentCov,
    Left,
    Right,
    IdentNode,
    PartOf(Range),
    Equal,
    NotEqual,
}

#[derive(Clone, Debug, PartialEq)]
pub struct QNode {
    pub spec: Spec,
    pub var: Option<String>,
    pub optional: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct QOp {
    pub l: usize,
    pub r: usize,
    pub op: Op,
    pub neg: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Alt {
    pub nodes: Vec<QNode>,
    pub ops: Vec<QOp>,
    pub arity: Vec<(usize, Range)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Query {
    pub alts: Vec<Alt>,
}

fn qn(ns: &Option<String>, name: &str) -> String {
    match ns {
        Some(n) => format!("{n}:{name}"),
        None => name.to_string(),
    }
}

impl Spec {
    pub fn print(&self) -> String {
        match self {
            Spec::Exact { ns, name, val: None } => qn(ns, name),
            Spec::Exact { ns, name, val: Some(v) } => format!("{}=\"{v}\"", qn(ns, name)),
            Spec::NotExact { ns, name, val } => format!("{}!=\"{val}\"", qn(ns, name)),
            Spec::Regex { ns, name, val } => format!("{}=/{val}/", qn(ns, name)),
            Spec::NotRegex { ns, name, val } => format!("{}!=/{val}/", qn(ns, name)),
            Spec::Tok => "tok".into(),
            Spec::Node => "node".into(),
            Spec::TokExact(v) => format!("tok=\"{v}\""),
            Spec::TokNotExact(v) => format!("tok!=\"{v}\""),
            Spec::TokRegex(v) => format!("tok=/{v}/"),
            Spec::TokNotRegex(v) => format!("tok!=/{v}/"),
            Spec::Text(v) => format!("\"{v}\""),
            Spec::TextRegex(v) => format!("/{v}/"),
        }
    }
}
impl Op {
    pub fn print(&self, style: bool) -> String {
        let an = |a: &Option<EdgeAnno>| match a {
            None => String::new(),
            Some(a) => {
                let q = if a.re { '/' } else { '"' };
                format!("[{}{}{q}{}{q}]", qn(&a.ns, &a.name), if a.neg { "!=" } else { "=" }, a.val)
            }
        };
        match self {
            Op::Dom { name, range, anno } => {
                format!(">{name}{}{}", range.print(!name.is_empty(), style), if anno.is_some() { format!(" {}", an(anno)) } else { String::new() })
            }
            Op::Point { name, range, anno } => {
                format!("->{name}{}{}", range.print(true, style), if anno.is_some() { format!(" {}", an(anno)) } else { String::new() })
            }
            Op::Prec { seg, range } => {
                let s = seg.clone().unwrap_or_default();
                format!(".{s}{}", range.print(!s.is_empty(), style))
            }
            Op::Near { seg, range } => {
                let s = seg.clone().unwrap_or_default();
                format!("^{s}{}", range.print(!s.is_empty(), style))
            }
            Op::Overlap => "_o_".into(),
            Op::Incl => "_i_".into(),
            Op::IdentCov => "_=_".into(),
            Op::Left => "_l_".into(),
            Op::Right => "_r_".into(),
            Op::IdentNode => "_ident_".into(),
            Op::PartOf(r) => format!("@{}", r.print(false, style)),
            Op::Equal => "==".into(),
            Op::NotEqual => "!=".into(),
        }
    }
    /// may the operator connect otherwise unconnected parts of a query
    pub fn binding(&self) -> bool {
        !matches!(self, Op::Equal | Op::NotEqual)
    }
    pub fn reflexive(&self) -> bool {
        !matches!(self, Op::Overlap | Op::Incl | Op::IdentCov | Op::Left | Op::Right | Op::PartOf(_))
    }
}

impl Alt {
    fn var(&self, i: usize, offset: usize) -> String {
        match &self.nodes[i].var {
            Some(v) => format!("#{v}"),
            None => format!("#{}", offset + i + 1),
        }
    }
    fn node_text(&self, i: usize) -> String {
        let n = &self.nodes[i];
        format!(
            "{}{}{}",
            n.var.as_ref().map(|v| format!("{v}#")).unwrap_or_default(),
            n.spec.print(),
            if n.optional { "?" } else { "" }
        )
    }
    /// `style` selects between equivalent notations, one draw per element
    pub fn print(&self, offset: usize, style: &mut dyn FnMut(usize) -> usize) -> String {
        let mut parts: Vec<String> = vec![];
        let mut used = vec![false; self.ops.len()];
        let optext = |o: &QOp, style: &mut dyn FnMut(usize) -> usize| {
            format!("{}{}", if o.neg { "!" } else { "" }, o.op.print(style(2) == 1))
        };
        let sp = |style: &mut dyn FnMut(usize) -> usize, o: &QOp| {
            // names of operators could merge with the operand when not separated
            let _ = o;
            [" ", "  ", "\n", " "][style(4)].to_string()
        };
        let mut i = 0;
        let mut introduced = 0;
        while i < self.nodes.len() {
            // an operator between this node and the next one or an earlier one
            let mut done = false;
            if style(2) == 1 && i + 1 < self.nodes.len() {
                if let Some(x) = self.ops.iter().enumerate().position(|(j, o)| !used[j] && o.l == i && o.r == i + 1 && (o.op.binding())) {
                    used[x] = true;
                    let o = &self.ops[x];
                    parts.push(format!("{}{}{}{}{}", self.node_text(i), sp(style, o), optext(o, style), sp(style, o), self.node_text(i + 1)));
                    i += 2;
                    introduced = i;
                    done = true;
                }
            }
            if !done && style(2) == 1 {
                let x = self.ops.iter().enumerate().position(|(j, o)| {
                    !used[j] && o.op.binding() && ((o.l == i && o.r < introduced) || (o.r == i && o.l < introduced))
                });
                if let Some(x) = x {
                    used[x] = true;
                    let o = &self.ops[x];
                    let a = if o.l == i { self.node_text(i) } else { self.var(o.l, offset) };
                    let b = if o.r == i { self.node_text(i) } else { self.var(o.r, offset) };
                    parts.push(format!("{a}{}{}{}{b}", sp(style, o), optext(o, style), sp(style, o)));
                    i += 1;
                    introduced = i;
                    done = true;
                }
            }
            if !done {
                parts.push(self.node_text(i));
                i += 1;
                introduced = i;
            }
        }
        for (j, o) in self.ops.iter().enumerate() {
            if !used[j] {
                parts.push(format!("{} {} {}", self.var(o.l, offset), optext(o, style), self.var(o.r, offset)));
            }
        }
        for (n, r) in &self.arity {
            let r = match r {
                Range::Default => "1".to_string(),
                x => x.print(false, false),
            };
            parts.push(format!("{}:arity={r}", self.var(*n, offset)));
        }
        parts.join([" & ", "&", "\n& "][style(3)])
    }
}

impl Query {
    pub fn print(&self, style: &mut dyn FnMut(usize) -> usize) -> String {
        let mut off = 0;
        let mut r = vec![];
        for a in &self.alts {
            let t = a.print(off, style);
            r.push(if self.alts.len() > 1 && style(2) == 1 { format!("({t})") } else { t });
            off += a.nodes.len();
        }
        r.join(" | ")
    }
    pub fn plain(&self) -> String {
        self.print(&mut |_| 0)
    }
}

// ------------------------------------------------------------------ generator

pub const REGEXES: [&str; 20] = [
    "a", ".*", "a.*", "[ab]+", "N.", "NN?", "a|b", "(?i)nn", "", ".", "N\\.", "[^a]", "ä|a", "a.b", "(NN|VB)", "[a-zé]+", "\\Ba", "a\\b", "a$b", "[a&&b]",
];

pub fn gen_range(s: &mut Src) -> Range {
    match gen_range0(s) {
        // a distance of zero is only defined for paths
        Range::Exact(0) => Range::Exact(1),
        Range::Between(0, b) => Range::Between(1, b.max(1)),
        r => r,
    }
}
pub fn gen_range0(s: &mut Src) -> Range {
    match s.weighted(&[5, 3, 3, 3]) {
        0 => Range::Default,
        1 => Range::Exact(if s.chance(1, 12) { 0 } else { s.size(1, 3) }),
        2 => {
            let a = if s.chance(1, 10) { 0 } else { s.size(1, 3) };
            Range::Between(a, a + s.size(0, 3))
        }
        _ => Range::Any,
    }
}

fn ns_opt(s: &mut Src, ns: &str) -> Option<String> {
    // a namespace cannot be empty in a query
    if ns.is_empty() || s.chance(1, 2) { None } else { Some(ns.to_string()) }
}

/// A value occurring in the corpus for the key or one from the general list.
fn some_val(s: &mut Src, v: &View, name: &str, general: &[&str]) -> String {
    if s.chance(1, 2) {
        let mut vals: BTreeSet<&String> = BTreeSet::new();
        for a in &v.annos {
            for ((_, n), x) in a {
                if n == name && !x.contains('"') {
                    vals.insert(x);
                }
            }
        }
        let vals: Vec<_> = vals.into_iter().collect();
        if !vals.is_empty() {
            return (*s.pick(&vals)).clone();
        }
    }
    s.pick(general).to_string()
}

pub fn gen_spec(s: &mut Src, v: &View, c: &Corpus) -> Spec {
    match s.weighted(&[6, 5, 4, 2, 2, 3, 2, 1, 2, 1, 2, 1, 2, 3]) {
        0 => Spec::Tok,
        1 => Spec::Node,
        2 => {
            let (ns, n) = *s.pick(&ANNO_KEYS);
            Spec::Exact { ns: ns_opt(s, ns), name: n.into(), val: None }
        }
        3 => {
            let (ns, n) = *s.pick(&ANNO_KEYS);
            Spec::Exact { ns: ns_opt(s, ns), name: n.into(), val: Some(some_val(s, v, n, &ANNO_VALS)) }
        }
        4 => {
            let (ns, n) = *s.pick(&ANNO_KEYS);
            Spec::NotExact { ns: ns_opt(s, ns), name: n.into(), val: some_val(s, v, n, &ANNO_VALS) }
        }
        5 => {
            let (ns, n) = *s.pick(&ANNO_KEYS);
            Spec::Regex { ns: ns_opt(s, ns), name: n.into(), val: s.pick(&REGEXES).to_string() }
        }
        6 => {
            let (ns, n) = *s.pick(&ANNO_KEYS);
            Spec::NotRegex { ns: ns_opt(s, ns), name: n.into(), val: s.pick(&REGEXES).to_string() }
        }
        7 => Spec::TokExact(some_val(s, v, "tok", &TOKVALS)),
        8 => Spec::TokNotExact(some_val(s, v, "tok", &TOKVALS)),
        9 => Spec::TokRegex(s.pick(&REGEXES).to_string()),
        10 => Spec::TokNotRegex(s.pick(&REGEXES).to_string()),
        11 => Spec::Text(some_val(s, v, "tok", &TOKVALS)),
        12 => Spec::TextRegex(s.pick(&REGEXES).to_string()),
        _ => match s.idx(6) {
            0 => Spec::Exact { ns: Some("annis".into()), name: "doc".into(), val: None },
            1 => Spec::Exact { ns: None, name: "genre".into(), val: None },
            2 => Spec::Exact { ns: Some("m".into()), name: "genre".into(), val: Some(s.pick(&META_VALS).to_string()) },
            3 => Spec::Exact { ns: Some("annis".into()), name: "node_type".into(), val: Some(s.pick(&["corpus", "node", "datasource"]).to_string()) },
            4 => {
                let n = s.pick(&v.names).clone();
                Spec::Exact { ns: Some("annis".into()), name: "node_name".into(), val: Some(n) }
            }
            _ => {
                let n = c.segs.iter().next().cloned().unwrap_or("norm".into());
                Spec::Exact { ns: None, name: n, val: None }
            }
        },
    }
}

pub fn gen_edge_anno(s: &mut Src) -> EdgeAnno {
    let (ns, n) = *s.pick(&EDGE_KEYS);
    let re = s.chance(1, 3);
    EdgeAnno {
        ns: ns_opt(s, ns),
        name: n.into(),
        val: if re { s.pick(&["o.*", "sbj|obj", ".*", "o\\.j", ""]).to_string() } else { s.pick(&EDGE_VALS).to_string() },
        neg: s.chance(1, 3),
        re,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Family {
    Text,
    Edge,
    All,
}

pub fn gen_op(s: &mut Src, c: &Corpus, fam: Family) -> Op {
    let text = match fam {
        Family::Text => true,
        Family::Edge => false,
        Family::All => s.chance(1, 2),
    };
    let seg = |s: &mut Src| {
        if s.chance(1, 4) {
            let mut x: Vec<String> = c.segs.iter().cloned().collect();
            x.push("norm".into());
            Some(s.pick(&x).clone())
        } else {
            None
        }
    };
    if text {
        match s.weighted(&[5, 4, 3, 3, 3, 2, 2]) {
            0 => Op::Prec { seg: seg(s), range: gen_range(s) },
            1 => Op::Near { seg: seg(s), range: gen_range(s) },
            2 => Op::Overlap,
            3 => Op::Incl,
            4 => Op::IdentCov,
            5 => Op::Left,
            _ => Op::Right,
        }
    } else {
        match s.weighted(&[5, 5, 2, 2]) {
            0 => {
                let name = s.pick(&["", "edge", "secedge", "", "none"]).to_string();
                let anno = if s.chance(1, 3) { Some(gen_edge_anno(s)) } else { None };
                let range = if anno.is_some() { Range::Default } else { gen_range0(s) };
                Op::Dom { name, range, anno }
            }
            1 => {
                let name = s.pick(&["dep", "coref", "p-1", "dep", "none"]).to_string();
                let anno = if s.chance(1, 3) { Some(gen_edge_anno(s)) } else { None };
                let range = if anno.is_some() { Range::Default } else { gen_range0(s) };
                Op::Point { name, range, anno }
            }
            2 => Op::PartOf(gen_range0(s)),
            _ => Op::IdentNode,
        }
    }
}

pub fn node(spec: Spec) -> QNode {
    QNode { spec, var: None, optional: false }
}

/// Connected conjunction with `n` nodes.
pub fn gen_alt(s: &mut Src, v: &View, c: &Corpus, n: usize, fam: Family) -> Alt {
    let mut a = Alt::default();
    for i in 0..n {
        let mut q = node(gen_spec(s, v, c));
        if s.chance(1, 6) {
            q.var = Some(format!("v{i}"));
        }
        a.nodes.push(q);
    }
    for i in 1..n {
        let j = s.idx(i);
        let op = gen_op(s, c, fam);
        let (l, r) = if s.chance(1, 3) { (i, j) } else { (j, i) };
        a.ops.push(QOp { l, r, op, neg: false });
    }
    if n >= 2 && s.chance(1, 5) {
        let l = s.idx(n);
        let r = s.idx(n);
        if l != r {
            let op = gen_op(s, c, fam);
            a.ops.push(QOp { l, r, op, neg: false });
        }
    }
    a
}

// ------------------------------------------------------------------ evaluator

/// a match: node and the matched annotation
pub type M = (usize, Key);
pub type Tuple = Vec<M>;

fn full(re: &str) -> Option<regex::Regex> {
    regex::Regex::new(&format!("^(?:{re})$")).ok()
}

pub fn const_key() -> Key {
    k("annis", "node_type")
}

/// All matches of one node search.
pub fn candidates(v: &View, spec: &Spec) -> Vec<M> {
    let mut r = vec![];
    let by_key = |ns: &Option<String>, name: &str, f: &dyn Fn(&str) -> bool| {
        let mut r = vec![];
        for (i, a) in v.annos.iter().enumerate() {
            for ((n, m), x) in a {
                if m == name && ns.as_ref().is_none_or(|y| y == n) && f(x) {
                    r.push((i, (n.clone(), m.clone())));
                }
            }
        }
        r
    };
    let tokval = |leaf: bool, f: &dyn Fn(&str) -> bool| {
        let mut r = vec![];
        for i in 0..v.names.len() {
            if let Some(x) = v.val(i, "annis", "tok")
                && (!leaf || v.token[i])
                && f(x)
            {
                r.push((i, const_key()));
            }
        }
        r
    };
    match spec {
        Spec::Exact { ns, name, val } => r = by_key(ns, name, &|x| val.as_ref().is_none_or(|y| x == y)),
        Spec::NotExact { ns, name, val } => r = by_key(ns, name, &|x| x != val),
        Spec::Regex { ns, name, val } => {
            if let Some(re) = full(val) {
                r = by_key(ns, name, &|x| re.is_match(x))
            }
        }
        Spec::NotRegex { ns, name, val } => {
            if let Some(re) = full(val) {
                r = by_key(ns, name, &|x| !re.is_match(x))
            }
        }
        Spec::Tok => {
            for i in 0..v.names.len() {
                if v.token[i] {
                    r.push((i, const_key()));
                }
            }
        }
        Spec::Node => {
            for i in 0..v.names.len() {
                if v.val(i, "annis", "node_type").is_some_and(|t| t == "node") {
                    r.push((i, const_key()));
                }
            }
        }
        Spec::TokExact(x) => r = tokval(true, &|y| x == y),
        Spec::TokNotExact(x) => r = tokval(true, &|y| x != y),
        Spec::TokRegex(x) => {
            if let Some(re) = full(x) {
                r = tokval(true, &|y| re.is_match(y))
            }
        }
        Spec::TokNotRegex(x) => {
            if let Some(re) = full(x) {
                r = tokval(true, &|y| !re.is_match(y))
            }
        }
        Spec::Text(x) => r = tokval(false, &|y| x == y),
        Spec::TextRegex(x) => {
            if let Some(re) = full(x) {
                r = tokval(false, &|y| re.is_match(y))
            }
        }
    }
    r
}

fn in_range(d: i64, r: &Range) -> bool {
    d >= r.min() as i64 && r.max().is_none_or(|m| d <= m as i64)
}

fn edge_op(v: &View, t: &str, layer: Option<&str>, name: &str, range: &Range, anno: &Option<EdgeAnno>, a: usize, b: usize) -> Option<bool> {
    if a == b && range.min() == 0 {
        // the trivial path: left open, since not every edge storage has it
        return None;
    }
    Some(edge_path(v, t, layer, name, range, anno, a, b))
}
fn edge_path(v: &View, t: &str, layer: Option<&str>, name: &str, range: &Range, anno: &Option<EdgeAnno>, a: usize, b: usize) -> bool {
    for (c, cv) in &v.comps {
        if c.0 != t || c.2 != name || layer.is_some_and(|l| l != c.1) {
            continue;
        }
        if !cv.connected(a, b, range.min(), range.max()) {
            continue;
        }
        match anno {
            None => return true,
            Some(e) => {
                let re = if e.re { full(&e.val) } else { None };
                if let Some(x) = cv.annos.get(&(a, b)) {
                    for ((n, m), val) in x {
                        if m == &e.name && e.ns.as_ref().is_none_or(|y| y == n) {
                            let eq = match &re {
                                Some(re) => re.is_match(val),
                                None => val == &e.val,
                            };
                            if eq != e.neg {
                                return true;
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

fn value(v: &View, spec: &Spec, m: &M) -> Option<String> {
    match spec {
        Spec::Node => None,
        Spec::Exact { .. } | Spec::NotExact { .. } | Spec::Regex { .. } | Spec::NotRegex { .. } => v.annos[m.0].get(&m.1).cloned(),
        _ => v.val(m.0, "annis", "tok").cloned(),
    }
}

/// Truth value of an operator for two matches (without the reflexivity rule).
pub fn eval_op(v: &View, op: &Op, ls: &Spec, rs: &Spec, a: &M, b: &M) -> Option<bool> {
    let (x, y) = (a.0, b.0);
    let lr = || match (v.left[x], v.right[x], v.left[y], v.right[y]) {
        (Some(a), Some(b), Some(c), Some(d)) => Some((a, b, c, d)),
        _ => None,
    };
    Some(match op {
        Op::Dom { name, range, anno } => return edge_op(v, "Dominance", None, name, range, anno, x, y),
        Op::Point { name, range, anno } => return edge_op(v, "Pointing", None, name, range, anno, x, y),
        Op::PartOf(range) => return edge_op(v, "PartOf", Some("annis"), "", range, &None, x, y),
        Op::Prec { seg: None, range } => match (v.right[x], v.left[y]) {
            (Some(r), Some(l)) => v.tok_dist(r, l).is_some_and(|d| in_range(d, range)),
            _ => false,
        },
        Op::Prec { seg: Some(s), range } => return edge_op(v, "Ordering", Some("default_ns"), s, range, &None, x, y),
        Op::Near { seg: None, range } => match lr() {
            Some((lx, rx, ly, ry)) => {
                v.tok_dist(rx, ly).is_some_and(|d| in_range(d, range)) || v.tok_dist(ry, lx).is_some_and(|d| in_range(d, range))
            }
            None => false,
        },
        Op::Near { seg: Some(s), range } => {
            return or(
                edge_op(v, "Ordering", Some("default_ns"), s, range, &None, x, y),
                edge_op(v, "Ordering", Some("default_ns"), s, range, &None, y, x),
            );
        }
        Op::Overlap => {
            let shared = !v.covered[x].is_disjoint(&v.covered[y]);
            let by_range = match lr() {
                Some((lx, rx, ly, ry)) => {
                    v.tok_dist(lx, ry).is_some_and(|d| d >= 0) && v.tok_dist(ly, rx).is_some_and(|d| d >= 0)
                }
                None => false,
            };
            // nodes with gaps: the outer borders overlap, but no token is shared
            if shared != by_range {
                return None;
            }
            shared
        }
        Op::Incl => match lr() {
            Some((lx, rx, ly, ry)) => {
                v.tok_dist(lx, ly).is_some_and(|d| d >= 0) && v.tok_dist(ry, rx).is_some_and(|d| d >= 0)
            }
            None => false,
        },
        Op::IdentCov => lr().is_some_and(|(lx, rx, ly, ry)| lx == ly && rx == ry),
        Op::Left => lr().is_some_and(|(lx, _, ly, _)| lx == ly),
        Op::Right => lr().is_some_and(|(_, rx, _, ry)| rx == ry),
        Op::IdentNode => x == y,
        Op::Equal => match (value(v, ls, a), value(v, rs, b)) {
            (Some(p), Some(q)) => p == q,
            _ => false,
        },
        Op::NotEqual => match (value(v, ls, a), value(v, rs, b)) {
            (Some(p), Some(q)) => p != q,
            _ => false,
        },
    })
}

#[derive(Default, Debug)]
pub struct Expected {
    pub sure: BTreeSet<Tuple>,
    pub possible: BTreeSet<Tuple>,
    pub too_big: bool,
}

fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

fn arity_ok(v: &View, n: usize, r: &Range) -> bool {
    let mut t = BTreeSet::new();
    for (c, cv) in &v.comps {
        if (c.0 == "Dominance" || c.0 == "Pointing")
            && let Some(o) = cv.plain.out.get(&(n as u64))
        {
            t.extend(o.iter().copied());
        }
    }
    in_range(t.len() as i64, r)
}

pub fn eval_alt(v: &View, a: &Alt, out: &mut Expected, budget: &mut i64) {
    let cands: Vec<Vec<M>> = a.nodes.iter().map(|n| candidates(v, &n.spec)).collect();
    let real: Vec<usize> = (0..a.nodes.len()).filter(|i| !a.nodes[*i].optional).collect();
    fn rec(
        v: &View,
        a: &Alt,
        cands: &[Vec<M>],
        real: &[usize],
                d: usize,
        cur: &mut Vec<Option<M>>,
        state: Option<bool>,
        out: &mut Expected,
        budget: &mut i64,
    ) {
        *budget -= 1;
        if *budget < 0 {
            out.too_big = true;
            return;
        }
        if d == real.len() {
            // the reflexivity rule for operators whose operands have to be different
            let mut st = state;
            for o in &a.ops {
                if o.op.reflexive() || a.nodes[o.l].optional || a.nodes[o.r].optional {
                    continue;
                }
                let (ml, mr) = (cur[o.l].as_ref().unwrap(), cur[o.r].as_ref().unwrap());
                if ml == mr {
                    st = Some(false);
                } else {
                    let clash = real.iter().any(|x| {
                        (*x != o.l && cur[*x].as_ref() == Some(ml)) || (*x != o.r && cur[*x].as_ref() == Some(mr))
                    });
                    if clash {
                        st = and(st, None);
                    }
                }
            }
            if st == Some(false) {
                return;
            }
            let t: Tuple = real.iter().map(|i| cur[*i].clone().unwrap()).collect();
            if st == Some(true) {
                out.sure.insert(t.clone());
            }
            out.possible.insert(t);
            return;
        }
        let i = real[d];
        'c: for m in &cands[i] {
            let mut st = state;
            cur[i] = Some(m.clone());
            for (n, r) in &a.arity {
                if *n == i && !arity_ok(v, m.0, r) {
                    continue 'c;
                }
            }
            for o in &a.ops {
                if o.l != i && o.r != i {
                    continue;
                }
                let other = if o.l == i { o.r } else { o.l };
                if a.nodes[other].optional {
                    // no match of the optional node may fulfil the operator
                    let mut res = Some(true);
                    for x in &cands[other] {
                        let (ml, mr) = if o.l == i { (m, x) } else { (x, m) };
                        let val = eval_op(v, &o.op, &a.nodes[o.l].spec, &a.nodes[o.r].spec, ml, mr);
                        // whether a node excludes itself is left open
                        let val = if val == Some(true) && !o.op.reflexive() && x.0 == m.0 { None } else { val };
                        res = and(res, val.map(|b| !b));
                    }
                    st = and(st, res);
                } else if let (Some(ml), Some(mr)) = (&cur[o.l], &cur[o.r]) {
                    if real.iter().position(|x| *x == other).unwrap() > d && other != i {
                        continue;
                    }
                    let val = eval_op(v, &o.op, &a.nodes[o.l].spec, &a.nodes[o.r].spec, ml, mr);
                    st = and(st, if o.neg { val.map(|b| !b) } else { val });
                }
                if st == Some(false) {
                    continue 'c;
                }
            }
            rec(v, a, cands, real, d + 1, cur, st, out, budget);
        }
        cur[i] = None;
    }
    let mut cur = vec![None; a.nodes.len()];
    rec(v, a, &cands, &real, 0, &mut cur, Some(true), out, budget);
}

pub fn evaluate(v: &View, q: &Query) -> Expected {
    let mut e = Expected::default();
    let mut budget = 150_000;
    for a in &q.alts {
        eval_alt(v, a, &mut e, &mut budget);
    }
    e
}
