//! Generator for well-formed linguistic corpora (tokens in text order, spans,
//! segmentations, syntax trees, pointing relations, corpus structure, meta
//! data) and a reference view answering questions about them from the plain
//! data only.
use crate::engine::*;
use crate::model::*;
use crate::props::storages::Plain;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Corpus {
    pub m: MGraph,
    pub root: String,
    pub docs: Vec<String>,
    /// token chains (text order)
    pub chains: Vec<Vec<String>>,
    /// all annotation nodes
    pub nodes: Vec<String>,
    pub segs: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_docs: usize,
    pub max_tok: usize,
    pub discontinuous: bool,
    pub cyclic_pointing: bool,
    pub token_segmentation: bool,
    pub odd_names: bool,
    pub odd_values: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_docs: 3,
            max_tok: 6,
            discontinuous: true,
            cyclic_pointing: true,
            token_segmentation: false,
            odd_names: false,
            odd_values: false,
        }
    }
}

pub const TOKVALS: [&str; 9] = ["a", "b", "A", "ab", "a", "ä", "a.b", "ba", ""];
pub const ANNO_KEYS: [(&str, &str); 6] =
    [("default_ns", "pos"), ("x", "pos"), ("default_ns", "lemma"), ("", "cat"), ("y", "cat"), ("x", "%odd-name")];
pub const ANNO_VALS: [&str; 8] = ["NN", "VB", "a", "S", "N.", "nn", "é", ""];
pub const META_KEYS: [(&str, &str); 3] = [("", "genre"), ("m", "genre"), ("", "year")];
pub const META_VALS: [&str; 3] = ["news", "1999", "2001"];
pub const POINTING: [(&str, &str); 4] = [("dep", "dep"), ("other", "dep"), ("coref", "coref"), ("", "p-1")];
pub const DOMINANCE: [(&str, &str); 4] = [("syntax", ""), ("syntax", "edge"), ("syntax", "secedge"), ("rst", "")];
pub const COVERAGE: [(&str, &str); 3] = [("annis", ""), ("default_ns", ""), ("exm", "cov")];
pub const EDGE_KEYS: [(&str, &str); 3] = [("default_ns", "func"), ("x", "func"), ("", "deprel")];
pub const EDGE_VALS: [&str; 4] = ["sbj", "obj", "", "o.j"];

impl Corpus {
    fn node(&mut self, name: &str, ty: &str) {
        let mut a = Annos::new();
        a.insert(k("annis", "node_name"), name.into());
        a.insert(k("annis", "node_type"), ty.into());
        self.m.nodes.insert(name.into(), a);
    }
    fn label(&mut self, n: &str, ns: &str, name: &str, v: &str) {
        self.m.nodes.get_mut(n).unwrap().insert(k(ns, name), v.into());
    }
    pub fn edge(&mut self, t: &str, l: &str, n: &str, a: &str, b: &str) {
        if a != b {
            self.m.edges.entry(comp(t, l, n)).or_default().entry((a.into(), b.into())).or_default();
        }
    }
    fn edge_label(&mut self, t: &str, l: &str, n: &str, a: &str, b: &str, key: (&str, &str), v: &str) {
        if let Some(x) = self.m.edges.get_mut(&comp(t, l, n)).and_then(|e| e.get_mut(&(a.to_string(), b.to_string()))) {
            x.insert(k(key.0, key.1), v.into());
        }
    }
    pub fn has_cycle(&self, t: &str, l: &str, n: &str) -> bool {
        let mut ids = BTreeMap::new();
        let mut p = Plain::default();
        if let Some(es) = self.m.edges.get(&comp(t, l, n)) {
            for (a, b) in es.keys() {
                let len = ids.len() as u64;
                let ia = *ids.entry(a.clone()).or_insert(len);
                let len = ids.len() as u64;
                let ib = *ids.entry(b.clone()).or_insert(len);
                p.add(ia, ib);
            }
        }
        p.cyclic()
    }
}

fn anno_val(s: &mut Src, o: &Opts) -> String {
    if o.odd_values && s.chance(1, 3) { nasty(s) } else { s.pick(&ANNO_VALS).to_string() }
}

fn annotate(s: &mut Src, o: &Opts, c: &mut Corpus, n: &str) {
    let cnt = s.weighted(&[3, 4, 2, 1]);
    for _ in 0..cnt {
        let (ns, name) = *s.pick(&ANNO_KEYS);
        let v = anno_val(s, o);
        c.label(n, ns, name, &v);
    }
}

/// A random corpus.
pub fn gen_corpus(s: &mut Src, o: &Opts) -> Corpus {
    let mut c = Corpus::default();
    c.root = if o.odd_names { s.pick(&["c", "my corpus", "ö%20", "c.x"]).to_string() } else { "c".into() };
    let root = c.root.clone();
    c.node(&root, "corpus");
    let meta = |s: &mut Src, c: &mut Corpus, n: &str| {
        let cnt = s.weighted(&[2, 2, 1]);
        for _ in 0..cnt {
            let (ns, name) = *s.pick(&META_KEYS);
            let v = s.pick(&META_VALS).to_string();
            c.label(n, ns, name, &v);
        }
    };
    meta(s, &mut c, &root);
    let mut parents = vec![root.clone()];
    if s.chance(1, 4) {
        let p = format!("{root}/sub");
        c.node(&p, "corpus");
        c.edge("PartOf", "annis", "", &p, &root);
        meta(s, &mut c, &p);
        parents.push(p);
    }
    let ndocs = s.size(1, o.max_docs);
    for d in 0..ndocs {
        let parent = s.pick(&parents).clone();
        let dn = if o.odd_names { format!("{parent}/{}{d}", s.pick(&["d", "d é", "d%2F", "d#"])) } else { format!("{parent}/d{d}") };
        c.node(&dn, "corpus");
        c.label(&dn, "annis", "doc", &format!("d{d}"));
        c.edge("PartOf", "annis", "", &dn, &parent);
        meta(s, &mut c, &dn);
        c.docs.push(dn.clone());
        let ntexts = if s.chance(1, 6) { 2 } else { 1 };
        for t in 0..ntexts {
            let owner = if ntexts > 1 || s.chance(1, 4) {
                let tn = format!("{dn}#text{t}");
                c.node(&tn, "datasource");
                c.edge("PartOf", "annis", "", &tn, &dn);
                tn
            } else {
                dn.clone()
            };
            gen_text(s, o, &mut c, &dn, &owner, t);
        }
    }
    // pointing relations anywhere
    if c.nodes.len() > 1 {
        let n = s.size(0, 4);
        for _ in 0..n {
            let a = s.pick(&c.nodes).clone();
            let b = s.pick(&c.nodes).clone();
            let (l, name) = *s.pick(&POINTING);
            if a == b {
                continue;
            }
            let had = c.m.edges.get(&comp("Pointing", l, name)).is_some_and(|e| e.contains_key(&(a.clone(), b.clone())));
            c.edge("Pointing", l, name, &a, &b);
            if !o.cyclic_pointing && !had && c.has_cycle("Pointing", l, name) {
                c.m.edges.get_mut(&comp("Pointing", l, name)).unwrap().remove(&(a, b));
                continue;
            }
            if s.chance(1, 2) {
                let key = *s.pick(&EDGE_KEYS);
                let v = s.pick(&EDGE_VALS).to_string();
                c.edge_label("Pointing", l, name, &a, &b, key, &v);
            }
        }
    }
    c.m = c.m.normalized();
    c
}

fn gen_text(s: &mut Src, o: &Opts, c: &mut Corpus, doc: &str, owner: &str, t: usize) {
    let n = s.size(0, o.max_tok);
    let mut chain = vec![];
    for i in 0..n {
        let name = format!("{doc}#t{t}_{i}");
        c.node(&name, "node");
        let v = if o.odd_values && s.chance(1, 3) { nasty(s) } else { s.pick(&TOKVALS).to_string() };
        c.label(&name, "annis", "tok", &v);
        if o.odd_values && s.chance(1, 4) {
            c.label(&name, "annis", "tok-whitespace-after", " ");
        }
        if s.chance(2, 3) {
            let (ns, an) = *s.pick(&ANNO_KEYS[0..4]);
            let v = anno_val(s, o);
            c.label(&name, ns, an, &v);
        }
        c.edge("PartOf", "annis", "", &name, owner);
        if i > 0 {
            let p: &String = &chain[i - 1];
            c.edge("Ordering", "annis", "", &p.clone(), &name);
        }
        chain.push(name);
    }
    c.nodes.extend(chain.iter().cloned());
    c.chains.push(chain.clone());
    if n == 0 {
        return;
    }
    let mut text_nodes = chain.clone();
    // segmentations
    for seg in ["norm", "dipl"] {
        if !s.chance(1, 5) {
            continue;
        }
        c.segs.insert(seg.into());
        let (l, cn) = *s.pick(&COVERAGE);
        let mut i = 0;
        let mut prev: Option<String> = None;
        let mut j = 0;
        while i < n {
            let len = s.size(1, 2).min(n - i);
            // sometimes leave a gap
            if s.chance(1, 8) {
                i += len;
                continue;
            }
            let name = format!("{doc}#{seg}{t}_{j}");
            j += 1;
            c.node(&name, "node");
            let v = s.pick(&TOKVALS).to_string();
            c.label(&name, "annis", "tok", &v);
            c.label(&name, "default_ns", seg, &v);
            c.edge("PartOf", "annis", "", &name, owner);
            for tok in &chain[i..i + len] {
                c.edge("Coverage", l, cn, &name, tok);
            }
            if let Some(p) = prev {
                c.edge("Ordering", "default_ns", seg, &p, &name);
            }
            prev = Some(name.clone());
            text_nodes.push(name);
            i += len;
        }
    }
    if o.token_segmentation && s.chance(1, 6) {
        c.segs.insert("tokseg".into());
        for w in chain.windows(2) {
            c.edge("Ordering", "default_ns", "tokseg", &w[0], &w[1]);
        }
    }
    // spans
    let ns = s.size(0, 3);
    for j in 0..ns {
        let name = format!("{doc}#s{t}_{j}");
        c.node(&name, "node");
        annotate(s, o, c, &name);
        c.edge("PartOf", "annis", "", &name, owner);
        let start = s.idx(n);
        let len = s.size(1, n - start);
        let (l, cn) = *s.pick(&COVERAGE);
        let skip = if o.discontinuous && len > 2 && s.chance(1, 5) { Some(start + 1 + s.idx(len - 2)) } else { None };
        for (i, tok) in chain.iter().enumerate().skip(start).take(len) {
            if Some(i) != skip {
                c.edge("Coverage", l, cn, &name, tok);
            }
        }
        text_nodes.push(name);
    }
    // syntax nodes
    let nd = s.size(0, 3);
    for j in 0..nd {
        let name = format!("{doc}#n{t}_{j}");
        c.node(&name, "node");
        annotate(s, o, c, &name);
        c.edge("PartOf", "annis", "", &name, owner);
        let (l, cn) = *s.pick(&DOMINANCE);
        let nc = s.size(1, 3);
        for _ in 0..nc {
            let ch = s.pick(&text_nodes).clone();
            c.edge("Dominance", l, cn, &name, &ch);
            if s.chance(1, 3) {
                let key = *s.pick(&EDGE_KEYS);
                let v = s.pick(&EDGE_VALS).to_string();
                c.edge_label("Dominance", l, cn, &name, &ch, key, &v);
            }
            if s.chance(1, 3) {
                let (l2, cn2) = *s.pick(&DOMINANCE);
                c.edge("Dominance", l2, cn2, &name, &ch);
            }
        }
        text_nodes.push(name);
    }
    // a node without any token
    if s.chance(1, 8) {
        let name = format!("{doc}#x{t}");
        c.node(&name, "node");
        annotate(s, o, c, &name);
        c.edge("PartOf", "annis", "", &name, owner);
        text_nodes.push(name);
    }
    for x in text_nodes.into_iter().skip(n) {
        c.nodes.push(x);
    }
}

// ------------------------------------------------------------ reference view

/// Everything queries can refer to, computed from the plain data.
pub struct View {
    pub names: Vec<String>,
    pub annos: Vec<Annos>,
    pub id: BTreeMap<String, usize>,
    pub token: Vec<bool>,
    /// (chain, position) in the base token order
    pub pos: BTreeMap<usize, (usize, usize)>,
    pub left: Vec<Option<usize>>,
    pub right: Vec<Option<usize>>,
    pub covered: Vec<BTreeSet<usize>>,
    pub comps: BTreeMap<Comp, CompView>,
}
pub struct CompView {
    pub plain: Plain,
    pub annos: BTreeMap<(usize, usize), Annos>,
    cache: std::cell::RefCell<BTreeMap<usize, BTreeMap<u64, BTreeSet<usize>>>>,
}
impl CompView {
    /// lengths of all simple paths between two nodes
    pub fn lens(&self, a: usize, b: usize) -> BTreeSet<usize> {
        let mut c = self.cache.borrow_mut();
        let m = c.entry(a).or_insert_with(|| self.plain.simple_paths(a as u64, false));
        m.get(&(b as u64)).cloned().unwrap_or_default()
    }
    /// does the node have an edge in the component
    pub fn member(&self, a: usize) -> bool {
        let a = a as u64;
        self.plain.out.contains_key(&a) || self.plain.out.values().any(|t| t.iter().any(|x| *x == a))
    }
    pub fn connected(&self, a: usize, b: usize, min: usize, max: Option<usize>) -> bool {
        a != b && self.lens(a, b).iter().any(|l| *l >= min && max.is_none_or(|m| *l <= m))
    }
}

impl View {
    pub fn new(m: &MGraph) -> View {
        let names: Vec<String> = m.nodes.keys().cloned().collect();
        let annos: Vec<Annos> = m.nodes.values().cloned().collect();
        let id: BTreeMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
        let n = names.len();
        let mut comps = BTreeMap::new();
        for (c, es) in &m.edges {
            let mut v = CompView { plain: Plain::default(), annos: BTreeMap::new(), cache: Default::default() };
            for ((a, b), an) in es {
                v.plain.add(id[a] as u64, id[b] as u64);
                v.annos.insert((id[a], id[b]), an.clone());
            }
            comps.insert(c.clone(), v);
        }
        let mut cov: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        let mut has_cov = vec![false; n];
        for (c, es) in &m.edges {
            if is_index_component(c) {
                continue;
            }
            if c.0 == "Coverage" || c.0 == "Dominance" {
                for (a, b) in es.keys() {
                    cov.entry(id[a]).or_default().insert(id[b]);
                    if c.0 == "Coverage" {
                        has_cov[id[a]] = true;
                    }
                }
            }
        }
        let token: Vec<bool> = (0..n).map(|i| annos[i].contains_key(&k("annis", "tok")) && !has_cov[i]).collect();
        // text order
        let mut pos = BTreeMap::new();
        if let Some(v) = comps.get(&comp("Ordering", "annis", "")) {
            let v: &CompView = v;
            for (ci, r) in v.plain.roots().into_iter().enumerate() {
                let mut cur = r;
                let mut p = 0;
                loop {
                    pos.insert(cur as usize, (ci, p));
                    p += 1;
                    match v.plain.out.get(&cur).and_then(|o| o.iter().next()) {
                        Some(x) => cur = *x,
                        None => break,
                    }
                }
            }
        }
        let mut extra = 1_000_000;
        for i in 0..n {
            if token[i] && !pos.contains_key(&i) {
                pos.insert(i, (extra, 0));
                extra += 1;
            }
        }
        let mut covered = vec![BTreeSet::new(); n];
        let mut left = vec![None; n];
        let mut right = vec![None; n];
        for i in 0..n {
            if token[i] {
                covered[i].insert(i);
                left[i] = Some(i);
                right[i] = Some(i);
                continue;
            }
            let mut todo = vec![i];
            let mut seen = BTreeSet::new();
            while let Some(x) = todo.pop() {
                if !seen.insert(x) {
                    continue;
                }
                if x != i && token[x] {
                    covered[i].insert(x);
                }
                if let Some(o) = cov.get(&x) {
                    todo.extend(o.iter().copied());
                }
            }
            left[i] = covered[i].iter().copied().min_by_key(|t| pos[t]);
            right[i] = covered[i].iter().copied().max_by_key(|t| pos[t]);
        }
        View { names, annos, id, token, pos, left, right, covered, comps }
    }
    pub fn val(&self, n: usize, ns: &str, name: &str) -> Option<&String> {
        self.annos[n].get(&k(ns, name))
    }
    /// distance in tokens from one token to another one in the same text
    pub fn tok_dist(&self, a: usize, b: usize) -> Option<i64> {
        let (ca, pa) = self.pos[&a];
        let (cb, pb) = self.pos[&b];
        if ca == cb { Some(pb as i64 - pa as i64) } else { None }
    }
}
