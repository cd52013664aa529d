//! G34: the web service, the C library and the command line give the answers of the library.
#![allow(unused_unsafe)]
use super::cs::{Case, Cs, expected_order, gen_case, setup};
use super::query::opts;
use super::web::{SECRET, admin_token, wait_job};
use crate::corpus::*;
use crate::engine::*;
use crate::http::*;
use crate::model::*;
use graphannis::corpusstorage::*;
use graphannis::errors::GraphAnnisError;
use graphannis::model::AnnotationComponentType;
use graphannis::update::UpdateEvent;
use graphannis::{AnnotationGraph, CorpusStorage};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CStr, CString, c_char, c_void};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn property() -> Property {
    Property {
        id: "G34",
        rule: "1-3 random corpora and 12-30 random requests (counting, finding with paging and orders, frequencies, query analysis, lists of corpora, components, node and edge annotations, subgraphs with context, for queries, documents and the corpus structure, configuration; also with invalid queries and missing corpora), which are answered by the library and then by the web service, the C library and the command line program for the same data; histories of changes (updates, import, export, deletion) through these interfaces, compared with a model; non-trivial: at least four different kinds of requests with a non-empty answer / at least three changes",
        level: "exploration",
        assumptions: &["names and queries without NUL characters; names without white space for the command line", "order of matches is only compared if it is a total order (see G20)"],
        checks: vec![
            Check { name: "answers", f: answers, quick: 200, thorough: 12000 },
            Check { name: "changes", f: changes, quick: 120, thorough: 8000 },
        ],
    }
}

#[derive(Clone, Debug)]
enum Req {
    List,
    Count { corpora: Vec<String>, q: String, quirks: bool },
    Find { corpora: Vec<String>, q: String, quirks: bool, off: usize, lim: Option<usize>, order: ResultOrder, exact: Option<Vec<String>> },
    Freq { corpora: Vec<String>, q: String, quirks: bool, def: Vec<(String, Option<String>, String)> },
    Desc { q: String, quirks: bool },
    Valid { corpora: Vec<String>, q: String, quirks: bool },
    NodeAnnos { c: String, vals: bool, most: bool },
    EdgeAnnos { c: String, comp: Comp, vals: bool, most: bool },
    Comps { c: String, t: Option<String>, n: Option<String> },
    Sub { c: String, ids: Vec<String>, l: usize, r: usize, seg: Option<String> },
    SubQ { c: String, q: String, quirks: bool, t: Option<String> },
    SubCorpus { c: String, ids: Vec<String> },
    CorpusGraph { c: String },
    Config { c: String },
}

#[derive(Clone, Debug, PartialEq)]
enum Ans {
    /// kind and message
    Err(String, String),
    Val(Value),
    Graph(Box<MGraph>),
    /// not available with this interface
    Skip,
}

fn ql(quirks: bool) -> QueryLanguage {
    if quirks { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL }
}
fn ql_name(quirks: bool) -> &'static str {
    if quirks { "AQLQuirksV3" } else { "AQL" }
}

fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    json!(v)
}
fn sorted_val(v: &Value) -> Value {
    sorted(v.as_array().cloned().unwrap_or_default())
}
fn lines(v: Vec<String>) -> Value {
    sorted(v.into_iter().map(|x| json!(x)).collect())
}
/// Keep only what is determined by the request
fn canon_find(r: &Req, v: Vec<String>) -> Value {
    match r {
        Req::Find { exact: Some(_), order: ResultOrder::Normal | ResultOrder::Inverted, .. } => json!(v),
        Req::Find { off: 0, lim: None, .. } => lines(v),
        _ => json!(v.len()),
    }
}
fn keys_only(v: Vec<(String, String, String)>) -> Value {
    lines(v.into_iter().map(|(a, b, _)| format!("{a:?} {b:?}")).collect())
}
/// The most frequent value is not unique
fn canon_annos(v: Vec<(String, String, String)>, vals: bool, most: bool) -> Value {
    if vals && most { keys_only(v) } else { lines(v.into_iter().map(|x| format!("{x:?}")).collect()) }
}
fn canon_freq(v: Vec<(Vec<String>, u64)>) -> Value {
    sorted(v.into_iter().map(|(a, b)| json!([a, b])).collect())
}

fn gdump(g: &AnnotationGraph) -> R<Ans> {
    Ok(Ans::Graph(Box::new(dump(g)?.normalized())))
}

type LibResult = std::result::Result<Ans, GraphAnnisError>;

fn library(cs: &CorpusStorage, r: &Req) -> R<Ans> {
    let f = || -> std::result::Result<LibResult, Failure> {
        let inner = || -> LibResult {
            Ok(match r {
                Req::List => Ans::Val(lines(cs.list()?.into_iter().map(|c| c.name).collect())),
                Req::Count { corpora, q, quirks } => {
                    let c = cs.count_extra(SearchQuery { query: q, corpus_names: corpora, query_language: ql(*quirks), timeout: None })?;
                    Ans::Val(json!({"match_count": c.match_count, "document_count": c.document_count}))
                }
                Req::Find { corpora, q, quirks, off, lim, order, .. } => {
                    let c = cs.find(SearchQuery { query: q, corpus_names: corpora, query_language: ql(*quirks), timeout: None }, *off, *lim, *order)?;
                    Ans::Val(canon_find(r, c))
                }
                Req::Freq { corpora, q, quirks, def } => {
                    let d = def.iter().map(|(a, b, c)| FrequencyDefEntry { ns: b.clone(), name: c.clone(), node_ref: a.clone() }).collect();
                    let c = cs.frequency(SearchQuery { query: q, corpus_names: corpora, query_language: ql(*quirks), timeout: None }, d)?;
                    Ans::Val(canon_freq(c.into_iter().map(|r| (r.values, r.count as u64)).collect()))
                }
                Req::Desc { q, quirks } => {
                    let d = cs.node_descriptions(q, ql(*quirks))?;
                    Ans::Val(json!(d.iter().map(|d| json!([d.alternative, d.query_fragment, d.variable, d.anno_name])).collect::<Vec<_>>()))
                }
                Req::Valid { corpora, q, quirks } => Ans::Val(json!(cs.validate_query(corpora, q, ql(*quirks))?)),
                Req::NodeAnnos { c, vals, most } => {
                    let a = cs.list_node_annotations(c, *vals, *most)?;
                    Ans::Val(canon_annos(a.into_iter().map(|a| (a.key.ns.into(), a.key.name.into(), a.val.into())).collect(), *vals, *most))
                }
                Req::EdgeAnnos { c, comp, vals, most } => {
                    let co = graphannis::model::AnnotationComponent::new(ctype(&comp.0), comp.1.as_str().into(), comp.2.as_str().into());
                    let a = cs.list_edge_annotations(c, &co, *vals, *most)?;
                    Ans::Val(canon_annos(a.into_iter().map(|a| (a.key.ns.into(), a.key.name.into(), a.val.into())).collect(), *vals, *most))
                }
                Req::Comps { c, t, n } => {
                    let a = cs.list_components(c, t.as_deref().map(ctype), n.as_deref())?;
                    Ans::Val(lines(a.iter().map(|c| format!("{} {:?} {:?}", c.get_type(), c.layer, c.name)).collect()))
                }
                Req::Sub { c, ids, l, r, seg } => match gdump(&cs.subgraph(c, ids.clone(), *l, *r, seg.clone())?) {
                    Ok(x) => x,
                    Err(e) => Ans::Err("dump".into(), e.msg),
                },
                Req::SubQ { c, q, quirks, t } => match gdump(&cs.subgraph_for_query(c, q, ql(*quirks), t.as_deref().map(ctype))?) {
                    Ok(x) => x,
                    Err(e) => Ans::Err("dump".into(), e.msg),
                },
                Req::SubCorpus { c, ids } => match gdump(&cs.subcorpus_graph(c, ids.clone())?) {
                    Ok(x) => x,
                    Err(e) => Ans::Err("dump".into(), e.msg),
                },
                Req::CorpusGraph { c } => match gdump(&cs.corpus_graph(c)?) {
                    Ok(x) => x,
                    Err(e) => Ans::Err("dump".into(), e.msg),
                },
                Req::Config { c } => Ans::Val(serde_json::to_value(cs.info(c)?.config).unwrap_or_default()),
            })
        };
        Ok(inner())
    };
    Ok(match f()? {
        Ok(x) => x,
        Err(e) => {
            let msg = e.to_string();
            let kind: &'static str = (&e).into();
            Ans::Err(kind.to_string(), msg)
        }
    })
}

// ------------------------------------------------------------ C library

macro_rules! sym {
    ($l:expr, $n:literal, $t:ty) => {{
        let p = unsafe { libc::dlsym($l.handle, concat!($n, "\0").as_ptr() as *const c_char) };
        if p.is_null() {
            return fail("c:symbol", format!("the C library has no function {}", $n));
        }
        unsafe { std::mem::transmute::<*mut c_void, $t>(p) }
    }};
}
type P = *mut c_void;
type S = *const c_char;
type E = *mut P;

struct Lib {
    handle: P,
}
fn lib() -> R<Lib> {
    let path = crate::verif_root().join("target/ws/debug/libgraphannis_capi.so");
    let p = CString::new(path.to_string_lossy().as_bytes()).unwrap();
    let handle = unsafe { libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
    if handle.is_null() {
        return fail("c:open", format!("can not open {}", path.display()));
    }
    Ok(Lib { handle })
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap_or_default()
}
fn rs(p: S) -> String {
    if p.is_null() { "<null>".into() } else { unsafe { CStr::from_ptr(p).to_string_lossy().to_string() } }
}
impl Lib {
    fn strs(&self, v: &[String]) -> R<P> {
        let p = sym!(self, "annis_vec_str_new", extern "C" fn() -> P)();
        for x in v {
            unsafe { sym!(self, "annis_vec_str_push", unsafe extern "C" fn(P, S))(p, cs(x).as_ptr()) };
        }
        Ok(p)
    }
    fn unstrs(&self, p: P) -> R<Vec<String>> {
        let n = unsafe { sym!(self, "annis_vec_str_size", unsafe extern "C" fn(P) -> usize)(p) };
        let get = sym!(self, "annis_vec_str_get", unsafe extern "C" fn(P, usize) -> S);
        if !unsafe { get(p, n) }.is_null() {
            return fail("c:vec", "element behind the end of a vector");
        }
        Ok((0..n).map(|i| rs(unsafe { get(p, i) })).collect())
    }
    fn owned(&self, p: *mut c_char) -> R<String> {
        let r = rs(p);
        unsafe { sym!(self, "annis_str_free", unsafe extern "C" fn(*mut c_char))(p) };
        Ok(r)
    }
    fn matrix(&self, p: P) -> R<Vec<Vec<String>>> {
        let (n, m) = unsafe {
            (
                sym!(self, "annis_matrix_str_nrows", unsafe extern "C" fn(P) -> usize)(p),
                sym!(self, "annis_matrix_str_ncols", unsafe extern "C" fn(P) -> usize)(p),
            )
        };
        let get = sym!(self, "annis_matrix_str_get", unsafe extern "C" fn(P, usize, usize) -> S);
        if !unsafe { get(p, n, 0) }.is_null() || !unsafe { get(p, 0, m) }.is_null() {
            return fail("c:matrix", "element behind the end of a matrix");
        }
        Ok((0..n).map(|i| (0..m).map(|j| rs(unsafe { get(p, i, j) })).collect()).collect())
    }
    fn error(&self, e: P) -> R<Ans> {
        let n = unsafe { sym!(self, "annis_error_size", unsafe extern "C" fn(P) -> usize)(e) };
        if n == 0 {
            return fail("c:error", "empty list of errors");
        }
        let msg = rs(unsafe { sym!(self, "annis_error_get_msg", unsafe extern "C" fn(P, usize) -> S)(e, 0) });
        let kind = rs(unsafe { sym!(self, "annis_error_get_kind", unsafe extern "C" fn(P, usize) -> S)(e, 0) });
        Ok(Ans::Err(kind, msg))
    }
    fn graph(&self, g: P) -> R<MGraph> {
        let mut m = MGraph::default();
        let mut names: BTreeMap<u64, String> = BTreeMap::new();
        let mut err: P = std::ptr::null_mut();
        let annos = |v: P| -> R<Annos> {
            let n = unsafe { sym!(self, "annis_vec_annotation_size", unsafe extern "C" fn(P) -> usize)(v) };
            let mut r = Annos::new();
            for i in 0..n {
                let a = unsafe { sym!(self, "annis_vec_annotation_get", unsafe extern "C" fn(P, usize) -> P)(v, i) };
                type G = unsafe extern "C" fn(P) -> *mut c_char;
                let ns = self.owned(unsafe { sym!(self, "annis_annotation_ns", G)(a) })?;
                let name = self.owned(unsafe { sym!(self, "annis_annotation_name", G)(a) })?;
                let val = self.owned(unsafe { sym!(self, "annis_annotation_val", G)(a) })?;
                r.insert((ns, name), val);
            }
            Ok(r)
        };
        for ty in ["node", "corpus", "datasource"] {
            let it = unsafe { sym!(self, "annis_graph_nodes_by_type", unsafe extern "C" fn(P, S) -> P)(g, cs(ty).as_ptr()) };
            loop {
                let n = unsafe { sym!(self, "annis_iter_nodeid_next", unsafe extern "C" fn(P, E) -> *mut u64)(it, &mut err) };
                if n.is_null() {
                    break;
                }
                let id = unsafe { *n };
                let v = unsafe { sym!(self, "annis_graph_annotations_for_node", unsafe extern "C" fn(P, u64, E) -> P)(g, id, &mut err) };
                let a = annos(v)?;
                let name = a.get(&k("annis", "node_name")).cloned().unwrap_or_default();
                names.insert(id, name.clone());
                m.nodes.insert(name, a);
            }
        }
        let v = unsafe { sym!(self, "annis_graph_all_components", unsafe extern "C" fn(P) -> P)(g) };
        let n = unsafe { sym!(self, "annis_vec_component_size", unsafe extern "C" fn(P) -> usize)(v) };
        for i in 0..n {
            let c = unsafe { sym!(self, "annis_vec_component_get", unsafe extern "C" fn(P, usize) -> P)(v, i) };
            let co = self.component(c)?;
            let mut edges = BTreeMap::new();
            for (s, sn) in &names {
                let ev = unsafe { sym!(self, "annis_graph_outgoing_edges", unsafe extern "C" fn(P, u64, P, E) -> P)(g, *s, c, &mut err) };
                let en = unsafe { sym!(self, "annis_vec_edge_size", unsafe extern "C" fn(P) -> usize)(ev) };
                for j in 0..en {
                    let e = unsafe {
                        (*sym!(self, "annis_vec_edge_get", unsafe extern "C" fn(P, usize) -> *const graphannis::graph::Edge)(ev, j)).clone()
                    };
                    if e.source != *s {
                        return fail("c:edge", "wrong source of outgoing edge");
                    }
                    let Some(t) = names.get(&e.target) else { continue };
                    let av = unsafe {
                        sym!(self, "annis_graph_annotations_for_edge", unsafe extern "C" fn(P, graphannis::graph::Edge, P, E) -> P)(g, e, c, &mut err)
                    };
                    edges.insert((sn.clone(), t.clone()), annos(av)?);
                }
            }
            m.edges.insert(co, edges);
        }
        if !err.is_null() {
            return fail("c:graph", format!("{:?}", self.error(err)?));
        }
        Ok(m.normalized())
    }
    fn component(&self, c: P) -> R<Comp> {
        let t = unsafe { sym!(self, "annis_component_type", unsafe extern "C" fn(P) -> AnnotationComponentType)(c) };
        type G = unsafe extern "C" fn(P) -> *mut c_char;
        let l = self.owned(unsafe { sym!(self, "annis_component_layer", G)(c) })?;
        let n = self.owned(unsafe { sym!(self, "annis_component_name", G)(c) })?;
        Ok((t.to_string(), l, n))
    }
    fn open(&self, dir: &Path, auto: bool, parallel: bool) -> R<P> {
        let mut err: P = std::ptr::null_mut();
        let d = cs(&dir.to_string_lossy());
        let p = if auto {
            unsafe { sym!(self, "annis_cs_with_auto_cache_size", unsafe extern "C" fn(S, bool, E) -> P)(d.as_ptr(), parallel, &mut err) }
        } else {
            unsafe { sym!(self, "annis_cs_with_max_cache_size", unsafe extern "C" fn(S, usize, bool, E) -> P)(d.as_ptr(), 0, parallel, &mut err) }
        };
        if !err.is_null() || p.is_null() {
            return fail("c:open", format!("can not open the corpus storage: {:?}", self.error(err)?));
        }
        Ok(p)
    }
    fn close(&self, p: P) -> R {
        unsafe { sym!(self, "annis_cs_free", unsafe extern "C" fn(P))(p) };
        Ok(())
    }
    fn freq_def(def: &[(String, Option<String>, String)]) -> String {
        def.iter()
            .map(|(a, b, c)| match b {
                Some(ns) => format!("{a}:{ns}::{c}"),
                None => format!("{a}:{c}"),
            })
            .collect::<Vec<_>>()
            .join(",")
    }
    fn answer(&self, p: P, r: &Req) -> R<Ans> {
        let mut err: P = std::ptr::null_mut();
        let e: E = &mut err;
        let lang = |q: bool| ql(q);
        type Q = QueryLanguage;
        let a = unsafe {
            match r {
                Req::List => {
                    let v = sym!(self, "annis_cs_list", unsafe extern "C" fn(P, E) -> P)(p, e);
                    if err.is_null() { Ans::Val(lines(self.unstrs(v)?)) } else { Ans::Skip }
                }
                Req::Count { corpora, q, quirks } => {
                    let v = self.strs(corpora)?;
                    let q = cs(q);
                    let x = sym!(self, "annis_cs_count_extra", unsafe extern "C" fn(P, P, S, Q, E) -> CountExtra)(p, v, q.as_ptr(), lang(*quirks), e);
                    let n = sym!(self, "annis_cs_count", unsafe extern "C" fn(P, P, S, Q, E) -> u64)(p, v, q.as_ptr(), lang(*quirks), e);
                    if n != x.match_count {
                        return fail("c:count", format!("count is {n}, but count_extra is {}", x.match_count));
                    }
                    Ans::Val(json!({"match_count": x.match_count, "document_count": x.document_count}))
                }
                Req::Find { corpora, q, quirks, off, lim, order, .. } => {
                    let v = self.strs(corpora)?;
                    let q = cs(q);
                    let l: *const usize = match lim {
                        Some(x) => x,
                        None => std::ptr::null(),
                    };
                    let x = sym!(self, "annis_cs_find", unsafe extern "C" fn(P, P, S, Q, usize, *const usize, ResultOrder, E) -> P)(
                        p, v, q.as_ptr(), lang(*quirks), *off, l, *order, e,
                    );
                    if err.is_null() { Ans::Val(canon_find(r, self.unstrs(x)?)) } else { Ans::Skip }
                }
                Req::Freq { corpora, q, quirks, def } => {
                    if def.iter().any(|(a, b, c)| format!("{a}{b:?}{c}").contains([',']) || c.contains(':')) {
                        return Ok(Ans::Skip);
                    }
                    let v = self.strs(corpora)?;
                    let q = cs(q);
                    let d = cs(&Self::freq_def(def));
                    let x = sym!(self, "annis_cs_frequency", unsafe extern "C" fn(P, P, S, Q, S, E) -> P)(p, v, q.as_ptr(), lang(*quirks), d.as_ptr(), e);
                    if err.is_null() {
                        let n = sym!(self, "annis_freqtable_str_nrows", unsafe extern "C" fn(P) -> usize)(x);
                        let m = sym!(self, "annis_freqtable_str_ncols", unsafe extern "C" fn(P) -> usize)(x);
                        let get = sym!(self, "annis_freqtable_str_get", unsafe extern "C" fn(P, usize, usize) -> S);
                        let cnt = sym!(self, "annis_freqtable_str_count", unsafe extern "C" fn(P, usize) -> usize);
                        Ans::Val(canon_freq((0..n).map(|i| ((0..m).map(|j| rs(get(x, i, j))).collect(), cnt(x, i) as u64)).collect()))
                    } else {
                        Ans::Skip
                    }
                }
                Req::Desc { q, quirks } => {
                    let q = cs(q);
                    let x = sym!(self, "annis_cs_node_descriptions", unsafe extern "C" fn(P, S, Q, E) -> P)(p, q.as_ptr(), lang(*quirks), e);
                    if err.is_null() {
                        let n = sym!(self, "annis_vec_qattdesc_size", unsafe extern "C" fn(P) -> usize)(x);
                        type G = unsafe extern "C" fn(P, usize) -> *mut c_char;
                        let mut l = vec![];
                        for i in 0..n {
                            let nr = sym!(self, "annis_vec_qattdesc_get_component_nr", unsafe extern "C" fn(P, usize) -> usize)(x, i);
                            let f = self.owned(sym!(self, "annis_vec_qattdesc_get_aql_fragment", G)(x, i))?;
                            let v = self.owned(sym!(self, "annis_vec_qattdesc_get_variable", G)(x, i))?;
                            let a = sym!(self, "annis_vec_qattdesc_get_anno_name", G)(x, i);
                            let a = if a.is_null() { None } else { Some(self.owned(a)?) };
                            l.push(json!([nr, f, v, a]));
                        }
                        Ans::Val(json!(l))
                    } else {
                        Ans::Skip
                    }
                }
                Req::Valid { corpora, q, quirks } => {
                    let v = self.strs(corpora)?;
                    let q = cs(q);
                    let x = sym!(self, "annis_cs_validate_query", unsafe extern "C" fn(P, P, S, Q, E) -> bool)(p, v, q.as_ptr(), lang(*quirks), e);
                    Ans::Val(json!(x))
                }
                Req::NodeAnnos { c, vals, most } => {
                    let c = cs(c);
                    let x = sym!(self, "annis_cs_list_node_annotations", unsafe extern "C" fn(P, S, bool, bool, E) -> P)(p, c.as_ptr(), *vals, *most, e);
                    if err.is_null() { self.annos(x, *vals, *most)? } else { Ans::Skip }
                }
                Req::EdgeAnnos { c, comp, vals, most } => {
                    let (c, n, l) = (cs(c), cs(&comp.2), cs(&comp.1));
                    let x = sym!(self, "annis_cs_list_edge_annotations", unsafe extern "C" fn(P, S, AnnotationComponentType, S, S, bool, bool, E) -> P)(
                        p, c.as_ptr(), ctype(&comp.0), n.as_ptr(), l.as_ptr(), *vals, *most, e,
                    );
                    if err.is_null() { self.annos(x, *vals, *most)? } else { Ans::Skip }
                }
                Req::Comps { c, t: Some(t), n: None } => {
                    let c = cs(c);
                    let x = sym!(self, "annis_cs_list_components_by_type", unsafe extern "C" fn(P, S, AnnotationComponentType, E) -> P)(p, c.as_ptr(), ctype(t), e);
                    if err.is_null() {
                        let n = sym!(self, "annis_vec_component_size", unsafe extern "C" fn(P) -> usize)(x);
                        let mut v = vec![];
                        for i in 0..n {
                            let c = self.component(sym!(self, "annis_vec_component_get", unsafe extern "C" fn(P, usize) -> P)(x, i))?;
                            v.push(format!("{} {:?} {:?}", c.0, c.1, c.2));
                        }
                        Ans::Val(lines(v))
                    } else {
                        Ans::Skip
                    }
                }
                Req::Sub { c, ids, l, r, seg } => {
                    let v = self.strs(ids)?;
                    let c = cs(c);
                    let sg = seg.as_deref().map(cs);
                    let x = sym!(self, "annis_cs_subgraph", unsafe extern "C" fn(P, S, P, usize, usize, S, E) -> P)(
                        p, c.as_ptr(), v, *l, *r, sg.as_ref().map(|s| s.as_ptr()).unwrap_or(std::ptr::null()), e,
                    );
                    if err.is_null() { Ans::Graph(Box::new(self.graph(x)?)) } else { Ans::Skip }
                }
                Req::SubQ { c, q, quirks, t } => {
                    let (c, q) = (cs(c), cs(q));
                    let x = match t {
                        None => sym!(self, "annis_cs_subgraph_for_query", unsafe extern "C" fn(P, S, S, Q, E) -> P)(p, c.as_ptr(), q.as_ptr(), lang(*quirks), e),
                        Some(t) => sym!(self, "annis_cs_subgraph_for_query_with_ctype", unsafe extern "C" fn(P, S, S, Q, AnnotationComponentType, E) -> P)(
                            p, c.as_ptr(), q.as_ptr(), lang(*quirks), ctype(t), e,
                        ),
                    };
                    if err.is_null() { Ans::Graph(Box::new(self.graph(x)?)) } else { Ans::Skip }
                }
                Req::SubCorpus { c, ids } => {
                    let v = self.strs(ids)?;
                    let c = cs(c);
                    let x = sym!(self, "annis_cs_subcorpus_graph", unsafe extern "C" fn(P, S, P, E) -> P)(p, c.as_ptr(), v, e);
                    if err.is_null() { Ans::Graph(Box::new(self.graph(x)?)) } else { Ans::Skip }
                }
                Req::CorpusGraph { c } => {
                    let c = cs(c);
                    let x = sym!(self, "annis_cs_corpus_graph", unsafe extern "C" fn(P, S, E) -> P)(p, c.as_ptr(), e);
                    if err.is_null() { Ans::Graph(Box::new(self.graph(x)?)) } else { Ans::Skip }
                }
                Req::Comps { .. } | Req::Config { .. } => return Ok(Ans::Skip),
            }
        };
        if err.is_null() { Ok(a) } else { self.error(err) }
    }
    fn annos(&self, x: P, vals: bool, most: bool) -> R<Ans> {
        let m = self.matrix(x)?;
        if m.iter().any(|r| r.len() != 3) {
            return fail("c:matrix", format!("unexpected number of columns {m:?}"));
        }
        Ok(Ans::Val(canon_annos(m.into_iter().map(|r| (r[0].clone(), r[1].clone(), r[2].clone())).collect(), vals, most)))
    }
}

// ------------------------------------------------------------ web service

fn start_server(top: &Path, data: &Path) -> R<Server> {
    let auth = format!("[auth]\nanonymous_access_all_corpora = false\n[auth.token_verification]\ntype = \"HS256\"\nsecret = \"{SECRET}\"");
    Server::start(top, data, &auth, "")
}

fn web(srv: &Server, auth: &str, r: &Req) -> R<Ans> {
    let post = |path: &str, b: Value| srv.request("POST", path, Some(auth), Some(("application/json", b.to_string().as_bytes())));
    let get = |path: &str| srv.request("GET", path, Some(auth), None);
    let order = |o: &ResultOrder| format!("{o:?}");
    let resp = match r {
        Req::List => get("/v1/corpora")?,
        Req::Count { corpora, q, quirks } => post("/v1/search/count", json!({"query": q, "query_language": ql_name(*quirks), "corpora": corpora}))?,
        Req::Find { corpora, q, quirks, off, lim, order: o, .. } => {
            let mut b = json!({"query": q, "query_language": ql_name(*quirks), "corpora": corpora, "offset": off, "limit": lim, "order": order(o)});
            // defaults
            for (f, default) in [("offset", json!(0)), ("limit", Value::Null), ("order", json!("Normal")), ("query_language", json!("AQL"))] {
                if b[f] == default && q.len() % 2 == 0 {
                    b.as_object_mut().unwrap().remove(f);
                }
            }
            post("/v1/search/find", b)?
        }
        Req::Freq { corpora, q, quirks, def } => {
            let d: Vec<Value> = def.iter().map(|(a, b, c)| json!({"ns": b, "name": c, "node_ref": a})).collect();
            post("/v1/search/frequency", json!({"query": q, "query_language": ql_name(*quirks), "corpora": corpora, "definition": d}))?
        }
        Req::Desc { q, quirks } => get(&format!("/v1/search/node-descriptions?query={}&query_language={}", enc(q), ql_name(*quirks)))?,
        Req::Valid { .. } | Req::SubCorpus { .. } | Req::CorpusGraph { .. } => return Ok(Ans::Skip),
        Req::NodeAnnos { c, vals, most } => {
            get(&format!("/v1/corpora/{}/node-annotations?list_values={vals}&only_most_frequent_values={most}", enc(c)))?
        }
        Req::EdgeAnnos { c, comp, vals, most } => {
            // components with empty layer or name can not be given in the path
            if comp.1.is_empty() || comp.2.is_empty() {
                return Ok(Ans::Skip);
            }
            get(&format!(
                "/v1/corpora/{}/edge-annotations/{}/{}/{}/?list_values={vals}&only_most_frequent_values={most}",
                enc(c),
                comp.0,
                enc(&comp.1),
                enc(&comp.2)
            ))?
        }
        Req::Comps { c, t, n } => {
            let mut p = vec![];
            p.extend(t.iter().map(|t| format!("type={t}")));
            p.extend(n.iter().map(|n| format!("name={}", enc(n))));
            get(&format!("/v1/corpora/{}/components?{}", enc(c), p.join("&")))?
        }
        Req::Sub { c, ids, l, r, seg } => {
            post(&format!("/v1/corpora/{}/subgraph", enc(c)), json!({"node_ids": ids, "left": l, "right": r, "segmentation": seg}))?
        }
        Req::SubQ { c, q, quirks, t } => {
            let f = t.as_ref().map(|t| format!("&component_type_filter={t}")).unwrap_or_default();
            get(&format!("/v1/corpora/{}/subgraph-for-query?query={}&query_language={}{f}", enc(c), enc(q), ql_name(*quirks)))?
        }
        Req::Config { c } => get(&format!("/v1/corpora/{}/configuration", enc(c)))?,
    };
    if resp.status == 400 {
        let j = resp.json()?;
        let Some((kind, v)) = j.as_object().and_then(|o| o.iter().next()) else {
            return fail("web:error", format!("{r:?}: {}", resp.show()));
        };
        return Ok(Ans::Err(kind.clone(), v.to_string()));
    }
    if !resp.ok() {
        let msg = serde_json::from_slice::<Value>(&resp.body).ok().and_then(|v| v.as_str().map(|x| x.to_string())).unwrap_or_else(|| resp.show());
        return Ok(Ans::Err(format!("status {}", resp.status), msg));
    }
    Ok(match r {
        Req::Find { .. } => {
            let t = String::from_utf8(resp.body.clone()).must("UTF-8 response")?;
            Ans::Val(canon_find(r, t.split_terminator('\n').map(|x| x.to_string()).collect()))
        }
        Req::Sub { .. } | Req::SubQ { .. } => {
            let (g, _) = graphannis_core::graph::serialization::graphml::import::<AnnotationComponentType, _, _>(&resp.body[..], false, |_| {})
                .must("read the GraphML response")?;
            gdump(&g)?
        }
        Req::List => Ans::Val(sorted_val(&resp.json()?)),
        Req::Freq { .. } => {
            let j = resp.json()?;
            let mut v = vec![];
            for row in j.as_array().cloned().unwrap_or_default() {
                let vals = row["values"].as_array().cloned().unwrap_or_default();
                v.push((vals.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect(), row["count"].as_u64().unwrap_or(u64::MAX)));
            }
            Ans::Val(canon_freq(v))
        }
        Req::Desc { .. } => {
            let j = resp.json()?;
            let v = j.as_array().cloned().unwrap_or_default();
            Ans::Val(json!(v.iter().map(|d| json!([d["alternative"], d["query_fragment"], d["variable"], d["anno_name"]])).collect::<Vec<_>>()))
        }
        Req::NodeAnnos { vals, most, .. } | Req::EdgeAnnos { vals, most, .. } => {
            let j = resp.json()?;
            let mut v = vec![];
            for a in j.as_array().cloned().unwrap_or_default() {
                let t = |x: &Value| x.as_str().unwrap_or("?").to_string();
                v.push((t(&a["key"]["ns"]), t(&a["key"]["name"]), t(&a["val"])));
            }
            Ans::Val(canon_annos(v, *vals, *most))
        }
        Req::Comps { .. } => {
            let j = resp.json()?;
            let t = |x: &Value| x.as_str().unwrap_or("?").to_string();
            Ans::Val(lines(
                j.as_array().cloned().unwrap_or_default().iter().map(|c| format!("{} {:?} {:?}", t(&c["type"]), t(&c["layer"]), t(&c["name"]))).collect(),
            ))
        }
        _ => Ans::Val(resp.json()?),
    })
}

// ------------------------------------------------------------ command line

fn cli(dir: &Path, cmds: &[String]) -> R<Vec<String>> {
    let exe = crate::verif_root().join("target/ws/debug/annis");
    let mut c = Command::new(exe);
    c.arg(dir).stdin(Stdio::null()).current_dir(dir.parent().unwrap());
    for (i, x) in cmds.iter().enumerate() {
        c.arg("-c").arg(x);
        // unknown commands as separators
        c.arg("-c").arg(format!("end-of-{i}"));
    }
    let o = c.output().must("run command line")?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if !o.status.success() {
        return fail("cli:status", format!("{cmds:?} ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    let mut res = vec![];
    let mut rest = String::new();
    // log messages are not part of the result
    let log = regex::Regex::new(r"^\d\d:\d\d:\d\d (\x1b\[\d+m)*\[(INFO|WARN|DEBUG|ERROR)\]").unwrap();
    for l in out.split_inclusive('\n') {
        if log.is_match(l) {
            continue;
        }
        if let Some(x) = l.strip_prefix("Error: unknown command \"end-of-")
            && x.trim_end() == format!("{}\"", res.len())
        {
            res.push(std::mem::take(&mut rest));
            continue;
        }
        rest += l;
    }
    if res.len() != cmds.len() {
        return fail("cli:output", format!("unexpected output of the command line for {cmds:?}: {out:?}"));
    }
    Ok(res)
}

/// Commands for the request, the result is the output of the last one.
fn cli_cmds(r: &Req) -> Option<Vec<String>> {
    let corpora = |c: &[String]| -> Option<String> {
        if c.is_empty() || c.iter().any(|x| x.contains(char::is_whitespace)) { None } else { Some(format!("corpus {}", c.join(" "))) }
    };
    let quirks = |q: &bool| format!("set-quirks-mode {}", if *q { "on" } else { "off" });
    Some(match r {
        Req::List => vec!["list".into()],
        Req::Count { corpora: c, q, quirks: k } => vec![corpora(c)?, quirks(k), format!("count {q}")],
        Req::Find { corpora: c, q, quirks: k, off, lim, order, .. } => vec![
            corpora(c)?,
            quirks(k),
            format!("set-offset {off}"),
            format!("set-limit {}", lim.map(|x| x.to_string()).unwrap_or_default()).trim().to_string(),
            format!(
                "set-order {}",
                match order {
                    ResultOrder::Normal => "normal",
                    ResultOrder::Inverted => "Inverted",
                    ResultOrder::Randomized => "random",
                    ResultOrder::NotSorted => "unsorted",
                }
            ),
            format!("find {q}"),
        ],
        Req::Freq { corpora: c, q, quirks: k, def } => {
            let d = Lib::freq_def(def);
            if d.contains(char::is_whitespace) || def.is_empty() || def.iter().any(|(a, b, c)| format!("{a}{b:?}{c}").contains(',') || c.contains(':')) {
                return None;
            }
            vec![corpora(c)?, quirks(k), format!("frequency {d} {q}")]
        }
        Req::Config { c } => vec![corpora(std::slice::from_ref(c))?, "info config".into()],
        _ => return None,
    })
}

fn cli_answer(r: &Req, out: &str) -> R<Ans> {
    if let Some(e) = out.strip_prefix("Error: ") {
        return Ok(Ans::Err("?".into(), e.trim_end().to_string()));
    }
    Ok(match r {
        Req::List => {
            let mut v = vec![];
            for l in out.lines() {
                let Some((n, st)) = l.rsplit_once(" (") else { return fail("cli:list", format!("unexpected output {out:?}")) };
                if !["not loaded)", "partially loaded)", "fully loaded)"].contains(&st) {
                    return fail("cli:list", format!("unexpected output {out:?}"));
                }
                v.push(n.to_string());
            }
            Ans::Val(lines(v))
        }
        Req::Count { .. } => {
            let n: Vec<u64> = out.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            if n.len() != 2 || out.trim_end() != format!("result: {} matches in {} documents", n[0], n[1]) {
                return fail("cli:count", format!("unexpected output {out:?}"));
            }
            Ans::Val(json!({"match_count": n[0], "document_count": n[1]}))
        }
        Req::Find { .. } => Ans::Val(canon_find(r, out.split_terminator('\n').map(|x| x.to_string()).collect())),
        Req::Freq { def, .. } => {
            let mut v = vec![];
            for l in out.lines().filter(|l| !l.starts_with('+')).skip(1) {
                let cells: Vec<String> = l.trim_matches('|').split('|').map(|c| c.trim().to_string()).collect();
                if cells.len() != def.len() + 1 {
                    // values with line breaks or delimiters
                    return Ok(Ans::Skip);
                }
                v.push((cells[..def.len()].to_vec(), cells[def.len()].parse().unwrap_or(u64::MAX)));
            }
            Ans::Val(canon_freq(v))
        }
        Req::Config { .. } => {
            let v: toml::Value = toml::from_str(out).must("parse the configuration")?;
            Ans::Val(serde_json::to_value(v).unwrap_or_default())
        }
        _ => Ans::Skip,
    })
}

// ------------------------------------------------------------ check

fn gen_req(s: &mut Src, ctx: &mut Ctx, st: &Cs) -> R<Req> {
    let part = s.pick(&st.parts);
    let c = if s.chance(1, 20) { s.pick(&["missing", "C", "c/x"]).to_string() } else { part.name.clone() };
    let mut bad = false;
    let kind = s.weighted(&[1, 6, 8, 5, 3, 2, 4, 4, 4, 4, 5, 2, 2, 2]);
    let mut case: Option<Case> = None;
    if [1, 2, 3, 4, 5, 10].contains(&kind) {
        case = gen_case(s, ctx, st, 3, true)?;
    }
    let (mut q, mut corpora) = match &case {
        Some(c) => (c.text.clone(), c.names.clone()),
        None => ("node".into(), vec![part.name.clone()]),
    };
    if s.chance(1, 8) {
        q = match s.idx(7) {
            0 => "".into(),
            1 => "node & node".into(),
            2 => "tok & pos=\"x\" & #1 . #3".into(),
            3 => "pos=/[/".into(),
            4 => q.chars().take(s.idx(q.chars().count() + 1)).collect(),
            5 => "node & node & #1 .1,0 #2".into(),
            _ => "tok=\"\u{e4}\" & \u{1}".into(),
        };
        bad = true;
    }
    if s.chance(1, 20) {
        corpora.push("missing".into());
        bad = true;
    }
    let quirks = s.chance(1, 5);
    let ids = |s: &mut Src| -> Vec<String> {
        let n = s.size(1, 3);
        (0..n)
            .map(|_| if s.chance(1, 20) { "c/no#such".to_string() } else if part.v.names.is_empty() { "x".into() } else { s.pick(&part.v.names).clone() })
            .collect()
    };
    let types = ["Coverage", "Dominance", "Pointing", "Ordering", "PartOf", "LeftToken", "RightToken"];
    Ok(match kind {
        0 => Req::List,
        1 => Req::Count { corpora, q, quirks },
        2 => {
            let order = *s.pick(&[ResultOrder::Normal, ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted, ResultOrder::Randomized]);
            let exact = match &case {
                Some(c) if !bad && !quirks && c.closed() => expected_order(st, c, matches!(order, ResultOrder::Inverted), false),
                _ => None,
            };
            // the corpora are searched in random order, too, and only the first error is reported
            let order = if bad && matches!(order, ResultOrder::Randomized) { ResultOrder::Normal } else { order };
            let (off, lim) = if s.chance(1, 2) { (0, None) } else { (s.size(0, 4), if s.chance(1, 3) { None } else { Some(s.size(0, 6)) }) };
            Req::Find { corpora, q, quirks, off, lim, order, exact }
        }
        3 => {
            let n = s.size(1, 3);
            let def = (0..n)
                .map(|_| {
                    let ns = match s.idx(3) {
                        0 => None,
                        1 => Some("".to_string()),
                        _ => Some(s.pick(&["annis", "ns", "default_ns", "a"]).to_string()),
                    };
                    let name = s.pick(&["tok", "pos", "lemma", "node_type", "x", "doc"]).to_string();
                    (s.pick(&["1", "1", "2", "3", "n", "9"]).to_string(), ns, name)
                })
                .collect();
            Req::Freq { corpora, q, quirks, def }
        }
        4 => Req::Desc { q, quirks },
        5 => Req::Valid { corpora, q, quirks },
        6 => Req::NodeAnnos { c, vals: s.chance(2, 3), most: s.chance(1, 3) },
        7 => {
            let all: Vec<Comp> = part.c.m.edges.keys().cloned().collect();
            let co = if all.is_empty() || s.chance(1, 10) { comp("Pointing", "no", "such") } else { s.pick(&all).clone() };
            Req::EdgeAnnos { c, comp: co, vals: s.chance(2, 3), most: s.chance(1, 3) }
        }
        8 => {
            let all: Vec<Comp> = part.c.m.edges.keys().cloned().collect();
            let n = if all.is_empty() || s.chance(1, 5) { "x".to_string() } else { s.pick(&all).2.clone() };
            Req::Comps { c, t: if s.chance(3, 4) { Some(s.pick(&types).to_string()) } else { None }, n: if s.chance(1, 4) { Some(n) } else { None } }
        }
        9 => Req::Sub { c, ids: ids(s), l: s.size(0, 3), r: s.size(0, 3), seg: if s.chance(1, 4) { Some(s.pick(&["seg", "dipl", "norm", "no"]).to_string()) } else { None } },
        10 => Req::SubQ { c, q, quirks, t: if s.chance(1, 3) { Some(s.pick(&types).to_string()) } else { None } },
        11 => {
            let all: Vec<String> =
                (0..part.v.names.len()).filter(|i| part.v.val(*i, "annis", "node_type").is_some_and(|v| v == "corpus")).map(|i| part.v.names[i].clone()).collect();
            let n = s.size(1, 2);
            Req::SubCorpus { c, ids: if all.is_empty() || s.chance(1, 10) { ids(s) } else { (0..n).map(|_| s.pick(&all).clone()).collect() } }
        }
        12 => Req::CorpusGraph { c },
        _ => Req::Config { c },
    })
}

fn without_null(v: &mut Value) {
    if let Value::Object(o) = v {
        o.retain(|_, x| !x.is_null());
        o.values_mut().for_each(without_null);
    }
}

/// Edge components without edges are not part of a GraphML document
fn compare(who: &str, r: &Req, exp: &Ans, got: &Ans) -> R {
    let kind = format!("{r:?}").split([' ', '{']).next().unwrap_or("").to_string();
    let bad = |what: &str| {
        let show = |a: &Ans| -> String {
            let t = match a {
                Ans::Graph(g) => format!("{g:?}"),
                x => format!("{x:?}"),
            };
            t.chars().take(700).collect()
        };
        fail(format!("{who}:{kind}:{what}"), format!("{who} answers {r:?} with {}, but the answer of the library is {}", show(got), show(exp)))
    };
    match (exp, got) {
        (_, Ans::Skip) => Ok(()),
        (Ans::Err(ek, em), Ans::Err(gk, gm)) => {
            let syntax = ["AQLSyntaxError", "AQLSemanticError", "ImpossibleSearch"].contains(&ek.as_str());
            match who {
                "C" => {
                    if ek != gk || em != gm {
                        return bad("error");
                    }
                }
                "web" => {
                    if syntax != (gk == ek) {
                        return bad("error");
                    }
                    if !syntax && (!gk.starts_with("status ") || gm != em && gk != "status 404") {
                        return bad("error");
                    }
                }
                _ => {
                    if !gm.starts_with(em.as_str()) {
                        return bad("error");
                    }
                }
            }
            Ok(())
        }
        (Ans::Graph(a), Ans::Graph(b)) => {
            same(&format!("{who}:{kind}:graph"), &format!("graph returned by {who} for {r:?}"), &a.without_index(), &b.without_index())
        }
        (a, b) => {
            if a != b {
                return bad("answer");
            }
            Ok(())
        }
    }
}

fn answers(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let mut st = setup(s, ctx, 3, &Opts { max_docs: 2, max_tok: o.max_tok.min(5), ..o })?;
    let n = s.size(12, 30);
    let mut reqs = vec![];
    for _ in 0..n {
        let r = gen_req(s, ctx, &st)?;
        ctx.note(format!("{r:?}"));
        reqs.push(r);
    }
    let mut exp = vec![];
    let mut kinds = BTreeSet::new();
    for r in &reqs {
        let a = library(st.cs(), r)?;
        if !matches!(&a, Ans::Err(..)) && !matches!(&a, Ans::Val(v) if v.as_array().is_some_and(|a| a.is_empty())) {
            kinds.insert(format!("{r:?}").split([' ', '{']).next().unwrap().to_string());
        }
        ctx.label_if(matches!(a, Ans::Err(..)), "errors");
        if let (Req::Find { exact: Some(e), off, lim, order: ResultOrder::Normal | ResultOrder::Inverted, .. }, Ans::Val(v)) = (r, &a) {
            let w: Vec<&String> = e.iter().skip(*off).take(lim.unwrap_or(usize::MAX)).collect();
            if *v != json!(w) {
                return fail("library:find", format!("{r:?}: {v}"));
            }
        }
        exp.push(a);
    }
    ctx.nontrivial_if(kinds.len() >= 4);
    st.cs = None;
    let which = s.idx(8);
    if which != 1 {
        let l = lib()?;
        let p = l.open(&st.dir, s.chance(1, 2), s.chance(1, 2))?;
        for (r, e) in reqs.iter().zip(&exp) {
            if format!("{r:?}").contains("\\0") {
                continue;
            }
            let a = l.answer(p, r)?;
            compare("C", r, e, &a)?;
        }
        l.close(p)?;
    }
    let top = ctx.dir();
    if which != 2 {
        let mut srv = start_server(&top, &st.dir)?;
        let t = admin_token();
        for (r, e) in reqs.iter().zip(&exp) {
            let a = web(&srv, &t, r)?;
            compare("web", r, e, &a)?;
        }
        if !srv.alive() || srv.log().contains("panicked") {
            return fail("web:panic", format!("the web service has ended or panicked: {}", srv.log()));
        }
        srv.stop();
    }
    if which != 3 {
        let mut cmds = vec![];
        let mut pos = vec![];
        for r in &reqs {
            match cli_cmds(r) {
                Some(c) if !c.iter().any(|c| c.contains('\0')) => {
                    cmds.extend(c);
                    pos.push(Some(cmds.len() - 1));
                }
                _ => pos.push(None),
            }
        }
        let missing = |r: &Req| format!("{r:?}").contains("\"missing\"") || matches!(r, Req::Config { c } if !st.parts.iter().any(|p| p.name == *c));
        let out = cli(&st.dir, &cmds)?;
        for ((r, e), i) in reqs.iter().zip(&exp).zip(&pos) {
            let Some(i) = i else { continue };
            if missing(r) {
                continue;
            }
            let mut e = e.clone();
            if let (Req::Freq { def, .. }, Ans::Val(v)) = (r, &e) {
                // definitions for unknown query nodes have no column
                if v.as_array().unwrap().iter().any(|row| row[0].as_array().unwrap().len() != def.len()) {
                    continue;
                }
                // surrounding space is not visible in tables
                let mut t = vec![];
                let mut simple = true;
                for row in v.as_array().unwrap() {
                    let vals: Vec<String> = row[0].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    simple &= !vals.iter().any(|v| v.contains(['|', '\n', '\r', '\t']));
                    t.push((vals.iter().map(|v| if v.trim().is_empty() { format!("'{v}'") } else { v.trim().to_string() }).collect(), row[1].as_u64().unwrap()));
                }
                if !simple {
                    continue;
                }
                e = Ans::Val(canon_freq(t));
            }
            if let (Req::Config { .. }, Ans::Val(v)) = (r, &mut e) {
                // TOML has no null values
                without_null(v);
            }
            compare("CLI", r, &e, &cli_answer(r, &out[*i])?)?;
        }
    }
    Ok(())
}


fn event_c(l: &Lib, u: P, e: &UpdateEvent) -> R {
    let mut err: P = std::ptr::null_mut();
    let x: E = &mut err;
    unsafe {
        match e {
            UpdateEvent::AddNode { node_name, node_type } => {
                sym!(l, "annis_graphupdate_add_node", unsafe extern "C" fn(P, S, S, E))(u, cs(node_name).as_ptr(), cs(node_type).as_ptr(), x)
            }
            UpdateEvent::DeleteNode { node_name } => {
                sym!(l, "annis_graphupdate_delete_node", unsafe extern "C" fn(P, S, E))(u, cs(node_name).as_ptr(), x)
            }
            UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
                sym!(l, "annis_graphupdate_add_node_label", unsafe extern "C" fn(P, S, S, S, S, E))(
                    u, cs(node_name).as_ptr(), cs(anno_ns).as_ptr(), cs(anno_name).as_ptr(), cs(anno_value).as_ptr(), x,
                )
            }
            UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {
                sym!(l, "annis_graphupdate_delete_node_label", unsafe extern "C" fn(P, S, S, S, E))(
                    u, cs(node_name).as_ptr(), cs(anno_ns).as_ptr(), cs(anno_name).as_ptr(), x,
                )
            }
            UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
                sym!(l, "annis_graphupdate_add_edge", unsafe extern "C" fn(P, S, S, S, S, S, E))(
                    u, cs(source_node).as_ptr(), cs(target_node).as_ptr(), cs(layer).as_ptr(), cs(component_type).as_ptr(), cs(component_name).as_ptr(), x,
                )
            }
            UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
                sym!(l, "annis_graphupdate_delete_edge", unsafe extern "C" fn(P, S, S, S, S, S, E))(
                    u, cs(source_node).as_ptr(), cs(target_node).as_ptr(), cs(layer).as_ptr(), cs(component_type).as_ptr(), cs(component_name).as_ptr(), x,
                )
            }
            UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
                sym!(l, "annis_graphupdate_add_edge_label", unsafe extern "C" fn(P, S, S, S, S, S, S, S, S, E))(
                    u, cs(source_node).as_ptr(), cs(target_node).as_ptr(), cs(layer).as_ptr(), cs(component_type).as_ptr(), cs(component_name).as_ptr(),
                    cs(anno_ns).as_ptr(), cs(anno_name).as_ptr(), cs(anno_value).as_ptr(), x,
                )
            }
            UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
                sym!(l, "annis_graphupdate_delete_edge_label", unsafe extern "C" fn(P, S, S, S, S, S, S, S, E))(
                    u, cs(source_node).as_ptr(), cs(target_node).as_ptr(), cs(layer).as_ptr(), cs(component_type).as_ptr(), cs(component_name).as_ptr(),
                    cs(anno_ns).as_ptr(), cs(anno_name).as_ptr(), x,
                )
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
    if !err.is_null() {
        return fail("C:event", format!("{:?}", l.error(err)?));
    }
    Ok(())
}

struct Files {
    dir: PathBuf,
    n: usize,
}
impl Files {
    fn new(&mut self, name: &str) -> PathBuf {
        self.n += 1;
        let d = self.dir.join(format!("f{}", self.n));
        std::fs::create_dir_all(&d).unwrap();
        d.join(name)
    }
}

fn read_graphml(p: &Path) -> R<MGraph> {
    let f = std::fs::File::open(p).must("open exported file")?;
    let (g, _) = graphannis_core::graph::serialization::graphml::import::<AnnotationComponentType, _, _>(f, false, |_| {}).must("read exported file")?;
    Ok(dump(&g)?.normalized().without_index())
}

/// content of a directory or ZIP file with exported corpora
fn read_export(p: &Path, tmp: &Path) -> R<BTreeMap<String, MGraph>> {
    let mut r = BTreeMap::new();
    let dir = if p.is_dir() {
        p.to_path_buf()
    } else {
        let d = tmp.join("unpacked");
        let _ = std::fs::remove_dir_all(&d);
        let mut z = zip::ZipArchive::new(std::fs::File::open(p).must("open ZIP")?).must("read ZIP")?;
        z.extract(&d).must("unpack ZIP")?;
        d
    };
    // several corpora in a ZIP file have their own directories
    let mut todo = vec![dir];
    while let Some(dir) = todo.pop() {
        for e in std::fs::read_dir(&dir).must("list")? {
            let p = e.unwrap().path();
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                todo.push(p);
            } else if let Some(n) = n.strip_suffix(".graphml") {
                r.insert(n.to_string(), read_graphml(&p)?);
            }
        }
    }
    Ok(r)
}

fn same_all(sig: &str, what: &str, exp: &BTreeMap<String, MGraph>, got: &BTreeMap<String, MGraph>) -> R {
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (exp.keys().collect(), got.keys().collect());
    if a != b {
        return fail(sig, format!("{what}: corpora {b:?} instead of {a:?}"));
    }
    for (n, m) in exp {
        same(sig, &format!("{what}: corpus {n:?}"), &m.normalized().without_index(), &got[n])?;
    }
    Ok(())
}

fn changes(s: &mut Src, ctx: &mut Ctx) -> R {
    let top = ctx.dir();
    let dir = top.join("data");
    let ftmp = top.join("files");
    let web_dir = top.join("web");
    for d in [&dir, &ftmp, &web_dir] {
        std::fs::create_dir_all(d).unwrap();
    }
    let mut files = Files { dir: ftmp, n: 0 };
    let mut model: BTreeMap<String, MGraph> = BTreeMap::new();
    let names = ["a", "b", "c.1", "\u{e4}"];
    let o = Opts { max_docs: 2, max_tok: 4, ..opts(s, ctx) };
    let sessions = s.size(2, 5);
    let mut n_changes = 0;
    for _ in 0..sessions {
        let steps = s.size(1, 5);
        let iface = s.idx(3);
        ctx.note(["C library:", "web service:", "command line:"][iface]);
        // the corpora to be exported
        let some = |s: &mut Src, model: &BTreeMap<String, MGraph>| -> Vec<String> {
            let mut v: Vec<String> = model.keys().cloned().collect();
            s.shuffle(&mut v);
            let n = s.size(1, v.len().max(1));
            v.truncate(n);
            v
        };
        let part = |v: &[String], model: &BTreeMap<String, MGraph>| -> BTreeMap<String, MGraph> {
            model.iter().filter(|(n, _)| v.contains(n)).map(|(a, b)| (a.clone(), b.clone())).collect()
        };
        match iface {
            0 => {
                let l = lib()?;
                let p = l.open(&dir, s.chance(1, 2), s.chance(1, 2))?;
                for _ in 0..steps {
                    let name = s.pick(&names).to_string();
                    let mut err: P = std::ptr::null_mut();
                    let e: E = &mut err;
                    n_changes += 1;
                    match s.weighted(&[6, 3, 2, 2, 2]) {
                        0 => {
                            let target = gen_corpus(s, &o).m.normalized();
                            let mut evs = super::index::edit(s, model.get(&name).unwrap_or(&MGraph::default()), &target);
                            let cut = if s.chance(1, 3) { s.idx(evs.len() + 1) } else { evs.len() };
                            evs.truncate(cut);
                            // no NUL in C
                            evs.retain(|e| !format!("{e:?}").contains("\\0"));
                            ctx.note(format!("update {name} with {} events:", evs.len()));
                            let u = sym!(l, "annis_graphupdate_new", extern "C" fn() -> P)();
                            for e in &evs {
                                ctx.note(format!("  {}", show_event(e)));
                                event_c(&l, u, e)?;
                            }
                            unsafe { sym!(l, "annis_cs_apply_update", unsafe extern "C" fn(P, S, P, E))(p, cs(&name).as_ptr(), u, e) };
                            let m = model.entry(name).or_default();
                            m.apply_all(&evs);
                            *m = m.normalized();
                        }
                        1 => {
                            let m = gen_corpus(s, &o).m.normalized();
                            let f = files.new("x.graphml");
                            super::life::write_graphml(&m, &f, None)?;
                            let over = s.chance(1, 2);
                            let disk = s.chance(1, 2);
                            let own = s.chance(1, 4);
                            ctx.note(format!("import {name} over={over} disk={disk} own={own}"));
                            let name = if own { "x".to_string() } else { name };
                            let c = cs(&name);
                            let r = unsafe {
                                sym!(l, "annis_cs_import_from_fs", unsafe extern "C" fn(P, S, ImportFormat, S, bool, bool, E) -> *mut c_char)(
                                    p, cs(&f.to_string_lossy()).as_ptr(), ImportFormat::GraphML, if own { std::ptr::null() } else { c.as_ptr() }, disk, over, e,
                                )
                            };
                            if model.contains_key(&name) && !over {
                                if err.is_null() {
                                    return fail("C:import", "an existing corpus was overwritten");
                                }
                                err = std::ptr::null_mut();
                            } else if err.is_null() {
                                let r = l.owned(r)?;
                                if r != name {
                                    return fail("C:import", format!("name of the imported corpus is {r:?} instead of {name:?}"));
                                }
                                model.insert(name, m);
                            }
                        }
                        2 => {
                            ctx.note(format!("delete {name}"));
                            let r = unsafe { sym!(l, "annis_cs_delete", unsafe extern "C" fn(P, S, E) -> bool)(p, cs(&name).as_ptr(), e) };
                            if r != model.remove(&name).is_some() {
                                return fail("C:delete", format!("deletion of {name:?} returns {r}"));
                            }
                        }
                        3 => {
                            ctx.note(format!("unload {name}"));
                            unsafe { sym!(l, "annis_cs_unload", unsafe extern "C" fn(P, S, E))(p, cs(&name).as_ptr(), e) };
                            if !model.contains_key(&name) {
                                err = std::ptr::null_mut();
                            }
                        }
                        _ if !model.is_empty() => {
                            let mut v = some(s, &model);
                            let format = *s.pick(&[ExportFormat::GraphML, ExportFormat::GraphMLZip, ExportFormat::GraphMLDirectory]);
                            if matches!(format, ExportFormat::GraphML) {
                                v.truncate(1);
                            }
                            let f = files.new(match format {
                                ExportFormat::GraphML => "x.graphml",
                                ExportFormat::GraphMLZip => "x.zip",
                                ExportFormat::GraphMLDirectory => "d",
                            });
                            ctx.note(format!("export {v:?} to {:?}", f.file_name()));
                            unsafe {
                                sym!(l, "annis_cs_export_to_fs", unsafe extern "C" fn(P, P, S, ExportFormat, E))(
                                    p, l.strs(&v)?, cs(&f.to_string_lossy()).as_ptr(), format, e,
                                )
                            };
                            if err.is_null() {
                                let got = if f.ends_with("x.graphml") { BTreeMap::from([(v[0].clone(), read_graphml(&f)?)]) } else { read_export(&f, &top)? };
                                same_all("C:export", "corpora exported with the C library", &part(&v, &model), &got)?;
                            }
                        }
                        _ => {}
                    }
                    if !err.is_null() {
                        return fail("C:error", format!("{:?}", l.error(err)?));
                    }
                }
                l.close(p)?;
            }
            1 => {
                let mut srv = start_server(&web_dir, &dir)?;
                let t = admin_token();
                let auth = Some(t.as_str());
                for _ in 0..steps {
                    let name = s.pick(&names).to_string();
                    n_changes += 1;
                    match s.weighted(&[5, 3, 3]) {
                        0 => {
                            let n = s.size(1, 3);
                            let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
                            let over = s.chance(2, 3);
                            let mut works = true;
                            let mut new = BTreeMap::new();
                            for x in names.iter().skip(s.idx(names.len())).take(n) {
                                let m = gen_corpus(s, &o).m.normalized();
                                let f = files.new("x.graphml");
                                super::life::write_graphml(&m, &f, None)?;
                                z.start_file(format!("{x}.graphml"), zip::write::SimpleFileOptions::default()).unwrap();
                                std::io::Write::write_all(&mut z, &std::fs::read(&f).unwrap()).unwrap();
                                works &= over || !model.contains_key(*x);
                                new.insert(x.to_string(), m);
                            }
                            let z = z.finish().unwrap().into_inner();
                            ctx.note(format!("import {:?} over={over}", new.keys()));
                            let path = if !over && s.chance(1, 2) { "/v1/import".to_string() } else { format!("/v1/import?override_existing={over}") };
                            let r = srv.request("POST", &path, auth, Some(("application/octet-stream", &z)))?;
                            if r.status != 202 {
                                return fail("web:import", r.show());
                            }
                            let id = r.json()?["uuid"].as_str().unwrap_or("").to_string();
                            let r = wait_job(&srv, &id, auth)?;
                            if r.status != if works { 200 } else { 410 } {
                                return fail("web:import", format!("import with over={over}: {}", r.show()));
                            }
                            if works {
                                model.extend(new);
                            } else {
                                // some of the new corpora might have been imported before the error
                                drop(srv);
                                let got = super::life::read_dir(&dir)?;
                                for (n, m) in &new {
                                    if !model.contains_key(n) && got.contains_key(n) {
                                        model.insert(n.clone(), m.clone());
                                    }
                                }
                                srv = start_server(&web_dir, &dir)?;
                            }
                        }
                        1 => {
                            ctx.note(format!("delete {name}"));
                            let r = srv.request("DELETE", &format!("/v1/corpora/{}", enc(&name)), auth, None)?;
                            if r.status != if model.remove(&name).is_some() { 200 } else { 404 } {
                                return fail("web:delete", format!("deletion of {name:?}: {}", r.show()));
                            }
                        }
                        _ if !model.is_empty() => {
                            let v = some(s, &model);
                            ctx.note(format!("export {v:?}"));
                            let r = srv.request("POST", "/v1/export", auth, Some(("application/json", json!({"corpora": v}).to_string().as_bytes())))?;
                            let id = r.json()?["uuid"].as_str().unwrap_or("").to_string();
                            let r = wait_job(&srv, &id, auth)?;
                            if r.status != 200 {
                                return fail("web:export", r.show());
                            }
                            let f = files.new("x.zip");
                            std::fs::write(&f, &r.body).unwrap();
                            same_all("web:export", "corpora exported with the web service", &part(&v, &model), &read_export(&f, &top)?)?;
                        }
                        _ => {}
                    }
                }
                if !srv.alive() || srv.log().contains("panicked") {
                    return fail("web:panic", srv.log());
                }
                srv.stop();
            }
            _ => {
                let mut cmds = vec![];
                let mut exports = vec![];
                let mut errors = vec![];
                for _ in 0..steps {
                    let name = s.pick(&names).to_string();
                    n_changes += 1;
                    match s.weighted(&[5, 3, 3, 1]) {
                        0 => {
                            let m = gen_corpus(s, &o).m.normalized();
                            match s.idx(3) {
                                0 => {
                                    let f = files.new(s.pick(&["x.graphml", "x.xml", "x.GraphML"]));
                                    super::life::write_graphml(&m, &f, None)?;
                                    cmds.push(format!("import {} {name}", f.display()));
                                }
                                1 => {
                                    let f = files.new(&format!("{name}.graphml"));
                                    super::life::write_graphml(&m, &f, None)?;
                                    cmds.push(format!("import {}", f.display()));
                                }
                                _ => {
                                    let f = files.new("x.zip");
                                    std::fs::write(&f, super::web::zip_of(&name, &m, &top)?).unwrap();
                                    cmds.push(format!("import {}", f.display()));
                                }
                            }
                            model.insert(name, m);
                        }
                        1 => {
                            cmds.push(format!("delete {name}"));
                            model.remove(&name);
                        }
                        2 if !model.is_empty() => {
                            let v = some(s, &model);
                            let f = files.new(s.pick(&["x.zip", "d", "x.ZIP"]));
                            cmds.push(format!("corpus {}", v.join(" ")));
                            cmds.push(format!("export {}", f.display()));
                            exports.push((f, part(&v, &model)));
                            if v.len() == 1 {
                                let f = files.new("x.graphml");
                                cmds.push(format!("export {}", f.display()));
                                exports.push((f, part(&v, &model)));
                            }
                        }
                        2 => {}
                        _ => {
                            cmds.push(s.pick(&["set-disk-based on", "set-parallel-search off", "set-parallel-search on", "set-disk-based off"]).to_string());
                        }
                    }
                    if s.chance(1, 8) {
                        errors.push(cmds.len());
                        cmds.push(s.pick(&["set-limit x", "set-order x", "set-timeout -1", "set-disk-based x"]).to_string());
                    }
                }
                for c in &cmds {
                    ctx.note(format!("annis: {c}"));
                }
                let out = cli(&dir, &cmds)?;
                for (i, x) in out.iter().enumerate() {
                    if x.starts_with("Error:") != errors.contains(&i) {
                        return fail("CLI:error", format!("{:?}: {x}", cmds[i]));
                    }
                }
                for (f, exp) in exports {
                    let got = if f.ends_with("x.graphml") { BTreeMap::from([(exp.keys().next().unwrap().clone(), read_graphml(&f)?)]) } else { read_export(&f, &top)? };
                    same_all("CLI:export", "corpora exported with the command line", &exp, &got)?;
                }
            }
        }
        let got = super::life::read_dir(&dir)?;
        same_all("stored", "stored corpora", &model, &got)?;
    }
    ctx.nontrivial_if(n_changes >= 3);
    Ok(())
}
