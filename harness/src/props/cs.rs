//! G19, G20, G22: counting, ordering, paging and frequencies of a corpus storage.
use super::query::{opts, show, show_corpus};
use crate::aql::*;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::*;
use percent_encoding::{AsciiSet, CONTROLS, utf8_percent_encode};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn property_count() -> Property {
    Property {
        id: "G19",
        rule: "1-3 random corpora in a corpus storage (parallel joins on/off, cache limits, on-disk corpora, unloading and re-opening) and queries of all kinds with 1-3 nodes and alternatives, searched in a random selection of the corpora; non-trivial: at least two matches expected",
        level: "exploration",
        assumptions: &["tuples whose membership the query language leaves open may be counted or not"],
        checks: vec![Check { name: "count", f: count, quick: 1000, thorough: 60000 }],
    }
}
pub fn property_order() -> Property {
    Property {
        id: "G20",
        rule: "as for counting; each result order is requested completely, in pages of random size and with huge offsets and limits; non-trivial: at least three matches and at least two pages",
        level: "exploration",
        assumptions: &[
            "the exact order is only checked if comparing by document path, text position, name and annotation is a total order for the matches; this is not the case for matches in several texts of the same document or without any token (see known findings)",
        ],
        checks: vec![
            Check { name: "order", f: order, quick: 900, thorough: 40000 },
            Check { name: "large", f: order_large, quick: 160, thorough: 4000 },
            Check { name: "quirks", f: order_quirks, quick: 1200, thorough: 30000 },
        ],
    }
}
pub fn property_frequency() -> Property {
    Property {
        id: "G22",
        rule: "as for counting, with 1-4 frequency definitions referring to query nodes by number or name, annotations with and without namespace; non-trivial: at least two different rows",
        level: "exploration",
        assumptions: &[
            "if an annotation is given without namespace and a node has it in several namespaces, any of the values may be reported",
        ],
        checks: vec![Check { name: "frequency", f: frequency, quick: 2400, thorough: 60000 }],
    }
}

pub struct Part {
    pub name: String,
    pub c: Corpus,
    pub v: View,
}
pub struct Cs {
    pub cs: Option<CorpusStorage>,
    pub parts: Vec<Part>,
    pub dir: PathBuf,
    pub parallel: bool,
    pub cache: usize,
}
impl Cs {
    pub fn cs(&self) -> &CorpusStorage {
        self.cs.as_ref().unwrap()
    }
}

pub const CORPUS_NAMES: [&str; 8] = ["c", "b", "B", "c 2", "ä%2F", "x.y", "aa", "z"];

pub fn open(dir: &Path, cache: usize, parallel: bool) -> R<CorpusStorage> {
    let strat = match cache {
        0 => CacheStrategy::FixedMaxMemory(0),
        1 => CacheStrategy::PercentOfFreeMemory(10.0),
        2 => CacheStrategy::FixedMaxMemory(1000),
        _ => CacheStrategy::PercentOfFreeMemory(0.0),
    };
    CorpusStorage::with_cache_strategy(dir, strat, parallel).must("open corpus storage")
}

/// Create corpora in a corpus storage.
pub fn setup(s: &mut Src, ctx: &mut Ctx, max: usize, o: &Opts) -> R<Cs> {
    let dir = ctx.dir();
    let parallel = s.chance(1, 5);
    let cache = s.idx(4);
    let n = s.size(1, max);
    let mut names: Vec<String> = CORPUS_NAMES.iter().map(|x| x.to_string()).collect();
    s.shuffle(&mut names);
    ctx.note(format!("corpus storage with parallel={parallel} cache={cache}"));
    let mut r = Cs { cs: Some(open(&dir, cache, parallel)?), parts: vec![], dir, parallel, cache };
    for name in names.into_iter().take(n) {
        ctx.note(format!("corpus {name:?}:"));
        let c = gen_corpus(s, o);
        show_corpus(ctx, &c);
        let disk = s.chance(1, 5);
        ctx.label_if(disk, "disk-based");
        let cs = r.cs();
        if !cs.create_empty_corpus(&name, disk).must("create corpus")? {
            return fail("create", format!("creating the corpus {name:?} reports that it exists already"));
        }
        let mut evs = c.m.to_events();
        if s.chance(1, 3) {
            let (mut nodes, rest): (Vec<_>, Vec<_>) =
                evs.into_iter().partition(|e| matches!(e, graphannis::update::UpdateEvent::AddNode { .. }));
            s.shuffle(&mut nodes);
            nodes.extend(rest);
            evs = nodes;
        }
        cs.apply_update(&name, &mut to_update(&evs)?).must("apply update")?;
        match s.idx(8) {
            0 => cs.unload(&name).must("unload")?,
            1 => cs.reoptimize_implementation(&name, disk).must("reoptimize")?,
            2 => cs.preload(&name).must("preload")?,
            _ => {}
        }
        let v = View::new(&c.m);
        r.parts.push(Part { name, c, v });
    }
    if s.chance(1, 4) {
        ctx.label("re-opened");
        r.cs = None;
        r.cs = Some(open(&r.dir, cache, parallel)?);
    }
    Ok(r)
}

pub const ENC: &AsciiSet =
    &CONTROLS.add(b':').add(b'/').add(b' ').add(b'%').add(b'\\').add(b'<').add(b'>').add(b'"').add(b'|').add(b'?').add(b'*');

/// textual form of a match
pub fn match_string(v: &View, t: &Tuple) -> String {
    let mut r = vec![];
    for (n, key) in t {
        let mut e = String::new();
        if key.0 != "annis" || key.1 != "node_type" {
            if !key.0.is_empty() {
                e += &format!("{}::", utf8_percent_encode(&key.0, ENC));
            }
            e += &format!("{}::", utf8_percent_encode(&key.1, ENC));
        }
        e += &v.names[*n];
        r.push(e);
    }
    r.join(" ")
}

/// random query for the storage
fn gen_query(s: &mut Src, st: &Cs, max_nodes: usize, alts: bool) -> Query {
    let p = &st.parts[s.idx(st.parts.len())];
    let na = if alts { s.weighted(&[4, 1, 1]) + 1 } else { 1 };
    let mut q = Query::default();
    for i in 0..na {
        let n = s.size(1, max_nodes);
        let mut a = gen_alt(s, &p.v, &p.c, n, Family::All);
        if n == 2 && s.chance(1, 6) {
            // optional node
            a.ops.truncate(1);
            a.ops[0].neg = true;
            let x = s.idx(2);
            a.nodes[x].optional = true;
        } else if n == 2 && s.chance(1, 8) {
            let q = QNode { optional: true, ..node(gen_spec(s, &p.v, &p.c)) };
            let pos = s.idx(3);
            for op in a.ops.iter_mut() {
                if op.l >= pos {
                    op.l += 1;
                }
                if op.r >= pos {
                    op.r += 1;
                }
            }
            a.nodes.insert(pos, q);
            let other = (pos + 1 + s.idx(2)) % 3;
            let op = gen_op(s, &p.c, Family::All);
            a.ops.push(QOp { l: other, r: pos, op, neg: true });
        }
        for x in a.nodes.iter_mut() {
            if let Some(v) = &mut x.var {
                *v = format!("{v}{}", ["a", "b", "c"][i]);
            }
        }
        q.alts.push(a);
    }
    q
}

fn segs_known(c: &Corpus, q: &Query) -> bool {
    q.alts.iter().flat_map(|a| a.ops.iter()).all(|o| !o.neg || super::query::known_seg(c, &o.op))
}

/// Corpora to search in (without duplicates)
fn select(s: &mut Src, st: &Cs) -> Vec<usize> {
    let mut r: Vec<usize> = (0..st.parts.len()).collect();
    s.shuffle(&mut r);
    let n = s.size(1, r.len());
    r.truncate(n);
    r
}

pub struct Case {
    pub sel: Vec<usize>,
    pub names: Vec<String>,
    pub text: String,
    pub query: Query,
    pub exp: Vec<Expected>,
}
impl Case {
    fn sq(&self) -> SearchQuery<'_, String> {
        SearchQuery { corpus_names: &self.names, query: &self.text, query_language: QueryLanguage::AQL, timeout: None }
    }
    pub fn closed(&self) -> bool {
        self.exp.iter().all(|e| e.sure.len() == e.possible.len())
    }
    fn sure(&self) -> usize {
        self.exp.iter().map(|e| e.sure.len()).sum()
    }
    fn possible(&self) -> usize {
        self.exp.iter().map(|e| e.possible.len()).sum()
    }
}

pub fn gen_case(s: &mut Src, ctx: &mut Ctx, st: &Cs, max_nodes: usize, alts: bool) -> R<Option<Case>> {
    let query = gen_query(s, st, max_nodes, alts);
    let sel = select(s, st);
    let names: Vec<String> = sel.iter().map(|i| st.parts[*i].name.clone()).collect();
    let text = if s.chance(1, 2) { query.plain() } else { query.print(&mut |n| s.idx(n)) };
    ctx.note(format!("query {text} in {names:?}"));
    let mut exp = vec![];
    for i in &sel {
        if !segs_known(&st.parts[*i].c, &query) {
            return Ok(None);
        }
        let e = evaluate(&st.parts[*i].v, &query);
        if e.too_big {
            ctx.label("skipped: too big");
            return Ok(None);
        }
        exp.push(e);
    }
    Ok(Some(Case { sel, names, text, query, exp }))
}

fn between(sig: &str, what: &str, q: &str, got: u64, lo: usize, hi: usize) -> R {
    if got < lo as u64 || got > hi as u64 {
        let e = if lo == hi { format!("{lo}") } else { format!("{lo}-{hi}") };
        return fail(sig, format!("{what} for {q:?} is {got}, expected {e}"));
    }
    Ok(())
}

/// documents containing the first nodes of the matches: (certain, possible)
fn documents(p: &Part, e: &Expected) -> (usize, usize) {
    let Some(part) = p.v.comps.get(&comp("PartOf", "annis", "")) else { return (0, 0) };
    let docs = |ts: &BTreeSet<Tuple>, with_self: bool| -> usize {
        let mut found = BTreeSet::new();
        for t in ts {
            let Some((n, _)) = t.first() else { continue };
            let mut todo = vec![*n as u64];
            let mut first = true;
            while let Some(x) = todo.pop() {
                if (!first || with_self) && p.v.val(x as usize, "annis", "doc").is_some() {
                    found.insert(x);
                }
                first = false;
                if let Some(o) = part.plain.out.get(&x) {
                    todo.extend(o.iter().copied());
                }
            }
        }
        found.len()
    };
    (docs(&e.sure, false), docs(&e.possible, true))
}

fn check_set(st: &Cs, c: &Case, got: &[String], what: &str) -> R {
    let mut sure: BTreeMap<String, usize> = BTreeMap::new();
    let mut possible: BTreeMap<String, usize> = BTreeMap::new();
    for (e, i) in c.exp.iter().zip(&c.sel) {
        let v = &st.parts[*i].v;
        for t in &e.sure {
            *sure.entry(match_string(v, t)).or_default() += 1;
        }
        for t in &e.possible {
            *possible.entry(match_string(v, t)).or_default() += 1;
        }
    }
    let mut g: BTreeMap<String, usize> = BTreeMap::new();
    for x in got {
        *g.entry(x.clone()).or_default() += 1;
    }
    for (m, n) in &g {
        let p = possible.get(m).copied().unwrap_or(0);
        if *n > p {
            return fail("find:wrong", format!("{what} for {:?} returns {m:?} {n} times, expected {p}", c.text));
        }
    }
    for (m, n) in &sure {
        let x = g.get(m).copied().unwrap_or(0);
        if x < *n {
            return fail("find:missing", format!("{what} for {:?} returns {m:?} {x} times, expected {n}", c.text));
        }
    }
    Ok(())
}

pub fn disturb(s: &mut Src, ctx: &mut Ctx, st: &Cs) -> R {
    if s.chance(1, 10) {
        let p = s.pick(&st.parts).name.clone();
        ctx.note(format!("unload {p}"));
        st.cs().unload(&p).must("unload")?;
    }
    Ok(())
}

fn count(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, 3, &Opts { max_docs: 2, max_tok: o.max_tok.min(5), ..o })?;
    for _ in 0..5 {
        let Some(c) = gen_case(s, ctx, &st, 3, true)? else { continue };
        let (lo, hi) = (c.sure(), c.possible());
        let n = st.cs().count(c.sq()).must("count")?;
        between("count", "the count", &c.text, n, lo, hi)?;
        let x = st.cs().count_extra(c.sq()).must("count_extra")?;
        between("count", "the match count", &c.text, x.match_count, lo, hi)?;
        let (mut dlo, mut dhi) = (0, 0);
        for (e, i) in c.exp.iter().zip(&c.sel) {
            let (a, b) = documents(&st.parts[*i], e);
            dlo += a;
            dhi += b;
        }
        between("documents", "the number of documents", &c.text, x.document_count, dlo, dhi)?;
        disturb(s, ctx, &st)?;
        let orders = [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted, ResultOrder::Randomized];
        let ord = *s.pick(&orders);
        let f = st.cs().find(c.sq(), 0, None, ord).must("find")?;
        check_set(&st, &c, &f, &format!("find in order {ord:?}"))?;
        if c.closed() && (f.len() as u64 != n || x.match_count != n) {
            return fail("count:find", format!("{} matches found, but {n} and {} counted for {:?}", f.len(), x.match_count, c.text));
        }
        ctx.nontrivial_if(lo >= 2);
        ctx.label_if(c.sel.len() > 1, "several corpora");
        ctx.label_if(c.query.alts.len() > 1, "alternatives");
        ctx.label_if(c.query.alts.iter().any(|a| a.nodes.iter().any(|n| n.optional)), "optional nodes");
        ctx.label_if(lo > 0, "with matches");
        ctx.label_if(dhi > 1, "several documents");
        disturb(s, ctx, &st)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ order

#[derive(Clone, Copy, PartialEq)]
enum Quirks {
    No,
    Locale,
    /// compatibility mode for corpora of the older version
    Bytes,
}

fn path_name(n: &str) -> (&str, &str) {
    n.rsplit_once('#').unwrap_or((n, ""))
}
fn parts(p: &str) -> Vec<&str> {
    p.split('/').filter(|x| !x.is_empty()).collect()
}
fn cmp_node(v: &View, a: &M, b: &M, quirks: Quirks) -> Ordering {
    if a.0 == b.0 {
        return (&a.1.1, &a.1.0).cmp(&(&b.1.1, &b.1.0));
    }
    let (pa, na) = path_name(&v.names[a.0]);
    let (pb, nb) = path_name(&v.names[b.0]);
    let (xa, xb) = (parts(pa), parts(pb));
    let r = if quirks != Quirks::No {
        let dec = |x: &[&str]| x.last().map(|l| percent_encoding::percent_decode_str(l).decode_utf8_lossy().to_string()).unwrap_or_default();
        coll(&dec(&xa), &dec(&xb), quirks).then(xa.len().cmp(&xb.len()))
    } else {
        xa.cmp(&xb)
    };
    if r != Ordering::Equal {
        return r;
    }
    if let (Some(ta), Some(tb)) = (v.left[a.0], v.left[b.0])
        && let Some(d) = v.tok_dist(ta, tb)
        && d != 0
    {
        return 0.cmp(&d);
    }
    coll(na, nb, quirks)
}

unsafe extern "C" {
    fn newlocale(mask: i32, locale: *const std::ffi::c_char, base: *mut std::ffi::c_void) -> *mut std::ffi::c_void;
    fn strcoll_l(a: *const std::ffi::c_char, b: *const std::ffi::c_char, l: *mut std::ffi::c_void) -> i32;
}
/// Collation of the locale which is configured by the environment
fn coll(a: &str, b: &str, quirks: Quirks) -> Ordering {
    if quirks != Quirks::Locale {
        return a.cmp(b);
    }
    static L: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let l = *L.get_or_init(|| unsafe { newlocale(1 << 3, c"".as_ptr(), std::ptr::null_mut()) as usize });
    if l == 0 {
        return a.cmp(b);
    }
    let (a, b) = (std::ffi::CString::new(a).unwrap_or_default(), std::ffi::CString::new(b).unwrap_or_default());
    unsafe { strcoll_l(a.as_ptr(), b.as_ptr(), l as *mut _) }.cmp(&0)
}
fn cmp_tuple(v: &View, a: &Tuple, b: &Tuple, quirks: Quirks) -> Ordering {
    for (x, y) in a.iter().zip(b.iter()) {
        let r = cmp_node(v, x, y, quirks);
        if r != Ordering::Equal {
            return r;
        }
    }
    b.len().cmp(&a.len())
}
/// sort by the documented order; None if it is not a total order on the matches
fn sorted(v: &View, e: &BTreeSet<Tuple>, quirks: Quirks) -> Option<Vec<Tuple>> {
    let mut r: Vec<Tuple> = vec![];
    for t in e {
        let pos = r.iter().position(|x| cmp_tuple(v, t, x, quirks) == Ordering::Less).unwrap_or(r.len());
        r.insert(pos, t.clone());
    }
    for i in 0..r.len() {
        for j in i + 1..r.len() {
            if cmp_tuple(v, &r[i], &r[j], quirks) != Ordering::Less {
                return None;
            }
        }
    }
    Some(r)
}

/// the expected sequence of matches
pub fn expected_order(st: &Cs, c: &Case, inverted: bool, quirks: bool) -> Option<Vec<String>> {
    let mut idx: Vec<usize> = (0..c.sel.len()).collect();
    idx.sort_by_key(|i| &st.parts[c.sel[*i]].name);
    let mut r = vec![];
    for i in idx {
        let v = &st.parts[c.sel[i]].v;
        let q = match quirks && v.annos.iter().any(|a| a.get(&k("annis", "relannis-version")).is_some_and(|v| v == "3.3")) {
            true => Quirks::Bytes,
            false if quirks => Quirks::Locale,
            false => Quirks::No,
        };
        for t in sorted(v, &c.exp[i].sure, q)? {
            let m = match_string(v, &t);
            r.push(m);
        }
    }
    if inverted {
        r.reverse();
    }
    Some(r)
}

fn check_order(s: &mut Src, ctx: &mut Ctx, st: &Cs, c: &Case, pages: usize) -> R {
    let total = c.sure();
    let mut total_order = true;
    for (ord, inv) in [(ResultOrder::Normal, false), (ResultOrder::Inverted, true)] {
        let Some(e) = expected_order(st, c, inv, false) else {
            total_order = false;
            break;
        };
        let f = st.cs().find(c.sq(), 0, None, ord).must("find")?;
        if f != e {
            check_set(st, c, &f, &format!("find in order {ord:?}"))?;
            let i = f.iter().zip(&e).position(|(a, b)| a != b).unwrap_or(0);
            return fail("order", format!("matches of {:?} in order {ord:?}: position {i} is {:?}, expected {:?}", c.text, f[i], e[i]));
        }
        // pages
        let p = s.size(1, total.max(1).min(pages));
        let mut all = vec![];
        let mut off = 0;
        loop {
            let x = st.cs().find(c.sq(), off, Some(p), ord).must("find a page")?;
            if x.len() > p {
                return fail("page:size", format!("page of {p} matches of {:?} has {} matches", c.text, x.len()));
            }
            if x.is_empty() {
                break;
            }
            all.extend(x);
            off += p;
            if off > e.len() + 2 * p {
                break;
            }
        }
        if all != e {
            return fail(
                "page:concat",
                format!("the pages of size {p} of {:?} in order {ord:?} together are {all:?}, but the complete result is {e:?}", c.text),
            );
        }
        // a random window
        let off = s.size(0, total + 2);
        let lim = match s.idx(4) {
            0 => None,
            1 => Some(0),
            2 => Some(s.size(0, total + 2)),
            _ => Some(usize::MAX - s.idx(3)),
        };
        ctx.note(format!("window {off} {lim:?} {ord:?}"));
        let x = st.cs().find(c.sq(), off, lim, ord).must("find a window")?;
        let w: Vec<String> = e.iter().skip(off).take(lim.unwrap_or(usize::MAX)).cloned().collect();
        if x != w {
            return fail("page:window", format!("find with offset {off} and limit {lim:?} for {:?} in order {ord:?} returns {x:?}, expected {w:?}", c.text));
        }
    }
    ctx.label_if(!total_order, "no total order");
    // unsorted results
    let f = st.cs().find(c.sq(), 0, None, ResultOrder::NotSorted).must("find")?;
    check_set(st, c, &f, "find without order")?;
    let off = s.size(0, total + 2);
    let lim = match s.idx(3) {
        0 => None,
        1 => Some(s.size(0, total + 2)),
        _ => Some(usize::MAX - s.idx(3)),
    };
    ctx.note(format!("window {off} {lim:?} NotSorted"));
    let x = st.cs().find(c.sq(), off, lim, ResultOrder::NotSorted).must("find a window")?;
    // a new query may have a different order, so only the size and the matches are fixed
    let n = f.len().saturating_sub(off).min(lim.unwrap_or(usize::MAX));
    let mut rest: BTreeMap<&String, usize> = BTreeMap::new();
    for m in &f {
        *rest.entry(m).or_default() += 1;
    }
    let known = x.iter().all(|m| match rest.get_mut(m) {
        Some(c) if *c > 0 => {
            *c -= 1;
            true
        }
        _ => false,
    });
    if x.len() != n || !known {
        return fail(
            "page:unsorted",
            format!("find with offset {off} and limit {lim:?} for {:?} without order returns {x:?}, expected {n} of {f:?}", c.text),
        );
    }
    let n = [s.size(0, total + 1), usize::MAX][s.idx(2)];
    let x = st.cs().find(c.sq(), n, None, ResultOrder::Randomized).must("find in random order")?;
    if x.len() != total.saturating_sub(n) {
        return fail("page:random", format!("{} of {total} matches in random order remain after an offset of {n}", x.len()));
    }
    let f = st.cs().find(c.sq(), 0, None, ResultOrder::Randomized).must("find in random order")?;
    check_set(st, c, &f, "find in random order")?;
    ctx.nontrivial_if(total_order && total >= 3);
    ctx.label_if(total_order && total >= 3, "three ordered matches");
    ctx.label_if(c.sel.len() > 1 && total_order && total >= 3, "three ordered matches in several corpora");
    Ok(())
}

fn order(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, 3, &Opts { max_docs: 3, max_tok: o.max_tok.min(4), ..o })?;
    for _ in 0..4 {
        let Some(c) = gen_case(s, ctx, &st, 2, true)? else { continue };
        if !c.closed() {
            ctx.label("skipped: open tuples");
            continue;
        }
        check_order(s, ctx, &st, &c, 7)?;
        disturb(s, ctx, &st)?;
    }
    Ok(())
}

fn order_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = setup(s, ctx, 2, &Opts { max_docs: 4, max_tok: 20, ..Opts::default() })?;
    for _ in 0..2 {
        // only queries for tokens and their annotations have a total order in all corpora
        let mut q = Query::default();
        let na = s.size(1, 3);
        for _ in 0..na {
            let mut a = Alt::default();
            a.nodes.push(node(s.pick(&[Spec::Tok, Spec::TokRegex("a.*".into()), Spec::Exact { ns: None, name: "pos".into(), val: None }, Spec::Node]).clone()));
            if s.chance(1, 2) {
                a.nodes.push(node(Spec::Tok));
                a.ops.push(QOp { l: 0, r: 1, op: Op::Prec { seg: None, range: Range::Between(1, 20) }, neg: false });
            }
            q.alts.push(a);
        }
        let sel = select(s, &st);
        let names: Vec<String> = sel.iter().map(|i| st.parts[*i].name.clone()).collect();
        let text = q.plain();
        ctx.note(format!("query {text} in {names:?}"));
        let exp: Vec<Expected> = sel.iter().map(|i| evaluate(&st.parts[*i].v, &q)).collect();
        if exp.iter().any(|e| e.too_big || e.sure.len() > 700 || e.sure.len() != e.possible.len()) {
            continue;
        }
        let c = Case { sel, names, text, query: q, exp };
        ctx.label_if(c.sure() > 40, "more than 40 matches");
        check_order(s, ctx, &st, &c, 60)?;
    }
    Ok(())
}

fn order_quirks(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let odd_names = s.chance(1, 2);
    let mut st = setup(s, ctx, 2, &Opts { max_docs: 3, max_tok: o.max_tok.min(5), odd_names, ..o })?;
    for i in 0..st.parts.len() {
        if s.chance(1, 4) {
            let top = st.parts[i].v.names.iter().find(|n| !n.contains(['/', '#'])).cloned().unwrap_or_default();
            let e = graphannis::update::UpdateEvent::AddNodeLabel {
                node_name: top,
                anno_ns: "annis".into(),
                anno_name: "relannis-version".into(),
                anno_value: s.pick(&["3.3", "3.2"]).to_string(),
            };
            ctx.note(show_event(&e));
            st.cs().apply_update(&st.parts[i].name, &mut to_update(std::slice::from_ref(&e))?).must("apply update")?;
            st.parts[i].c.m.apply(&e, &|_| false);
            st.parts[i].v = View::new(&st.parts[i].c.m);
        }
    }
    const SALT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b'<').add(b'>').add(b'`').add(b'?').add(b'{').add(b'}').add(b'%').add(b'/');
    for _ in 0..4 {
        let Some(c) = gen_case(s, ctx, &st, 1, false)? else { continue };
        if c.query.alts[0].nodes.len() > 1 || !c.closed() {
            continue;
        }
        let Some(e) = expected_order(&st, &c, false, true) else {
            ctx.label("no total order");
            continue;
        };
        let e: Vec<String> = e
            .iter()
            .map(|m| {
                let (pre, name) = match m.rsplit_once("::") {
                    Some((p, n)) => (format!("{p}::"), n),
                    None => (String::new(), m.as_str()),
                };
                let name: Vec<String> = name
                    .split('/')
                    .map(|p| utf8_percent_encode(&percent_encoding::percent_decode_str(p).decode_utf8_lossy(), SALT).to_string())
                    .collect();
                format!("{pre}{}", name.join("/"))
            })
            .collect();
        let sq = SearchQuery { query_language: QueryLanguage::AQLQuirksV3, ..c.sq() };
        let n = st.cs().count(sq.clone()).must("count")?;
        between("quirks:count", "the count", &c.text, n, c.sure(), c.sure())?;
        let f = st.cs().find(sq.clone(), 0, None, ResultOrder::Normal).must("find")?;
        if f != e {
            return fail("quirks:order", format!("matches of {:?} in compatibility mode are {f:?}, expected {e:?}", c.text));
        }
        let off = s.size(0, c.sure() + 1);
        let lim = s.size(0, c.sure() + 1);
        let mut r = e.clone();
        r.reverse();
        let w: Vec<String> = r.into_iter().skip(off).take(lim).collect();
        let f = st.cs().find(sq, off, Some(lim), ResultOrder::Inverted).must("find")?;
        if f != w {
            return fail(
                "quirks:page",
                format!("matches of {:?} in inverted order with offset {off} and limit {lim} in compatibility mode are {f:?}, expected {w:?}", c.text),
            );
        }
        ctx.nontrivial_if(e.len() >= 3);
    }
    Ok(())
}

// -------------------------------------------------------------- frequency

fn frequency(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = opts(s, ctx);
    let st = setup(s, ctx, 2, &Opts { max_docs: 2, max_tok: o.max_tok.min(5), ..o })?;
    for _ in 0..5 {
        let Some(c) = gen_case(s, ctx, &st, 3, true)? else { continue };
        if !c.closed() {
            ctx.label("skipped: open tuples");
            continue;
        }
        // the matches of each alternative
        let mut by_alt: Vec<Vec<Expected>> = vec![];
        for i in &c.sel {
            let v = &st.parts[*i].v;
            by_alt.push(c.query.alts.iter().map(|a| evaluate(v, &Query { alts: vec![a.clone()] })).collect());
        }
        // definitions: alternative, position in the match, namespace, name
        let mut defs: Vec<(usize, Option<usize>, Option<String>, String)> = vec![];
        let mut args = vec![];
        let nd = s.size(1, 4);
        for _ in 0..nd {
            let alt = s.idx(c.query.alts.len());
            let a = &c.query.alts[alt];
            let nr = s.idx(a.nodes.len());
            let at = if a.nodes[nr].optional { None } else { Some((0..nr).filter(|i| !a.nodes[*i].optional).count()) };
            let before: usize = c.query.alts[0..alt].iter().map(|a| a.nodes.len()).sum();
            let (ns, name) = match s.idx(6) {
                0 => ("annis", "tok"),
                1 => ("annis", "node_name"),
                2 => ("", "missing"),
                _ => *s.pick(&ANNO_KEYS),
            };
            let ns = if s.chance(1, 2) { Some(ns.to_string()) } else { None };
            let var = a.nodes[nr].var.clone().unwrap_or_else(|| (before + nr + 1).to_string());
            let qname = match &ns {
                Some(x) if x.is_empty() => name.to_string(),
                Some(x) => format!("{x}::{name}"),
                None => name.to_string(),
            };
            let d = format!("{var}:{qname}");
            // an empty namespace can not be expressed in the textual form
            let ns = if ns.as_deref() == Some("") { None } else { ns };
            if s.chance(1, 2) && !qname.starts_with(':') && !name.contains('%') {
                args.push(d.parse::<FrequencyDefEntry>().must("parse a frequency definition")?);
            } else {
                args.push(FrequencyDefEntry { ns: ns.clone(), name: name.to_string(), node_ref: var });
            }
            ctx.note(format!("frequency definition {d}"));
            defs.push((alt, at, ns, name.to_string()));
        }
        // expected table
        let mut table: BTreeMap<Vec<String>, usize> = BTreeMap::new();
        let mut ambiguous = false;
        for (nr, (e, i)) in c.exp.iter().zip(&c.sel).enumerate() {
            let v = &st.parts[*i].v;
            for t in &e.sure {
                let t_alt = by_alt[nr].iter().position(|e| e.sure.contains(t)).unwrap();
                let mut row = vec![];
                for (alt, at, ns, name) in &defs {
                    let Some(n) = at.filter(|_| *alt == t_alt).map(|at| t[at].0) else {
                        row.push(String::new());
                        continue;
                    };
                    let vals: BTreeSet<&String> = v.annos[n]
                        .iter()
                        .filter(|(k, _)| k.1 == *name && ns.as_ref().is_none_or(|x| *x == k.0))
                        .map(|(_, v)| v)
                        .collect();
                    if vals.len() > 1 {
                        ambiguous = true;
                    }
                    row.push(vals.into_iter().next().cloned().unwrap_or_default());
                }
                *table.entry(row).or_default() += 1;
            }
        }
        let f = st.cs().frequency(c.sq(), args).must("frequency")?;
        let total: usize = f.iter().map(|r| r.count).sum();
        if total != c.sure() {
            return fail("frequency:total", format!("the rows for {:?} sum up to {total}, but there are {} matches", c.text, c.sure()));
        }
        if f.windows(2).any(|w| w[0].count < w[1].count) {
            return fail("frequency:order", format!("the rows for {:?} are not ordered by their count", c.text));
        }
        if ambiguous {
            ctx.label("ambiguous annotation");
            continue;
        }
        let mut got: BTreeMap<Vec<String>, usize> = BTreeMap::new();
        for r in &f {
            if got.insert(r.values.clone(), r.count).is_some() {
                return fail("frequency:dup", format!("two rows for {:?}", r.values));
            }
        }
        if got != table {
            return fail("frequency:rows", format!("frequency table for {:?} is {got:?}, expected {table:?}", c.text));
        }
        ctx.label_if(table.len() > 1, "several rows");
        ctx.label_if(c.query.alts.len() > 1 && table.len() > 1, "alternatives");
        ctx.nontrivial_if(table.len() > 1);
        disturb(s, ctx, &st)?;
    }
    let _ = show;
    Ok(())
}

/// Known finding: the order is not total for matches in several texts of a document, so the same query has different pages.
pub fn known_order(dir: &Path) -> R<bool> {
    use graphannis::update::UpdateEvent::*;
    let cs = open(dir, 1, false)?;
    cs.create_empty_corpus("c", false).must("create")?;
    let mut evs = vec![AddNode { node_name: "c".into(), node_type: "corpus".into() }, AddNode { node_name: "c/d".into(), node_type: "corpus".into() }];
    let edge = |a: &str, b: &str, l: &str| AddEdge {
        source_node: a.into(),
        target_node: b.into(),
        layer: "annis".into(),
        component_type: l.into(),
        component_name: "".into(),
    };
    evs.push(edge("c/d", "c", "PartOf"));
    // two texts, the names of their tokens are in reversed order
    for t in 0..2 {
        let mut last: Option<String> = None;
        for i in 0..40 {
            let n = format!("c/d#t{:02}_{t}", 40 - i);
            evs.push(AddNode { node_name: n.clone(), node_type: "node".into() });
            evs.push(AddNodeLabel { node_name: n.clone(), anno_ns: "annis".into(), anno_name: "tok".into(), anno_value: "a".into() });
            evs.push(edge(&n, "c/d", "PartOf"));
            if let Some(l) = &last {
                evs.push(edge(l, &n, "Ordering"));
            }
            last = Some(n);
        }
    }
    cs.apply_update("c", &mut to_update(&evs)?).must("update")?;
    let names = ["c".to_string()];
    let q = SearchQuery { corpus_names: &names, query: "node", query_language: QueryLanguage::AQL, timeout: None };
    let mut seen = BTreeSet::new();
    for _ in 0..6 {
        seen.insert(cs.find(q.clone(), 0, None, ResultOrder::Normal).must("find")?);
    }
    Ok(seen.len() > 1)
}
