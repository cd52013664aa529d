//! G10, G11: GraphML files.
use crate::engine::*;
use crate::model::*;
use graphannis::AnnotationGraph;
use graphannis::update::UpdateEvent;
use graphannis_core::graph::serialization::graphml;
use std::collections::BTreeMap;

pub fn property_roundtrip() -> Property {
    Property {
        id: "G10",
        rule: "random graphs (2-12 nodes, up to 60 update events, in-memory and on-disk, optimised, with strings containing XML and percent-encoding special characters) and configuration texts, exported in both orders, imported again, and the same content written as GraphML in a different but equivalent XML notation; non-trivial: at least one edge and one label",
        level: "exploration",
        assumptions: &["every node has a type, component layers do not contain a slash", "no characters which are not allowed in XML"],
        checks: vec![
            Check { name: "roundtrip", f: roundtrip, quick: 16000, thorough: 600000 },
            Check { name: "stable", f: stable, quick: 4000, thorough: 150000 },
            Check { name: "equivalent", f: equivalent, quick: 12000, thorough: 400000 },
        ],
    }
}

pub fn property_malformed() -> Property {
    Property {
        id: "G11",
        rule: "GraphML documents of random graphs which are truncated at a random position, or changed by 1-8 random mutations of bytes, tags, attributes and structure; non-trivial: the document is not accepted or its content has been changed",
        level: "exploration",
        assumptions: &["a document is only required to be rejected if it is truncated before its root element is closed, if a closing tag does not match, or if an attribute or value is not well-formed"],
        checks: vec![
            Check { name: "truncated", f: truncated, quick: 12000, thorough: 400000 },
            Check { name: "mutated", f: mutated, quick: 20000, thorough: 1000000 },
        ],
    }
}

fn random_graph(s: &mut Src, ctx: &mut Ctx, slash: bool) -> (MGraph, Vec<UpdateEvent>) {
    let n = s.size(2, 12);
    let mut sp = namespace(s, n);
    if s.chance(1, 2) {
        sp.ns.extend(["a:b", "é&<>\"'", "%25", "x::y", "a/b"]);
        sp.names.extend(["a:b", "<&>", "%20", "x::y", "a%3Ab", "configuration", "a\"b", ":"]);
    }
    for c in sp.comps.iter_mut() {
        if s.chance(1, 5) && slash {
            c.2 = s.pick(&["a/b", "<&\"'>", "%2F", "ä", "::", "a b"]).to_string();
        }
        if s.chance(1, 8) {
            c.1 = s.pick(&["<&\"'>", "%2F", "::"]).to_string();
        }
    }
    let n = s.size(1, 10 + ctx.size / 2);
    let mut m = MGraph::default();
    let mut evs = vec![];
    for name in &sp.node_names {
        if s.chance(2, 3) {
            evs.push(UpdateEvent::AddNode { node_name: name.clone(), node_type: "node".into() });
        }
    }
    for _ in 0..n {
        let e = gen_event(s, &sp);
        if super::updates::acyclic_guard(&sp, &e) {
            evs.push(e);
        }
    }
    for e in &evs {
        ctx.note(format!("  {}", show_event(e)));
    }
    m.apply_all(&evs);
    (m.without_index(), evs)
}

fn config(s: &mut Src) -> Option<String> {
    match s.idx(4) {
        0 => None,
        1 => Some("[a]\nb = \"<c> &amp; x\"\n".into()),
        _ => Some((0..s.size(1, 4)).map(|_| nasty(s)).collect()),
    }
}

fn nontrivial(ctx: &mut Ctx, m: &MGraph) {
    ctx.nontrivial_if(m.edge_count() > 0 && m.nodes.values().any(|a| a.len() > 2));
}

fn export(g: &AnnotationGraph, cfg: Option<&str>, stable: bool) -> R<Vec<u8>> {
    let mut out = vec![];
    if stable {
        graphml::export_stable_order(g, cfg, &mut out, |_| {}).must("export")?;
    } else {
        graphml::export(g, cfg, &mut out, |_| {}).must("export")?;
    }
    Ok(out)
}

fn import(x: &[u8], disk: bool) -> R<(AnnotationGraph, Option<String>)> {
    graphml::import(x, disk, |_| {}).must("import")
}

fn same_config(exp: &Option<String>, got: &Option<String>) -> R {
    if exp.as_deref().unwrap_or("") != got.as_deref().unwrap_or("") {
        return fail("config", format!("configuration {exp:?} was read as {got:?}"));
    }
    Ok(())
}

fn roundtrip(s: &mut Src, ctx: &mut Ctx) -> R {
    let (m, evs) = random_graph(s, ctx, true);
    let disk = s.chance(1, 6);
    let mut g = build_graph(&evs, disk)?;
    if s.chance(1, 4) {
        g.optimize_impl(disk).must("optimize")?;
    }
    let cfg = config(s);
    let stable = s.chance(1, 2);
    ctx.note(format!("disk={disk} stable={stable} configuration={cfg:?}"));
    let x = export(&g, cfg.as_deref(), stable)?;
    let (h, c) = import(&x, s.chance(1, 6))?;
    same("content", "imported graph", &m, &dump(&h)?.normalized().without_index())?;
    same_config(&cfg, &c)?;
    // another round has the same result
    if s.chance(1, 4) {
        let y = export(&h, c.as_deref(), !stable)?;
        let (h2, _) = import(&y, false)?;
        same("content2", "graph after the second import", &m, &dump(&h2)?.normalized().without_index())?;
    }
    ctx.label_if(disk, "disk");
    nontrivial(ctx, &m);
    Ok(())
}

fn stable(s: &mut Src, ctx: &mut Ctx) -> R {
    // component names with a slash can not be saved to disk
    let (m, evs) = random_graph(s, ctx, false);
    let cfg = config(s);
    let mut outs: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..s.size(2, 3) {
        let disk = i > 0 && s.chance(1, 2);
        let mut g = build_graph(&evs, disk)?;
        let mut how = format!("disk={disk}");
        match s.idx(4) {
            0 => {
                let d = s.chance(1, 2);
                how += &format!(" optimized({d})");
                g.optimize_impl(d).must("optimize")?;
            }
            1 => {
                how += " loaded";
                let dir = ctx.dir().join("g");
                std::fs::create_dir_all(&dir).unwrap();
                g.save_to(&dir).must("save")?;
                let mut h = AnnotationGraph::new(disk).must("new")?;
                h.load_from(&dir, true).must("load")?;
                h.ensure_loaded_all().must("load all")?;
                g = h;
            }
            _ => {}
        }
        ctx.note(format!("export {how}"));
        outs.push((how, export(&g, cfg.as_deref(), true)?));
    }
    for w in outs.windows(2) {
        if w[0].1 != w[1].1 {
            let (a, b) = (String::from_utf8_lossy(&w[0].1).to_string(), String::from_utf8_lossy(&w[1].1).to_string());
            let d = a.lines().zip(b.lines()).find(|(x, y)| x != y);
            return fail("stable", format!("the stable order depends on the storage ({} / {}): {d:?}", w[0].0, w[1].0));
        }
    }
    nontrivial(ctx, &m);
    Ok(())
}

// ------------------------------------------------ independent GraphML writer

fn escape(s: &mut Src, v: &str, attr: Option<char>) -> String {
    let mut r = String::new();
    for c in v.chars() {
        let must = c == '<' || c == '&' || Some(c) == attr;
        match c {
            _ if s.chance(1, 12) => r += &if s.chance(1, 2) { format!("&#{};", c as u32) } else { format!("&#x{:x};", c as u32) },
            '<' => r += "&lt;",
            '>' if must || s.chance(2, 3) => r += "&gt;",
            '&' => r += "&amp;",
            '"' if must || s.chance(1, 2) => r += "&quot;",
            '\'' if must || s.chance(1, 2) => r += "&apos;",
            // would be normalized by an XML parser
            '\n' | '\t' | '\r' if attr.is_some() => r += &format!("&#{};", c as u32),
            '\r' => r += "&#13;",
            c => r.push(c),
        }
    }
    r.replace("]]>", "]]&gt;")
}

fn text(s: &mut Src, v: &str) -> String {
    if v.contains('\r') {
        return escape(s, v, None);
    }
    let mut r = String::new();
    let mut rest = v;
    while !rest.is_empty() {
        let n = if s.chance(1, 3) { 1 + s.idx(rest.chars().count()) } else { rest.chars().count() };
        let end: usize = rest.chars().take(n).map(|c| c.len_utf8()).sum();
        let part = &rest[..end];
        rest = &rest[end..];
        match s.weighted(&[6, 3]) {
            1 if !part.contains("]]>") => r += &format!("<![CDATA[{part}]]>"),
            _ => r += &escape(s, part, None),
        }
        if s.chance(1, 4) {
            r += s.pick(&["<!-- x -->", "<?pi x?>", "<![CDATA[]]>"]);
        }
    }
    r
}

fn attrs(s: &mut Src, mut a: Vec<(String, String)>) -> String {
    if s.chance(1, 2) {
        s.shuffle(&mut a);
    }
    let mut r = String::new();
    for (n, v) in a {
        let q = *s.pick(&['"', '\'']);
        let sp = *s.pick(&[" ", " ", "\n", "\t", "  "]);
        let eq = *s.pick(&["=", "=", "=", " = "]);
        r += &format!("{sp}{n}{eq}{q}{}{q}", escape(s, &v, Some(q)));
    }
    if s.chance(1, 5) {
        r.push(' ');
    }
    r
}

fn ws(s: &mut Src) -> String {
    match s.idx(6) {
        0 => "\n    ".into(),
        1 => "<!-- <node id='x'> -->".into(),
        2 => "\r\n".into(),
        3 => "<?x y?>".into(),
        _ => "".into(),
    }
}

fn qname(ns: &str, name: &str) -> String {
    let enc = |x: &str| x.replace('%', "%25").replace(':', "%3A");
    if ns.is_empty() { enc(name) } else { format!("{}::{}", enc(ns), enc(name)) }
}

fn pairs(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// Write the graph in one of many equivalent ways.
fn write(s: &mut Src, m: &MGraph, cfg: &Option<String>) -> String {
    let mut r = String::new();
    r += s.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "", "\u{FEFF}<?xml version='1.0'?>", "<?xml version=\"1.0\" standalone=\"yes\"?>"]);
    if s.chance(1, 6) {
        r += "<!DOCTYPE graphml>";
    }
    let g = s.pick(&[vec![], pairs(&[("xmlns", "http://graphml.graphdrawing.org/xmlns")])]).clone();
    r += &format!("<graphml{}>", attrs(s, g));
    let mut keys: BTreeMap<&Key, String> = BTreeMap::new();
    for key in m.nodes.values().chain(m.edges.values().flat_map(|e| e.values())).flat_map(|a| a.keys()) {
        let n = keys.len();
        keys.entry(key).or_insert_with(|| format!("k{}", n + 1));
    }
    let mut defs: Vec<(String, Option<Key>)> = keys.iter().map(|(k, id)| (id.clone(), Some((*k).clone()))).collect();
    if cfg.is_some() {
        defs.push(("k0".into(), None));
    }
    s.shuffle(&mut defs);
    for (id, key) in defs {
        let (f, n) = match &key {
            Some((ns, name)) => (*s.pick(&["node", "edge", "all"]), qname(ns, name)),
            None => ("graph", "configuration".to_string()),
        };
        let a = attrs(s, pairs(&[("id", &id), ("for", f), ("attr.name", &n), ("attr.type", "string")]));
        r += &ws(s);
        if s.chance(1, 3) {
            r += &format!("<key{a}><desc>x</desc></key>");
        } else if s.chance(1, 3) {
            r += &format!("<key{a}></key>");
        } else {
            r += &format!("<key{a}/>");
        }
    }
    r += &format!("<graph{}>", attrs(s, pairs(&[("id", "g"), ("edgedefault", "directed")])));
    let mut elements = vec![];
    let data = |s: &mut Src, an: &Annos, skip: &Key| {
        let mut v = vec![];
        for (key, val) in an {
            if key == skip {
                continue;
            }
            let a = attrs(s, pairs(&[("key", &keys[key])]));
            if val.is_empty() && s.chance(1, 2) {
                v.push(format!("<data{a}/>"));
            } else {
                v.push(format!("<data{a}>{}</data>", text(s, val)));
            }
        }
        if s.chance(1, 8) {
            v.push("<desc>text</desc>".into());
        }
        s.shuffle(&mut v);
        let mut t = ws(s);
        for x in v {
            t += &x;
            t += &ws(s);
        }
        t
    };
    for (n, a) in &m.nodes {
        let at = attrs(s, pairs(&[("id", n)]));
        let mut an = a.clone();
        if an.get(&k("annis", "node_type")).is_some_and(|t| t == "node") && s.chance(1, 2) {
            an.remove(&k("annis", "node_type"));
        }
        let d = data(s, &an, &k("annis", "node_name"));
        elements.push(if d.is_empty() && s.chance(1, 2) { format!("<node{at}/>") } else { format!("<node{at}>{d}</node>") });
    }
    let mut i = 0;
    for (c, es) in &m.edges {
        for ((x, y), an) in es {
            i += 1;
            let label = format!("{}/{}/{}", c.0, c.1, c.2);
            let at = attrs(s, pairs(&[("id", &format!("e{i}")), ("source", x), ("target", y), ("label", &label)]));
            let d = data(s, an, &k("\u{0}", ""));
            elements.push(if d.is_empty() && s.chance(1, 2) { format!("<edge{at}/>") } else { format!("<edge{at}>{d}</edge>") });
        }
    }
    if let Some(c) = cfg {
        let t = if s.chance(1, 2) && !c.contains("]]>") { format!("<![CDATA[{c}]]>") } else { text(s, c) };
        let a = attrs(s, pairs(&[("key", "k0")]));
        elements.push(format!("<data{a}>{t}</data>"));
    }
    s.shuffle(&mut elements);
    for e in elements {
        r += &ws(s);
        r += &e;
    }
    r += &ws(s);
    r += "</graph>";
    r += &ws(s);
    r += "</graphml>";
    r += s.pick(&["", "\n", "<!-- end -->"]);
    r
}

fn equivalent(s: &mut Src, ctx: &mut Ctx) -> R {
    let (m, _) = random_graph(s, ctx, true);
    let cfg = config(s);
    let x = write(s, &m, &cfg);
    ctx.note(x.clone());
    let (h, c) = import(x.as_bytes(), s.chance(1, 6))?;
    same("content", "imported graph", &m, &dump(&h)?.normalized().without_index())?;
    // white space around the configuration is not significant
    let trim = |c: &Option<String>| c.as_ref().map(|c| c.trim().to_string());
    same_config(&trim(&cfg), &trim(&c))?;
    nontrivial(ctx, &m);
    Ok(())
}

fn document(s: &mut Src, ctx: &mut Ctx) -> R<Vec<u8>> {
    let (m, evs) = random_graph(s, ctx, true);
    let cfg = config(s);
    if s.chance(1, 2) {
        export(&build_graph(&evs, false)?, cfg.as_deref(), true)
    } else {
        Ok(write(s, &m, &cfg).into_bytes())
    }
}

fn truncated(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = document(s, ctx)?;
    let end = x.windows(10).rposition(|w| w == b"</graphml>").unwrap() + 8;
    let n = if s.chance(1, 4) { end - s.idx(30.min(end)) } else { s.idx(end + 1) };
    // a tag without its end is completed by the XML parser, which makes a
    // difference for the root element
    let root = x.windows(8).position(|w| w == b"<graphml").unwrap();
    let root_end = root + x[root..].iter().position(|c| *c == b'>').unwrap();
    let n = if n > root && n <= root_end { root_end + 1 } else { n };
    let x = &x[..n];
    ctx.note(String::from_utf8_lossy(x));
    ctx.nontrivial_if(n > 100);
    match import_raw(x) {
        Ok(_) => fail("truncated", format!("a document with {n} of {} bytes has been imported without an error", end + 1)),
        Err(_) => Ok(()),
    }
}

const DOCTYPE_PANIC: &str = "DocType must have a name";

/// Known finding: the XML parser panics if a document type declaration is empty.
pub fn known_doctype(_: &std::path::Path) -> R<bool> {
    Ok(matches!(catch(|| import_raw(b"<!DOCTYPE><graphml></graphml>").is_ok()), Err(p) if p.contains(DOCTYPE_PANIC)))
}

type Imported = (AnnotationGraph, Option<String>);
fn import_raw(x: &[u8]) -> Result<Imported, graphannis_core::errors::GraphAnnisCoreError> {
    graphml::import(x, false, |_| {})
}

const TOKENS: [&str; 30] = [
    "<", ">", "/>", "</node>", "</graph>", "</graphml>", "<node id=\"a\">", "<edge source=\"n0\" target=\"n1\" label=\"Pointing//x\">", "<data key=\"k0\">", "</data>",
    "<![CDATA[", "]]>", "<!--", "-->", "&", "&#0;", "&#xFFFFFFFF;", "&x;", "\"", "id=\"n0\"", "<graph>", "<key id=\"k1\" attr.name=\"::\"/>", "label=\"Pointing\"", "label=\"/\"",
    "\u{0}", "k0", "<?", "?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "attr.name=\"%\"",
];

fn mutated(s: &mut Src, ctx: &mut Ctx) -> R {
    let orig = document(s, ctx)?;
    let mut x = orig.clone();
    for _ in 0..s.size(1, 8) {
        if x.is_empty() {
            break;
        }
        let p = s.idx(x.len());
        match s.idx(7) {
            0 => x[p] = s.below(256) as u8,
            1 => {
                let q = (p + 1 + s.idx(20)).min(x.len());
                x.drain(p..q);
            }
            2 => {
                let t = s.pick(&TOKENS).as_bytes().to_vec();
                x.splice(p..p, t);
            }
            3 => {
                // repeat a part
                let q = (p + 1 + s.idx(60)).min(x.len());
                let part = x[p..q].to_vec();
                x.splice(p..p, part);
            }
            4 => {
                // move an element
                let starts: Vec<usize> = x.iter().enumerate().filter(|(_, c)| **c == b'<').map(|(i, _)| i).collect();
                if starts.len() > 2 {
                    let a = s.idx(starts.len() - 1);
                    let part: Vec<u8> = x.drain(starts[a]..starts[a + 1]).collect();
                    let to = s.idx(x.len() + 1);
                    x.splice(to..to, part);
                }
            }
            5 => {
                let t = s.pick(&TOKENS).as_bytes().to_vec();
                let q = (p + t.len()).min(x.len());
                x.splice(p..q, t);
            }
            _ => {
                // rename a tag
                if let Some(i) = x[p..].iter().position(|c| *c == b'<') {
                    x.insert(p + i + 1, b'x');
                }
            }
        }
    }
    ctx.note(String::from_utf8_lossy(&x));
    ctx.label_if(x != orig, "changed");
    let r = match catch(|| import_raw(&x)) {
        Ok(r) => r,
        // known finding, see below
        Err(p) if p.contains(DOCTYPE_PANIC) => {
            ctx.label("doctype without name");
            return Ok(());
        }
        Err(p) => return fail("panic", format!("import of a malformed document: {p}")),
    };
    match r {
        Ok((g, cfg)) => {
            ctx.label("accepted");
            // the result is a usable graph, which can be exported and imported
            let m = dump(&g)?.normalized().without_index();
            ctx.nontrivial_if(x != orig);
            if m.edges.keys().any(|c| c.1.contains('/')) || m.nodes.values().any(|a| !a.contains_key(&k("annis", "node_type"))) {
                return Ok(());
            }
            let y = export(&g, cfg.as_deref(), true)?;
            let (h, _) = import(&y, false)?;
            same("content", "imported graph", &m, &dump(&h)?.normalized().without_index())
        }
        Err(_) => {
            ctx.label("rejected");
            ctx.nontrivial_if(true);
            Ok(())
        }
    }
}
