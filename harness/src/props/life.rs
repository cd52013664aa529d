//! G28: life cycle of corpora in a corpus storage.
use super::cs::open;
use super::index::edit;
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::corpusstorage::*;
use graphannis::{AnnotationGraph, CorpusStorage};
use percent_encoding::percent_decode_str;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn property() -> Property {
    Property {
        id: "G28",
        rule: "random histories of 4-40 operations (create, update, import, export, copy, delete, unload, preload, optimise, query, list, re-open, open twice) on a corpus storage with up to 5 corpus names, some of them with special characters or not usable as a name, with all cache strategies; non-trivial: at least 4 different kinds of operations changed or read existing corpora",
        level: "exploration",
        assumptions: &["corpora contain no characters that are not allowed in XML documents (import and export of arbitrary strings is a separate property)"],
        checks: vec![Check { name: "lifecycle", f: lifecycle, quick: 800, thorough: 60000 }],
    }
}

pub fn long_name() -> String {
    "x".repeat(300)
}

fn names(s: &mut Src) -> Vec<String> {
    let mut r = vec!["a".to_string(), "b".to_string()];
    for _ in 0..s.size(0, 3) {
        r.push(
            s.pick(&["A", "ä%2F", "a b", "a/b", "..", ".", "", "../a", "...", "%2E%2E", "a\\b", "/a", "~", "db.lock", "a:b", "LONG"])
                .to_string()
                .replace("LONG", &long_name()),
        );
    }
    r.sort();
    r.dedup();
    r
}

/// Names no corpus can have, because there is no matching directory name.
fn unusable(n: &str) -> bool {
    n.is_empty() || n.len() > 250 || n == "db.lock"
}

fn small(s: &mut Src, ctx: &Ctx) -> Opts {
    Opts { max_docs: 2, max_tok: 4, ..super::query::opts(s, ctx) }
}

/// Write a GraphML file with this content.
pub fn write_graphml(m: &MGraph, path: &Path, config: Option<&str>) -> R {
    let g = build_graph(&m.to_events(), false)?;
    let f = std::fs::File::create(path).must("create file")?;
    graphannis_core::graph::serialization::graphml::export(&g, config, f, |_| {}).must("export GraphML")
}

/// Content of all corpora in the data directory of a (closed) corpus storage.
pub fn read_dir(dir: &Path) -> R<BTreeMap<String, MGraph>> {
    let mut r = BTreeMap::new();
    for e in std::fs::read_dir(dir).must("list data directory")? {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            let n = percent_decode_str(&e.file_name().to_string_lossy()).decode_utf8_lossy().to_string();
            let mut g = AnnotationGraph::new(false).must("new graph")?;
            g.open(&e.path()).must("open corpus directory")?;
            g.ensure_loaded_all().must("load corpus directory")?;
            r.insert(n, dump(&g)?.normalized().without_index());
        }
    }
    Ok(r)
}

fn typed(m: &MGraph) -> BTreeSet<String> {
    m.nodes.iter().filter(|(_, a)| a.contains_key(&k("annis", "node_type"))).map(|(n, _)| n.clone()).collect()
}

fn same_names(sig: &str, what: &str, exp: &BTreeSet<String>, got: &BTreeSet<String>) -> R {
    if exp != got {
        return fail(sig, format!("{what}: expected {exp:?}, but got {got:?}"));
    }
    Ok(())
}

struct Life {
    cs: Option<CorpusStorage>,
    model: BTreeMap<String, MGraph>,
    dir: PathBuf,
    tmp: PathBuf,
    used: BTreeSet<&'static str>,
    n: usize,
}

impl Life {
    fn cs(&self) -> &CorpusStorage {
        self.cs.as_ref().unwrap()
    }
    fn has(&self, n: &str) -> bool {
        self.model.contains_key(n)
    }
    fn file(&mut self, ext: &str) -> PathBuf {
        self.n += 1;
        let d = self.tmp.join(format!("f{}", self.n));
        std::fs::create_dir_all(&d).unwrap();
        d.join(format!("file.{ext}"))
    }
    fn check_list(&self) -> R {
        let l = self.cs().list().must("list corpora")?;
        let got: BTreeSet<String> = l.iter().map(|i| i.name.clone()).collect();
        let exp: BTreeSet<String> = self.model.keys().cloned().collect();
        same_names("list", "listed corpora", &exp, &got)?;
        if l.len() != got.len() {
            return fail("list", "a corpus is listed twice");
        }
        Ok(())
    }
    fn check_content(&self, name: &str) -> R {
        let r = self.cs().find(
            SearchQuery { query: "annis:node_type", corpus_names: &[name], query_language: QueryLanguage::AQL, timeout: None },
            0,
            None,
            ResultOrder::NotSorted,
        );
        match self.model.get(name) {
            Some(m) => {
                let got: BTreeSet<String> = r
                    .must("search for all nodes")?
                    .into_iter()
                    .map(|x| x.rsplit("::").next().unwrap().to_string())
                    .collect();
                let exp = typed(m);
                if exp.iter().all(|x| !x.contains("::")) {
                    same_names("content", &format!("nodes of {name:?}"), &exp, &got)?;
                }
                let g = self
                    .cs()
                    .subgraph_for_query(name, "annis:node_type", QueryLanguage::AQL, None)
                    .must("extract all nodes")?;
                // only nodes and edges between them are part of the query result
                let mut m = m.clone();
                m.nodes.retain(|n, _| exp.contains(n));
                for es in m.edges.values_mut() {
                    es.retain(|(a, b), _| exp.contains(a) && exp.contains(b));
                }
                let mut got = dump(&g)?.normalized().without_index();
                // additional edges of extracted subgraphs
                got.edges.retain(|c, _| c.2 != "datasource-gap");
                same("content", &format!("content of {name:?}"), &m.normalized(), &got)
            }
            None => match r {
                Ok(_) => fail("missing", format!("search in the non-existing corpus {name:?} has no error")),
                Err(_) => Ok(()),
            },
        }
    }
}

fn lifecycle(s: &mut Src, ctx: &mut Ctx) -> R {
    let top = ctx.dir();
    let dir = top.join("1").join("2").join("3").join("db");
    std::fs::create_dir_all(&dir).unwrap();
    let canary = top.join("1").join("2").join("3").join("canary");
    std::fs::write(&canary, "x").unwrap();
    std::fs::create_dir_all(top.join("1").join("2").join("a")).unwrap();
    let canary2 = top.join("1").join("2").join("a").join("canary");
    std::fs::write(&canary2, "x").unwrap();
    let tmp = top.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let names = names(s);
    let (cache, parallel) = (s.idx(4), s.chance(1, 4));
    ctx.note(format!("cache={cache} parallel={parallel}"));
    let mut l = Life { cs: Some(open(&dir, cache, parallel)?), model: BTreeMap::new(), dir, tmp, used: BTreeSet::new(), n: 0 };
    let o = small(s, ctx);
    let steps = s.size(4, 40);
    for _ in 0..steps {
        step(s, ctx, &mut l, &names, &o)?;
        if !canary.is_file() || !canary2.is_file() {
            return fail("outside", "files outside of the data directory have been removed");
        }
        if s.chance(1, 3) {
            l.check_list()?;
        }
    }
    l.check_list()?;
    for n in &names {
        l.check_content(n)?;
    }
    close(&mut l)?;
    ctx.label_if(names.iter().any(|n| n == ".." || n == "."), "path name");
    ctx.nontrivial_if(l.used.len() >= 4);
    Ok(())
}

/// Close the corpus storage and compare the stored corpora.
fn close(l: &mut Life) -> R {
    l.cs = None;
    let got = read_dir(&l.dir)?;
    let exp: BTreeSet<String> = l.model.keys().cloned().collect();
    same_names("stored", "stored corpora", &exp, &got.keys().cloned().collect())?;
    for (n, m) in &l.model {
        same("stored", &format!("stored content of {n:?}"), &m.normalized().without_index(), &got[n])?;
    }
    Ok(())
}

fn step(s: &mut Src, ctx: &mut Ctx, l: &mut Life, names: &[String], o: &Opts) -> R {
    let name = s.pick(names).clone();
    let exists = l.has(&name);
    let bad = unusable(&name);
    let q = |c: &[String], l: &Life| {
        l.cs().count(SearchQuery { query: "annis:node_type", corpus_names: c, query_language: QueryLanguage::AQL, timeout: None })
    };
    let used = |l: &mut Life, w: &'static str| {
        if exists {
            l.used.insert(w);
        }
    };
    match s.weighted(&[10, 20, 8, 6, 6, 5, 5, 8, 6, 4, 3, 3, 4, 4]) {
        0 => {
            let disk = s.chance(1, 3);
            ctx.note(format!("create {} disk={disk}", short(&name)));
            let r = l.cs().create_empty_corpus(&name, disk);
            if bad {
                if matches!(r, Ok(true)) {
                    return fail("create", format!("corpus {name:?} was created"));
                }
            } else {
                let r = r.must("create corpus")?;
                if r == exists {
                    return fail("create", format!("creating {name:?} returned {r}"));
                }
                l.model.entry(name).or_default();
            }
            l.used.insert("create");
        }
        1 => {
            let c = gen_corpus(s, o);
            let target = c.m.normalized();
            let mut evs = edit(s, l.model.get(&name).unwrap_or(&MGraph::default()), &target);
            let mut m = l.model.get(&name).cloned().unwrap_or_default();
            let cut = if s.chance(1, 3) { s.idx(evs.len() + 1) } else { evs.len() };
            evs.truncate(cut);
            ctx.note(format!("update {}:", short(&name)));
            for e in &evs {
                ctx.note(format!("  {}", show_event(e)));
            }
            let r = l.cs().apply_update(&name, &mut to_update(&evs)?);
            if bad {
                if r.is_ok() {
                    return fail("update", format!("corpus {name:?} was created"));
                }
            } else {
                r.must("apply update")?;
                m.apply_all(&evs);
                l.model.insert(name, m.normalized());
                l.used.insert("update");
            }
        }
        2 => {
            ctx.note(format!("delete {}", short(&name)));
            let r = l.cs().delete(&name);
            if bad {
                if matches!(r, Ok(true)) {
                    return fail("delete", format!("the non-existing corpus {name:?} was deleted"));
                }
            } else {
                let r = r.must("delete corpus")?;
                if r != exists {
                    return fail("delete", format!("deleting {name:?} returned {r}"));
                }
            }
            l.model.remove(&name);
            used(l, "delete");
        }
        3 => {
            ctx.note(format!("unload {}", short(&name)));
            let r = l.cs().unload(&name);
            if exists {
                r.must("unload")?;
                let i = l.cs().info(&name).must("info")?;
                if i.load_status != LoadStatus::NotLoaded {
                    return fail("unload", format!("the unloaded corpus is {:?}", i.load_status));
                }
            }
            used(l, "unload");
        }
        4 => {
            ctx.note(format!("preload {}", short(&name)));
            let r = l.cs().preload(&name);
            if exists {
                r.must("preload")?;
                let i = l.cs().info(&name).must("info")?;
                if i.load_status != LoadStatus::FullyLoaded {
                    return fail("preload", format!("the preloaded corpus is {:?}", i.load_status));
                }
            } else if r.is_ok() {
                return fail("preload", format!("non-existing corpus {name:?} was loaded"));
            }
            used(l, "preload");
        }
        5 => {
            let disk = s.chance(1, 2);
            ctx.note(format!("optimize {} disk={disk}", short(&name)));
            let r = l.cs().reoptimize_implementation(&name, disk);
            if exists {
                r.must("optimize")?;
            } else if r.is_ok() {
                return fail("optimize", format!("non-existing corpus {name:?} was optimized"));
            }
            used(l, "optimize");
        }
        6 => {
            ctx.note(format!("info and lists of {}", short(&name)));
            let r = l.cs().info(&name);
            let _ = l.cs().list_node_annotations(&name, true, false);
            let _ = l.cs().list_components(&name, None, None);
            let _ = l.cs().corpus_graph(&name);
            if exists {
                r.must("info")?;
            }
            used(l, "info");
        }
        7 => {
            // query several corpora
            let n = s.size(1, 3);
            let c: Vec<String> = (0..n).map(|_| s.pick(names).clone()).collect::<BTreeSet<_>>().into_iter().collect();
            ctx.note(format!("count nodes in {:?}", c.iter().map(|x| short(x)).collect::<Vec<_>>()));
            let r = q(&c, l);
            if c.iter().all(|x| l.has(x)) {
                let exp: usize = c.iter().map(|x| typed(&l.model[x]).len()).sum();
                let r = r.must("count")?;
                if r != exp as u64 {
                    return fail("count", format!("expected {exp} nodes in {c:?}, but got {r}"));
                }
                l.used.insert("count");
            } else if r.is_ok() {
                return fail("count", format!("search in {c:?}, of which some do not exist, has no error"));
            }
        }
        8 => {
            ctx.note(format!("content of {}", short(&name)));
            l.check_content(&name)?;
            used(l, "content");
        }
        9 => {
            ctx.note("close and open");
            close(l)?;
            let (cache, parallel) = (s.idx(4), s.chance(1, 4));
            l.cs = Some(open(&l.dir, cache, parallel)?);
            l.check_list()?;
            l.used.insert("open");
        }
        10 => {
            ctx.note("open twice");
            if CorpusStorage::with_auto_cache_size(&l.dir, false).is_ok() {
                return fail("lock", "the data directory can be opened twice at the same time");
            }
        }
        11 => {
            // incomplete or missing files must not change anything
            let f = l.file("graphml");
            let overwrite = s.chance(1, 2);
            let c = gen_corpus(s, o);
            write_graphml(&c.m, &f, None)?;
            let content = std::fs::read(&f).unwrap();
            let kind = s.idx(3);
            match kind {
                0 => std::fs::write(&f, &content[..content.len() * 2 / 3]).unwrap(),
                1 => std::fs::remove_file(&f).unwrap(),
                _ => std::fs::write(&f, String::from_utf8_lossy(&content).replace("</node>", "</nod>")).unwrap(),
            }
            ctx.note(format!("import broken file ({kind}) as {}, overwrite={overwrite}", short(&name)));
            let r = l.cs().import_from_fs(&f, ImportFormat::GraphML, Some(name.clone()), false, overwrite, |_| {});
            if r.is_ok() && (kind == 1 || kind == 2 && !c.m.nodes.is_empty()) {
                return fail("broken", "import of a broken file has no error");
            }
            if r.is_err() {
                l.check_list()?;
                l.check_content(&name)?;
            } else if !bad {
                return fail("broken", "import of an incomplete file has no error");
            }
        }
        12 => {
            let disk = s.chance(1, 3);
            let overwrite = s.chance(1, 2);
            let c = gen_corpus(s, o);
            let zip = s.chance(1, 3);
            let own_name = zip || s.chance(1, 3);
            // without an explicit name the name of the file is used
            let f = l.file("graphml");
            let f = if own_name { f.with_file_name("b.graphml") } else { f };
            let name = if own_name { "b".to_string() } else { name };
            let (exists, bad) = (l.has(&name), unusable(&name));
            write_graphml(&c.m, &f, None)?;
            ctx.note(format!("import file as {}, disk={disk} overwrite={overwrite} zip={zip}", short(&name)));
            let r = if zip {
                let z = f.with_extension("zip");
                let mut w = zip::ZipWriter::new(std::fs::File::create(&z).unwrap());
                w.start_file("x/b.graphml", zip::write::SimpleFileOptions::default()).unwrap();
                std::io::copy(&mut std::fs::File::open(&f).unwrap(), &mut w).unwrap();
                w.finish().unwrap();
                l.cs()
                    .import_all_from_zip(std::fs::File::open(&z).unwrap(), disk, overwrite, |_| {})
                    .map(|v| v.join(","))
            } else {
                l.cs().import_from_fs(&f, ImportFormat::GraphML, if own_name { None } else { Some(name.clone()) }, disk, overwrite, |_| {})
            };
            if bad || exists && !overwrite {
                if r.is_ok() {
                    return fail("import", format!("import as {name:?} has no error"));
                }
            } else {
                let r = r.must("import")?;
                if r != name {
                    return fail("import", format!("name of the imported corpus is {r:?} instead of {name:?}"));
                }
                l.model.insert(name.clone(), c.m.normalized());
                l.check_content(&name)?;
                l.used.insert("import");
            }
        }
        _ => {
            // export and import with another name
            let to = s.pick(names).clone();
            let overwrite = s.chance(1, 2);
            let f = l.file("graphml");
            ctx.note(format!("copy {} to {} overwrite={overwrite}", short(&name), short(&to)));
            let r = l.cs().export_to_fs(&[&name], &f, ExportFormat::GraphML);
            if !exists {
                if r.is_ok() {
                    return fail("export", format!("export of the non-existing corpus {name:?} has no error"));
                }
                return Ok(());
            }
            r.must("export")?;
            let r = l.cs().import_from_fs(&f, ImportFormat::GraphML, Some(to.clone()), s.chance(1, 3), overwrite, |_| {});
            if unusable(&to) || l.has(&to) && !overwrite {
                if r.is_ok() {
                    return fail("import", format!("import as {to:?} has no error"));
                }
            } else {
                r.must("import")?;
                let m = l.model[&name].clone();
                l.model.insert(to, m);
                l.used.insert("copy");
            }
        }
    }
    Ok(())
}
