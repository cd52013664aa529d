//! G29: import and export of corpora with linked files and configuration.
use super::cs::open;
use super::life::{read_dir, write_graphml};
use crate::corpus::*;
use crate::engine::*;
use crate::model::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::*;
use graphannis::update::UpdateEvent;
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

pub fn property() -> Property {
    Property {
        id: "G29",
        rule: "1-3 corpora with a random configuration and 0-4 nodes of type \"file\", whose names can be any string (including absolute paths and parent directories) and whose links are relative or absolute, existing or not; import, update, re-open, export in all formats and import again; non-trivial: at least one linked file exists and has been exported and imported again",
        level: "exploration",
        assumptions: &[
            "names of file nodes in one corpus are different paths, none is a parent directory of another or has the name of an exported GraphML file, path components are not longer than allowed by the file system",
        ],
        checks: vec![Check { name: "linked", f: linked, quick: 2500, thorough: 120000 }],
    }
}

type Tree = BTreeMap<String, Vec<u8>>;

/// All files below a directory.
pub fn tree(dir: &Path) -> R<Tree> {
    fn walk(base: &Path, d: &Path, r: &mut Tree) -> R {
        let entries = match std::fs::read_dir(d) {
            Err(x) if x.kind() == std::io::ErrorKind::NotFound => return Ok(()),
            c => c.must("list directory")?,
        };
        for e in entries {
            let Ok(e) = e else { continue };
            let Ok(t) = e.file_type() else { continue };
            if t.is_dir() {
                walk(base, &e.path(), r)?;
            } else {
                let n = e.path().strip_prefix(base).unwrap().to_string_lossy().to_string();
                // updates are stored in the background, which replaces files
                match std::fs::read(e.path()) {
                    Err(x) if x.kind() == std::io::ErrorKind::NotFound => {}
                    c => {
                        r.insert(n, c.must("read file")?);
                    }
                }
            }
        }
        Ok(())
    }
    let mut r = Tree::new();
    if dir.is_dir() {
        walk(dir, dir, &mut r)?;
    }
    Ok(r)
}

fn same_tree(sig: &str, what: &str, exp: &Tree, got: &Tree) -> R {
    let sh = |v: &Vec<u8>| short(&String::from_utf8_lossy(v));
    for (f, c) in exp {
        match got.get(f) {
            None => return fail(sig, format!("{what}: file {f:?} is missing")),
            Some(g) if g != c => return fail(sig, format!("{what}: content of file {f:?} is {} instead of {}", sh(g), sh(c))),
            _ => {}
        }
    }
    if let Some(f) = got.keys().find(|f| !exp.contains_key(*f)) {
        return fail(sig, format!("{what}: unexpected file {f:?}"));
    }
    Ok(())
}

fn ordinary(name: &str) -> bool {
    !name.is_empty()
        && !name.contains('\\')
        && Path::new(name).components().all(|c| matches!(c, Component::Normal(_)))
        && Path::new(name).components().collect::<PathBuf>().to_string_lossy() == name
}

/// Path of the file relative to the directory with the linked files.
fn normal(name: &str) -> PathBuf {
    Path::new(name)
        .components()
        .map(|c| match c {
            Component::Normal(c) => c.to_string_lossy().to_string(),
            Component::ParentDir => "..".into(),
            Component::RootDir => "/".into(),
            _ => ".".into(),
        })
        .map(|c| c.replace('/', "%2F"))
        .collect()
}

struct Spec {
    m: MGraph,
    config: Option<toml::Table>,
    /// file node -> content of the linked file
    files: BTreeMap<String, Vec<u8>>,
    conflict: bool,
}

fn text(s: &mut Src) -> String {
    s.pick(&["a", "tok", "x::y", "\u{e4} b", "a\"b", "'", "", "[x]", "a=b", "#", "\\", "a\nb", "&<>", "\"\"\"", "'''", "]]>"]).to_string()
}

fn gen_config(s: &mut Src) -> toml::Table {
    use toml::Value;
    let strings = |s: &mut Src| {
        let n = s.size(1, 3);
        Value::Array((0..n).map(|_| Value::String(text(s))).collect())
    };
    let mut t = toml::Table::new();
    let mut c = toml::Table::new();
    c.insert("default".into(), Value::Integer(s.range(0, 9)));
    c.insert("sizes".into(), Value::Array((0..s.size(0, 3)).map(|_| Value::Integer(s.range(0, 20))).collect()));
    if s.chance(1, 2) {
        c.insert("max".into(), Value::Integer(s.range(0, 50)));
    }
    if s.chance(1, 2) {
        c.insert("segmentation".into(), Value::String(text(s)));
    }
    t.insert("context".into(), Value::Table(c));
    let mut v = toml::Table::new();
    v.insert("page_size".into(), Value::Integer(s.range(1, 30)));
    if s.chance(1, 3) {
        v.insert("base_text_segmentation".into(), Value::String(s.pick(&["seg", "norm", "\u{e4}"]).to_string()));
    }
    if s.chance(1, 2) {
        v.insert("hidden_annos".into(), strings(s));
    }
    if s.chance(1, 2) {
        v.insert("corpus_annotation_order".into(), strings(s));
    }
    match s.idx(4) {
        0 => {
            let mut x = toml::Table::new();
            x.insert("strategy".into(), Value::String("ImplicitFromNamespace".into()));
            v.insert("timeline_strategy".into(), Value::Table(x));
        }
        1 => {
            let mut x = toml::Table::new();
            let mut m = toml::Table::new();
            for _ in 0..s.size(0, 3) {
                m.insert(text(s), Value::String(text(s)));
            }
            x.insert("strategy".into(), Value::String("ImplicitFromMapping".into()));
            x.insert("mappings".into(), Value::Table(m));
            v.insert("timeline_strategy".into(), Value::Table(x));
        }
        _ => {}
    }
    t.insert("view".into(), Value::Table(v));
    let n = s.size(0, 2);
    if n > 0 {
        let q = (0..n)
            .map(|_| {
                let mut q = toml::Table::new();
                q.insert("query".into(), Value::String(text(s)));
                q.insert("description".into(), Value::String(text(s)));
                q.insert("query_language".into(), Value::String(s.pick(&["AQL", "AQLQuirksV3"]).to_string()));
                Value::Table(q)
            })
            .collect();
        t.insert("example_queries".into(), Value::Array(q));
    }
    let n = s.size(0, 2);
    if n > 0 {
        let q = (0..n)
            .map(|_| {
                let mut q = toml::Table::new();
                q.insert("vis_type".into(), Value::String(text(s)));
                q.insert("display_name".into(), Value::String(text(s)));
                q.insert("visibility".into(), Value::String(s.pick(&["hidden", "visible", "permanent", "preloaded"]).to_string()));
                if s.chance(1, 2) {
                    q.insert("element".into(), Value::String(s.pick(&["node", "edge"]).to_string()));
                }
                if s.chance(1, 2) {
                    q.insert("layer".into(), Value::String(text(s)));
                }
                if s.chance(1, 2) {
                    let mut m = toml::Table::new();
                    m.insert(text(s), Value::String(text(s)));
                    q.insert("mappings".into(), Value::Table(m));
                }
                Value::Table(q)
            })
            .collect();
        t.insert("visualizers".into(), Value::Array(q));
    }
    t
}

fn default_config() -> toml::Table {
    toml::from_str("[context]\ndefault=5\nsizes=[0,1,2,5,10]\n[view]\npage_size=10\n").unwrap()
}

/// Generate a corpus and create its linked files.
fn gen_spec(s: &mut Src, ctx: &mut Ctx, top: &Path, input: &Path, tag: &str) -> Spec {
    let o = Opts { max_docs: 2, max_tok: 3, ..super::query::opts(s, ctx) };
    let c = gen_corpus(s, &o);
    let mut m = c.m.normalized();
    let mut files = BTreeMap::new();
    let mut paths: Vec<PathBuf> = vec![];
    let conflict = s.chance(1, 25);
    let n = if conflict { 2 } else { s.size(0, 4) };
    for i in 0..n {
        let abs = top.join("outside").join(format!("x{tag}{i}")).to_string_lossy().to_string();
        let name = if conflict {
            ["c/file", "c/file/part"][i].to_string()
        } else {
            match s.weighted(&[10, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
                0 => format!("{}/f{i}.txt", s.pick(&["c", "c/d1", "c/d \u{e4}"])),
                1 => format!("../up{i}"),
                2 => abs,
                3 => format!("c/../../../../esc{i}"),
                4 => format!("c//f{i}"),
                5 => format!("./cur{i}"),
                6 => s.pick(&["..", "."]).to_string(),
                7 => "/".into(),
                8 => format!("c/\"a&<b>' {i}.wav"),
                9 => format!("a\\b{i}"),
                10 => format!("..\\..\\b{i}"),
                11 => format!("c/%2E%2E/%20x{i}"),
                _ => format!("c/../../{tag}.xml"),
            }
        };
        let p = normal(&name);
        if !conflict && paths.iter().any(|q| q.starts_with(&p) || p.starts_with(q)) || m.nodes.contains_key(&name) {
            continue;
        }
        let content = format!("content {tag} {i}").into_bytes();
        let put = |p: PathBuf| {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, &content).unwrap();
        };
        let mut exists = true;
        let kind = if conflict { s.idx(4) } else { s.idx(9) };
        let label = match kind {
            0 => Some(format!("f{tag}{i}.txt")),
            1 => Some(format!("sub {tag}/\u{e4}{i}.txt")),
            2 => Some(format!("../other/f{tag}{i}.txt")),
            3 => Some(top.join("abs").join(format!("f{tag}{i}.txt")).to_string_lossy().to_string()),
            k => {
                exists = false;
                match k {
                    4 => Some(format!("missing{i}")),
                    5 => Some("".into()),
                    6 => Some("http://example.org/x.txt".into()),
                    7 => {
                        std::fs::create_dir_all(input.join("directory")).unwrap();
                        Some("directory".into())
                    }
                    _ => None,
                }
            }
        };
        if exists {
            put(input.join(label.as_ref().unwrap()));
            files.insert(name.clone(), content);
            paths.push(p);
        }
        let mut a = Annos::new();
        a.insert(k("annis", "node_name"), name.clone());
        a.insert(k("annis", "node_type"), "file".into());
        if let Some(l) = &label {
            a.insert(k("annis", "file"), l.clone());
        }
        let parent = m.nodes.keys().next().cloned();
        if let Some(d) = parent
            && d != name
            && s.chance(2, 3)
        {
            m.edges.entry(comp("PartOf", "annis", "")).or_default().insert((name.clone(), d), Annos::new());
        }
        ctx.label_if(exists && !ordinary(&name), "unusual name");
        ctx.note(format!("  file node {} -> {label:?} exists={exists}", short(&name)));
        m.nodes.insert(name, a);
    }
    let config = if s.chance(2, 3) { Some(gen_config(s)) } else { None };
    Spec { m, config, files, conflict: conflict && paths.len() == 2 }
}

fn config_of(db: &Path) -> R<toml::Table> {
    let t = std::fs::read_to_string(db.join("corpus-config.toml")).must("read corpus configuration")?;
    let mut t: toml::Table = toml::from_str(&t).must("parse corpus configuration")?;
    t.remove("corpus_size");
    Ok(t)
}

/// Directory of a corpus, the name is decoded.
fn corpus_dir(db: &Path, name: &str) -> R<PathBuf> {
    for e in std::fs::read_dir(db).must("list data directory")? {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().to_string();
        if percent_encoding::percent_decode_str(&n).decode_utf8_lossy() == name {
            return Ok(e.path());
        }
    }
    fail("missing", format!("there is no directory for corpus {name:?}"))
}

/// Check the imported corpus: content, configuration and linked files.
/// The labels of the linked files are updated in the expected content.
fn check_imported(what: &str, db: &Path, name: &str, sp: &mut Spec, got: &MGraph) -> R {
    let dir = corpus_dir(db, name)?;
    let files_dir = dir.join("files");
    let got_files = tree(&files_dir)?;
    let mut exp_files = Tree::new();
    for (n, content) in &sp.files {
        let Some(a) = got.nodes.get(n) else {
            return fail("content", format!("{what}: file node {n:?} is missing"));
        };
        let Some(l) = a.get(&k("annis", "file")) else {
            return fail("label", format!("{what}: node {n:?} has no link"));
        };
        if ordinary(n) && l != n {
            return fail("label", format!("{what}: link of node {n:?} is {l:?}"));
        }
        if !ordinary(l) {
            return fail("label", format!("{what}: link {l:?} of node {n:?} is not relative to the linked files"));
        }
        if exp_files.insert(l.clone(), content.clone()).is_some() {
            return fail("label", format!("{what}: link {l:?} of node {n:?} is used by another node"));
        }
        sp.m.nodes.get_mut(n).unwrap().insert(k("annis", "file"), l.clone());
    }
    same_tree("files", &format!("{what}: linked files of {name:?}"), &exp_files, &got_files)?;
    same("content", &format!("{what}: content of {name:?}"), &sp.m.normalized().without_index(), got)?;
    let c = config_of(&dir)?;
    let e = sp.config.clone().unwrap_or_else(default_config);
    if c != e {
        return fail("config", format!("{what}: expected configuration {e:?}, but got {c:?}"));
    }
    Ok(())
}

fn check_all(what: &str, db: &Path, names: &[String], specs: &mut [Spec]) -> R {
    let got = read_dir(db)?;
    if got.len() != names.len() {
        return fail("list", format!("{what}: expected corpora {names:?}, but got {:?}", got.keys()));
    }
    for (i, n) in names.iter().enumerate() {
        let Some(g) = got.get(n) else {
            return fail("list", format!("{what}: corpus {n:?} is missing"));
        };
        check_imported(what, db, n, &mut specs[i], g)?;
    }
    Ok(())
}

fn linked(s: &mut Src, ctx: &mut Ctx) -> R {
    // directories are nested, so that everything which leaves them is still inside of the scratch directory
    let top = ctx.dir().join("1/2/3/4/5/6");
    let (input, db, db2, out) = (top.join("in/a/b"), top.join("data/x/db"), top.join("data2/x/db"), top.join("result/x/y/out"));
    for d in [&input, &db, &db2, out.parent().unwrap()] {
        std::fs::create_dir_all(d).unwrap();
    }
    let db = db.canonicalize().unwrap();
    let all = ["one", "t w\u{f6}", "x.y", "a/b", "..", "a\\b", "%2F", "/abs"];
    let count = s.weighted(&[0, 5, 2, 1]);
    let mut names: Vec<String> = vec![];
    let mut unusual = false;
    for _ in 0..count {
        let i = s.weighted(&[4, 3, 2, 1, 1, 1, 1, 1]);
        let weird = i >= 3;
        if names.iter().any(|n| n == all[i]) || weird && unusual {
            continue;
        }
        unusual |= weird;
        names.push(all[i].to_string());
    }
    let mut specs = vec![];
    let cs = open(&db, s.idx(4), false)?;
    let relative = s.chance(1, 8);
    for (i, n) in names.iter().enumerate() {
        ctx.note(format!("corpus {n:?}"));
        let f = input.join(format!("i{i}.graphml"));
        if s.chance(1, 4) {
            // is replaced later
            let sp = gen_spec(s, ctx, &top, &input, &format!("o{i}"));
            write_graphml(&sp.m, &f, None)?;
            if !sp.conflict {
                cs.import_from_fs(&f, ImportFormat::GraphML, Some(n.clone()), s.chance(1, 3), false, |_| {}).must("first import")?;
            }
            ctx.note("  replaced by:");
        }
        let sp = gen_spec(s, ctx, &top, &input, &format!("i{i}"));
        let c = sp.config.as_ref().map(|c| toml::to_string(c).unwrap());
        write_graphml(&sp.m, &f, c.as_deref())?;
        let before = tree(&top)?;
        let f = if relative { relative_path(&f) } else { f };
        let r = cs.import_from_fs(&f, ImportFormat::GraphML, Some(n.clone()), s.chance(1, 3), true, |_| {});
        unchanged("import", &top, &before, &["data"])?;
        if sp.conflict {
            ctx.label("conflict");
            if r.is_ok() {
                return fail("conflict", "import of files which can not exist in the same directory has no error");
            }
            if cs.list().must("list")?.iter().any(|i| i.name == *n) || corpus_dir(&db, n).is_ok() {
                return fail("conflict", "failed import leaves an incomplete corpus");
            }
            return Ok(());
        }
        r.must("import")?;
        specs.push(sp);
    }
    drop(cs);
    check_all("import", &db, &names, &mut specs)?;

    // change the corpora
    let cs = open(&db, s.idx(4), false)?;
    for (i, n) in names.iter().enumerate() {
        let sp = &mut specs[i];
        let mut evs = vec![];
        if s.chance(1, 3)
            && let Some(x) = sp.m.nodes.keys().next()
        {
            evs.push(UpdateEvent::AddNodeLabel { node_name: x.clone(), anno_ns: "x".into(), anno_name: "y".into(), anno_value: "z".into() });
        }
        if s.chance(1, 5)
            && let Some(x) = sp.files.keys().next().cloned()
        {
            sp.files.remove(&x);
            evs.push(UpdateEvent::DeleteNode { node_name: x });
        }
        if !evs.is_empty() {
            ctx.note(format!("update {n:?}: {}", evs.iter().map(show_event).collect::<Vec<_>>().join(", ")));
            cs.apply_update(n, &mut to_update(&evs)?).must("apply update")?;
            sp.m.apply_all(&evs);
        }
    }

    // export with errors
    if s.chance(1, 3) {
        let f = match s.idx(3) {
            0 => ExportFormat::GraphML,
            1 => ExportFormat::GraphMLZip,
            _ => ExportFormat::GraphMLDirectory,
        };
        let (file, mut c) = match f {
            ExportFormat::GraphML => (top.join("result/existing"), vec![]),
            ExportFormat::GraphMLZip => (top.join("result/existing"), vec![names[0].as_str()]),
            ExportFormat::GraphMLDirectory => (top.join("result/existing.graphml"), vec![]),
        };
        std::fs::write(&file, "x").unwrap();
        c.insert(s.idx(c.len() + 1), if matches!(f, ExportFormat::GraphMLDirectory) { "existing" } else { "missing" });
        let before = tree(&top)?;
        let target = if matches!(f, ExportFormat::GraphMLDirectory) { top.join("result") } else { file };
        ctx.note(format!("export missing corpus as {}", fmt(&f)));
        if cs.export_to_fs(&c, &target, f).is_ok() {
            return fail("missing", "export of a missing corpus has no error");
        }
        unchanged("failed export", &top, &before, &[])?;
    }

    // export everything
    let before = tree(&top)?;
    let refs: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    let format = match s.idx(if names.len() == 1 { 3 } else { 2 }) {
        0 => ExportFormat::GraphMLZip,
        1 => ExportFormat::GraphMLDirectory,
        _ => ExportFormat::GraphML,
    };
    ctx.note(format!("export as {}", fmt(&format)));
    ctx.label(fmt(&format));
    let zip = matches!(format, ExportFormat::GraphMLZip);
    let target = match format {
        ExportFormat::GraphMLZip => top.join("result/x/y/out.zip"),
        ExportFormat::GraphMLDirectory => out.clone(),
        ExportFormat::GraphML => {
            std::fs::create_dir_all(&out).unwrap();
            out.join(format!("{}.graphml", names[0].replace(['/', '\\'], "%")))
        }
    };
    let target_p = if relative { relative_path(&target) } else { target.clone() };
    cs.export_to_fs(&refs, &target_p, format).must("export")?;
    unchanged("export", &top, &before, &["result/x/y"])?;
    let exp = exported(&names, &specs);
    let got: Tree = if zip {
        let mut a = zip::ZipArchive::new(std::fs::File::open(&target).unwrap()).must("open ZIP file")?;
        let mut r = Tree::new();
        for i in 0..a.len() {
            let mut e = a.by_index(i).must("read ZIP file")?;
            let n = e.name().to_string();
            let mut c = vec![];
            std::io::Read::read_to_end(&mut e, &mut c).must("read ZIP file")?;
            if r.insert(n.clone(), c).is_some() {
                return fail("zip", format!("entry {n:?} exists twice"));
            }
        }
        r
    } else {
        tree(&out)?
    };
    check_exported(&exp, &names, &got)?;
    drop(cs);

    // import the exported files
    let cs: CorpusStorage = open(&db2, s.idx(4), false)?;
    let disk = s.chance(1, 3);
    let imported: Vec<String> = if zip {
        let r = cs
            .import_all_from_zip(std::fs::File::open(&target).unwrap(), disk, false, |_| {})
            .must("import ZIP file")?;
        if r.len() != names.len() {
            return fail("zip", format!("imported corpora from ZIP file: {r:?}"));
        }
        r
    } else {
        let mut r = vec![];
        for f in got.keys().filter(|f| f.ends_with(".graphml")) {
            let p = out.join(f);
            r.push(cs.import_from_fs(&p, ImportFormat::GraphML, None, disk, false, |_| {}).must("import exported file")?);
        }
        r
    };
    drop(cs);
    let mut specs2 = vec![];
    let mut names2 = vec![];
    for (n, sp) in names.iter().zip(specs) {
        let n2 = match imported.iter().find(|i| *i == n) {
            Some(n) => n.clone(),
            // there is at most one name with a path separator
            None if n.contains(['/', '\\']) => match imported.iter().find(|i| !names.contains(i)) {
                Some(n) => n.clone(),
                None => return fail("names", format!("names of the imported corpora: {imported:?}")),
            },
            None => return fail("names", format!("names of the imported corpora: {imported:?}")),
        };
        names2.push(n2);
        ctx.nontrivial_if(!sp.files.is_empty());
        specs2.push(sp);
    }
    check_all("import of exported files", &db2, &names2, &mut specs2)
}

fn fmt(f: &ExportFormat) -> &'static str {
    match f {
        ExportFormat::GraphML => "GraphML",
        ExportFormat::GraphMLZip => "ZIP",
        ExportFormat::GraphMLDirectory => "directory",
    }
}

fn relative_path(p: &Path) -> PathBuf {
    let cwd = std::env::current_dir().unwrap();
    let mut r = PathBuf::new();
    for _ in cwd.components().skip(1) {
        r.push("..");
    }
    r.join(p.strip_prefix("/").unwrap())
}

/// Only files below the given directories are allowed to change.
fn unchanged(what: &str, top: &Path, before: &Tree, except: &[&str]) -> R {
    let f = |t: &Tree| -> Tree {
        t.iter().filter(|(n, _)| !except.iter().any(|e| Path::new(n).starts_with(e))).map(|(a, b)| (a.clone(), b.clone())).collect()
    };
    // loading a corpus might remove temporary files
    let (mut a, mut b) = (f(before), f(&tree(top)?));
    if except != ["data"] {
        for t in [&mut a, &mut b] {
            t.retain(|n, _| !n.starts_with("data/") || n.contains("/files/") || n.ends_with("/corpus-config.toml"));
        }
    }
    same_tree("outside", &format!("files outside of the target of the {what}"), &a, &b)?;
    // the levels above
    for i in 1..6 {
        let d = top.ancestors().nth(i).unwrap();
        let n = std::fs::read_dir(d).must("list directory")?.count();
        if n != 1 {
            return fail("outside", format!("{what} created files in a parent directory"));
        }
    }
    Ok(())
}

/// Expected linked files of the export for each corpus.
fn exported(names: &[String], specs: &[Spec]) -> Vec<Tree> {
    (0..names.len())
        .map(|i| {
            let sp = &specs[i];
            sp.files.iter().map(|(n, c)| (sp.m.nodes[n][&k("annis", "file")].clone(), c.clone())).collect()
        })
        .collect()
}

fn check_exported(exp: &[Tree], names: &[String], got: &Tree) -> R {
    let graphml: Vec<&String> = got.keys().filter(|f| f.ends_with(".graphml")).collect();
    if graphml.len() != names.len() {
        return fail("export", format!("expected {} corpora, but got files {:?}", names.len(), got.keys()));
    }
    for n in got.keys() {
        if !ordinary(n) {
            return fail("outside", format!("exported file {n:?} is not inside of the target"));
        }
    }
    let mut all = Tree::new();
    for (i, n) in names.iter().enumerate() {
        let odd = n.contains(['/', '\\']);
        let own = |f: &str| Path::new(f).file_name().unwrap().to_string_lossy() == format!("{n}.graphml");
        let Some(f) = graphml.iter().find(|f| own(f)).or_else(|| {
            if odd { graphml.iter().find(|f| !names.iter().any(|n| Path::new(f).file_name().unwrap().to_string_lossy() == format!("{n}.graphml"))) } else { None }
        }) else {
            return fail("export", format!("there is no file for {n:?} in {:?}", got.keys()));
        };
        let dir = Path::new(f).parent().unwrap();
        all.insert(f.to_string(), got[*f].clone());
        for (l, c) in &exp[i] {
            all.insert(dir.join(l).to_string_lossy().to_string(), c.clone());
        }
    }
    same_tree("export", "exported files", &all, got)
}
