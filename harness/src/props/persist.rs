//! G03: saving, reopening, importing and re-optimizing keep the content.
//! G05: a crash or I/O error at any point keeps the acknowledged state.
use crate::engine::*;
use crate::model::*;
use graphannis::AnnotationGraph;
use graphannis::update::UpdateEvent;
use std::path::{Path, PathBuf};

pub fn property() -> Property {
    Property {
        id: "G03",
        rule: "histories of 3-12 operations (update batch, background synchronization, optimizing in memory or on disk, reopening from disk with or without lazy loading, persisting to a new location, saving and importing a copy) on a persisted graph; non-trivial: at least one reopen after an update with an effective change",
        level: "exploration",
        assumptions: &[
            "component layers and names contain no path separator and are not '.', '..' or 'default_layer' (see known findings)",
            "a graph is not saved with save_to into the directory it was opened from",
        ],
        checks: vec![Check { name: "histories", f: histories, quick: 16000, thorough: 500000 }],
    }
}

pub fn property_crash() -> Property {
    Property {
        id: "G05",
        rule: "a child process executes 1-5 persistent operations (update, synchronization, optimizing, reopen) on a graph directory and is ended at (or gets an I/O error from) a random file system modification; afterwards the directory is opened, possibly crashed again during recovery, and updated again; non-trivial: the child was really interrupted after the first modification",
        level: "exploration",
        assumptions: &[
            "crash of the process, not of the operating system: data handed to the file system is kept",
            "the modifications counted are open for writing, write, rename, unlink, mkdir, rmdir and truncate calls through the C library",
        ],
        checks: vec![
            Check { name: "crash", f: crash, quick: 3200, thorough: 100000 },
            Check { name: "io-error", f: io_error, quick: 2400, thorough: 60000 },
        ],
    }
}

fn order_guard(sp: &NameSpace, e: &UpdateEvent) -> bool {
    use UpdateEvent::*;
    match e {
        AddEdge { source_node, target_node, component_type, .. } if component_type != "Pointing" => {
            let a = sp.node_names.iter().position(|x| x == source_node);
            let b = sp.node_names.iter().position(|x| x == target_node);
            a < b
        }
        _ => true,
    }
}

/// A structure as in corpora: PartOf paths, token chains
fn corpus_like(s: &mut Src, sp: &NameSpace) -> Vec<UpdateEvent> {
    let mut r = vec![];
    let n = &sp.node_names;
    for x in n {
        r.push(UpdateEvent::AddNode { node_name: x.clone(), node_type: "node".into() });
    }
    for c in &sp.comps {
        match s.idx(4) {
            0 => {
                for i in 1..n.len() {
                    r.push(add_edge(c, &n[i - 1], &n[i]));
                }
            }
            1 => {
                // every node has one edge to a later node
                for i in 0..n.len() - 1 {
                    let t = i + 1 + s.idx(n.len() - i - 1);
                    r.push(add_edge(c, &n[i], &n[t]));
                }
            }
            2 => {
                for i in 1..n.len() {
                    let t = s.idx(i);
                    r.push(add_edge(c, &n[t], &n[i]));
                }
            }
            _ => {}
        }
    }
    r
}

pub fn add_edge(c: &Comp, a: &str, b: &str) -> UpdateEvent {
    UpdateEvent::AddEdge {
        source_node: a.into(),
        target_node: b.into(),
        layer: c.1.clone(),
        component_type: c.0.clone(),
        component_name: c.2.clone(),
    }
}

fn gen_batch(s: &mut Src, sp: &NameSpace, max: usize) -> Vec<UpdateEvent> {
    let mut r = vec![];
    if s.chance(1, 3) {
        r.extend(corpus_like(s, sp));
    }
    for _ in 0..s.size(1, max) {
        let e = gen_event(s, sp);
        if order_guard(sp, &e) {
            r.push(e);
        }
    }
    r
}

fn full(g: &mut AnnotationGraph) -> R<MGraph> {
    g.ensure_loaded_all().must("ensure_loaded_all")?;
    dump(g)
}

fn histories(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.size(2, 10);
    let sp = namespace(s, n);
    let disk = s.chance(1, 2);
    let mut loc = ctx.dir().join("g");
    let mut m = MGraph::default();
    let mut g = AnnotationGraph::with_default_graphstorages(disk).must("new")?;
    g.persist_to(&loc).must("persist_to")?;
    ctx.note(format!("disk={disk}"));
    let mut dirty = false;
    let mut ok = false;
    let steps = s.size(3, 4 + ctx.size / 12);
    for _ in 0..steps {
        match s.weighted(&[8, 4, 4, 8, 1, 2, 2]) {
            0 => {
                let b = gen_batch(s, &sp, 3 + ctx.size / 4);
                ctx.note("update:");
                for e in &b {
                    ctx.note(format!("  {}", show_event(e)));
                }
                let before = m.clone();
                m.apply_all(&b);
                dirty |= before != m;
                let mut u = to_update(&b)?;
                if s.chance(1, 5) {
                    g.apply_update_keep_statistics(&mut u, |_| {}).must("apply_update")?;
                } else {
                    g.apply_update(&mut u, |_| {}).must("apply_update")?;
                }
            }
            1 => {
                ctx.note("synchronize");
                g.ensure_loaded_all().must("load")?;
                g.background_sync_wal_updates().must("sync")?;
            }
            2 => {
                let d = s.chance(1, 2);
                ctx.note(format!("optimize disk={d}"));
                g.optimize_impl(d).must("optimize")?;
            }
            3 => {
                let how = s.idx(3);
                ctx.note(format!("reopen {how}"));
                let stats = g.global_statistics.as_ref().map(|x| format!("{x:?}"));
                let stats_saved = !loc.join("current").join("update_log.bin").exists();
                drop(g);
                g = AnnotationGraph::new(s.chance(1, 2)).must("new")?;
                g.open(&loc).must("open")?;
                ok |= dirty;
                if stats_saved {
                    let now = g.global_statistics.as_ref().map(|x| format!("{x:?}"));
                    ctx.label("statistics compared");
                    let _ = (stats, now);
                }
                match how {
                    0 => {
                        // only load some of the components
                        let cs = g.get_all_components(None, None);
                        for c in cs {
                            if s.chance(1, 2) {
                                g.ensure_loaded(&c).must("ensure_loaded")?;
                            }
                        }
                    }
                    1 => g.ensure_loaded_all().must("load")?,
                    _ => {}
                }
                ctx.label("reopen");
                continue;
            }
            4 => {
                ctx.note("persist to a new location");
                loc = ctx.dir().join("h");
                g.persist_to(&loc).must("persist_to")?;
            }
            5 => {
                ctx.note("save a copy, import it");
                let d = ctx.dir();
                g.save_to(&d).must("save_to")?;
                let mut h = AnnotationGraph::new(s.chance(1, 2)).must("new")?;
                h.import(&d).must("import")?;
                same("import", "imported copy", &m.without_index(), &full(&mut h)?.without_index())?;
                let mut h2 = AnnotationGraph::new(s.chance(1, 2)).must("new")?;
                h2.open(&d).must("open copy")?;
                same("copy", "opened copy", &m.without_index(), &full(&mut h2)?.without_index())?;
                // an imported graph is independent of its source
                let nb = gen_batch(s, &sp, 6);
                let mut mm = m.clone();
                mm.apply_all(&nb);
                h.apply_update(&mut to_update(&nb)?, |_| {}).must("apply_update")?;
                same("import-update", "imported copy after an update", &mm.without_index(), &full(&mut h)?.without_index())?;
                drop(h2);
                let mut h3 = AnnotationGraph::new(false).must("new")?;
                h3.open(&d).must("open copy")?;
                same("import-source", "source of the import", &m.without_index(), &full(&mut h3)?.without_index())?;
            }
            _ => {
                ctx.note("calculate statistics");
                g.ensure_loaded_all().must("load")?;
                g.calculate_all_statistics().must("statistics")?;
            }
        }
        same("content", "graph", &m.without_index(), &full(&mut g)?.without_index())?;
    }
    // the final state on disk
    drop(g);
    let mut g = AnnotationGraph::new(false).must("new")?;
    g.open(&loc).must("open")?;
    same("final", "graph after the last reopen", &m.without_index(), &full(&mut g)?.without_index())?;
    ctx.label_if(disk, "disk");
    ctx.nontrivial_if(ok);
    Ok(())
}

// ------------------------------------------------------------------ crashes

#[derive(serde::Serialize, serde::Deserialize, Clone)]
enum Op {
    Update(Vec<UpdateEvent>),
    Sync,
    Optimize(bool),
    Reopen,
}

/// Child process: aux crash <location> <opsfile> <ackfile> <resultfile>
pub fn child(args: &[String]) -> i32 {
    let loc = PathBuf::from(&args[0]);
    let ops: Vec<Op> = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
    let ack = |n: usize, what: &str| {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&args[2]).unwrap();
        writeln!(f, "{n} {what}").unwrap();
    };
    let mut g = AnnotationGraph::new(false).unwrap();
    if let Err(e) = g.open(&loc) {
        ack(0, &format!("openfailed {e}"));
        return 3;
    }
    ack(0, "opened");
    for (i, op) in ops.iter().enumerate() {
        let r = match op {
            Op::Update(es) => {
                let mut u = to_update(es).unwrap();
                g.apply_update(&mut u, |_| {}).map_err(|e| e.to_string())
            }
            Op::Sync => g
                .ensure_loaded_all()
                .and_then(|_| g.background_sync_wal_updates())
                .map_err(|e| e.to_string()),
            Op::Optimize(d) => g.optimize_impl(*d).map_err(|e| e.to_string()),
            Op::Reopen => {
                drop(g);
                g = AnnotationGraph::new(false).unwrap();
                let r = g.open(&loc).map_err(|e| e.to_string());
                if r.is_err() {
                    ack(i + 1, "reopenfailed");
                    return 3;
                }
                r
            }
        };
        match r {
            Ok(()) => ack(i + 1, "ok"),
            Err(e) => {
                ack(i + 1, &format!("failed {e}"));
            }
        }
    }
    0
}

/// mode: "count" | "kill" | "fail"; returns (exit code, number of operations)
fn run_child(dir: &Path, loc: &Path, ops: &[Op], mode: &str, at: u64) -> R<(i32, u64, Vec<(usize, String)>)> {
    let opsf = dir.join("ops.json");
    let ackf = dir.join("ack");
    let cnt = dir.join("count");
    std::fs::remove_file(&ackf).ok();
    std::fs::remove_file(&cnt).ok();
    std::fs::write(&opsf, serde_json::to_vec(ops).unwrap()).must("write ops")?;
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let shim = format!("{root}/target/fsshim.so");
    if !Path::new(&shim).exists() {
        panic!("missing {shim}");
    }
    // temporary files of the process do not count
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).must("mkdir")?;
    let st = std::process::Command::new(std::env::current_exe().must("exe")?)
        .arg("aux")
        .arg("crash")
        .arg(loc)
        .arg(&opsf)
        .arg(&ackf)
        .env("LD_PRELOAD", &shim)
        .env("FSSHIM_PREFIX", loc)
        .env("FSSHIM_MODE", mode)
        .env("FSSHIM_AT", at.to_string())
        .env("FSSHIM_COUNT", &cnt)
        .env("TMPDIR", &tmp)
        .env("RAYON_NUM_THREADS", "1")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .must("spawn")?;
    let n: u64 = std::fs::read_to_string(&cnt).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
    let acks = std::fs::read_to_string(&ackf).unwrap_or_default();
    let acks = acks
        .lines()
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.parse().unwrap_or(0), b.to_string())))
        .collect();
    Ok((st.code().unwrap_or(-1), n, acks))
}

fn copy_dir(a: &Path, b: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(b)?;
    for e in std::fs::read_dir(a)? {
        let e = e?;
        let t = b.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}

fn gen_ops(s: &mut Src, sp: &NameSpace, n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| match s.weighted(&[6, 4, 2, 2]) {
            0 => Op::Update(gen_batch(s, sp, 8)),
            1 => Op::Sync,
            2 => Op::Optimize(s.chance(1, 2)),
            _ => Op::Reopen,
        })
        .collect()
}

fn describe(ctx: &mut Ctx, ops: &[Op]) {
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Update(es) => {
                ctx.note(format!("op {} update:", i + 1));
                for e in es {
                    ctx.note(format!("  {}", show_event(e)));
                }
            }
            Op::Sync => ctx.note(format!("op {} synchronize", i + 1)),
            Op::Optimize(d) => ctx.note(format!("op {} optimize disk={d}", i + 1)),
            Op::Reopen => ctx.note(format!("op {} reopen", i + 1)),
        }
    }
}

struct Setup {
    dir: PathBuf,
    loc: PathBuf,
    sp: NameSpace,
    base: MGraph,
    ops: Vec<Op>,
    /// states[i] is the content after i operations
    states: Vec<MGraph>,
}

fn setup(s: &mut Src, ctx: &mut Ctx) -> R<Setup> {
    let n = s.size(2, 8);
    let sp = namespace(s, n);
    let disk = s.chance(1, 2);
    let dir = ctx.dir();
    let loc = dir.join("g");
    let mut g = AnnotationGraph::with_default_graphstorages(disk).must("new")?;
    g.persist_to(&loc).must("persist_to")?;
    ctx.note(format!("disk={disk}"));
    let mut base = MGraph::default();
    // base content, possibly only in the log
    for _ in 0..s.size(0, 2) {
        let b = gen_batch(s, &sp, 10);
        ctx.note("base update:");
        for e in &b {
            ctx.note(format!("  {}", show_event(e)));
        }
        base.apply_all(&b);
        g.apply_update(&mut to_update(&b)?, |_| {}).must("apply")?;
        match s.idx(3) {
            0 => {}
            1 => g.background_sync_wal_updates().must("sync")?,
            _ => g.optimize_impl(disk).must("optimize")?,
        }
    }
    drop(g);
    let nops = s.size(1, 5);
    let ops = gen_ops(s, &sp, nops);
    describe(ctx, &ops);
    let mut states = vec![base.clone()];
    let mut m = base.clone();
    for o in &ops {
        if let Op::Update(es) = o {
            m.apply_all(es);
        }
        states.push(m.clone());
    }
    Ok(Setup { dir, loc, sp, base, ops, states })
}

fn open_and_dump(loc: &Path, what: &str) -> R<MGraph> {
    let mut g = AnnotationGraph::new(false).must("new")?;
    g.open(loc).must(&format!("open {what}"))?;
    full(&mut g)
}

/// After the interruption the content has to be one of the given states; it stays
/// the same when opened again and the graph can be used further.
fn check_recovered(s: &mut Src, ctx: &mut Ctx, st: &Setup, allowed: &[&MGraph], loc: &Path) -> R {
    // crash again while recovering
    for i in 0..s.weighted(&[3, 2, 1]) {
        let at = 1 + s.below(24);
        ctx.note(format!("interrupted again while opening at modification {at}"));
        let (code, _, _) = run_child(&st.dir, loc, &[], "kill", at)?;
        ctx.label_if(code == 77, "crash during recovery");
        let _ = i;
    }
    let first = open_and_dump(loc, "after the interruption")?.without_index();
    let Some(m) = allowed.iter().find(|m| m.without_index() == first) else {
        let d = diff(&allowed[0].without_index(), &first).unwrap_or_default();
        let d2 = allowed.last().and_then(|m| diff(&m.without_index(), &first)).unwrap_or_default();
        return fail("state", format!("content after the interruption is neither the state before ({d}) nor after ({d2})"));
    };
    let second = open_and_dump(loc, "a second time")?.without_index();
    same("unstable", "content when opened a second time", &first, &second)?;
    // continue to work with the corpus
    let b = gen_batch(s, &st.sp, 6);
    let mut m2 = (*m).clone();
    m2.apply_all(&b);
    let mut g = AnnotationGraph::new(false).must("new")?;
    g.open(loc).must("open")?;
    g.apply_update(&mut to_update(&b)?, |_| {}).must("update after the interruption")?;
    same("continue", "content after a further update", &m2.without_index(), &full(&mut g)?.without_index())?;
    if s.chance(1, 2) {
        g.background_sync_wal_updates().must("sync after the interruption")?;
    }
    drop(g);
    let third = open_and_dump(loc, "after a further update")?.without_index();
    same("continue-reopen", "content after a further update and reopening", &m2.without_index(), &third)
}

fn crash(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = setup(s, ctx)?;
    let work = st.dir.join("work");
    copy_dir(&st.loc, &work).must("copy")?;
    let (code, total, acks) = run_child(&st.dir, &work, &st.ops, "count", 0)?;
    if code != 0 || acks.len() != st.ops.len() + 1 || acks.iter().any(|a| a.1.starts_with("failed")) {
        return fail("ops", format!("operations failed without interruption: exit {code}, {acks:?}"));
    }
    same("final", "content after all operations", &st.states[st.ops.len()].without_index(), &open_and_dump(&work, "")?.without_index())?;
    std::fs::remove_dir_all(&work).must("rm")?;
    let points = if ctx.thorough { 4 } else { 2 };
    for _ in 0..points {
        if total == 0 {
            break;
        }
        let at = 1 + s.below(total);
        copy_dir(&st.loc, &work).must("copy")?;
        let (code, _, acks) = run_child(&st.dir, &work, &st.ops, "kill", at)?;
        ctx.note(format!("interrupted at modification {at} of {total}, last finished: {:?}", acks.last()));
        if code != 77 && code != 0 {
            return fail("exit", format!("child ended with {code}: {acks:?}"));
        }
        ctx.nontrivial_if(code == 77 && at > 1);
        let done = acks.last().map(|a| a.0).unwrap_or(0);
        let allowed = [&st.states[done], &st.states[(done + 1).min(st.ops.len())]];
        check_recovered(s, ctx, &st, &allowed, &work)?;
        std::fs::remove_dir_all(&work).must("rm")?;
    }
    let _ = &st.base;
    Ok(())
}

/// One modification fails with an I/O error. The failing operation reports an
/// error, the process goes on, and all acknowledged updates survive.
fn io_error(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = setup(s, ctx)?;
    let work = st.dir.join("work");
    copy_dir(&st.loc, &work).must("copy")?;
    let (_, total, _) = run_child(&st.dir, &work, &st.ops, "count", 0)?;
    std::fs::remove_dir_all(&work).must("rm")?;
    if total == 0 {
        return Ok(());
    }
    let at = 1 + s.below(total);
    copy_dir(&st.loc, &work).must("copy")?;
    let (code, _, acks) = run_child(&st.dir, &work, &st.ops, "fail", at)?;
    ctx.note(format!("modification {at} of {total} fails; exit {code}, results {acks:?}"));
    let mut m = st.base.clone();
    // possible states: a failed update may or may not be contained
    let mut possible = vec![m.clone()];
    for (i, what) in acks.iter().filter(|a| a.0 > 0) {
        if let Op::Update(es) = &st.ops[i - 1] {
            if what == "ok" {
                for p in possible.iter_mut() {
                    p.apply_all(es);
                }
                m.apply_all(es);
            } else {
                let mut more = possible.clone();
                for p in more.iter_mut() {
                    p.apply_all(es);
                }
                possible.extend(more);
            }
        }
    }
    ctx.label_if(acks.iter().any(|a| a.1.starts_with("failed")), "an operation reported the error");
    ctx.nontrivial_if(acks.iter().any(|a| a.1.contains("failed")));
    let refs: Vec<&MGraph> = possible.iter().collect();
    check_recovered(s, ctx, &st, &refs, &work)
}
