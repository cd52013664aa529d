//! G31: concurrent operations on a corpus storage.
use super::cs::open;
use super::life::{read_dir, write_graphml};
use crate::engine::*;
use crate::model::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::*;
use graphannis::errors::GraphAnnisError;
use graphannis::update::UpdateEvent;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, mpsc};
use std::time::Duration;

pub fn property() -> Property {
    Property {
        id: "G31",
        rule: "2-5 threads executing 1-8 operations each (create, update of two nodes at once, delete, search, count, unload, preload, optimise, import, export, list) on 1-2 corpora of one corpus storage with different cache limits; non-trivial: at least two operations of different threads changing the same corpus overlap in time",
        level: "exploration",
        assumptions: &["the schedules are those chosen by the operating system, influenced by random delays", "the list of corpora is only checked for errors", "an update of a missing corpus may create an empty corpus in a separate step"],
        checks: vec![Check { name: "linearizable", f: linearizable, quick: 4000, thorough: 40000 }],
    }
}

#[derive(Clone, Debug)]
enum Op {
    Create(bool),
    Update { add: u8, remove: Option<u8> },
    Delete,
    Find,
    Count,
    Unload,
    Preload,
    Optimize(bool),
    Import { overwrite: bool, disk: bool, nodes: u8 },
    Export,
    List,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Res {
    Bool(bool),
    Nodes(BTreeSet<u8>),
    Count(u64),
    Done,
    Missing,
    Exists,
    Error(String),
}

#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    corpus: usize,
    op: Op,
    res: Res,
    start: u64,
    end: u64,
}

type State = Option<BTreeSet<u8>>;

fn node(i: u8) -> String {
    format!("n{i}")
}
fn pair(i: u8) -> BTreeSet<u8> {
    BTreeSet::from([2 * i, 2 * i + 1])
}

fn err(e: GraphAnnisError) -> Res {
    match e {
        GraphAnnisError::NoSuchCorpus(_) => Res::Missing,
        GraphAnnisError::CorpusExists(_) => Res::Exists,
        e => Res::Error(format!("{e:?}")),
    }
}

const NAMES: [&str; 2] = ["c", "d/ä"];

fn execute(cs: &CorpusStorage, name: &str, op: &Op, tmp: &Path, id: u64) -> Res {
    let names = [name];
    let q = || SearchQuery { query: "node", corpus_names: &names[..], query_language: QueryLanguage::AQL, timeout: None };
    let unit = |r: Result<(), GraphAnnisError>| match r {
        Ok(()) => Res::Done,
        Err(e) => err(e),
    };
    match op {
        Op::Create(disk) => cs.create_empty_corpus(name, *disk).map_or_else(err, Res::Bool),
        Op::Update { add, remove } => {
            let mut evs = vec![];
            for n in pair(*add) {
                evs.push(UpdateEvent::AddNode { node_name: node(n), node_type: "node".into() });
            }
            let p: Vec<u8> = pair(*add).into_iter().collect();
            evs.push(UpdateEvent::AddEdge {
                source_node: node(p[0]),
                target_node: node(p[1]),
                layer: "".into(),
                component_type: "Pointing".into(),
                component_name: format!("c{}", add % 2),
            });
            for n in remove.iter().flat_map(|r| pair(*r)) {
                evs.push(UpdateEvent::DeleteNode { node_name: node(n) });
            }
            let mut u = graphannis::update::GraphUpdate::new();
            for e in evs {
                if let Err(e) = u.add_event(e) {
                    return Res::Error(e.to_string());
                }
            }
            unit(cs.apply_update(name, &mut u))
        }
        Op::Delete => cs.delete(name).map_or_else(err, Res::Bool),
        Op::Find => match cs.find(q(), 0, None, ResultOrder::NotSorted) {
            Ok(r) => {
                let mut s = BTreeSet::new();
                for x in r {
                    match x.strip_prefix('n').and_then(|x| x.parse().ok()) {
                        Some(i) if s.insert(i) => {}
                        _ => return Res::Error(format!("unexpected or repeated match {x:?}")),
                    }
                }
                Res::Nodes(s)
            }
            Err(e) => err(e),
        },
        Op::Count => cs.count(q()).map_or_else(err, Res::Count),
        Op::Unload => unit(cs.unload(name)),
        Op::Preload => unit(cs.preload(name)),
        Op::Optimize(disk) => unit(cs.reoptimize_implementation(name, *disk)),
        Op::Import { overwrite, disk, nodes } => {
            let f = tmp.join(format!("in{nodes}.graphml"));
            match cs.import_from_fs(&f, ImportFormat::GraphML, Some(name.to_string()), *disk, *overwrite, |_| {}) {
                Ok(_) => Res::Done,
                Err(e) => err(e),
            }
        }
        Op::Export => {
            let f = tmp.join(format!("out{id}.graphml"));
            match cs.export_to_fs(&[name], &f, ExportFormat::GraphML) {
                Ok(()) => match std::fs::File::open(&f).map_err(|e| e.to_string()).and_then(|f| {
                    graphannis_core::graph::serialization::graphml::import::<graphannis::model::AnnotationComponentType, _, _>(f, false, |_| {})
                        .map_err(|e| e.to_string())
                }) {
                    Ok((g, _)) => match dump(&g) {
                        Ok(m) => Res::Nodes(m.nodes.keys().filter_map(|n| n.strip_prefix('n').and_then(|x| x.parse().ok())).collect()),
                        Err(f) => Res::Error(f.msg),
                    },
                    Err(e) => Res::Error(e),
                },
                Err(e) => err(e),
            }
        }
        Op::List => match cs.list() {
            Ok(_) => Res::Done,
            Err(e) => Res::Error(format!("{e:?}")),
        },
    }
}

/// State after the operation, if the result is possible.
fn apply(st: &State, op: &Op, res: &Res) -> Option<State> {
    let keep = |c: bool| if c { Some(st.clone()) } else { None };
    match (op, res) {
        (Op::Create(_), Res::Bool(true)) => st.is_none().then(|| Some(BTreeSet::new())),
        (Op::Create(_), Res::Bool(false)) => keep(st.is_some()),
        (Op::Update { add, remove }, Res::Done) => {
            let mut s = st.clone().unwrap_or_default();
            s.extend(pair(*add));
            for n in remove.iter().flat_map(|r| pair(*r)) {
                s.remove(&n);
            }
            Some(Some(s))
        }
        (Op::Delete, Res::Bool(true)) => st.is_some().then_some(None),
        (Op::Delete, Res::Bool(false)) => keep(st.is_none()),
        (Op::Find | Op::Export, Res::Nodes(n)) => keep(st.as_ref() == Some(n)),
        (Op::Count, Res::Count(n)) => keep(st.as_ref().map(|s| s.len() as u64) == Some(*n)),
        (Op::Unload, Res::Done) => keep(true),
        (Op::Unload, Res::Missing) => keep(st.is_none()),
        (Op::Preload | Op::Optimize(_), Res::Done) => keep(st.is_some()),
        (Op::Find | Op::Count | Op::Preload | Op::Optimize(_) | Op::Export, Res::Missing) => keep(st.is_none()),
        (Op::Import { overwrite, nodes, .. }, Res::Done) => {
            (*overwrite || st.is_none()).then(|| Some((0..*nodes).flat_map(|i| pair(100 + i)).collect()))
        }
        (Op::Import { overwrite: false, .. }, Res::Exists) => keep(st.is_some()),
        (Op::List, Res::Done) => keep(true),
        _ => None,
    }
}

/// Is there a sequential order of the operations with these results which
/// respects the order of non-overlapping operations?
fn explain(h: &[Event]) -> bool {
    fn go(h: &[Event], done: u64, st: &State, seen: &mut HashSet<(u64, State)>) -> bool {
        if done.count_ones() as usize == h.len() {
            return true;
        }
        if !seen.insert((done, st.clone())) {
            return false;
        }
        let first_end = (0..h.len()).filter(|i| done & (1 << i) == 0).map(|i| h[i].end).min().unwrap();
        for i in 0..h.len() {
            // an update of a missing corpus creates an empty one first
            if done & (1 << i) == 0
                && h[i].start <= first_end
                && st.is_none()
                && matches!(h[i].op, Op::Update { .. })
                && go(h, done, &Some(BTreeSet::new()), seen)
            {
                return true;
            }
            if done & (1 << i) == 0
                && h[i].start <= first_end
                && let Some(n) = apply(st, &h[i].op, &h[i].res)
                && go(h, done | (1 << i), &n, seen)
            {
                return true;
            }
        }
        false
    }
    go(h, 0, &None, &mut HashSet::new())
}

fn gen_op(s: &mut Src, next: &mut u8) -> Op {
    match s.weighted(&[6, 16, 6, 10, 5, 6, 4, 4, 6, 2, 3]) {
        0 => Op::Create(s.chance(1, 3)),
        1 => {
            *next += 1;
            let remove = if s.chance(1, 3) { Some(1 + s.below(*next as u64) as u8) } else { None };
            Op::Update { add: *next, remove: remove.filter(|r| r != next) }
        }
        2 => Op::Delete,
        3 => Op::Find,
        4 => Op::Count,
        5 => Op::Unload,
        6 => Op::Preload,
        7 => Op::Optimize(s.chance(1, 3)),
        8 => Op::Import { overwrite: s.chance(1, 2), disk: s.chance(1, 4), nodes: s.idx(4) as u8 },
        9 => Op::Export,
        _ => Op::List,
    }
}

struct Plan {
    threads: Vec<Vec<(usize, Op, u64)>>,
    cache: usize,
    parallel: bool,
    corpora: usize,
}

fn linearizable(s: &mut Src, ctx: &mut Ctx) -> R {
    let corpora = s.size(1, 2);
    let mut plan = Plan { threads: vec![], cache: s.idx(4), parallel: s.chance(1, 5), corpora };
    let n = s.size(2, 5);
    let mut next = 0u8;
    for t in 0..n {
        let mut ops = vec![];
        for _ in 0..s.size(1, 8) {
            let op = gen_op(s, &mut next);
            let c = s.idx(corpora);
            let delay = if s.chance(1, 2) { 0 } else { s.below(3000) };
            ctx.note(format!("thread {t}: after {delay} µs {:?} {op:?}", NAMES[c]));
            ops.push((c, op, delay));
        }
        plan.threads.push(ops);
    }
    let plan = Arc::new(plan);
    let mut overlap = false;
    for _ in 0..REPEAT.load(Ordering::Relaxed) {
        let dir = ctx.dir();
        overlap |= round(ctx, &plan, &dir)?;
        let _ = std::fs::remove_dir_all(&dir);
    }
    ctx.nontrivial_if(overlap);
    Ok(())
}

fn changes(op: &Op) -> bool {
    matches!(op, Op::Create(_) | Op::Update { .. } | Op::Delete | Op::Import { .. })
}

fn round(ctx: &mut Ctx, plan: &Arc<Plan>, dir: &PathBuf) -> R<bool> {
    let tmp = dir.join("tmp");
    let db = dir.join("db");
    std::fs::create_dir_all(&tmp).unwrap();
    std::fs::create_dir_all(&db).unwrap();
    for n in 0..4u8 {
        let mut m = MGraph::default();
        for i in (0..n).flat_map(|i| pair(100 + i)) {
            m.nodes.insert(
                node(i),
                Annos::from([(k("annis", "node_name"), node(i)), (k("annis", "node_type"), "node".to_string())]),
            );
        }
        write_graphml(&m, &tmp.join(format!("in{n}.graphml")), None)?;
    }
    let cs = Arc::new(open(&db, plan.cache, plan.parallel)?);
    let clock = Arc::new(AtomicU64::new(0));
    let barrier = Arc::new(Barrier::new(plan.threads.len()));
    let (tx, rx) = mpsc::channel();
    for t in 0..plan.threads.len() {
        let (cs, clock, barrier, plan, tx, tmp) = (cs.clone(), clock.clone(), barrier.clone(), plan.clone(), tx.clone(), tmp.clone());
        std::thread::spawn(move || {
            let r = catch(|| {
                barrier.wait();
                let mut evs = vec![];
                for (corpus, op, delay) in &plan.threads[t] {
                    if *delay > 0 {
                        std::thread::sleep(Duration::from_micros(*delay));
                    }
                    let start = clock.fetch_add(1, Ordering::SeqCst);
                    let res = execute(&cs, NAMES[*corpus], op, &tmp, start);
                    let end = clock.fetch_add(1, Ordering::SeqCst);
                    evs.push(Event { thread: t, corpus: *corpus, op: op.clone(), res, start, end });
                }
                evs
            });
            drop(cs);
            let _ = tx.send((t, r));
        });
    }
    drop(tx);
    let mut all: Vec<Event> = vec![];
    let mut left = plan.threads.len();
    while left > 0 {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok((_, Ok(evs))) => {
                all.extend(evs);
                left -= 1;
            }
            Ok((t, Err(p))) => return fail("panic", format!("thread {t}: {p}")),
            Err(_) => return fail("deadlock", format!("{left} threads do not finish")),
        }
    }
    // closing waits for background tasks
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = catch(|| drop(cs));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(Ok(())) => {}
        Ok(Err(p)) => return fail("panic", p),
        Err(_) => return fail("deadlock", "the corpus storage can not be closed"),
    }
    let stored: BTreeMap<String, MGraph> = read_dir(&db)?;
    let mut overlap = false;
    let end = clock.fetch_add(2, Ordering::SeqCst);
    for c in 0..plan.corpora {
        let mut h: Vec<Event> = all.iter().filter(|e| e.corpus == c).cloned().collect();
        for a in &h {
            for b in &h {
                if a.thread < b.thread && changes(&a.op) && changes(&b.op) && a.start < b.end && b.start < a.end {
                    overlap = true;
                }
            }
        }
        h.sort_by_key(|e| e.start);
        let show = |h: &[Event]| {
            h.iter().map(|e| format!("[{}-{}] thread {}: {:?} -> {:?}", e.start, e.end, e.thread, e.op, e.res)).collect::<Vec<_>>().join("; ")
        };
        if let Some(e) = h.iter().find(|e| matches!(e.res, Res::Error(_))) {
            return fail("error", format!("corpus {:?}: {:?} failed with {:?} in the history {}", NAMES[c], e.op, e.res, show(&h)));
        }
        let m = stored.get(NAMES[c]);
        let res = match m {
            Some(m) => Res::Nodes(m.nodes.keys().filter_map(|n| n.strip_prefix('n').and_then(|x| x.parse().ok())).collect()),
            None => Res::Missing,
        };
        h.push(Event { thread: 99, corpus: c, op: Op::Find, res, start: end, end: end + 1 });
        if !explain(&h) {
            let kind = if explain(&h[..h.len() - 1]) { "stored" } else { "history" };
            return fail(kind, format!("corpus {:?}: no sequential order of the operations has these results (thread 99 is the final content on disk): {}", NAMES[c], show(&h)));
        }
        // pairs are always connected in the same way
        for (c, es) in m.iter().flat_map(|m| &m.edges) {
            for (a, b) in es.keys() {
                if c.0 != "Pointing" || a[1..].parse::<u8>().ok().map(|x| x + 1) != b[1..].parse().ok() {
                    return fail("edges", format!("unexpected edge {a} -> {b} in {c:?}"));
                }
            }
        }
    }
    ctx.label_if(overlap, "overlap");
    Ok(overlap)
}
