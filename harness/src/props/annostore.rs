//! Both annotation storages answer every question like a plain map would.
use crate::engine::*;
use crate::model::{Key, k, nasty, short};
use graphannis_core::annostorage::{AnnotationStorage, Match, NodeAnnotationStorage, ValueSearch, inmemory, ondisk};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub fn property() -> Property {
    Property {
        id: "G07",
        rule: "histories of 1-100 operations (set, overwrite, remove label, remove item, clear, recalculate statistics, save and load) over 1-8 items, 1-6 keys (shared names with different namespaces) and 1-8 values; all query functions are compared with a map; non-trivial: at least one overwrite with a different value or removal of an existing label, and 3 labels present at a comparison",
        level: "exploration",
        assumptions: &["label values do not contain the code point U+10FFFF"],
        checks: vec![
            Check { name: "node-memory", f: |s, c| run_node(s, c, false), quick: 1800, thorough: 60_000 },
            Check { name: "node-disk", f: |s, c| run_node(s, c, true), quick: 1200, thorough: 40_000 },
            Check { name: "edge-memory", f: |s, c| run_edge(s, c, false), quick: 1200, thorough: 30_000 },
            Check { name: "edge-disk", f: |s, c| run_edge(s, c, true), quick: 900, thorough: 30_000 },
        ],
    }
}

type Model<T> = BTreeMap<T, BTreeMap<Key, String>>;

fn run_node(s: &mut Src, ctx: &mut Ctx, disk: bool) -> R {
    let items: Vec<NodeID> = {
        let n = s.size(1, 8);
        let mut v: Vec<NodeID> = (0..n).map(|_| *s.pick(&[0, 1, 2, 3, 5, 8, 255, 256, 65536, 1 << 40])).collect();
        v.sort();
        v.dedup();
        v
    };
    if disk {
        let st = ondisk::AnnoStorageImpl::<NodeID>::new(None).must("new")?;
        history(s, ctx, st, &items, |i| *i, &check_names, &|p| {
            ondisk::AnnoStorageImpl::<NodeID>::new(Some(p.join(ondisk::SUBFOLDER_NAME))).must("open")
        })
    } else {
        let st = inmemory::AnnoStorageImpl::<NodeID>::new();
        history(s, ctx, st, &items, |i| *i, &check_names, &|p| {
            let mut x = inmemory::AnnoStorageImpl::<NodeID>::new();
            x.load_annotations_from(p).must("load")?;
            Ok(x)
        })
    }
}

fn run_edge(s: &mut Src, ctx: &mut Ctx, disk: bool) -> R {
    let items: Vec<Edge> = {
        let n = s.size(1, 8);
        let mut v: Vec<Edge> = (0..n).map(|_| Edge { source: *s.pick(&[0, 1, 2, 256]), target: *s.pick(&[0, 1, 3, 65536]) }).collect();
        v.sort();
        v.dedup();
        v
    };
    if disk {
        let st = ondisk::AnnoStorageImpl::<Edge>::new(None).must("new")?;
        history(s, ctx, st, &items, |i| i.source, &|_, _| Ok(()), &|p| {
            ondisk::AnnoStorageImpl::<Edge>::new(Some(p.join(ondisk::SUBFOLDER_NAME))).must("open")
        })
    } else {
        let st = inmemory::AnnoStorageImpl::<Edge>::new();
        history(s, ctx, st, &items, |i| i.source, &|_, _| Ok(()), &|p| {
            let mut x = inmemory::AnnoStorageImpl::<Edge>::new();
            x.load_annotations_from(p).must("load")?;
            Ok(x)
        })
    }
}

fn check_names<S: NodeAnnotationStorage + ?Sized>(st: &S, m: &Model<NodeID>) -> R {
    let mut by_name: BTreeMap<String, BTreeSet<NodeID>> = BTreeMap::new();
    for (i, a) in m {
        if let Some(n) = a.get(&k("annis", "node_name")) {
            by_name.entry(n.clone()).or_default().insert(*i);
        }
    }
    for n in by_name.keys().cloned().chain(["nope".to_string(), "".into(), "a".into()]) {
        let id = st.get_node_id_from_name(&n).must("get_node_id_from_name")?;
        let has = st.has_node_name(&n).must("has_node_name")?;
        match (by_name.get(&n), id) {
            (None, None) => {}
            (Some(s), Some(id)) if s.contains(&id) => {}
            (e, id) => return fail("node_id", format!("node id for name {n:?} is {id:?}, expected one of {e:?}")),
        }
        if has != by_name.contains_key(&n) {
            return fail("has_name", format!("has_node_name({n:?}) returned {has}"));
        }
    }
    Ok(())
}

const PATTERNS: [&str; 22] = [
    "", "a", "a.*", ".*", ".*b", "a|b", "[ab]+", "(?i)A.*", "ä.*", "日本.*", "(ab|ac).*", "a?b?", "\\p{L}+", "a b", "ab*c", "x{2,}", "[^a].*", "(",
    "a\\.b", "é|ä|ö", "\\s*", "(日|本).*",
];

fn history<T, S>(
    s: &mut Src,
    ctx: &mut Ctx,
    mut st: S,
    items: &[T],
    node_of: fn(&T) -> NodeID,
    extra: &dyn Fn(&S, &Model<T>) -> R,
    reload: &dyn Fn(&std::path::Path) -> R<S>,
) -> R
where
    T: Clone + Ord + Debug + Send + Sync + 'static,
    S: AnnotationStorage<T>,
{
    let mut m: Model<T> = BTreeMap::new();
    let keys: Vec<Key> = {
        let n = s.size(1, 6);
        let mut v = vec![];
        for _ in 0..n {
            v.push(k(
                s.pick(&["", "ns", "annis", "ä", "zz"]),
                s.pick(&["pos", "node_name", "lemma", "po", "poss", "ä", ""]),
            ));
        }
        v.sort();
        v.dedup();
        v
    };
    let values: Vec<String> = (0..s.size(1, 8)).map(|_| if s.chance(1, 12) { "a\0b".to_string() } else { nasty(s) }).collect();
    let mut changed = 0;
    let n = s.size(1, 10 + ctx.size / 2);
    for _ in 0..n {
        let item = s.pick(items).clone();
        let key = s.pick(&keys).clone();
        let akey = AnnoKey { ns: key.0.clone(), name: key.1.clone() };
        match s.weighted(&[30, 10, 4, 1, 2, 2]) {
            0 => {
                let v = s.pick(&values).clone();
                ctx.note(format!("set {item:?} {key:?} = {:?}", short(&v)));
                st.insert(item.clone(), Annotation { key: akey, val: v.clone() }).must("insert")?;
                if let Some(o) = m.entry(item).or_default().insert(key, v.clone())
                    && o != v
                {
                    changed += 1;
                }
            }
            1 => {
                ctx.note(format!("remove {item:?} {key:?}"));
                let a = st.remove_annotation_for_item(&item, &akey).must("remove")?.map(|x| x.to_string());
                let e = m.get_mut(&item).and_then(|x| x.remove(&key));
                if e.is_some() {
                    changed += 1;
                }
                if a != e {
                    return fail("remove", format!("removing {key:?} of {item:?} returned {a:?}, expected {e:?}"));
                }
            }
            2 => {
                ctx.note(format!("remove item {item:?}"));
                let a = st.remove_item(&item).must("remove_item")?;
                let e = m.remove(&item).map(|x| !x.is_empty()).unwrap_or(false);
                if e {
                    changed += 1;
                }
                if a != e {
                    return fail("remove_item", format!("remove_item({item:?}) returned {a}, expected {e}"));
                }
            }
            3 => {
                ctx.note("clear");
                st.clear().must("clear")?;
                m.clear();
            }
            4 => {
                ctx.note("calculate statistics");
                st.calculate_statistics().must("calculate_statistics")?;
            }
            _ => {
                ctx.note("save and load");
                let d = ctx.dir();
                st.save_annotations_to(&d).must("save")?;
                st = reload(&d)?;
            }
        }
        m.retain(|_, v| !v.is_empty());
        if s.chance(1, 5) {
            compare(s, ctx, &st, &m, items, &keys, &values, node_of)?;
            extra(&st, &m)?;
        }
    }
    compare(s, ctx, &st, &m, items, &keys, &values, node_of)?;
    extra(&st, &m)?;
    ctx.nontrivial_if(changed > 0 && m.values().map(|x| x.len()).sum::<usize>() >= 3);
    Ok(())
}

fn ms(it: Box<dyn Iterator<Item = graphannis_core::errors::Result<Match>> + '_>, what: &str) -> R<Vec<(NodeID, Key)>> {
    let mut r = vec![];
    for x in it {
        let x = x.must(what)?;
        r.push((x.node, k(&x.anno_key.ns, &x.anno_key.name)));
    }
    r.sort();
    Ok(r)
}

#[allow(clippy::too_many_arguments)]
fn compare<T, S>(
    s: &mut Src,
    ctx: &mut Ctx,
    st: &S,
    m: &Model<T>,
    items: &[T],
    keys: &[Key],
    values: &[String],
    node_of: fn(&T) -> NodeID,
) -> R
where
    T: Clone + Ord + Debug + Send + Sync,
    S: AnnotationStorage<T> + ?Sized,
{
    let empty = BTreeMap::new();
    let total: usize = m.values().map(|x| x.len()).sum();
    macro_rules! eq {
        ($sig:expr, $a:expr, $e:expr, $($arg:tt)*) => {{
            let a = $a;
            let e = $e;
            if a != e {
                return fail($sig, format!("{} returned {a:?}, expected {e:?}", format!($($arg)*)));
            }
        }};
    }
    eq!("count", st.number_of_annotations().must("count")?, total, "number_of_annotations");
    eq!("empty", st.is_empty().must("empty")?, total == 0, "is_empty");
    let all_keys: BTreeSet<Key> = m.values().flat_map(|x| x.keys().cloned()).collect();
    let ak: BTreeSet<Key> = st.annotation_keys().must("keys")?.into_iter().map(|x| k(&x.ns, &x.name)).collect();
    eq!("keys", ak, all_keys.clone(), "annotation_keys");
    if let Some(max) = m.keys().max() {
        match st.get_largest_item().must("largest")? {
            Some(x) if &x >= max => {}
            o => return fail("largest", format!("largest item {o:?}, but there is {max:?}")),
        }
    }
    for item in items {
        let e = m.get(item).unwrap_or(&empty);
        let mut a: Vec<(Key, String)> = st
            .get_annotations_for_item(item)
            .must("get")?
            .into_iter()
            .map(|x| (k(&x.key.ns, &x.key.name), x.val))
            .collect();
        a.sort();
        let ev: Vec<(Key, String)> = e.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        eq!("annos", a, ev, "annotations of {item:?}");
        for key in keys {
            let akey = AnnoKey { ns: key.0.clone(), name: key.1.clone() };
            let v = st.get_value_for_item(item, &akey).must("value")?.map(|x| x.to_string());
            eq!("value", v, e.get(key).cloned(), "value of {key:?} for {item:?}");
            eq!("has", st.has_value_for_item(item, &akey).must("has")?, e.contains_key(key), "has_value {key:?} for {item:?}");
            for ns in [None, Some(key.0.as_str())] {
                for name in [None, Some(key.1.as_str())] {
                    let f = |x: &Key| match (ns, name) {
                        (_, None) => true,
                        (None, Some(n)) => x.1 == n,
                        (Some(ns), Some(n)) => x.0 == ns && x.1 == n,
                    };
                    let mut a: Vec<Key> =
                        st.get_all_keys_for_item(item, ns, name).must("all_keys")?.iter().map(|x| k(&x.ns, &x.name)).collect();
                    a.sort();
                    let ee: Vec<Key> = e.keys().filter(|x| f(x)).cloned().collect();
                    eq!("item_keys", a, ee, "keys of {item:?} for {ns:?}:{name:?}");
                }
            }
        }
    }
    for key in keys {
        let (ns, name) = (key.0.as_str(), key.1.as_str());
        let mut q: Vec<Key> = st.get_qnames(name).must("qnames")?.iter().map(|x| k(&x.ns, &x.name)).collect();
        q.sort();
        let e: Vec<Key> = all_keys.iter().filter(|x| x.1 == name).cloned().collect();
        eq!("qnames", q, e, "get_qnames({name:?})");
        for nso in [None, Some(ns)] {
            let sel = |x: &Key| x.1 == name && nso.is_none_or(|n| n == x.0);
            let labels: Vec<(NodeID, Key, String)> = m
                .iter()
                .flat_map(|(i, a)| a.iter().filter(|(x, _)| sel(x)).map(move |(x, v)| (node_of(i), x.clone(), v.clone())))
                .collect();
            eq!("count_by", st.number_of_annotations_by_name(nso, name).must("count")?, labels.len(), "number_of_annotations_by_name({nso:?},{name:?})");
            let exp = |f: &dyn Fn(&str) -> bool| -> Vec<(NodeID, Key)> {
                let mut v: Vec<_> = labels.iter().filter(|x| f(&x.2)).map(|x| (x.0, x.1.clone())).collect();
                v.sort();
                v
            };
            eq!("search", ms(st.exact_anno_search(nso, name, ValueSearch::Any), "search")?, exp(&|_| true), "search for {nso:?}:{name:?}");
            for v in values.iter().map(|x| x.as_str()).chain(["unknown value", "a"]) {
                eq!("search_value", ms(st.exact_anno_search(nso, name, ValueSearch::Some(v)), "search")?, exp(&|x| x == v), "search for {nso:?}:{name:?}={v:?}");
                eq!("search_not", ms(st.exact_anno_search(nso, name, ValueSearch::NotSome(v)), "search")?, exp(&|x| x != v), "search for {nso:?}:{name:?}!={v:?}");
                let g = st.guess_max_count(nso, name, v, v).must("guess")?;
                if g > labels.len() {
                    return fail("guess", format!("guess_max_count is {g}, but there are only {} labels", labels.len()));
                }
            }
            for _ in 0..3 {
                let p = *s.pick(&PATTERNS);
                let re = regex::Regex::new(&format!("\\A(?:{p})\\z")).ok();
                let neg = s.chance(1, 3);
                let e = exp(&|x| match &re {
                    Some(re) => re.is_match(x) != neg,
                    None => neg,
                });
                eq!("regex", ms(st.regex_anno_search(nso, name, p, neg), "regex search")?, e, "regex search for {nso:?}:{name:?} {}/{p}/", if neg { "not " } else { "" });
                let g = st.guess_max_count_regex(nso, name, p).must("guess_regex")?;
                if g > labels.len() {
                    return fail("guess_regex", format!("guess_max_count_regex is {g}, but there are only {} labels", labels.len()));
                }
            }
            if let Some(v) = st.guess_most_frequent_value(nso, name).must("most frequent")? {
                ctx.label_if(labels.iter().any(|x| x.2 == v), "most frequent value exists");
            }
            // keys for an iterator over items
            let its: Vec<T> = items.iter().filter(|_| s.chance(2, 3)).cloned().collect();
            let its2 = its.clone();
            let got = st.get_keys_for_iterator(nso, Some(name), Box::new(its2.into_iter().map(Ok))).must("keys_for_iterator")?;
            let mut got: Vec<(NodeID, Key)> = got.into_iter().map(|x| (x.node, k(&x.anno_key.ns, &x.anno_key.name))).collect();
            got.sort();
            let mut e: Vec<(NodeID, Key)> = vec![];
            for i in &its {
                e.extend(m.get(i).unwrap_or(&empty).keys().filter(|x| sel(x)).map(|x| (node_of(i), x.clone())));
            }
            e.sort();
            eq!("iter_keys", got, e, "get_keys_for_iterator({nso:?},{name:?},{its:?})");
        }
        // all values
        let akey = AnnoKey { ns: key.0.clone(), name: key.1.clone() };
        let mut freq: BTreeMap<&str, usize> = BTreeMap::new();
        for a in m.values() {
            if let Some(v) = a.get(key) {
                *freq.entry(v).or_default() += 1;
            }
        }
        for mf in [false, true] {
            let vs = st.get_all_values(&akey, mf).must("values")?;
            let mut u: Vec<&str> = vs.iter().map(|x| x.as_ref()).collect();
            if mf {
                let f: Vec<usize> = u.iter().map(|x| freq.get(x).copied().unwrap_or(0)).collect();
                if !f.windows(2).all(|w| w[0] >= w[1]) {
                    return fail("value_order", format!("most frequent values first: {u:?} have the frequencies {f:?}"));
                }
            }
            u.sort();
            eq!("values", u, freq.keys().copied().collect::<Vec<_>>(), "get_all_values({key:?}, {mf})");
        }
    }
    Ok(())
}
