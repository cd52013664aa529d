//! The persistent sorted map behaves like an in-memory sorted map.
use crate::engine::*;
use graphannis_core::serializer::KeySerializer;
use graphannis_core::util::disk_collections::{DiskMap, EvictionStrategy};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::Bound;
use transient_btree_index::BtreeConfig;

pub fn property() -> Property {
    Property {
        id: "G08",
        rule: "histories of 1-120 operations (insert, remove, get, range, iterate, compact, clear, write to file and reopen) over 1-24 keys with eviction limits of 1-20 entries; non-trivial: at least one compaction or reopen happened and at least one existing entry was overwritten or removed afterwards",
        level: "exploration",
        assumptions: &["keys are not empty (the third-party B-tree index cannot hold an empty key)", "a map is written to a file different from the one it has been opened from"],
        checks: vec![
            Check { name: "string", f: |s, c| run::<String>(s, c, gen_string), quick: 60000, thorough: 2_000_000 },
            Check { name: "u64", f: |s, c| run::<u64>(s, c, gen_u64), quick: 40000, thorough: 1_000_000 },
            Check { name: "bytes", f: |s, c| run::<Vec<u8>>(s, c, gen_bytes), quick: 40000, thorough: 1_000_000 },
        ],
    }
}

fn gen_string(s: &mut Src) -> String {
    crate::model::nasty(s)
}
fn gen_u64(s: &mut Src) -> u64 {
    match s.weighted(&[4, 1, 1, 1]) {
        0 => s.below(12),
        1 => u64::MAX - s.below(3),
        2 => s.below(4) * 256 + s.below(3),
        _ => s.u64(),
    }
}
fn gen_bytes(s: &mut Src) -> Vec<u8> {
    let n = s.idx(4);
    (0..n).map(|_| *s.pick(&[0u8, 1, 127, 128, 255])).collect()
}

fn gen_bounds<K: Clone + Ord>(s: &mut Src, keys: &[K]) -> (Bound<K>, Bound<K>) {
    let a = s.pick(keys).clone();
    let b = s.pick(keys).clone();
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let l = match s.idx(3) {
        0 => Bound::Included(lo.clone()),
        1 => Bound::Unbounded,
        _ => Bound::Excluded(lo.clone()),
    };
    let h = match s.idx(3) {
        0 => Bound::Included(hi.clone()),
        1 => Bound::Unbounded,
        _ => Bound::Excluded(hi.clone()),
    };
    // the standard map does not accept (Excluded(x), Excluded(x)) as range
    match (&l, &h) {
        (Bound::Excluded(x), Bound::Excluded(y)) if x == y => (Bound::Included(lo), h),
        _ => (l, h),
    }
}

fn run<K>(s: &mut Src, ctx: &mut Ctx, g: fn(&mut Src) -> K) -> R
where
    K: 'static + Clone + KeySerializer + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + Ord + Debug,
{
    let nk = s.size(1, 24);
    let mut keys: Vec<K> = (0..nk).map(|_| g(s)).collect();
    keys.sort();
    keys.dedup();
    // the third-party B-tree behind the map has no empty keys
    keys.retain(|k| !k.create_key().is_empty());
    if keys.is_empty() {
        return Ok(());
    }
    let limit = s.size(1, 20);
    let order = s.size(2, 6) as u8;
    let new_map = |file: Option<&std::path::Path>| {
        DiskMap::<K, String>::new(file, EvictionStrategy::MaximumItems(limit), 1 << 16, BtreeConfig::default().order(order)).must("new map")
    };
    let mut m = new_map(None)?;
    let mut r: BTreeMap<K, String> = BTreeMap::new();
    let dir = ctx.dir();
    let mut files = 0;
    let (mut tables, mut after) = (0, 0);
    let n = s.size(1, 20 + ctx.size);
    ctx.note(format!("limit={limit} keys={keys:?}"));
    for _ in 0..n {
        let k = s.pick(&keys).clone();
        match s.weighted(&[30, 14, 8, 8, 3, 2, 1]) {
            0 => {
                let v = crate::model::nasty(s);
                ctx.note(format!("insert {k:?} = {:?}", crate::model::short(&v)));
                if tables > 0 && r.contains_key(&k) {
                    after += 1;
                }
                m.insert(k.clone(), v.clone()).must("insert")?;
                r.insert(k, v);
            }
            1 => {
                ctx.note(format!("remove {k:?}"));
                let a = m.remove(&k).must("remove")?;
                let b = r.remove(&k);
                if tables > 0 && b.is_some() {
                    after += 1;
                }
                if a != b {
                    return fail("remove", format!("remove({k:?}) returned {a:?}, expected {b:?}"));
                }
            }
            2 => {
                let (l, h) = gen_bounds(s, &keys);
                ctx.note(format!("range {l:?} .. {h:?}"));
                let a: Result<Vec<(K, String)>, _> = m.range((l.clone(), h.clone())).collect();
                let a = a.must("range")?;
                let b: Vec<(K, String)> = r.range((l, h)).map(|(k, v)| (k.clone(), v.clone())).collect();
                if a != b {
                    return fail("range", format!("range returned {a:?}, expected {b:?}"));
                }
            }
            3 => check_point(&m, &r, &k)?,
            4 => {
                ctx.note("compact");
                m.compact().must("compact")?;
                tables += 1;
            }
            5 => {
                let f = dir.join(format!("{files}.bin"));
                files += 1;
                ctx.note("write to file and reopen");
                m.write_to(&f).must("write_to")?;
                m = new_map(Some(&f))?;
                tables += 1;
            }
            _ => {
                ctx.note("clear");
                m.clear();
                r.clear();
            }
        }
        if r.len() >= limit {
            tables += 1;
        }
        if s.chance(1, 4) {
            check_all(&m, &r, &keys)?;
        }
    }
    check_all(&m, &r, &keys)?;
    let f = dir.join("final.bin");
    m.write_to(&f).must("write_to")?;
    let m2 = new_map(Some(&f))?;
    check_all(&m2, &r, &keys)?;
    ctx.label_if(files > 0, "reopened");
    ctx.label_if(after > 0, "change after compaction");
    ctx.nontrivial_if(tables > 0 && after > 0);
    Ok(())
}

fn check_point<K>(m: &DiskMap<K, String>, r: &BTreeMap<K, String>, k: &K) -> R
where
    K: 'static + Clone + KeySerializer + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + Ord + Debug,
{
    let a = m.get(k).must("get")?.map(|v| v.into_owned());
    if a.as_ref() != r.get(k) {
        return fail("get", format!("get({k:?}) returned {a:?}, expected {:?}", r.get(k)));
    }
    let c = m.contains_key(k).must("contains_key")?;
    if c != r.contains_key(k) {
        return fail("contains", format!("contains_key({k:?}) returned {c}"));
    }
    Ok(())
}

fn check_all<K>(m: &DiskMap<K, String>, r: &BTreeMap<K, String>, keys: &[K]) -> R
where
    K: 'static + Clone + KeySerializer + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + Ord + Debug,
{
    for k in keys {
        check_point(m, r, k)?;
    }
    let a: Result<Vec<(K, String)>, _> = m.iter().must("iter")?.collect();
    let a = a.must("iter")?;
    let b: Vec<(K, String)> = r.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if a != b {
        return fail("iter", format!("iter() returned {a:?}, expected {b:?}"));
    }
    let e = m.is_empty().must("is_empty")?;
    if e != r.is_empty() {
        return fail("is_empty", format!("is_empty() returned {e} for {} entries", r.len()));
    }
    Ok(())
}
