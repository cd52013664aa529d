mod aql;
mod corpus;
mod engine;
mod http;
mod model;
mod props;
mod rsa_tokens;

use engine::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn find_prop(id: &str) -> Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn worker(args: &[String]) -> i32 {
    // worker prop check seed tier shard nshards from ncases out scratch
    let prop = find_prop(&args[0]);
    let check = prop.checks.iter().find(|c| c.name == args[1]).expect("check").clone();
    let seed: u64 = args[2].parse().unwrap();
    let thorough = args[3] == "thorough";
    let shard: u64 = args[4].parse().unwrap();
    let nshards: u64 = args[5].parse().unwrap();
    let ncases: u64 = args[6].parse().unwrap();
    let out = PathBuf::from(&args[7]);
    let base = PathBuf::from(&args[8]);
    install_panic_hook();
    let cur = out.with_extension("cur");
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut evaluated = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut failure = Value::Null;
    let mut i = shard;
    let mut slowest: (u64, u128) = (0, 0);
    while i < ncases {
        std::fs::write(&cur, i.to_string()).ok();
        let t = Instant::now();
        let src = Src::random(case_seed(seed, prop.id, check.name, i));
        let r = run_case(check.f, src, i, size_for(i, ncases), &base, thorough);
        let el = t.elapsed().as_millis();
        if el > slowest.1 {
            slowest = (i, el);
        }
        evaluated += 1;
        for (k, v) in &r.ctx.labels {
            *labels.entry(k.clone()).or_default() += v;
        }
        if r.ctx.nontrivial {
            nontrivial += 1;
            fps.insert(r.ctx.fingerprint);
            if samples.len() < 2 && i >= nshards * 3 {
                let mut notes = r.ctx.notes.clone();
                notes.truncate(40);
                samples.push(json!({"check": check.name, "case": i, "content": notes}));
            }
        }
        if let Err(f) = r.outcome {
            failure = json!({"case": i, "sig": f.sig, "msg": f.msg, "choices": r.choices, "notes": r.ctx.notes});
            break;
        }
        i += nshards;
    }
    let res = json!({
        "evaluated": evaluated, "nontrivial": nontrivial, "fps": fps.into_iter().collect::<Vec<u64>>(),
        "labels": labels, "samples": samples, "failure": failure, "slowest": [slowest.0, slowest.1 as u64],
    });
    std::fs::write(&out, serde_json::to_vec(&res).unwrap()).unwrap();
    0
}

/// Re-run a single (seeded or replayed) case; exit code 1 if it fails.
fn single(args: &[String]) -> i32 {
    // single prop check seed tier case ncases scratch
    let prop = find_prop(&args[0]);
    let check = prop.checks.iter().find(|c| c.name == args[1]).expect("check").clone();
    let seed: u64 = args[2].parse().unwrap();
    let thorough = args[3] == "thorough";
    let i: u64 = args[4].parse().unwrap();
    let n: u64 = args[5].parse().unwrap();
    install_panic_hook();
    let src = Src::random(case_seed(seed, prop.id, check.name, i));
    let r = run_case(check.f, src, i, size_for(i, n), Path::new(&args[6]), thorough);
    for n in &r.ctx.notes {
        println!("  {n}");
    }
    match r.outcome {
        Ok(()) => 0,
        Err(f) => {
            println!("FAILED {}: {}", f.sig, f.msg);
            1
        }
    }
}

fn shrink_cmd(args: &[String]) -> i32 {
    // shrink prop check tier infile outfile scratch budget_s ncases
    let prop = find_prop(&args[0]);
    let check = prop.checks.iter().find(|c| c.name == args[1]).expect("check").clone();
    let thorough = args[2] == "thorough";
    let v: Value = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
    let budget: u64 = args[6].parse().unwrap();
    let n: u64 = args[7].parse().unwrap();
    REPEAT.store(5, std::sync::atomic::Ordering::Relaxed);
    install_panic_hook();
    let case = v["case"].as_u64().unwrap();
    let choices: Vec<u64> = serde_json::from_value(v["choices"].clone()).unwrap();
    let f = Failure {
        sig: v["sig"].as_str().unwrap().into(),
        msg: v["msg"].as_str().unwrap().into(),
    };
    let (c, f, notes, attempts) = shrink(
        check.f,
        case,
        size_for(case, n),
        Path::new(&args[5]),
        thorough,
        choices,
        f,
        Duration::from_secs(budget),
    );
    let o = json!({"case": case, "sig": f.sig, "msg": f.msg, "choices": c, "notes": notes, "attempts": attempts});
    std::fs::write(&args[4], serde_json::to_vec(&o).unwrap()).unwrap();
    0
}

fn scratch_root() -> PathBuf {
    for c in ["/dev/shm", "/tmp"] {
        let d = tempfile::Builder::new().prefix("vharness-").tempdir_in(c);
        if let Ok(d) = d {
            return d.keep();
        }
    }
    eprintln!("no scratch directory");
    std::process::exit(2)
}

fn child(args: &[String], scratch: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args)
        .env("RAYON_NUM_THREADS", "3")
        .env("LC_ALL", "en_US.utf8")
        .env("TMPDIR", scratch)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stderr(Stdio::null());
    c
}

fn replay(file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let prop = find_prop(v["property"].as_str().unwrap());
    let check = prop
        .checks
        .iter()
        .find(|c| c.name == v["check"].as_str().unwrap())
        .expect("check")
        .clone();
    install_panic_hook();
    REPEAT.store(50, std::sync::atomic::Ordering::Relaxed);
    let scratch = scratch_root();
    unsafe { std::env::set_var("TMPDIR", &scratch) };
    let src = if v["choices"].is_array() {
        Src::replay(serde_json::from_value(v["choices"].clone()).unwrap())
    } else {
        Src::random(case_seed(v["seed"].as_u64().unwrap(), prop.id, check.name, v["case"].as_u64().unwrap()))
    };
    let n = v["ncases"].as_u64().unwrap_or(1);
    let case = v["case"].as_u64().unwrap_or(0);
    let r = run_case(check.f, src, case, size_for(case, n), &scratch, v["tier"] == "thorough");
    for n in &r.ctx.notes {
        println!("  {n}");
    }
    std::fs::remove_dir_all(&scratch).ok();
    match r.outcome {
        Ok(()) => {
            println!("replay: property holds for this case");
            0
        }
        Err(f) => {
            println!("replay: FAILED {}: {}", f.sig, f.msg);
            1
        }
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let prop = find_prop(id);
    let scratch = scratch_root();
    let nshards: u64 = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = std::env::var("VH_CHECK").ok();
    let factor: f64 = std::env::var("VH_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    // one round of shards per sub-check; all sub-checks are run, even if one fails
    let hang_limit = Duration::from_secs(if thorough { 900 } else { 100 });
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 780 });
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: HashSet<(usize, u64)> = HashSet::new();
    let mut evaluated = 0u64;
    let mut nontrivial_total = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut per_check = vec![];
    let mut failures: Vec<(Check, Value, u64)> = vec![];
    let mut error: Option<String> = None;
    for (ci, check) in prop.checks.iter().enumerate() {
        if let Some(o) = &only
            && o != check.name
        {
            continue;
        }
        let n = if thorough { check.thorough } else { check.quick };
        let n = ((n as f64) * factor) as u64;
        if n == 0 {
            continue;
        }
        let tc = Instant::now();
        let mut kids = vec![];
        for s in 0..nshards.min(n) {
            let sdir = scratch.join(format!("{ci}-{s}"));
            std::fs::create_dir_all(&sdir).unwrap();
            let out = scratch.join(format!("{ci}-{s}.json"));
            let args: Vec<String> = vec![
                "worker".into(),
                id.into(),
                check.name.into(),
                seed.to_string(),
                tier.into(),
                s.to_string(),
                nshards.min(n).to_string(),
                n.to_string(),
                out.to_string_lossy().into(),
                sdir.to_string_lossy().into(),
            ];
            let k = child(&args, &sdir).stdout(Stdio::null()).spawn().expect("spawn worker");
            kids.push((k, out, sdir));
        }
        let mut ev = 0u64;
        let mut nt = 0u64;
        let mut slow = (0u64, 0u64);
        let mut fails_here: Vec<Value> = vec![];
        for (mut k, out, sdir) in kids {
            let mut hang = false;
            let status = loop {
                match k.try_wait().unwrap() {
                    Some(s) => break Some(s),
                    None => {
                        // the file is written at the start of each case
                        hang = std::fs::metadata(out.with_extension("cur"))
                            .and_then(|m| m.modified())
                            .ok()
                            .and_then(|m| m.elapsed().ok())
                            .is_some_and(|e| e > hang_limit);
                        if hang || t0.elapsed() > limit {
                            k.kill().ok();
                            k.wait().ok();
                            break None;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                }
            };
            let cur: u64 = std::fs::read_to_string(out.with_extension("cur"))
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(0);
            match status {
                // a hanging case is only reported once, if it hangs again when it is executed alone
                None if hang && !fails_here.iter().any(|f: &Value| f["sig"] == "hang") => {
                    let args: Vec<String> = vec![
                        "single".into(),
                        id.into(),
                        check.name.into(),
                        seed.to_string(),
                        tier.into(),
                        cur.to_string(),
                        n.to_string(),
                        sdir.to_string_lossy().into(),
                    ];
                    let mut k = child(&args, &sdir).stdout(Stdio::null()).spawn().expect("spawn worker");
                    let tk = Instant::now();
                    let again = loop {
                        if k.try_wait().unwrap().is_some() {
                            break false;
                        }
                        if tk.elapsed() > hang_limit {
                            k.kill().ok();
                            k.wait().ok();
                            break true;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    };
                    if again {
                        fails_here.push(json!({"case": cur, "sig": "hang", "msg": format!("the case does not finish within {} s", hang_limit.as_secs()), "choices": null, "notes": []}));
                    } else {
                        error = Some(format!("worker for {} did not finish case {cur}, but the case alone does", check.name));
                    }
                }
                None if hang => {}
                None => error = Some(format!("check {} did not finish in time (case {cur})", check.name)),
                Some(s) if s.success() && out.exists() => {
                    let v: Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                    ev += v["evaluated"].as_u64().unwrap();
                    nt += v["nontrivial"].as_u64().unwrap();
                    for f in v["fps"].as_array().unwrap() {
                        fps.insert((ci, f.as_u64().unwrap()));
                    }
                    for (k, c) in v["labels"].as_object().unwrap() {
                        *labels.entry(format!("{}/{}", check.name, k)).or_default() += c.as_u64().unwrap();
                    }
                    let sl = (v["slowest"][0].as_u64().unwrap(), v["slowest"][1].as_u64().unwrap());
                    if sl.1 > slow.1 {
                        slow = sl;
                    }
                    for s in v["samples"].as_array().unwrap() {
                        if samples.iter().filter(|x| x["check"] == check.name).count() < 2 {
                            samples.push(s.clone());
                        }
                    }
                    if !v["failure"].is_null() {
                        fails_here.push(v["failure"].clone());
                    }
                }
                Some(s) => {
                    // The process died: confirm that this case alone kills it
                    let sig = s.signal();
                    let mut ok = 0;
                    if matches!(sig, Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL)) {
                        for _ in 0..2 {
                            let args: Vec<String> = vec![
                                "single".into(),
                                id.into(),
                                check.name.into(),
                                seed.to_string(),
                                tier.into(),
                                cur.to_string(),
                                n.to_string(),
                                sdir.to_string_lossy().into(),
                            ];
                            let st = child(&args, &sdir).stdout(Stdio::null()).status().unwrap();
                            if st.signal().is_some() && st.signal() == sig {
                                ok += 1;
                            }
                        }
                    }
                    if ok == 2 {
                        fails_here.push(json!({"case": cur, "sig": format!("crash:{}", sig.unwrap()), "msg": format!("the process was ended by signal {}", sig.unwrap()), "choices": null, "notes": []}));
                    } else {
                        error = Some(format!("worker for {} ended with {:?} in case {cur}", check.name, s));
                    }
                }
            }
            std::fs::remove_dir_all(&sdir).ok();
        }
        evaluated += ev;
        nontrivial_total += nt;
        per_check.push(json!({"check": check.name, "evaluations": ev, "nontrivial": nt, "wall_s": tc.elapsed().as_secs_f64(), "slowest_case_ms": slow.1, "slowest_case": slow.0}));
        // lowest case index first: deterministic
        fails_here.sort_by_key(|f| f["case"].as_u64());
        if let Some(f) = fails_here.into_iter().next() {
            failures.push((check.clone(), f, n));
        }
    }
    // shrink and report
    let replay_dir = verif_root().join("evidence").join("replay");
    let mut violations = 0;
    let mut out_lines = vec![];
    let shrink_budget: u64 = std::env::var("VH_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(if failures.len() > 3 { 20 } else { 45 });
    for (check, f, n) in &failures {
        let mut fin = f.clone();
        if f["choices"].is_array() && t0.elapsed() < limit {
            let sdir = scratch.join("shrink");
            std::fs::create_dir_all(&sdir).unwrap();
            let inf = scratch.join("shrink.in");
            let outf = scratch.join("shrink.out");
            std::fs::remove_file(&outf).ok();
            std::fs::write(&inf, serde_json::to_vec(f).unwrap()).unwrap();
            let args: Vec<String> = vec![
                "shrink".into(),
                id.into(),
                check.name.into(),
                tier.into(),
                inf.to_string_lossy().into(),
                outf.to_string_lossy().into(),
                sdir.to_string_lossy().into(),
                shrink_budget.to_string(),
                n.to_string(),
            ];
            let mut k = child(&args, &sdir).stdout(Stdio::null()).spawn().unwrap();
            let ts = Instant::now();
            loop {
                if k.try_wait().unwrap().is_some() {
                    break;
                }
                if ts.elapsed() > Duration::from_secs(shrink_budget + 30) {
                    k.kill().ok();
                    k.wait().ok();
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            if let Ok(b) = std::fs::read(&outf)
                && let Ok(v) = serde_json::from_slice::<Value>(&b)
            {
                fin = v;
                if fin["notes"].as_array().map(|a| a.is_empty()).unwrap_or(true) {
                    fin["notes"] = f["notes"].clone();
                }
            }
        }
        violations += 1;
        std::fs::create_dir_all(&replay_dir).ok();
        let path = replay_dir.join(format!("{id}-{}.json", check.name));
        let doc = json!({
            "property": id, "check": check.name, "seed": seed, "tier": tier, "case": fin["case"], "ncases": n,
            "signature": fin["sig"], "message": fin["msg"], "content": fin["notes"], "choices": fin["choices"],
            "how": format!("bash /verif/check.sh replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("check {} case {} [{}]: {}", check.name, fin["case"], fin["sig"].as_str().unwrap_or(""), fin["msg"].as_str().unwrap_or(""));
        if let Some(a) = fin["notes"].as_array() {
            for l in a.iter().take(60) {
                println!("    {}", l.as_str().unwrap_or(""));
            }
        }
        out_lines.push(format!("VIOLATION property={id} replay={}", path.display()));
    }
    let known = props::run_known(id, &scratch);
    for k in &known {
        println!("{k}");
    }
    std::fs::remove_dir_all(&scratch).ok();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluated, "distinct_nontrivial": fps.len(), "nontrivial": nontrivial_total,
            "rule": prop.rule, "samples": samples, "checks": per_check, "classes": labels,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
        "known_findings": known,
    });
    let evp = verif_root().join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(evp.parent().unwrap()).ok();
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {tier}: {evaluated} cases, {} distinct non-trivial, {violations} violations, {:.1}s",
        fps.len(),
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        for l in out_lines {
            println!("{l}");
        }
        return 1;
    }
    if let Some(e) = error {
        eprintln!("error: {e}");
        println!("error: {e}");
        return 2;
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => supervise(&args[1], &args[2]),
        Some("worker") => worker(&args[1..]),
        Some("single") => single(&args[1..]),
        Some("shrink") => shrink_cmd(&args[1..]),
        Some("replay") => replay(Path::new(&args[1])),
        Some("aux") => props::aux(&args[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{}: {}", p.id, p.checks.iter().map(|c| c.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check <id> <tier> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
