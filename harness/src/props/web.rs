//! Properties of the web service (G32: authorization).
use super::cs::open;
use crate::engine::*;
use crate::http::*;
use crate::model::*;
use crate::rsa_tokens::*;
use graphannis::update::UpdateEvent;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};

pub fn property_auth() -> Property {
    Property {
        id: "G32",
        rule: "histories of 10-60 HTTP requests to the web service with valid, expired, forged and missing tokens of users in different groups, including changes of groups, deletion and import of corpora and restarts, with 2-5 corpora; sometimes concurrent requests while groups are changed; non-trivial: some requests were allowed and some were denied because of missing authorization",
        level: "exploration",
        assumptions: &["tokens have no audience (aud) or not-before (nbf) claims", "the expiration date is not within two minutes of the current time"],
        checks: vec![
            Check { name: "authorization", f: authorization, quick: 480, thorough: 20000 },
            Check { name: "concurrent", f: concurrent, quick: 40, thorough: 2000 },
        ],
    }
}

pub const SECRET: &str = "not-a-random-secret";
pub const CORPORA: [&str; 7] = ["a", "b", "C 2", "\u{e4}\u{f6}", "x.y", "d'--", "e\"f"];
const GROUP_NAMES: [&str; 7] = ["g1", "g2", "anonymous", "admin", "G1", "\u{fc} x", "'; DROP TABLE groups; --"];

/// Import document with `n` nodes.
pub fn simple_corpus(name: &str, n: usize) -> MGraph {
    let mut m = MGraph::default();
    let mut evs = vec![UpdateEvent::AddNode { node_name: name.into(), node_type: "corpus".into() }];
    let d = format!("{name}/doc");
    evs.push(UpdateEvent::AddNode { node_name: d.clone(), node_type: "corpus".into() });
    let po = comp("PartOf", "annis", "");
    evs.push(super::persist::add_edge(&po, &d, name));
    for i in 0..n {
        let t = format!("{d}#t{i}");
        evs.push(UpdateEvent::AddNode { node_name: t.clone(), node_type: "node".into() });
        evs.push(super::persist::add_edge(&po, &t, &d));
    }
    m.apply_all(&evs);
    m
}

#[derive(Clone, Debug)]
pub struct Token {
    pub header: Option<String>,
    pub admin: bool,
    pub groups: BTreeSet<String>,
    pub valid: bool,
    pub what: String,
}

fn token(s: &mut Src, rsa: bool) -> Token {
    let n = s.size(0, 3);
    let groups: BTreeSet<String> = (0..n).map(|_| s.pick(&GROUP_NAMES).to_string()).collect();
    let admin = s.chance(2, 5);
    let mut t = Token { header: None, admin: false, groups: BTreeSet::new(), valid: true, what: "no token".into() };
    let mut claims = json!({"sub": "user"});
    let c = claims.as_object_mut().unwrap();
    if !groups.is_empty() || s.chance(1, 2) {
        c.insert(GROUPS.into(), json!(groups));
    }
    if admin {
        c.insert(ROLES.into(), if s.chance(1, 4) { json!(["x", "admin"]) } else { json!(["admin"]) });
    } else if s.chance(1, 2) {
        c.insert(ROLES.into(), s.pick(&[json!([]), json!(["user", "Admin", "administrator", " admin"])]).clone());
    }
    if s.chance(2, 3) {
        c.insert("exp".into(), json!(now() + *s.pick(&[3600, 100000])));
    }
    let kind = s.weighted(&[24, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
    let bearer = s.pick(&["Bearer ", "bearer "]).to_string();
    if rsa && kind == 0 {
        let (tok, admin, g) = *s.pick(&[(RS_ADMIN, true, ""), (RS_G1, false, "g1")]);
        t.header = Some(bearer + tok);
        t.admin = admin;
        t.groups = if g.is_empty() { BTreeSet::new() } else { BTreeSet::from([g.to_string()]) };
        t.what = format!("RSA token admin={admin} groups={:?}", t.groups);
        return t;
    }
    let secret = SECRET.as_bytes();
    t.valid = false;
    let good = jwt("HS256", secret, &claims);
    let (header, what) = match kind {
        0 => {
            t.valid = true;
            t.admin = admin;
            t.groups = groups.clone();
            (bearer + &good, "valid")
        }
        1 => {
            t.valid = true;
            return t;
        }
        2 => {
            claims["exp"] = json!(now() - *s.pick(&[200, 100000]));
            (bearer + &if rsa { RS_OLD.to_string() } else { jwt("HS256", secret, &claims) }, "expired")
        }
        3 => (bearer + &jwt("HS256", b"other", &claims), "wrong secret"),
        4 => (bearer + &jwt("none", b"", &claims), "no signature"),
        5 => (bearer + &jwt("HS384", secret, &claims), "other algorithm"),
        6 => {
            // signature of other content
            let other = jwt("HS256", secret, &json!({"sub": "x", "exp": now() + 1000}));
            let p: Vec<&str> = good.split('.').collect();
            let q: Vec<&str> = other.split('.').collect();
            (format!("{bearer}{}.{}.{}", p[0], p[1], q[2]), "signature of other token")
        }
        7 => (bearer + good.rsplit_once('.').unwrap().0, "signature removed"),
        8 => (bearer.clone() + s.pick(&["", "x", "a.b.c", "..", "e30.e30.e30"]), "garbage"),
        9 => {
            // the public key is not a secret
            let k = if rsa { RS_PUBLIC.as_bytes() } else { b"" };
            (bearer + &jwt("HS256", k, &claims), "signed with the public key")
        }
        10 => {
            claims.as_object_mut().unwrap().remove("sub");
            (bearer + &jwt("HS256", secret, &claims), "no subject")
        }
        _ => {
            // other authorization schemes are ignored
            t.valid = true;
            t.header = Some("Basic YWRtaW46YWRtaW4=".into());
            t.what = "basic authorization".into();
            return t;
        }
    };
    t.header = Some(header);
    t.what = format!("{what} token admin={admin} groups={groups:?}");
    t
}

pub fn admin_token() -> String {
    format!("Bearer {}", jwt("HS256", SECRET.as_bytes(), &json!({"sub": "a", ROLES: ["admin"], "exp": now() + 100000})))
}

struct World {
    corpora: BTreeMap<String, usize>,
    groups: BTreeMap<String, BTreeSet<String>>,
    anon_all: bool,
}
impl World {
    fn may_read(&self, t: &Token, c: &str) -> bool {
        t.admin || self.anon_all || self.groups.iter().any(|(g, cs)| (g == "anonymous" || t.groups.contains(g)) && cs.contains(c))
    }
}

pub fn zip_of(name: &str, m: &MGraph, tmp: &Path) -> R<Vec<u8>> {
    let f = tmp.join("export.graphml");
    super::life::write_graphml(m, &f, None)?;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    z.start_file(format!("{name}.graphml"), zip::write::SimpleFileOptions::default()).unwrap();
    z.write_all(&std::fs::read(&f).unwrap()).unwrap();
    Ok(z.finish().unwrap().into_inner())
}

/// Wait until the background job has been finished, the result is the last response.
pub fn wait_job(srv: &Server, uuid: &str, auth: Option<&str>) -> R<Response> {
    for _ in 0..4000 {
        let r = srv.request("GET", &format!("/v1/jobs/{uuid}"), auth, None)?;
        if r.status != 202 {
            return Ok(r);
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    fail("job", "background job does not end")
}

struct St {
    srv: Server,
    w: World,
    tmp: PathBuf,
    allowed: usize,
    denied: usize,
}

fn expect(what: &str, r: &Response, status: &[u16]) -> R {
    if !status.contains(&r.status) {
        return fail(format!("status:{}", what.split(' ').next().unwrap()), format!("{what}: expected status {status:?}, but got {}", r.show()));
    }
    Ok(())
}

fn start(s: &mut Src, ctx: &mut Ctx, rsa: bool) -> R<St> {
    let tmp = ctx.dir();
    let data = tmp.join("data");
    std::fs::create_dir_all(&data).unwrap();
    let mut corpora = BTreeMap::new();
    {
        let cs = open(&data, 1, false)?;
        let n = s.size(2, 5);
        for i in 0..n {
            let name = s.pick(&CORPORA).to_string();
            if corpora.contains_key(&name) {
                continue;
            }
            let nodes = 1 << i;
            cs.apply_update(&name, &mut to_update(&simple_corpus(&name, nodes).to_events())?).must("create corpus")?;
            corpora.insert(name, nodes);
        }
    }
    let anon_all = s.chance(1, 8);
    ctx.note(format!("corpora with number of nodes: {corpora:?}, anonymous access to all: {anon_all}, RSA: {rsa}"));
    let auth = format!(
        "[auth]\nanonymous_access_all_corpora = {anon_all}\n[auth.token_verification]\n{}",
        if rsa { format!("type = \"RS256\"\npublic_key = {RS_PUBLIC:?}") } else { format!("type = \"HS256\"\nsecret = \"{SECRET}\"") }
    );
    let srv = Server::start(&tmp, &data, &auth, "")?;
    Ok(St { srv, w: World { corpora, groups: BTreeMap::new(), anon_all }, tmp, allowed: 0, denied: 0 })
}

fn groups_of(r: &Response) -> R<BTreeMap<String, BTreeSet<String>>> {
    let mut m = BTreeMap::new();
    for g in r.json()?.as_array().cloned().unwrap_or_default() {
        let c = g["corpora"].as_array().cloned().unwrap_or_default();
        let set: BTreeSet<String> = c.iter().map(|x| x.as_str().unwrap().to_string()).collect();
        if set.len() != c.len() || m.insert(g["name"].as_str().unwrap_or("?").to_string(), set).is_some() {
            return fail("groups", format!("duplicates in groups: {}", r.show()));
        }
    }
    Ok(m)
}

fn authorization(s: &mut Src, ctx: &mut Ctx) -> R {
    let rsa = s.chance(1, 6);
    let mut st = start(s, ctx, rsa)?;
    let steps = s.size(10, 60);
    for _ in 0..steps {
        let t = token(s, rsa);
        step(s, ctx, &mut st, &t, rsa)?;
    }
    if !st.srv.alive() {
        return fail("ended", "the web service has ended");
    }
    if st.srv.log().contains("panicked") {
        return fail("panic", format!("panic in the web service: {}", st.srv.log()));
    }
    ctx.label_if(rsa, "RSA");
    ctx.nontrivial_if(st.allowed >= 2 && st.denied >= 2);
    Ok(())
}

fn any_corpus(s: &mut Src, w: &World) -> String {
    if !w.corpora.is_empty() && s.chance(4, 5) {
        let v: Vec<&String> = w.corpora.keys().collect();
        s.pick(&v).to_string()
    } else {
        s.pick(&CORPORA).to_string()
    }
}

/// Number of corpora and documents is not part of the count.
const COUNT_QUERY: &str = "node";

fn step(s: &mut Src, ctx: &mut Ctx, st: &mut St, t: &Token, rsa: bool) -> R {
    let kind = s.weighted(&[10, 22, 14, 14, 4, 5, 5, 4, 3, 2, 2]);
    let auth = t.header.as_deref();
    let who = &t.what;
    let bad = !t.valid;
    // result of a request that needs administrator rights
    let admin_only = |what: &str, r: &Response, st: &mut St| -> R<bool> {
        if bad {
            expect(&format!("{what} with {who}"), r, &[401])?;
            st.denied += 1;
            Ok(false)
        } else if !t.admin {
            expect(&format!("{what} with {who}"), r, &[403])?;
            st.denied += 1;
            Ok(false)
        } else {
            st.allowed += 1;
            Ok(true)
        }
    };
    match kind {
        0 => {
            ctx.note(format!("list corpora with {who}"));
            let r = st.srv.request("GET", "/v1/corpora", auth, None)?;
            if bad {
                return expect(&format!("list with {who}"), &r, &[401]);
            }
            expect("list", &r, &[200])?;
            let exp: Vec<&String> = st.w.corpora.keys().filter(|c| st.w.may_read(t, c)).collect();
            if r.json()? != json!(exp) {
                return fail("list", format!("list of corpora for {who}: expected {exp:?}, but got {}", r.text()));
            }
        }
        1 => {
            // single corpus
            let c = any_corpus(s, &st.w);
            let e = enc(&c);
            let node = format!("{c}/doc#t0");
            let body = json!({"node_ids": [node], "left": 1, "right": 1}).to_string();
            let (m, path, b) = match s.idx(7) {
                0 => ("GET", format!("/v1/corpora/{e}/configuration"), None),
                1 => ("GET", format!("/v1/corpora/{e}/node-annotations?list_values=true"), None),
                2 => ("GET", format!("/v1/corpora/{e}/components"), None),
                3 => ("GET", format!("/v1/corpora/{e}/edge-annotations/PartOf/annis/x/"), None),
                4 => ("POST", format!("/v1/corpora/{e}/subgraph"), Some(("application/json", body.as_bytes()))),
                5 => ("GET", format!("/v1/corpora/{e}/subgraph-for-query?query=node"), None),
                _ => ("GET", format!("/v1/corpora/{e}/files"), None),
            };
            ctx.note(format!("{m} {path} with {who}"));
            let r = st.srv.request(m, &path, auth, b)?;
            if bad {
                st.denied += 1;
                return expect(&format!("{path} with {who}"), &r, &[401]);
            }
            if !st.w.may_read(t, &c) {
                st.denied += 1;
                expect(&format!("{path} with {who}"), &r, &[403])?;
                if r.text() != json!(format!("Not authorized to access corpus/corpora {c}")).to_string() {
                    return fail("leak", format!("message for missing authorization: {}", r.show()));
                }
            } else if st.w.corpora.contains_key(&c) {
                st.allowed += 1;
                if !path.ends_with("/files") || r.status != 404 {
                    expect(&format!("{path} with {who}"), &r, &[200])?;
                }
                if path.contains("node-annotations") && !r.text().contains(&format!("\"{}", c.replace('"', "\\\""))) {
                    return fail("content", format!("{path}: {}", r.show()));
                }
            } else if r.status == 401 || r.status == 403 {
                return fail("missing", format!("{path} for missing corpus: {}", r.show()));
            }
        }
        2 | 3 => {
            // search in several corpora
            let n = s.size(1, 3);
            let c: Vec<String> = (0..n).map(|_| any_corpus(s, &st.w)).collect::<BTreeSet<_>>().into_iter().collect();
            let what = *s.pick(&["count", "find", "frequency"]);
            let mut q = json!({"query": COUNT_QUERY, "corpora": c});
            if what == "frequency" {
                q["definition"] = json!([{"ns": "annis", "name": "node_type", "node_ref": "1"}]);
            }
            ctx.note(format!("{what} in {c:?} with {who}"));
            let r = st.srv.request("POST", &format!("/v1/search/{what}"), auth, Some(("application/json", q.to_string().as_bytes())))?;
            if bad {
                st.denied += 1;
                return expect(&format!("{what} with {who}"), &r, &[401]);
            }
            let forbidden: Vec<&str> = c.iter().filter(|x| !st.w.may_read(t, x)).map(|x| x.as_str()).collect();
            if !forbidden.is_empty() {
                st.denied += 1;
                expect(&format!("{what} in {c:?} with {who}"), &r, &[403])?;
                if r.text() != json!(format!("Not authorized to access corpus/corpora {}", forbidden.join(", "))).to_string() {
                    return fail("leak", format!("message for missing authorization: {}", r.show()));
                }
            } else if c.iter().all(|x| st.w.corpora.contains_key(x)) {
                st.allowed += 1;
                expect(&format!("{what} in {c:?} with {who}"), &r, &[200])?;
                let exp: usize = c.iter().map(|x| st.w.corpora[x]).sum();
                let got = match what {
                    "count" => r.json()?["match_count"].as_u64().unwrap_or(0) as usize,
                    "find" => r.text().lines().count(),
                    _ => r.json()?[0]["count"].as_u64().unwrap_or(0) as usize,
                };
                if got != exp {
                    return fail("result", format!("{what} in {c:?}: expected {exp} matches, but got {}", r.show()));
                }
            } else if r.ok() {
                return fail("missing", format!("{what} in missing corpora: {}", r.show()));
            }
        }
        4 => {
            ctx.note(format!("list groups with {who}"));
            let r = st.srv.request("GET", "/v1/groups", auth, None)?;
            if admin_only("groups", &r, st)? {
                expect("groups", &r, &[200])?;
                if groups_of(&r)? != st.w.groups {
                    return fail("groups", format!("expected groups {:?}, but got {}", st.w.groups, r.text()));
                }
            }
        }
        5 | 6 if kind == 5 || s.chance(1, 2) => {
            let g = s.pick(&GROUP_NAMES).to_string();
            let n = s.size(0, 3);
            let set: BTreeSet<String> = (0..n).map(|_| any_corpus(s, &st.w)).collect();
            let wrong = s.chance(1, 10);
            let name = if wrong { "other".to_string() } else { g.clone() };
            let b = json!({"name": name, "corpora": set}).to_string();
            ctx.note(format!("set group {g:?} = {b} with {who}"));
            let r = st.srv.request("PUT", &format!("/v1/groups/{}", enc(&g)), auth, Some(("application/json", b.as_bytes())))?;
            if admin_only("put group", &r, st)? {
                if wrong {
                    expect("put group with wrong name", &r, &[400])?;
                } else {
                    expect("put group", &r, &[200])?;
                    st.w.groups.insert(g, set);
                }
            }
        }
        5 | 6 => {
            let g = s.pick(&GROUP_NAMES).to_string();
            ctx.note(format!("delete group {g:?} with {who}"));
            let r = st.srv.request("DELETE", &format!("/v1/groups/{}", enc(&g)), auth, None)?;
            if admin_only("delete group", &r, st)? {
                expect("delete group", &r, &[200, 404])?;
                st.w.groups.remove(&g);
            }
        }
        7 => {
            let c = any_corpus(s, &st.w);
            ctx.note(format!("delete {c:?} with {who}"));
            let r = st.srv.request("DELETE", &format!("/v1/corpora/{}", enc(&c)), auth, None)?;
            if admin_only("delete", &r, st)? {
                expect("delete", &r, if st.w.corpora.contains_key(&c) { &[200] } else { &[404] })?;
                st.w.corpora.remove(&c);
            }
        }
        8 => {
            let c = s.pick(&["a", "b", "x.y"]).to_string();
            let n = s.size(1, 9);
            let over = s.chance(1, 2);
            let z = zip_of(&c, &simple_corpus(&c, n), &st.tmp)?;
            ctx.note(format!("import {c:?} with {n} nodes, override={over}, with {who}"));
            let r = st.srv.request("POST", &format!("/v1/import?override_existing={over}"), auth, Some(("application/octet-stream", &z)))?;
            if admin_only("import", &r, st)? {
                expect("import", &r, &[202])?;
                let id = r.json()?["uuid"].as_str().unwrap_or("").to_string();
                if !rsa {
                    // nobody else can see the job
                    let r = st.srv.request("GET", &format!("/v1/jobs/{id}"), None, None)?;
                    expect("job of other user", &r, &[403])?;
                }
                let r = wait_job(&st.srv, &id, auth)?;
                let works = over || !st.w.corpora.contains_key(&c);
                expect("import job", &r, if works { &[200] } else { &[410] })?;
                if works {
                    st.w.corpora.insert(c, n);
                }
            }
        }
        9 => {
            let c = any_corpus(s, &st.w);
            ctx.note(format!("export {c:?} with {who}"));
            let r = st.srv.request("POST", "/v1/export", auth, Some(("application/json", json!({"corpora": [c]}).to_string().as_bytes())))?;
            if admin_only("export", &r, st)? {
                expect("export", &r, &[202])?;
                let id = r.json()?["uuid"].as_str().unwrap_or("").to_string();
                let r = wait_job(&st.srv, &id, auth)?;
                if st.w.corpora.contains_key(&c) {
                    expect("export job", &r, &[200])?;
                    let mut z = zip::ZipArchive::new(std::io::Cursor::new(r.body)).must("open exported file")?;
                    z.by_name(&format!("{c}.graphml")).must("exported corpus")?;
                } else {
                    expect("export job", &r, &[410])?;
                }
                let r = st.srv.request("GET", &format!("/v1/jobs/{id}"), auth, None)?;
                expect("finished job", &r, &[404])?;
            }
        }
        _ => {
            ctx.note("restart");
            st.srv.restart()?;
        }
    }
    Ok(())
}

/// Authorized requests succeed, also when groups are changed at the same time.
fn concurrent(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut st = start(s, ctx, false)?;
    st.w.anon_all = false;
    let c = st.w.corpora.keys().next().unwrap().clone();
    let admin = admin_token();
    let put = |srv: std::net::SocketAddr, g: &str, cs: &[&str]| -> R {
        let b = json!({"name": g, "corpora": cs}).to_string();
        let r = request(srv, "PUT", &format!("/v1/groups/{}", enc(g)), Some(&admin), Some(("application/json", b.as_bytes())), "")?;
        expect("concurrent put group", &r, &[200])
    };
    put(st.srv.addr, "stable", &[&c])?;
    let user = format!("Bearer {}", jwt("HS256", SECRET.as_bytes(), &json!({"sub": "u", GROUPS: ["stable"], "exp": now() + 10000})));
    let (writers, readers) = (s.size(1, 3), s.size(1, 4));
    let rounds = s.size(5, 25);
    ctx.note(format!("{writers} writers, {readers} readers, {rounds} rounds"));
    let addr = st.srv.addr;
    let only = json!([c]);
    let anon_all = st.srv.request("GET", "/v1/corpora", None, None)?.json()? != json!([]);
    let res: Vec<R> = std::thread::scope(|sc| {
        let mut h = vec![];
        for w in 0..writers {
            let (put, c) = (&put, &c);
            h.push(sc.spawn(move || {
                for i in 0..rounds {
                    let g = format!("g{w}");
                    let all: [&str; 1] = [c];
                    put(addr, &g, if i % 2 == 0 { &all } else { &[] })?;
                }
                Ok(())
            }));
        }
        for _ in 0..readers {
            let (user, only, c) = (&user, &only, &c);
            h.push(sc.spawn(move || {
                for _ in 0..rounds {
                    let r = request(addr, "GET", "/v1/corpora", Some(user), None, "")?;
                    expect("concurrent list", &r, &[200])?;
                    if !anon_all && r.json()? != *only {
                        return fail("list", format!("concurrent list of corpora: expected {only}, but got {}", r.text()));
                    }
                    let r = request(addr, "GET", &format!("/v1/corpora/{}/components", enc(c)), Some(user), None, "")?;
                    expect("concurrent components", &r, &[200])?;
                }
                Ok(())
            }));
        }
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "panic in client"))).collect()
    });
    for r in res {
        r?;
    }
    let r = st.srv.request("GET", "/v1/groups", Some(&admin), None)?;
    let mut exp = BTreeMap::from([("stable".to_string(), BTreeSet::from([c.clone()]))]);
    for w in 0..writers {
        exp.insert(format!("g{w}"), if rounds % 2 == 1 { BTreeSet::from([c.clone()]) } else { BTreeSet::new() });
    }
    if groups_of(&r)? != exp {
        return fail("groups", format!("expected groups {exp:?}, but got {}", r.text()));
    }
    ctx.nontrivial_if(writers + readers > 2);
    Ok(())
}

pub fn property_files() -> Property {
    Property {
        id: "G33",
        rule: "2-3 corpora with random names and 0-5 linked files each, 10-40 requests for single files (complete or a byte range) and lists of files, by authorized and other users, for existing files and for names which try to leave the directory of the corpus with all kinds of encodings; non-trivial: at least one file was returned and at least one such name was refused",
        level: "exploration",
        assumptions: &["the name of the root node is the name of the corpus", "names of file nodes are relative paths below the name of the corpus"],
        checks: vec![Check { name: "files", f: files, quick: 600, thorough: 30000 }],
    }
}

struct FileCorpus {
    name: String,
    files: BTreeMap<String, String>,
    nodes: Vec<String>,
}

fn files(s: &mut Src, ctx: &mut Ctx) -> R {
    let tmp = ctx.dir().join("1/2/3");
    let data = tmp.join("data");
    std::fs::create_dir_all(&data).unwrap();
    let data = data.canonicalize().unwrap();
    let canary = "CANARY-CONTENT";
    let put = |p: PathBuf| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, canary).unwrap();
    };
    put(tmp.join("secret.txt"));
    put(tmp.join("files/secret.txt"));
    put(data.join("secret.txt"));
    put(data.join("files/secret.txt"));
    let mut corpora: Vec<FileCorpus> = vec![];
    {
        let cs = open(&data, 1, false)?;
        let n = s.size(2, 3);
        for i in 0..n {
            let name = s
                .pick(&["a", "b c", "\u{e4}", "x:y", "50%", "a/b", "C++", "q?x#y", "a\\b", "A|B*", "%2e", "a;b", "a&b=c", "..", ".", "\"q'"])
                .to_string();
            if corpora.iter().any(|c| c.name == name) {
                continue;
            }
            let input = tmp.join(format!("in{i}"));
            std::fs::create_dir_all(&input).unwrap();
            let mut m = simple_corpus(&name, 1);
            let mut fs = BTreeMap::new();
            let ordinary = name != ".." && name != "." && !name.contains('\\');
            let cnt = s.size(0, 5);
            for j in 0..cnt {
                let f = s
                    .pick(&[
                        "f.txt", "doc/g.txt", "doc/h \u{e4}.txt", "doc%20x/f.txt", "a+b.txt", "a..b.txt", "q?x#y.txt", "100%.txt", "%2e%2e/x",
                        "doc/sub/i.txt", " x", "doc/y ", "%252e", "a&b;c", "...", "doc/..x",
                    ])
                    .to_string();
                let node = format!("{name}/{f}");
                if fs.contains_key(&node) || !ordinary {
                    continue;
                }
                let content = format!("content of file {i} {j} in corpus {i}");
                std::fs::write(input.join(format!("l{j}")), &content).unwrap();
                let mut a = Annos::new();
                a.insert(k("annis", "node_name"), node.clone());
                a.insert(k("annis", "node_type"), "file".into());
                a.insert(k("annis", "file"), format!("l{j}"));
                m.edges.entry(comp("PartOf", "annis", "")).or_default().insert((node.clone(), name.clone()), Annos::new());
                m.nodes.insert(node.clone(), a);
                fs.insert(node, content);
            }
            let f = input.join("x.graphml");
            super::life::write_graphml(&m, &f, None)?;
            cs.import_from_fs(&f, graphannis::corpusstorage::ImportFormat::GraphML, Some(name.clone()), s.chance(1, 4), false, |_| {})
                .must("import")?;
            ctx.note(format!("corpus {name:?} with files {:?}", fs.keys()));
            corpora.push(FileCorpus { nodes: vec![name.clone(), format!("{name}/doc"), format!("{name}/doc/sub")], name, files: fs });
        }
    }
    let anon_all = s.chance(1, 3);
    let auth = format!(
        "[auth]\nanonymous_access_all_corpora = {anon_all}\n[auth.token_verification]\ntype = \"HS256\"\nsecret = \"{SECRET}\""
    );
    let mut srv = Server::start(&tmp, &data, &auth, "")?;
    let admin = admin_token();
    let (mut served, mut refused) = (0, 0);
    let steps = s.size(10, 40);
    for _ in 0..steps {
        let ci = s.idx(corpora.len());
        let c = &corpora[ci];
        let other = &corpora[s.idx(corpora.len())];
        let e = enc(&c.name);
        let read = anon_all || s.chance(6, 7);
        let auth = if anon_all && s.chance(1, 2) || !read { None } else { Some(admin.as_str()) };
        match s.weighted(&[5, 2, 3, 2]) {
            0 if !c.files.is_empty() => {
                let v: Vec<&String> = c.files.keys().collect();
                let f = *s.pick(&v);
                let content = &c.files[f];
                let path = format!("/v1/corpora/{e}/files/{}", enc(f));
                let range = s.chance(1, 4);
                let (a, b) = (s.idx(5), 5 + s.idx(6));
                ctx.note(format!("GET {path} allowed={read} range={range}"));
                let r = request(srv.addr, "GET", &path, auth, None, &if range { format!("Range: bytes={a}-{b}\r\n") } else { String::new() })?;
                if !read {
                    expect("file without authorization", &r, &[403])?;
                } else {
                    expect(&format!("file {f:?}"), &r, &[if range { 206 } else { 200 }])?;
                    let exp = if range { &content[a..=b] } else { content };
                    if r.text() != exp {
                        return fail("content", format!("content of file {f:?}: expected {exp:?}, but got {}", r.show()));
                    }
                    served += 1;
                }
            }
            1 | 0 => {
                // list of files
                let node = if s.chance(1, 2) { None } else { Some(s.pick(&c.nodes).clone()) };
                let path = match &node {
                    None => format!("/v1/corpora/{e}/files"),
                    Some(n) => format!("/v1/corpora/{e}/files?node={}", enc(n)),
                };
                ctx.note(format!("GET {path} allowed={read}"));
                let r = srv.request("GET", &path, auth, None)?;
                let prefix = PathBuf::from(node.as_ref().unwrap_or(&c.name));
                if !read {
                    expect("list of files without authorization", &r, &[403])?;
                } else if c.name == ".." || c.name == "." {
                    if r.ok() && r.json()? != json!([]) {
                        return fail("list", format!("files of {:?}: {}", c.name, r.show()));
                    }
                } else {
                    expect("list of files", &r, &[200])?;
                    let got = r.json()?;
                    let got: Vec<&str> = got.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                    let exp: BTreeSet<&str> = c.files.keys().filter(|f| Path::new(f).starts_with(&prefix)).map(|x| x.as_str()).collect();
                    if got.iter().copied().collect::<BTreeSet<_>>() != exp || got.len() != exp.len() {
                        return fail("list", format!("files of {:?} below {node:?}: expected {exp:?}, but got {got:?}", c.name));
                    }
                }
            }
            _ => {
                // try to leave the directory
                let up = |s: &mut Src| s.pick(&["..", "%2e%2e", "%2E.", "%252e%252e", ".%00.", "....", " ..", ".. "]).to_string();
                let sep = |s: &mut Src| s.pick(&["%2f", "%2F", "%5c", "%252f", "\\", "%2f%2f", "%2f.%2f"]).to_string();
                let mut name = String::new();
                match s.idx(3) {
                    0 => {
                        for _ in 0..s.size(1, 6) {
                            name += &up(s);
                            name += &sep(s);
                        }
                    }
                    1 => name += s.pick(&["%2f", "%20%2f", "%2f%2f", "file:%2f%2f"]),
                    _ => name += &format!("{}%2fdoc{}{}{}", enc(&c.name), sep(s), up(s), sep(s)),
                }
                let target = match s.idx(7) {
                    0 => "secret.txt".to_string(),
                    1 => "files/secret.txt".into(),
                    2 => "corpus-config.toml".into(),
                    3 => data.join("secret.txt").to_string_lossy()[1..].to_string(),
                    4 => format!("{}/files/{}", enc(&other.name), other.files.keys().next().cloned().unwrap_or_default()),
                    5 => "db.lock".into(),
                    _ => "service.sqlite".into(),
                };
                name += &enc(&target).replace("%2F", &sep(s));
                let corpus = match s.idx(5) {
                    0 => up(s),
                    1 => format!("{}{}{}", up(s), sep(s), enc(&other.name)),
                    2 => "%2e".into(),
                    _ => e.clone(),
                };
                let path = match s.idx(3) {
                    0 => format!("/v1/corpora/{corpus}/files?node={name}"),
                    _ => format!("/v1/corpora/{corpus}/files/{name}"),
                };
                ctx.note(format!("GET {path} allowed={read}"));
                let r = request(srv.addr, "GET", &path, auth, None, "")?;
                let t = r.text();
                if t.contains(canary) || t.contains("page_size") || t.contains("SQLite") || t.contains("secret.txt") && r.ok() {
                    return fail("escape", format!("GET {path}: {}", r.show()));
                }
                if !read && r.ok() {
                    return fail("escape", format!("GET {path} without authorization: {}", r.show()));
                }
                if r.ok() && !path.contains('?') && !c.files.values().any(|v| *v == t) {
                    return fail("escape", format!("GET {path} for corpus {:?}: {}", c.name, r.show()));
                }
                if r.ok() && path.contains('?') {
                    for f in r.json()?.as_array().cloned().unwrap_or_default() {
                        if !c.files.contains_key(f.as_str().unwrap_or("")) {
                            return fail("escape", format!("GET {path} for corpus {:?}: {}", c.name, r.show()));
                        }
                    }
                }
                if !r.ok() {
                    refused += 1;
                }
            }
        }
    }
    if !srv.alive() || srv.log().contains("panicked") {
        return fail("panic", format!("the web service has ended or panicked: {}", srv.log()));
    }
    ctx.nontrivial_if(served > 0 && refused > 0);
    Ok(())
}
