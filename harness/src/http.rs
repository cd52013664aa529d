//! Start the web service and talk to it.
use crate::engine::*;
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let primes: Vec<u64> = (2u64..400).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    // fractional part of the root with integer arithmetic
    fn root(p: u64, k: u32) -> u32 {
        let target = (p as u128) << (32 * k as usize % 128);
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            let pow = if k == 2 { m * m } else { m.saturating_mul(m).saturating_mul(m) };
            if pow <= target { lo = m } else { hi = m }
        }
        lo as u32
    }
    let mut h: Vec<u32> = primes.iter().take(8).map(|p| root(*p, 2)).collect();
    let kk: Vec<u32> = primes.iter().map(|p| root(*p, 3)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(kk[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut r = [0; 32];
    for (i, x) in h.iter().enumerate() {
        r[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    r
}

fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    inner.extend_from_slice(data);
    let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    outer.extend_from_slice(&sha256(&inner));
    sha256(&outer)
}

pub fn base64url(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut r = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            r.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    r
}

pub fn jwt(alg: &str, secret: &[u8], claims: &Value) -> String {
    let h = base64url(json!({"alg": alg, "typ": "JWT"}).to_string().as_bytes());
    let c = base64url(claims.to_string().as_bytes());
    let m = format!("{h}.{c}");
    let sig = if alg == "none" { String::new() } else { base64url(&hmac(secret, m.as_bytes())) };
    format!("{m}.{sig}")
}

pub const GROUPS: &str = "https://corpus-tools.org/annis/groups";
pub const ROLES: &str = "https://corpus-tools.org/annis/roles";

pub fn now() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64
}

pub struct Server {
    child: Option<Child>,
    pub addr: SocketAddr,
    dir: PathBuf,
    config: String,
}

pub struct Response {
    pub status: u16,
    pub headers: String,
    pub body: Vec<u8>,
}
impl Response {
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).to_string()
    }
    pub fn json(&self) -> R<Value> {
        serde_json::from_slice(&self.body).must("parse JSON response")
    }
    pub fn show(&self) -> String {
        format!("{} {}", self.status, self.text().chars().take(200).collect::<String>())
    }
}

static COUNT: AtomicU32 = AtomicU32::new(0);

impl Server {
    /// `auth` is the content of the section `[auth]` including `[auth.token_verification]`, `database` additional settings for the database
    pub fn start(dir: &Path, data: &Path, auth: &str, database: &str) -> R<Server> {
        let config = format!(
            "[database]\ngraphannis = {data:?}\nsqlite = {:?}\n{database}\n[logging]\ndebug = false\n{auth}\n",
            dir.join("service.sqlite")
        );
        let mut s = Server { child: None, addr: "127.0.0.1:1".parse().unwrap(), dir: dir.to_path_buf(), config };
        s.restart()?;
        Ok(s)
    }
    pub fn stop(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn restart(&mut self) -> R {
        self.stop();
        let exe = crate::verif_root().join("target/ws/debug/graphannis-webservice");
        let pid = std::process::id();
        for _ in 0..20 {
            // an own address for each process, and an own port for each server
            let n = COUNT.fetch_add(1, Ordering::Relaxed);
            let host = format!("127.{}.{}.{}", 1 + (pid >> 16 & 0x7f), pid >> 8 & 0xff, 1 + (pid & 0x7f));
            let port = 10000 + (pid & 0x80) * 60 + n % 7000;
            let file = self.dir.join("service.toml");
            std::fs::write(&file, format!("{}\n[bind]\nhost = \"{host}\"\nport = {port}\n", self.config)).must("write settings")?;
            let log = std::fs::File::create(self.dir.join("service.log")).must("create log")?;
            let mut cmd = Command::new(&exe);
            cmd.arg("--config").arg(&file).current_dir(&self.dir).stdin(Stdio::null()).stdout(log.try_clone().unwrap()).stderr(log);
            unsafe {
                cmd.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let mut child = cmd.spawn().must("start web service")?;
            self.addr = format!("{host}:{port}").parse().unwrap();
            let start = Instant::now();
            loop {
                if child.try_wait().must("wait")?.is_some() {
                    break;
                }
                if TcpStream::connect_timeout(&self.addr, Duration::from_secs(1)).is_ok() {
                    std::thread::sleep(Duration::from_millis(2));
                    if child.try_wait().must("wait")?.is_none() {
                        self.child = Some(child);
                        return Ok(());
                    }
                    break;
                }
                if start.elapsed() > Duration::from_secs(60) {
                    let _ = child.kill();
                    let _ = child.wait();
                    return fail("start", "web service does not start");
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let log = std::fs::read_to_string(self.dir.join("service.log")).unwrap_or_default();
            if !log.contains("in use") {
                return fail("start", format!("web service ends with: {}", log.chars().take(400).collect::<String>()));
            }
        }
        fail("start", "no free port for the web service")
    }
    pub fn log(&self) -> String {
        std::fs::read_to_string(self.dir.join("service.log")).unwrap_or_default()
    }
    pub fn alive(&mut self) -> bool {
        self.child.as_mut().is_some_and(|c| matches!(c.try_wait(), Ok(None)))
    }
    pub fn request(&self, method: &str, path: &str, auth: Option<&str>, body: Option<(&str, &[u8])>) -> R<Response> {
        request(self.addr, method, path, auth, body, "")
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop();
    }
}

pub fn request(addr: SocketAddr, method: &str, path: &str, auth: Option<&str>, body: Option<(&str, &[u8])>, extra: &str) -> R<Response> {
    let mut c = TcpStream::connect_timeout(&addr, Duration::from_secs(10)).must("connect to web service")?;
    c.set_read_timeout(Some(Duration::from_secs(90))).unwrap();
    let mut h = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n{extra}");
    if let Some(a) = auth {
        h += &format!("Authorization: {a}\r\n");
    }
    if let Some((t, b)) = body {
        h += &format!("Content-Type: {t}\r\nContent-Length: {}\r\n", b.len());
    }
    h += "\r\n";
    let mut out = h.into_bytes();
    if let Some((_, b)) = body {
        out.extend_from_slice(b);
    }
    // the server may answer before the whole request has been read
    let _ = c.write_all(&out);
    let mut r = vec![];
    if let Err(e) = c.read_to_end(&mut r)
        && r.is_empty()
    {
        return fail("no-response", format!("{method} {path}: no response from the web service: {e}"));
    }
    let Some(i) = r.windows(4).position(|w| w == b"\r\n\r\n") else {
        return fail("no-response", format!("{method} {path}: incomplete response: {:?}", String::from_utf8_lossy(&r)));
    };
    let head = String::from_utf8_lossy(&r[..i]).to_string();
    let status = head.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut body = r[i + 4..].to_vec();
    let low = head.to_ascii_lowercase();
    if low.contains("transfer-encoding: chunked") {
        let mut res = vec![];
        let mut rest = &body[..];
        let mut complete = false;
        while let Some(p) = rest.windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..p]).trim(), 16).unwrap_or(0);
            if n == 0 {
                complete = true;
                break;
            }
            if rest.len() < p + 2 + n + 2 {
                break;
            }
            res.extend_from_slice(&rest[p + 2..p + 2 + n]);
            rest = &rest[p + 2 + n + 2..];
        }
        if !complete {
            return fail("incomplete", format!("{method} {path}: incomplete response"));
        }
        body = res;
    }
    Ok(Response { status, headers: low, body })
}

/// Percent-encode a path segment or a query value.
pub fn enc(s: &str) -> String {
    s.bytes()
        .map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") })
        .collect()
}
