"""newseed.py id property file 'old' 'new' needs breaks < main.rs   (reads old/new from files /tmp/old /tmp/new)"""
import sys, subprocess, json, os
def seed(id, prop, edits, needs, breaks, main, deps=""):
    D = f"/verif/seeded/{id}"; os.makedirs(D + "/src", exist_ok=True)
    for f, old, new in edits:
        t = open("/repo/" + f).read()
        assert t.count(old) == 1, (id, f, t.count(old))
        open("/repo/" + f, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(D + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
    open(D + "/src/main.rs", "w").write(main)
    open(D + "/Cargo.toml.in", "w").write(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2024"
publish = false

[workspace]

[dependencies]
graphannis = {{ path = "@REPO@/graphannis" }}
graphannis-core = {{ path = "@REPO@/core" }}
tempfile = "3"
{deps}""")
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = repository; exit 0 if the behaviour is right
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$HERE/src/main.rs" "$W/src/" && sed "s|@REPO@|$PWD|" "$HERE/Cargo.toml.in" > "$W/Cargo.toml"
cp "$PWD/Cargo.lock" "$W/" 2>/dev/null
export CARGO_TARGET_DIR="$PWD/target" TMPDIR="$W"
cargo build --offline --manifest-path "$W/Cargo.toml" || exit 1
"$PWD/target/debug/demo"
""")
