#!/usr/bin/env python3
"""Turns planted-change specifications (tools/seeds/*.py, lists SEEDS) into /verif/seeded/<id>/
and confirms each in a scratch copy of /repo: applies, builds, passes the stable tests,
demonstration passes without and fails with the change.
usage: mkseed.py [id...]   (default: those not yet made)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed-scratch"
DEMO = r'''#!/bin/bash
# Builds main.rs (beside this file) against the crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
work=$(mktemp -d /tmp/svd-demo.XXXXXXXX) || exit 2
trap 'rm -rf "${work:?}"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
svd-rs = { path = "$repo/svd-rs", features = ["serde"] }
svd-parser = { path = "$repo/svd-parser", features = ["expand"] }
svd-encoder = { path = "$repo/svd-encoder" }
serde_json = "1"
serde_yaml = "0.8"
roxmltree = "0.20"
xmltree = "0.11"
TOML
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 3
timeout 100 "$work/target/debug/demo"
'''
PRE = r'''
#[allow(unused_imports)] use svd_parser::{self as parser, ValidateLevel};
#[allow(unused_imports)] use svd_encoder as encoder;
#[allow(unused_imports)] use svd_rs as svd;
#[allow(dead_code)] const DEV: (&str, &str) = ("<device><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>", "</peripherals></device>");
#[allow(dead_code)] fn dev(periphs: &str) -> String { format!("{}{}{}", DEV.0, periphs, DEV.1) }
#[allow(dead_code)] fn per(regs: &str) -> String { dev(&format!("<peripheral><name>P</name><baseAddress>0x1000</baseAddress><registers>{regs}</registers></peripheral>")) }
#[allow(dead_code)] fn reg(fields: &str) -> String { per(&format!("<register><name>R</name><addressOffset>0</addressOffset><fields>{fields}</fields></register>")) }
#[allow(dead_code)] fn cfg() -> parser::Config { parser::Config::default().validate_level(ValidateLevel::Disabled) }
#[allow(dead_code)] fn parse(x: &str) -> svd::Device { parser::parse_with_config(x, &cfg()).unwrap() }
#[allow(dead_code)] fn expanded(x: &str) -> svd::Device { parser::parse_with_config(x, &cfg().expand(true)).unwrap() }
'''
def sh(cmd, cwd=None, ok=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if ok and r.returncode: raise SystemExit(f"{cmd}\n{r.stdout[-3000:]}")
    return r
def load():
    out = []
    for f in sorted(glob.glob(f"{V}/tools/seeds/*.py")):
        ns = {}; exec(open(f).read(), ns); out += ns["SEEDS"]
    return out
def main():
    want = sys.argv[1:]
    seeds = load()
    ids = [s["id"] for s in seeds]; assert len(ids) == len(set(ids))
    if os.path.exists(S): shutil.rmtree(S)
    sh(f"cp -a /repo {S}"); sh("git checkout -q -- . && git clean -fdq", S)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    names = stable.get("stable_tests") or stable.get("stable") or stable.get("passed")
    bad = []
    for s in seeds:
        d = f"{V}/seeded/{s['id']}"
        if want and s["id"] not in want: continue
        if not want and os.path.exists(d + "/meta.json"): continue
        sh("git checkout -q -- .", S)
        for path, old, new in s["edits"]:
            t = open(f"{S}/{path}").read()
            if t.count(old) != 1:
                print(f"!! {s['id']}: {path}: {t.count(old)} matches of {old[:60]!r}"); break
            open(f"{S}/{path}", "w").write(t.replace(old, new))
        else:
            patch = sh("git diff", S).stdout
            os.makedirs("/tmp/seed-demo", exist_ok=True)
            body = s["demo"]
            open("/tmp/seed-demo/main.rs", "w").write(PRE.strip() + "\n" + body.strip() + "\n")
            open("/tmp/seed-demo/demo.sh", "w").write(DEMO); os.chmod("/tmp/seed-demo/demo.sh", 0o755)
            e = "export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu;"
            b = sh(e + "cargo check -q -p svd-rs --offline && cargo check -q -p svd-parser --offline && cargo check -q -p svd-encoder --offline && cargo test --workspace --all-features --no-fail-fast --offline 2>&1", S, ok=False)
            if b.returncode or b.stdout.count("test result: ok") < 3 or "FAILED" in b.stdout:
                print(f"!! {s['id']}: build or tests fail\n" + b.stdout[-2500:]); bad.append(s["id"]); continue
            w = sh("/tmp/seed-demo/demo.sh", S, ok=False)
            n = sh("/tmp/seed-demo/demo.sh", "/repo", ok=False)
            if n.returncode != 0: print(f"!! {s['id']}: demo fails on the unchanged tree\n{n.stdout[-2500:]}"); bad.append(s["id"]); continue
            if w.returncode != 101: print(f"!! {s['id']}: demo exits {w.returncode} with the change\n{w.stdout[-2500:]}"); bad.append(s["id"]); continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(patch)
            shutil.copy("/tmp/seed-demo/main.rs", d); shutil.copy("/tmp/seed-demo/demo.sh", d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print("ok", s["id"], flush=True); continue
        bad.append(s["id"])
    shutil.rmtree(S); print("bad:", bad)
main()
