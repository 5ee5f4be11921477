#!/usr/bin/env python3
"""Mutation run for finding gaps: small syntactic changes of /repo's sources, each built and checked in
scratch copies under /tmp/mut (removed by hand afterwards). usage: mutate.py WORKERS STEP [regex of files]
Results: /tmp/mut/results.txt (one line per mutant), survivors to be looked at by a person."""
import os, re, subprocess, sys, glob, threading, queue, shutil, time, hashlib
V = "/verif"; M = "/tmp/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow", PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_TERM_COLOR="never")
SWAPS = [(" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" + ", " - "), (" - ", " + "), (" | ", " & "), (" * ", " + "),
  (".or(", ".and("), (".rev()", ""), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".min(", ".max("), (".max(", ".min("), (".first()", ".last()"), (".last()", ".first()"), (".any(", ".all("), (".all(", ".any("),
  (".starts_with(", ".ends_with("), ("true", "false"), ("false", "true"), ("Self::Weak", "Self::Strict"), ("is_weak()", "is_strict()"), ("is_strict()", "is_weak()"), (".is_empty()", ".is_empty() == false"), ("..=", ".."), ("push_str(", "clear(); s.push_str("), ("None =>", "None if false =>"), (" break;", " continue;"), ("continue;", "break;"), (".rsplit(", ".split("), (".rfind(", ".find("), ("u32", "u16"), (".trim()", ""), (".skip(1)", ""), ("checked_add", "checked_sub"), ("saturating_sub", "saturating_add")]
def strip_tests(lines):
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): return i
        if re.match(r"\s*mod tests", l): return i
    return len(lines)
def mutants(path):
    lines = open(path).read().split("\n"); n = strip_tests(lines); inattr = 0
    for i in range(n):
        l = lines[i]; s = l.strip()
        if s.startswith("//") or not s: continue
        if s.startswith("#["):
            inattr = s.count("[") - s.count("]"); 
            continue
        if inattr > 0:
            inattr += s.count("[") - s.count("]"); continue
        if s.startswith(("use ", "pub use ", "mod ", "pub mod ", "pub fn", "fn ", "pub struct", "impl", "pub enum", "extern", "#!")): continue
        code = l.split("//")[0]
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "pub ", "use", "type", ")", "]")): yield i, re.match(r"\s*", l).group(0) + ";", "del"
        if s.startswith(".") and s.endswith(")"): yield i, "", "delchain"
        if s.startswith(".") and s.endswith(");"): yield i, ";", "delchain"
        if re.match(r"\.[a-z_]+\(.*\)\?;?$", s): yield i, ("?;" if s.endswith(";") else "?"), "delchain"
        m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
        if m:
            yield i, f"{m.group(1)}!({m.group(2)}){m.group(3)}", "neg"
            yield i, f"{m.group(1)}false && ({m.group(2)}){m.group(3)}", "iffalse"
        m = re.match(r"^(\s*(?:\} else )?if let .*)( \{)$", code)
        if s.endswith("?;") and not s.startswith(("let ", ".", ")", "}")): yield i, re.sub(r"\?;$", ".ok();", l), "noq"
        if re.match(r"^\s*return Err\(.*;$", code): yield i, re.sub(r"return.*;", ";", code), "noerr"
        for a, b in SWAPS:
            for k in [m.start() for m in re.finditer(re.escape(a), code)]:
                if a in ("true", "false", "u32") and (k and (code[k-1].isalnum() or code[k-1] in '_"') or code[k+len(a):k+len(a)+1].isalnum() or code[k+len(a):k+len(a)+1] in ('_', '"')): continue
                yield i, code[:k] + b + code[k+len(a):], "swap" + a
        for m in re.finditer(r"(?<![\w.\"#x])(\d+)(?![\w.\"x])", code):
            yield i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], "int"
        m = re.search(r"\.or\(([^()]*)\)", code)
        if m: yield i, code[:m.start()] + code[m.end():], "noor"
        m = re.search(r"(self|builder|derived|other|b|c)\.(\w+) = (.*);$", code)
def order(f):
    if f.startswith("svd-encoder"): return "C09 C10 C11 C13 C12"
    b = os.path.basename(f)
    if b == "expand.rs": return "C15 C14 C18 C26 C16 C17 C19 C27"
    if f.startswith("svd-parser"): return "C01 C05 C03 C04 C07 C08 C06 C25 C20 C14 C13 C19 C02"
    if b == "derive_from.rs": return "C16 C27"
    if b == "bitrange.rs": return "C04 C24 C20 C09"
    if b in ("array.rs", "dimelement.rs"): return "C14 C20 C15 C01 C09 C21 C22 C06 C05 C23 C26 C02"
    if b in ("registercluster.rs",): return "C23 C20 C15 C01"
    return "C01 C05 C20 C22 C21 C06 C25 C23 C24 C04 C08 C14 C10"
def run(cmd, cwd, timeout=600, env=ENV):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return None
def worker(w, q, out, lock, nw):
    D = f"{M}/w{w}"
    if not os.path.exists(D):
        os.makedirs(D); run(f"cp -a /repo {D}/repo; cp -a {V}/harness {D}/harness; cp {V}/known_findings.jsonl {D}/; mkdir -p {D}/evidence {D}/replays; rm -rf {D}/repo/target", "/")
        run(f"sed -i 's#/repo/#{D}/repo/#' {D}/harness/Cargo.toml", "/")
    env = dict(ENV, SVDMC_ROOT=D, SVDMC_THREADS="2")
    while True:
        try: f, i, new, kind = q.get_nowait()
        except queue.Empty: return
        p = f"{D}/repo/{f}"; orig = open(f"/repo/{f}").read(); ls = orig.split("\n"); old = ls[i]; ls[i] = new
        open(p, "w").write("\n".join(ls)); t0 = time.time()
        ch = run(f"timeout 120 cargo check -q --offline --release --manifest-path {D}/harness/Cargo.toml --target-dir {D}/chk", D, env=env)
        res = "nocompile"
        if ch is not None and ch.returncode == 0:
            b = run(f"cargo build -q --release --offline --manifest-path {D}/harness/Cargo.toml --target-dir {D}/target", D, env=env)
            if b is None or b.returncode: res = "nobuild"
            else:
                res = "SURVIVED"
                for c in order(f).split():
                    r = run(f"{D}/target/release/svdmc check {c} quick", D, env=env)
                    if r is None: res = "timeout " + c; break
                    if r.returncode: res = f"killed {c} rc={r.returncode}"; break
        open(p, "w").write(orig)
        with lock:
            out.write(f"{res}\t{f}:{i+1}\t{kind}\t{old.strip()}\t=>\t{new.strip()}\t{time.time()-t0:.0f}s\n"); out.flush()
def main():
    nw, step = int(sys.argv[1]), int(sys.argv[2]); pat = sys.argv[3] if len(sys.argv) > 3 else ""
    done = set()
    if os.path.exists(M + "/results.txt"):
        for l in open(M + "/results.txt"): c = l.rstrip("\n").split("\t"); done.add((c[1], c[2], c[5]))
    todo = []
    for f in sorted(glob.glob("/repo/svd-*/src/*.rs")):
        r = f[len("/repo/"):]
        if pat and not re.search(pat, r): continue
        todo += [(r, i, n, k) for i, n, k in mutants(f)]
    todo = [t for j, t in enumerate(todo) if int(hashlib.md5(repr(t).encode()).hexdigest(), 16) % step == 0 and (f"{t[0]}:{t[1]+1}", t[3], t[2].strip()) not in done]
    todo.sort(key=lambda t: hashlib.md5(repr(t).encode()).hexdigest())
    print(len(todo), "mutants", flush=True)
    if nw == 0: return
    q = queue.Queue(); [q.put(t) for t in todo]
    lock = threading.Lock(); out = open(M + "/results.txt", "a")
    ts = [threading.Thread(target=worker, args=(w, q, out, lock, nw)) for w in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
