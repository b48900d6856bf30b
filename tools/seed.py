#!/usr/bin/env python3
"""seed.py SPEC...: make and confirm planted bugs in a scratch copy of /repo.

A SPEC is a Python file defining ID, PROPERTY, EDITS [(file, old, new)], DEMO (Rust
main) or CLI (commands which run the program as `ws`), NEEDS, BREAKS.  Writes seeded/ID/{patch.diff,demo.sh,main.rs,meta.json} once
the change builds, passes the suite, and the demonstration tells the trees apart."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo: builds main.rs against the working tree in a scratch folder.
[ -f /opt/vp/env.sh ] && { eval "$(grep '^export' /opt/vp/env.sh)"; }
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
whitespace = { path = "$repo" }
[workspace]
END
cd "$t" && cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
(ulimit -v 4000000; timeout 60 "$t/target/debug/demo")
'''
CLI_SH = r'''#!/bin/bash
# Run with cwd /repo: builds the program in a scratch folder and runs it.
[ -f /opt/vp/env.sh ] && { eval "$(grep '^export' /opt/vp/env.sh)"; }
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0
cargo build -q --bin whitespace --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
ws() { (ulimit -v 4000000; ulimit -f 100000; timeout 60 "$t/target/debug/whitespace" "$@"); }
cd "$t"
'''
PRE = "#![allow(unused)]\n"
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    ids = json.load(open("/opt/vp/BASELINE.json"))
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        subprocess.check_call(["git", "-C", S, "fetch", "-q", "/repo", "HEAD"])
        subprocess.check_call(["git", "-C", S, "reset", "-q", "--hard", "FETCH_HEAD"])
        for f, old, new in g["EDITS"]:
            p = os.path.join(S, f); t = open(p).read()
            if t.count(old) != 1:
                print(g["ID"], "edit matches", t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            d = os.path.join(HERE, "seeded", g["ID"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE, text=True).stdout
            # Lines removed must be of the original repository.
            if "DEMO" in g:
                open(d + "/main.rs", "w").write(PRE + g["DEMO"])
            open(d + "/demo.sh", "w").write(DEMO_SH if "DEMO" in g else CLI_SH + g["CLI"]); os.chmod(d + "/demo.sh", 0o755)
            bad = run(["bash", d + "/demo.sh"], S)
            e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target")
            t = run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], S, env=e)
            subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
            good = run(["bash", d + "/demo.sh"], S)
            ok = bad.returncode not in (0, 3) and t.returncode == 0 and good.returncode == 0
            print(g["ID"], "OK" if ok else "REJECTED", "patched demo:", bad.returncode, "suite:", t.returncode, "clean demo:", good.returncode)
            if not ok:
                print(bad.stdout[-500:], [l for l in t.stdout.split("\n") if "FAILED" in l], good.stdout[-500:])
                shutil.rmtree(d); continue
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
main()
