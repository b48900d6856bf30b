#!/usr/bin/env python3
"""Runs the extracted code (ov/exec.ov: all of it, with the stubs of lib/ made
real) next to the code it was extracted from, on the texts of lib/replay.corpus,
and tests what lib/ assumes of std and the dependencies.  Bounded: it shows that
the extraction reads the code as the compiler does, and proves nothing.

replay.py WORKDIR [--program] writes WORKDIR/replay.json"""
import glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VX = os.path.join(HERE, "tool/target/release/vx")


def sh(cmd, env, limit, **kw):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, **kw)


def run(work, env, program=False, limit=200):
    """{"texts", "differ", "assumed", "code": {function: hash}} or {"error"}."""
    d = os.path.join(work, "replay")
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    try:
        rs, mp, exe = (os.path.join(d, "exec" + x) for x in (".rs", ".json", ""))
        r = sh([VX, "--repo", REPO, "--overlay", HERE + "/ov/exec.ov", "--baseline", HERE + "/ov/exec.base", "--exec", HERE + "/lib/replay.rs", "--out", rs, "--map", mp], env, 60)
        if r.returncode != 0:
            return {"error": "extraction: " + r.stdout.decode()[-300:]}
        m = json.load(open(mp))
        v = sh(["verus", "--version"], env, 60).stdout.decode()
        tc = re.search(r"Toolchain: (\S+)", v).group(1)
        e = dict(env)
        e["CARGO_TARGET_DIR"] = os.path.join(HERE, "harness/target/replay")
        fp = os.path.join(e["CARGO_TARGET_DIR"], "debug/.fingerprint")
        for x in glob.glob(fp + "/whitespace-*"):
            shutil.rmtree(x, ignore_errors=True)
        r = sh(["cargo", "+" + tc, "build", "--offline", "--locked", "--lib"] + (["--bins"] if program else []), e, limit, cwd=REPO)
        if r.returncode != 0:
            return {"error": "the crate does not build with %s: %s" % (tc, r.stdout.decode()[-300:])}
        lib = os.path.join(e["CARGO_TARGET_DIR"], "debug")
        cmd = ["verus", rs, "--no-verify", "--compile", "--cfg", "vx_exec", "-o", exe, "-L", "dependency=%s/deps" % lib,
               "--extern", "whitespace=%s/libwhitespace.rlib" % lib]
        for x in ("unicode_segmentation", "indexmap"):
            cmd += ["--extern", "%s=%s" % (x, max(glob.glob("%s/deps/lib%s-*.rlib" % (lib, x)), key=os.path.getmtime))]
        r = sh(cmd, env, limit, cwd=d)
        if not os.path.exists(exe):
            return {"error": "the extracted code does not compile: " + r.stdout.decode()[-300:]}
        corpus = os.path.join(HERE, "lib/replay.corpus")
        r = sh([exe], env, limit, stdin=open(corpus))
        out = r.stdout.decode(errors="replace")
        s = re.search(r"sessions (\d+) texts (\d+) differ (\d+)", out)
        if not s:
            return {"error": "the replay gave no result: " + out[-300:]}
        res = {"texts": int(s.group(2)), "differ": int(s.group(3)),
               "assumed": re.findall(r"^ASSUMED (.*)$", out, re.M),
               "first": out[:800] if int(s.group(3)) else None, "code": m["code"]}
        if program:
            n, bad = programs(exe, os.path.join(lib, "whitespace"), corpus, d, env)
            res["programs"] = n
            res["differ"] += len(bad)
            res["first"] = res["first"] or (bad and bad[0]) or None
        res["secs"] = round(time.time() - t0, 1)
        return res
    except Exception as x:
        return {"error": "replay: %r" % x}


def programs(exe, real, corpus, d, env):
    """The program, extracted and real: on a file, and on a session of the prompt."""
    n, bad = 0, []
    e = dict(env, VX_PROGRAM="1")
    f = os.path.join(d, "in.ws")
    for s in open(corpus, newline="").read().split("\x02")[:-1:12]:
        lines = s.split("\x01")[:-1]
        for mode in ("file", "prompt"):
            args, data = [], "".join(l if l.endswith("\n") else l + "\n" for l in lines).encode()
            if mode == "file":
                open(f, "w", newline="").write(lines[0])
                args, data = [f], b""
            got = [(r.returncode, r.stdout, r.stderr) for r in
                   (subprocess.run([x] + args, input=data, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20) for x in (exe, real))]
            n += 1
            if got[0] != got[1]:
                bad.append("program, %s %r: %r, not %r" % (mode, lines, got[0], got[1]))
    return n, bad


if __name__ == "__main__":
    w = sys.argv[1]
    r = run(w, dict(os.environ), program="--program" in sys.argv)
    json.dump(r, open(os.path.join(w, "replay.json.tmp"), "w"))
    os.rename(os.path.join(w, "replay.json.tmp"), os.path.join(w, "replay.json"))
    r.pop("code", None)
    print(json.dumps(r, indent=1))
