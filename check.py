#!/usr/bin/env python3
"""check.py ID [--thorough]: decide one property on /repo's working tree.

Extract the functions of /repo mechanically (tool/vx), attach the contracts of
ov/*.ov, and have Verus discharge every obligation.  See DESIGN.md, "Driver".
"""
import json, os, re, subprocess, sys, time, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VX = os.path.join(HERE, "tool/target/release/vx")
VH = os.path.join(HERE, "harness/target/release/vh")

OVERLAY = {"S": "scan", "P": "parse", "R": "resolve", "M": "main", "E": "display"}
# The property which panics, overflows, non-termination in an overlay belong to.
TOTAL = {"scan": "S01", "parse": "P01", "resolve": "R06", "main": "M01", "display": "E01"}
# The clauses an overlay is checked with: those of the property, and those of
# the properties its argument uses (None: every clause at once).
PROPS = {
    "P01": "P01", "P02": "P02,P01,P03", "P03": "P03,P01,P02", "P04": "P04,P01,P02,P03", "P05": "P05,P01,P02,P03", "P06": "P06,P01",
    "R01": "R01,R03", "R02": "R02", "R03": "R03", "R04": "R04", "R05": "R05,R02", "R06": "R06",
}
# Where it differs, the clauses the vacuity canaries are checked with: the same
# requires and assumed contracts, without the postconditions that take long.
CANARY_PROPS = {"R01": "R06", "R03": "R06"}
# The contracts of other overlays which the overlay of a property assumes:
# proved again in the same run.  {overlay: property -> what its failure means}
DEPS = {"P": {"scan": {"S01": "P01"}}, "M": {"scan": {}, "parse": {}, "resolve": {}}}
# ... with these clauses of theirs.
DEP_PROPS = {"M": {"parse": "P01", "resolve": "R05,R06,R02"}}
EXTRACTED = {
    "scan": "src/scanner.rs, src/token.rs, src/error.rs, src/source_loc.rs",
    "parse": "src/parser.rs, src/ast.rs, src/environment.rs, src/token.rs, src/error.rs, src/source_loc.rs; the contract of "
             "Scanner::scan_tokens is assumed there and proved from src/scanner.rs in the same run of the check (overlay scan)",
    "resolve": "src/resolver.rs, src/ast.rs, src/environment.rs, src/value.rs, src/error.rs, src/source_loc.rs",
    "display": "src/error.rs, src/source_loc.rs, src/token.rs",
    "main": "src/main.rs, with the types of src/ast.rs, src/error.rs and the signatures of parser::parse, parse_repl_line, "
            "Resolver::new, resolve (assumed to be functions of their arguments; that they end without a panic and leave a "
            "resolver ready for the next program is proved in the same run, overlays scan, parse, resolve)",
}
DROPPED = ("the extraction drops attributes, doc comments, #[cfg(test)] and wasm32 items, Display impls (but for those of error.rs in the check of E01), derives other than "
           "Copy/Clone/PartialEq/Eq, and the text built by format! (an unspecified String); it rewrites the constructs Verus lacks "
           "by the rules listed under `rewrites` (DESIGN.md, \"Extraction\")")


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(d, force=None):
    if force:
        fp = os.path.join(d, "target/release/.fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(force + "-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=d, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def ensure_tool():
    if not os.path.exists(VX):
        ok, out = build(os.path.join(HERE, "tool"))
        if not ok:
            print(out)
            sys.exit(2)


class Verus:
    """One run of the extractor and the verifier."""

    def __init__(self, ov, work, canary=False, extra=(), props=None):
        self.ov, self.canary = ov, canary
        tag = ov + ("_canary" if canary else "")
        self.rs, self.mp = os.path.join(work, tag + ".rs"), os.path.join(work, tag + ".json")
        cmd = [VX, "--repo", REPO, "--overlay", os.path.join(HERE, "ov", ov + ".ov"),
               "--baseline", os.path.join(HERE, "ov", ov + ".base"), "--out", self.rs, "--map", self.mp]
        if canary:
            cmd.append("--canary")
        if props:
            cmd += ["--props", props]
        for p in (self.rs, self.mp):
            if os.path.exists(p):
                os.remove(p)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.map, self.proc = None, None
        self.extract_error = None
        if r.returncode != 0 or not os.path.exists(self.mp):
            self.extract_error = "extraction failed: " + r.stdout.strip()[:2000]
            return
        self.map = json.load(open(self.mp))
        self.src = open(self.rs).read().split("\n")
        self.cmd = ["verus", self.rs, "--multiple-errors", "60" if canary else "12",
                    "--error-format=json", "--output-json", "--time"] + list(extra)
        self.out, self.err = os.path.join(work, tag + ".out"), os.path.join(work, tag + ".err")
        self.t0 = time.time()
        self.proc = subprocess.Popen(self.cmd, cwd=work, env=env(), stdout=open(self.out, "w"), stderr=open(self.err, "w"))

    def wait(self, limit):
        if self.proc is None:
            return
        try:
            self.proc.wait(timeout=max(1, limit))
            self.timed_out = False
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            self.timed_out = True
        self.secs = time.time() - self.t0
        try:
            t = open(self.out).read()
            self.json = json.loads(t[t.index("{"):])
        except Exception:
            self.json = {}
        self.diags = []
        for l in open(self.err):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    self.diags.append(d)

    def results(self):
        return self.json.get("verification-results", {})

    def smt_ms(self):
        try:
            return self.json["times-ms"]["smt"]["smt-run"]
        except Exception:
            try:
                return self.json["times-ms"]["verification"]["verify-crate"]["total-smt-run"]
            except Exception:
                return None

    def fn_at(self, line):
        for f in self.map["functions"]:
            if f["lo"] <= line <= f["hi"]:
                return f["name"]
        return None

    def region_at(self, line):
        best = None
        for r in self.map["regions"]:
            if r["lo"] <= line <= r["hi"] and (best is None or r["hi"] - r["lo"] < best["hi"] - best["lo"]):
                best = r
        return best

    def failures(self):
        """[(property tag or None, function, kind, text, rendered)] and the undecided ones."""
        bad, und = [], []
        for d in self.diags:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            base = os.path.basename(self.rs)
            spans = []
            for s in d.get("spans", []):
                while os.path.basename(s["file_name"]) != base and s.get("expansion"):
                    s = dict(s["expansion"]["span"], is_primary=s.get("is_primary"), label=s.get("label"))
                if os.path.basename(s["file_name"]) == base:
                    spans.append(s)
            prim = next((s for s in spans if s.get("is_primary")), None) or (spans[0] if spans else None)
            fn = None
            for s in spans:
                f = self.fn_at(s["line_start"])
                if f and (fn is None or s.get("is_primary")):
                    fn = f
            if prim is None or d.get("code") or not re.search(
                    r"postcondition|precondition|invariant|assert|overflow|underflow|decreases|termination|unreach|"
                    r"split|index|divide|rlimit|Resource limit|recommend", msg, re.I):
                und.append(("unsupported", fn, msg, d.get("rendered", "")))
                continue
            if re.search(r"rlimit|Resource limit", msg, re.I):
                und.append(("rlimit", fn, msg, d.get("rendered", "")))
                continue
            tag, text, kind = None, "", msg
            # The clause which failed: in most diagnostics a secondary span.
            order = sorted(spans, key=lambda s: (s.get("label") or "").startswith("failed") is False)
            for s in order:
                r = self.region_at(s["line_start"])
                if r is not None and r["kind"] not in ("lib",):
                    if (s.get("label") or "").startswith("failed") or s.get("is_primary"):
                        tag, text = r["origin"], r["text"]
                        kind = msg + " (" + r["kind"] + ")"
                        break
            if not text and re.search(r"overflow|underflow|precondition|decreases|unreach|divide|index", msg, re.I):
                tag = TOTAL[self.ov]
                text = self.src[prim["line_start"] - 1].strip()
            if re.search(r"decreases|termination", msg, re.I):
                tag = TOTAL[self.ov]
            bad.append((tag, fn, kind, text, d.get("rendered", "")))
        return bad, und


def trusted(v):
    """Mechanical scan of the generated file for everything the proof assumes."""
    out = []
    for i, l in enumerate(v.src):
        t = l.strip()
        if "external_body" in t or "assume_specification" in t or re.search(r"\baxiom\s+fn\b", t) or "uninterp spec" in t \
                or re.search(r"\bassume\(", t) or "admit()" in t:
            j, name = i, None
            while j < min(i + 6, len(v.src)):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", v.src[j])
                if m:
                    name = m.group(2)
                    break
                j += 1
            kind = "axiom" if "axiom" in t else "uninterpreted" if "uninterp" in t else "assume" if "assume(" in t or "admit" in t \
                else "external_body"
            fn = v.fn_at(j + 1)
            if fn and fn in v.map.get("splits", {}):
                continue  # discharged case by case
            if kind == "external_body" and fn:
                out.append("assumed contract of %s" % fn)
            else:
                out.append("%s %s" % (kind, name))
    return sorted(set(out))


def changed_words(work):
    """The words and numbers of the code which is not the code the contracts were
    written for: the search tries them."""
    try:
        base = dict(l.split() for l in open(os.path.join(HERE, "ov/words.base")))
        now = subprocess.run([VX, "--repo", REPO, "--words"], stdout=subprocess.PIPE, text=True).stdout
        out, new = [], False
        for l in now.split("\n"):
            if l.startswith("\t"):
                if new:
                    out.append(l[1:])
            elif l:
                k, h = l.split()
                new = base.get(k) != h
        f = os.path.join(work, "words")
        with open(f, "w") as g:
            g.write("".join(x + "\n" for x in dict.fromkeys(out)))
        return f
    except Exception:
        return None


def run_search(prop, secs, work):
    """Look for a failing input on the real code."""
    ok, out = build(os.path.join(HERE, "harness"), force="whitespace")
    if not ok:
        return {"found": False, "error": "the harness does not build: " + out[-1500:]}
    d = os.path.join(work, "search")
    os.makedirs(d, exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    e = env()
    w = changed_words(work)
    if w:
        e["VH_WORDS"] = w
    if prop == "M01":
        # The program itself, built from the working tree.
        e["CARGO_TARGET_DIR"] = os.path.join(HERE, "harness/target/cli")
        fp = os.path.join(e["CARGO_TARGET_DIR"], "debug/.fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("whitespace-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        b = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "whitespace"], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            return {"found": False, "error": "the program does not build: " + b.stdout[-1500:]}
        e["VH_BIN"] = os.path.join(e.pop("CARGO_TARGET_DIR"), "debug/whitespace")
        e["VH_DIR"] = d
    try:
        r = subprocess.run([VH, "search", "--prop", prop, "--seed", seed, "--secs", str(secs), "--dir", d],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 240, env=e)
        return json.loads(r.stdout.strip().split("\n")[-1])
    except Exception as e:
        return {"found": False, "error": str(e)}


class Replay:
    """The extracted code run next to the real code (tools/replay.py): bounded."""

    def __init__(self, work, program):
        self.file, self.t0 = os.path.join(work, "replay.json"), time.time()
        self.proc = subprocess.Popen([sys.executable, os.path.join(HERE, "tools/replay.py"), work] + (["--program"] if program else []),
                                     env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)

    def result(self, limit):
        try:
            self.proc.wait(timeout=max(1, limit))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(self.proc.pid, 9)
        except OSError:
            pass
        self.proc.wait()
        try:
            return json.load(open(self.file))
        except Exception:
            return {"error": "the replay did not finish"}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    elif "--quick" in sys.argv:
        tier = "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    t0 = time.time()
    ov = OVERLAY[prop[0]]
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ensure_tool()

    v = Verus(ov, work, props=PROPS.get(prop))
    c = Verus(ov, work, canary=True, props=CANARY_PROPS.get(prop, PROPS.get(prop)))
    deps = [(Verus(o, work, props=DEP_PROPS.get(prop[0], {}).get(o)), means) for o, means in DEPS.get(prop[0], {}).items()]
    replay = Replay(work, prop[0] == "M")
    v.wait(500)
    for d, _ in deps:
        d.wait(500 - (time.time() - t0))
    # The canaries say nothing about a proof which failed; and the solver may
    # run into the sand on one of them (it re-checks a function once for each).
    failed = v.extract_error or v.map["errors"] or v.map["lost"] or v.map["lost_loops"] or not v.results().get("success")
    c.wait(0 if failed else max(20, 240 - (time.time() - t0)))
    rep = replay.result(0 if failed else max(20, 240 - (time.time() - t0)))

    problems = []  # reasons why there is no proof
    bad, und = [], []
    if v.extract_error:
        problems.append(v.extract_error)
    else:
        problems += v.map["errors"] + ["contracts for missing functions: " + x for x in v.map["lost"]] \
            + ["contracts for missing loops: " + x for x in v.map["lost_loops"]]
        bad, und = v.failures()
        if v.timed_out:
            problems.append("the verifier did not finish in time")
        for k, fn, msg, _ in und:
            problems.append("%s: %s (%s)" % (k, msg, fn))
        res = v.results()
        if not bad and not problems and not res.get("success"):
            problems.append("the verifier gave no result: " + open(v.err).read()[-500:])
        if not bad and not problems and res.get("verified", 0) == 0:
            problems.append("no obligations")
    for d, means in deps:
        if d.extract_error:
            problems.append("%s: %s" % (d.ov, d.extract_error))
            continue
        problems += ["%s: %s" % (d.ov, x) for x in d.map["errors"] + d.map["lost"] + d.map["lost_loops"]]
        dbad, dund = d.failures()
        bad += [(means.get(b[0], b[0]),) + tuple(b[1:]) for b in dbad]
        if d.timed_out:
            problems.append("%s: the verifier did not finish in time" % d.ov)
        problems += ["%s: %s: %s (%s)" % (d.ov, k, msg, fn) for k, fn, msg, _ in dund]
        if not dbad and not dund and not d.results().get("success"):
            problems.append("%s: the verifier gave no result" % d.ov)
    if rep.get("differ"):
        problems.append("the extracted code behaves unlike the real code: " + (rep.get("first") or ""))
    for x in rep.get("assumed", []):
        problems.append("an assumed contract is wrong: " + x)
    # Vacuity: no canary may be provable.  One is refuted by its diagnostic; it
    # is provable if its function was checked to the end without it.
    canaries = hit = undetermined = 0
    if not problems and not bad and c.map is not None:
        lines = {i + 1 for i, l in enumerate(c.src) if "// canary" in l}
        canaries = len(lines)
        got, open_fns = set(), set()
        for d in c.diags:
            for s in d.get("spans", []):
                if s["line_start"] in lines:
                    got.add(s["line_start"])
                if re.search(r"rlimit|Resource limit", d["message"], re.I):
                    open_fns.add(c.fn_at(s["line_start"]))
        hit = len(got)
        rest = sorted(m for m in lines - got if not c.timed_out and c.fn_at(m) not in open_fns)
        undetermined = canaries - hit - len(rest)
        if rest or hit == 0:
            problems.append("vacuous: %d of %d canaries were provable, e.g. in %s" % (
                len(rest), canaries, [c.fn_at(m) for m in rest[:5]]))

    proved = not problems and not bad
    ev = {"property": prop, "tier": tier, "seed": seed, "violations": 0}
    cov = {}
    if v.map is not None:
        mine = [r for r in v.map["regions"] if r.get("origin") == prop]
        fns = sorted({f["name"] for f in v.map["functions"] if f["clauses"] > 0})
        res = v.results() if v.proc else {}
        n_ok, n_err = res.get("verified", 0), res.get("errors", 0)
        cov.update({
            "obligations": n_ok + n_err, "discharged": n_ok,
            "checker_cmd": "vx --overlay ov/%s.ov; %s" % (ov, " ".join(os.path.basename(x) if "/" in x else x for x in v.cmd)),
            "back_end": "Verus 0.2026.09.13 with its Z3",
            "unit": "one obligation = one verification query group of Verus (a function, a loop or a lemma, for all inputs)",
            "functions_under_contract": fns,
            "clauses_under_contract": sum(1 for r in v.map["regions"] if r["kind"] in ("requires", "ensures", "decreases", "invariant", "inv", "inx")),
            "clauses_of_this_property": len(mine),
            "case_splits": v.map.get("splits", {}),
            "rewrites": v.map.get("rules", {}), "inlined": v.map.get("inlined", []), "dropped": v.map.get("dropped", []),
            "solver_ms": v.smt_ms(), "verifier_wall_s": round(getattr(v, "secs", 0), 1),
            "vacuity_canaries": canaries, "vacuity_canaries_refuted": hit,
            "vacuity_canaries_undetermined": undetermined,
            "trusted_base": trusted(v),
            "canaries_checked_with": CANARY_PROPS.get(prop, PROPS.get(prop, "all")),
            "extracted_from": EXTRACTED[ov],
            "clauses_checked_with": PROPS.get(prop, "all"),
            "proved_for_assumed_contracts": [
                {"overlay": d.ov, "obligations": d.results().get("verified", 0) + d.results().get("errors", 0),
                 "discharged": d.results().get("verified", 0), "solver_ms": d.smt_ms(), "trusted_base": trusted(d)}
                for d, _ in deps if d.map is not None and d.proc],
        })
    # Which of the functions proved were run: those of the same code, contracts aside.
    code = dict(v.map.get("code", {})) if v.map else {}
    same = [k for k in code if rep.get("code", {}).get(k) == code[k]]
    cov["extraction_replayed"] = dict({k: rep[k] for k in ("texts", "differ", "assumed", "programs", "secs", "error") if k in rep},
                                      functions="%d of %d" % (len(same), len(code)),
                                      what="the extracted code, compiled, against the real code on lib/replay.corpus; bounded")
    ev["coverage"] = cov
    ev["assumptions"] = [
        DROPPED,
        "the contracts of std, unicode-segmentation, indexmap and fnv items in lib/*.rs (listed in trusted_base) are assumed",
        "the stack is deep enough for the nesting of the input, and memory does not run out",
    ]

    rc, line = 0, None
    srch = None
    if not proved or tier == "thorough":
        srch = run_search(prop, 150 if tier == "thorough" else int(os.environ.get("VH_SECS", "75")), work)
    elif prop[0] == "M":
        # Also what the extraction drops from main: bounded.
        srch = run_search(prop, 8, work)
    if not proved:
        # A loop whose annotations no longer fit (they fail before it starts)
        # says nothing about the property: only an input would.
        off = {b[1] for b in bad if "before loop" in b[2]}
        mine = [b for b in bad if b[0] == prop and b[1] not in off]
        replay = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        doc = {
            "property": prop,
            "failed_obligations": [{"property": b[0], "function": b[1], "kind": b[2], "clause": b[3], "verifier": b[4]} for b in bad],
            "undecided": problems,
        }
        if srch and srch.get("found"):
            doc["failing_input"] = {k: srch[k] for k in ("mode", "lines", "observed") if k in srch}
            f = os.path.join(work, "search/found.input")
            keep = os.path.join(HERE, "evidence", "replay-%s.input" % prop)
            if os.path.exists(f):
                shutil.copy(f, keep)
                doc["replay_cmd"] = "cd %s/harness && cargo build --release --offline && target/release/vh judge --prop %s --file %s" % (HERE, prop, keep)
            line = "VIOLATION property=%s replay=%s" % (prop, replay)
        elif mine:
            line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        if line:
            json.dump(doc, open(replay, "w"), indent=1)
            rc = 1
            ev["violations"] = 1
        for b in bad[:8]:
            print("failed obligation [%s] %s: %s: %s" % (b[0], b[1], b[2], b[3][:160].replace("\n", " ")))
        for p in problems[:6]:
            print("undecided: %s" % p[:300].replace("\n", " "))
    elif srch and srch.get("found"):
        # The code is proved and yet an input fails (M01: the part the extraction drops).
        replay = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        json.dump({"property": prop, "failing_input": srch, "note": "found although every obligation was discharged"},
                  open(replay, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
        rc = 1
        ev["violations"] = 1
    if srch is not None:
        cov["bounded_search"] = {k: srch.get(k) for k in ("cases", "secs", "found", "error") if k in srch}
    if proved:
        ev["level"] = "proof"
        print("property %s: proved; %d obligations discharged, %d of %d vacuity canaries refuted" % (
            prop, cov["discharged"], hit, canaries))
    else:
        ev["level"] = "exploration" if rc == 0 else "proof"
        if rc == 0:
            cov["not_proved"] = problems + ["%s: %s" % (b[1], b[2]) for b in bad]
            cov["explanation"] = "no proof on this tree; no failed obligation belongs to this property, and the bounded search found no failing input"
            cov["evaluations"] = (srch or {}).get("cases", 0)
            cov["distinct_nontrivial"] = (srch or {}).get("cases", 0)
            cov["rule"] = "bounded: generated inputs (harness/src/gen.rs) judged against the property on the real code"
            cov["samples"] = ["vh show --prop %s --i K" % prop]
            print("UNDECIDED property %s: not proved on this tree; bounded search of %s inputs found no failing one" % (
                prop, (srch or {}).get("cases", 0)))
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if line:
        print(line)
    sys.exit(rc)


if __name__ == "__main__":
    main()
