#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decides one property; see DESIGN.md

1. extract the code under contract from /repo (extract/), with the contracts of contracts/
2. Verus discharges the obligations of the modules of the property
3. the replay harness (replay/) looks for a failing input on the real code
"""
import probe as vacuity
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/tsfile-writer/src"
BUILD = HERE + "/.build"
CFG = json.load(open(HERE + "/contracts/props.json"))
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    """no verdict"""
    log("check.py:", msg)
    sys.exit(2)


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        return None


def cargo(d, target, features, env):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, **env)
    cmd = ["cargo", "build", "--offline", "-q"] + (["--features", features] if features else [])
    r = run(cmd, 700, cwd=d, env=e)
    if r is None:
        die("building %s took too long" % d)
    return r


# ------------------------------------------------------------------ extraction and Verus
def build_extractor():
    r = cargo(HERE + "/extract", BUILD + "/xtarget", None, {})
    if r.returncode != 0:
        die("extractor does not build:\n" + r.stderr)
    return BUILD + "/xtarget/debug/extract"


def regions(text):
    """marker path -> (first line, last line)"""
    out, open_ = [], None
    for n, l in enumerate(text.split("\n"), 1):
        for m in re.finditer(r"/\*@F:(.*?)\*/|/\*@E\*/", l):
            if m.group(1) is not None:
                if open_:
                    out.append((open_[0], open_[1], n))
                open_ = (m.group(1), n)
            elif open_:
                out.append((open_[0], open_[1], n))
                open_ = None
    return out


def region_of(regs, line):
    for p, a, b in regs:
        if a <= line <= b:
            return p
    return None


def culprit(d, regs):
    """the function a diagnostic is about"""
    spans = d["spans"]
    if "postcondition" in d["message"]:
        for s in spans:
            if s.get("label") and ("function body" in s["label"] or "exit" in s["label"]):
                p = region_of(regs, s["line_start"])
                if p is None:
                    p = region_of(regs, s["line_end"])
                if p:
                    return p
    for s in sorted(spans, key=lambda s: not s["is_primary"]):
        p = region_of(regs, s["line_start"])
        if p:
            return p
    return None


VERIFICATION = re.compile(
    r"postcondition|precondition|invariant|assertion|assert|overflow|underflow|bit shift|decreases|unreachable|"
    r"divide by zero|division by zero|possible|recommendation|not satisfied|index out of|termination|could not prove", re.I)


def verus(work, modules, probe=False):
    """Runs the extractor and Verus until nothing but verification errors is left."""
    ext = build_extractor()
    external, notes = [], []
    best = None
    for attempt in range(12):
        out, rep = work + "/out.rs", work + "/report.json"
        cmd = [ext, SRC, HERE + "/contracts", out, rep]
        for e in external:
            cmd += ["--external", e]
        r = run(cmd, 120)
        if r is None or r.returncode != 0:
            notes.append("extraction failed: " + (r.stderr.strip()[-2000:] if r else "timeout"))
            return {"ok": False, "notes": notes}
        text = open(out).read()
        report = json.load(open(rep))
        regs = regions(text)
        cmd = ["verus", "--crate-type=lib", out, "--num-threads", "8", "--output-json", "--time-expanded",
               "--error-format=json", "--multiple-errors", "3", "--rlimit", "60"]
        for m in modules:
            cmd += ["--verify-module", m]
        t = time.time()
        r = run(cmd, 500, cwd=work)
        if r is None:
            notes.append("Verus took more than 500 s")
            return {"ok": False, "notes": notes}
        try:
            js = json.loads(r.stdout)
        except ValueError:
            js = {"verification-results": {"encountered-vir-error": True, "verified": 0, "errors": 0}}
        res = js.get("verification-results", {})
        diags = []
        for l in r.stderr.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
        # `obeys_try_from_spec() ==> ...` (and obeys_from_spec) of vstd, where the contracts say `obeys...() == false`: nothing is
        # claimed, but Verus sometimes asks before it has defined the function that says so
        vacuous = [d for d in diags if "postcondition" in d["message"] and any("std_specs/convert.rs" in (s.get("file_name") or "") for s in d["spans"])]
        diags = [d for d in diags if d not in vacuous]
        times = js.get("times-ms", {})
        breakdown = [f for m in times.get("smt", {}).get("smt-run-module-times", []) for f in m.get("function-breakdown", [])]
        structural = bool(res.get("encountered-vir-error")) or "verified" not in res or (not breakdown and diags)
        if vacuous and not structural:
            res = dict(res, verified=res["verified"] + len(vacuous), errors=res["errors"] - len(vacuous))
        if not structural and res["verified"] + res["errors"] == 0:
            notes.append("Verus verified nothing: " + r.stderr[-1500:])
            return {"ok": False, "notes": notes}
        if not structural:
            fails = {}
            for d in diags:
                p = culprit(d, regs) or "(contracts)"
                fails.setdefault(p, []).append(d)
            failed_fns = [f["function"] for f in breakdown if not f["success"]]
            best = {"ok": True, "notes": notes, "verified": res["verified"], "errors": res["errors"], "fails": fails,
                    "failed_fns": failed_fns, "smt_ms": times.get("smt", {}).get("smt-run", 0), "wall": time.time() - t,
                    "report": report, "text": text, "external": external, "breakdown": breakdown,
                    "rlimit": any("rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() for d in diags)}
            return best
        # something Verus does not take: leave those functions out
        bad = set()
        for d in diags:
            p = culprit(d, regs)
            if p and p not in external:
                bad.add(p)
                notes.append("%s: %s" % (p, d["message"].split("\n")[0]))
        if not bad:
            notes.append("extracted code not accepted: " + "; ".join(d["message"].split("\n")[0] + " at line %d" % d["spans"][0]["line_start"] for d in diags[:5])
                         + ("" if diags else r.stderr[-1500:]))
            return {"ok": False, "notes": notes}
        external += sorted(bad)
    notes.append("gave up leaving functions out")
    return {"ok": False, "notes": notes}


# ------------------------------------------------------------------ replay
def build_replay(feature):
    """The harness on the internals; on the public interface alone where the hooks do not fit the code any more."""
    t = BUILD + "/target"
    fp = t + "/debug/.fingerprint"
    first = None
    for feat, flags in [(feature, "--cfg verif_hooks -Awarnings"), (None, "-Awarnings")]:
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("tsfile-") or n.startswith("replay-") or n.startswith("tsfile_"):
                    shutil.rmtree(os.path.join(fp, n))
        r = cargo(HERE + "/replay", t, feat, {"RUSTFLAGS": flags})
        if r.returncode == 0:
            return t + "/debug/replay", first
        first = first or "the replay harness runs without hooks: " + r.stderr[-1500:]
    die("the replay harness does not build:\n" + r.stderr[-4000:])


def replay(exe, prop, seed, tier, seconds, work, out):
    j = work + "/replay.json"
    cmd = [exe, "--property", prop, "--seed", str(seed), "--tier", tier, "--seconds", str(seconds), "--threads", "8",
           "--out", j, "--replay-out", out]
    r = run(cmd, seconds + 150, cwd=work, env=dict(os.environ, REPLAY_SCRATCH=work))
    if r is not None and r.returncode in (0, 1):
        return r.returncode == 1, json.load(open(j)), None
    why = "did not end" if r is None else "a case did not end" if r.returncode == 3 else "ended with %d" % r.returncode
    if not os.path.exists(out):
        with open(out, "w") as f:
            f.write("property: %s\nfinding: the run of the real code %s\ncommand: %s\n%s\n" % (prop, why, " ".join(cmd), r.stderr[-3000:] if r else ""))
    return False, {"evaluations": 0, "distinct_nontrivial": 0}, why


def trusted(text):
    """what the extracted text assumes"""
    t = set()
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]", text):
        t.add("assumed specification of " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        t.add("uninterpreted " + m.group(1))
    for m in re.finditer(r"proof fn (axiom_\w+)", text):
        t.add("axiom " + m.group(1))
    return sorted(t)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CFG["properties"][prop]
    work = BUILD + "/work-%s-%d" % (prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/found", exist_ok=True)
    rfile = BUILD + "/found/%s.txt" % prop
    if os.path.exists(rfile):
        os.remove(rfile)
    try:
        code = decide(prop, tier, seed, cfg, work, rfile)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, cfg, work, rfile):
    known = set(open(HERE + "/contracts/known_functions.txt").read().split("\n"))
    relevant = [re.compile(x) for x in cfg.get("functions", [])]
    rel = lambda p: any(x.search(p) for x in relevant)
    v = verus(work, cfg["modules"]) if cfg["modules"] else {"ok": False, "notes": ["no contract reaches this property"]}
    exe, nohooks = build_replay(cfg.get("feature", "hooks"))
    if nohooks:
        log(nohooks)
    broken, lost, other = {}, {}, {}
    coverage = {}
    if v["ok"]:
        rep = v["report"]
        # functions of /repo that the contracts do not know
        fresh = {f["path"] for f in rep["functions"] if f["path"] not in known}
        lost_at = {}
        for l in rep["lost"]:
            p = l.split(": ")[0]
            lost_at.setdefault(p, []).append(l)
        body = {p: "\n".join(v["text"].split("\n")[a - 1:b]) for p, a, b in regions(v["text"])}
        for p in v["external"]:
            if rel(p):
                lost[p] = ["not accepted by Verus any more"]
        for p, ls in lost_at.items():
            if rel(p) and any(": function" in l for l in ls):
                lost[p] = ls
        for p, ds in v["fails"].items():
            why = list(lost_at.get(p, []))
            if p != "(contracts)":
                for f in fresh:
                    if re.search(r"\b%s\s*(::<.*?>)?\(" % re.escape(f.split("::")[-1]), body.get(p, "")):
                        why.append("calls %s, which has no contract" % f)
                if all("rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() for d in ds):
                    why.append("solver gave up")
            if p == "(contracts)":
                # a lemma of the contracts does not hold any more (of a constant of the code, say): nothing that may use it counts as proved
                lost[p] = ["%s at line %d of the extracted text" % (d["message"].split("\n")[0], d["spans"][0]["line_start"]) for d in ds]
            elif not rel(p):
                other[p] = ds
            elif why:
                lost[p] = why
            else:
                broken[p] = ds
        fns = [f for f in rep["functions"] if rel(f["path"])]
        proved = [f["path"] for f in fns if f["contract"] and not f["external"] and f["path"] not in broken and f["path"] not in lost and "(contracts)" not in lost]
        total = v["verified"] + v["errors"]
        if total == 0 or not proved:
            if not lost:
                die("nothing was verified")
        coverage = {
            "obligations": total,
            "discharged": v["verified"],
            "checker_cmd": "verus --crate-type=lib out.rs --rlimit 60 " + " ".join("--verify-module " + m for m in cfg["modules"]),
            "back_end": "Verus 0.2026.09.13 (Z3)",
            "solver_ms": v["smt_ms"],
            "verus_wall_s": round(v["wall"], 1),
            "functions_under_contract": ["%s (%s:%d)" % (f["path"], f["file"], f["line"]) for f in fns if f["path"] in proved],
            "functions_bounded_stand_in": sorted(
                [f["path"] for f in fns if f["path"] not in proved and f["path"] not in broken and f["path"] not in lost]
                + list(lost)),
            "lost": {p: w for p, w in lost.items()},
            "failed": {p: [d["message"].split("\n")[0] for d in ds] for p, ds in broken.items()},
            "failed_but_not_of_this_property": {p: [d["message"].split("\n")[0] for d in ds] for p, ds in other.items()},
            "trusted_base": CFG["trusted"] + cfg.get("trusted", []) + trusted(v["text"]),
            "extraction_drops": rep["dropped"],
            "extraction_rewrites": rep["desugared"],
            "notes": v["notes"],
        }
    else:
        coverage = {"obligations": 0, "discharged": 0, "checker_cmd": "none", "trusted_base": CFG["trusted"], "notes": v["notes"],
                    "functions_bounded_stand_in": cfg.get("functions", [])}
        for n in v["notes"]:
            log("verus:", n)
    thorough = tier == "thorough"
    deep = thorough or bool(broken) or bool(lost) or not v["ok"]
    found, rj, crashed = replay(exe, prop, seed, "thorough" if deep else "quick", 600 if thorough else (200 if deep else 60), work, rfile)
    if crashed:
        # the real code hangs, aborts or exhausts memory on a generated input
        log("replay:", crashed)
        if cfg.get("total"):
            found = True
        elif not v["ok"] or lost:
            if not broken:
                die("neither proof nor replay decides: replay " + crashed)
    coverage["bounded"] = {
        "what": "the same property on the real code, generated inputs; never counted as proved",
        "evaluations": rj["evaluations"], "distinct_nontrivial": rj["distinct_nontrivial"], "kinds": rj.get("kinds"), "wall_s": rj.get("wall_s"),
    }
    if thorough and v["ok"] and not v["fails"]:
        coverage["vacuity_probe"] = vacuity.probe(v["text"], cfg["modules"], work)
    coverage["evaluations"] = rj["evaluations"]
    coverage["distinct_nontrivial"] = rj["distinct_nontrivial"]
    coverage["rule"] = "bounded stand-in: cases of the replay harness, by its generators; a case is non-trivial if the code under test accepted something"
    coverage["samples"] = rj.get("samples", [])[:3]
    code = 0
    for p, ds in broken.items():
        for d in ds:
            log("failed obligation in %s: %s" % (p, d["rendered"]))
    for p, w in lost.items():
        log("not decided by proof (bounded check only): %s: %s" % (p, "; ".join(w)))
    if found:
        with open(rfile, "a") as f:
            for p, ds in broken.items():
                for d in ds:
                    f.write("\n# failed obligation in %s\n" % p + "".join("# " + l + "\n" for l in d["rendered"].split("\n")))
        print("VIOLATION property=%s replay=%s" % (prop, rfile))
        code = 1
    elif broken:
        with open(rfile, "w") as f:
            f.write("property: %s\nno failing input found (%d inputs tried)\n" % (prop, rj["evaluations"]))
            for p, ds in broken.items():
                for d in ds:
                    f.write("\nfailed obligation in %s\n%s\n" % (p, d["rendered"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rfile))
        code = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": coverage, "wall_s": round(time.time() - T0, 1),
          "verdict": "violation" if code else "held"}
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    return code


if __name__ == "__main__":
    main()
