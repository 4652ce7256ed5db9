"""Vacuity probe: `assert(false)` at the start of every function and every loop body of the extracted text has to fail.
One that is proved means contradictory preconditions, invariants or axioms."""
import json, re, subprocess


def instrument(text):
    src, out, marks, i = text.split("\n"), [], [], 0
    lead = re.compile(r"\s*(hide\([^;]*\);|broadcast use[^;]*;)\s*")
    while i < len(src):
        l = src[i]
        if l.startswith("{") and not re.match(r"\{\s*\}", l) and "unimplemented!()" not in l:
            j, hdr = i - 1, ""
            while j >= 0 and i - j < 60:
                hdr = src[j] + "\n" + hdr
                if re.search(r"\bfn\s+\w+|^\s*(for|while|loop)\b|@F:", src[j]) or re.match(r"\s*(pub\s+)?(struct|enum|impl|trait|mod)\b", src[j]):
                    break
                j -= 1
            takes = re.search(r"\bfn\s+\w+|\bfor\b|\bwhile\b|\bloop\b|@F:", hdr)
            if takes and not re.search(r"\bspec fn\b|external_body|^\s*(impl|(pub )?(trait|struct|enum|mod))\b", hdr):
                out.append("{")
                rest, i = l[1:], i + 1
                while lead.match(rest):
                    m = lead.match(rest)
                    out.append(m.group(0))
                    rest = rest[m.end():]
                if not rest.strip():
                    while i < len(src) and (re.match(r"\s*(hide\(|broadcast use)", src[i]) or not src[i].strip()):
                        out.append(src[i])
                        i += 1
                out.append("assert(false);" if "proof fn" in hdr else "proof { assert(false); }")
                marks.append((len(out), hdr.strip().split("\n")[0][:150]))
                if rest.strip():
                    out.append(rest)
                continue
        out.append(l)
        i += 1
    return "\n".join(out), marks


def probe(text, modules, work, seconds=800):
    new, marks = instrument(text)
    f = work + "/probe.rs"
    open(f, "w").write(new)
    cmd = ["verus", "--crate-type=lib", f, "--num-threads", "8", "--multiple-errors", "60", "--rlimit", "60", "--error-format=json"]
    for m in modules:
        cmd += ["--verify-module", m]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds, cwd=work)
    except subprocess.TimeoutExpired:
        return {"probes": len(marks), "refuted": 0, "note": "did not end"}
    hit = set()
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level") == "error":
                hit |= {s["line_start"] for s in d["spans"]}
    return {"probes": len(marks), "refuted": len([m for m in marks if m[0] in hit]),
            "not_refuted_or_not_in_the_modules": sorted({m[1] for m in marks if m[0] not in hit})[:200]}
