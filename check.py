#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current working tree:
  1. extract the functions under contract from /repo (vextract) and let Verus discharge every obligation;
  2. probe that no contract is vacuous (each extracted body must NOT prove `ensures false`);
  3. run the bounded stand-in / replay harness against the real crates.
Exit 0: held on everything explored; exit 1 + VIOLATION line otherwise.
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
T0 = time.time()
BUDGET = 860.0

def left():
    return BUDGET - (time.time() - T0)

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    return e

def run(cmd, timeout, cwd=VERIF, extra=None, out=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(timeout, 5), start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimed out"

HEAD = """#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, unreachable_code, unused_assignments, non_snake_case, unused_must_use, unreachable_patterns, non_camel_case_types)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
"""
TAIL = "\n}\nfn main() {}\n"

def build_extractor():
    rc, o, e = run(["cargo", "build", "--offline", "-q"], 400, os.path.join(VERIF, "extract"), {"CARGO_TARGET_DIR": os.path.join(BUILD, "extract")})
    if rc != 0:
        print("cannot build the extractor:\n" + e[-3000:])
        return False
    return True

def extract(unit, base, external, probe):
    out, js = base + ".body.rs", base + ".json"
    cmd = [os.path.join(BUILD, "extract/debug/vextract"), unit, REPO, out, js] + (["--probe"] if probe else []) + sorted(external)
    rc, o, e = run(cmd, 60)
    if rc != 0:
        return None, {"items": [], "errors": ["the extractor stopped: " + e[-400:]]}
    body = open(out).read()
    rep = json.load(open(js))
    src = base + ".rs"
    open(src, "w").write(HEAD + body + TAIL)
    return src, rep

def regions(src):
    """line -> name of the extracted item it lies in"""
    cur, m, kinds = None, {}, {}
    for n, l in enumerate(open(src).read().split("\n"), 1):
        x = re.match(r"//#BEGIN (fn|type) (.*?) (\S+:\d+-\d+)$", l)
        if x:
            cur = (x.group(1), x.group(2), x.group(3))
        elif l.startswith("//#END"):
            cur = None
        m[n] = cur
    return m

def verus(src, rlimit, timeout):
    """-> dict(ok, verified, errors, failed=[...], compile=[...], smt_ms, functions)"""
    d = os.path.dirname(src)
    cmd = ["verus", os.path.basename(src), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "6", "--rlimit", str(rlimit), "--num-threads", "6"]
    t = time.time()
    rc, o, e = run(cmd, timeout, d)
    res = {"rc": rc, "verified": 0, "errors": 0, "failed": [], "compile": [], "limit": [], "smt_ms": 0, "functions": [], "cmd": " ".join(cmd), "wall": round(time.time() - t, 2), "raw": e}
    try:
        j = json.loads(o)
        v = j.get("verification-results", {})
        res["verified"], res["errors"] = v.get("verified", 0), v.get("errors", 0)
        res["vir"] = v.get("encountered-vir-error", False)
        smt = j.get("times-ms", {}).get("smt", {})
        res["smt_ms"] = smt.get("smt-run", 0)
        for mod in smt.get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                res["functions"].append({"name": f["function"].split("::", 1)[-1], "ms": round(f.get("time-micros", 0) / 1000, 1), "ok": f.get("success", False)})
    except Exception:
        pass
    reg = regions(src)
    for line in e.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except Exception:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        item, where, spans = None, [], d.get("spans", [])
        for s in spans:
            r = reg.get(s["line_start"])
            # a probe/function region wins over shared specification text
            if r and (item is None or item[0] == "type"):
                item = r
            label = s.get("label") or ""
            txt = " ".join(x["text"].strip() for x in s.get("text", [])[:4])
            where.append((label + ": " if label else "") + txt[:300])
        rec = {"message": d["message"], "item": item[1] if item else None, "source": item[2] if item else None, "kind": item[0] if item else None, "where": where[:4], "line": spans[0]["line_start"] if spans else 0}
        m = d["message"]
        if d.get("code"):
            res["compile"].append(rec)
        elif "rlimit" in m or "Resource limit" in m:
            res["limit"].append(rec)
        elif re.search(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|unreachable|possible bit shift|ensures not satisfied|break|loop|termination|recommendation|constructed value may fail|unwind", m) and "not supported" not in m and res["errors"] > 0:
            res["failed"].append(rec)
        else:
            res["compile"].append(rec)
    return res

def dedup(l):
    seen, out = set(), []
    for x in l:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out

def prove(unit, tag, tier):
    """Discharge one unit; functions that cannot be brought before the verifier are set aside (bounded stand-in)."""
    base = os.path.join(BUILD, "units", tag)
    os.makedirs(os.path.dirname(base), exist_ok=True)
    external, notes, loops = set(), [], {}
    names = os.path.join(VERIF, "units/names.tsv")
    if os.path.exists(names):
        for l in open(names).read().split("\n"):
            w = l.split("\t")
            if len(w) == 5 and w[0] == tag:
                loops[w[1]] = "" if w[4] == "0" else w[4]
    rlimit = 60 if tier == "thorough" else 30
    for attempt in range(14):
        src, rep = extract(unit, base, external, False)
        if src is None:
            return {"state": "undecided", "notes": rep["errors"], "external": sorted(external), "rep": rep, "res": None}
        again = False
        for err in rep["errors"]:
            notes.append(err)
            sel = err.split(": ")[0]
            names = [i["name"] for i in rep["items"] if i["kind"] == "fn"]
            if sel in names and sel not in external:
                external.add(sel)
                again = True
        if again:
            continue
        r = verus(src, rlimit, min(240, left() - 60))
        if r["compile"] or r["rc"] == 124 or (r["rc"] != 0 and not r["failed"] and not r["limit"]):
            grew = False
            for c in r["compile"]:
                if c["kind"] == "fn":
                    n = c["item"].split("/task:")[0]
                    if n not in external:
                        external.add(n)
                        grew = True
                        notes.append("%s is outside the verifier's reach: %s [%s]" % (n, c["message"], "; ".join(c["where"])[:300]))
            if grew and left() > 120:
                continue
            for c in r["compile"]:
                notes.append("not verified: %s [%s]" % (c["message"], "; ".join(c["where"])[:300]))
            if r["rc"] == 124:
                notes.append("the verifier ran out of time")
            return {"state": "undecided", "notes": dedup(notes) + ([r["raw"][-1500:]] if not r["compile"] else []), "external": sorted(external), "rep": rep, "res": r}
        # a function that has more or other loops than its annotations know of: the annotations do not speak of this code
        grew = False
        for f in r["failed"]:
            n = (f["item"] or "").split("/task:")[0]
            have = [i["kinds"] for i in rep["items"] if i["kind"] == "fn" and i["name"] == n]
            lost = [e for e in rep.get("soft", []) if e.startswith(n + ": ")]
            if lost and n not in external:
                external.add(n)
                grew = True
                notes.append("%s; %s" % ("; ".join(lost), f["message"]))
            if have and n in loops and n not in external and (len(have[0]) > len(loops[n]) or any(a != b for a, b in zip(have[0], loops[n]))):
                external.add(n)
                grew = True
                notes.append("%s has loops that the invariants do not speak of (%s, the annotations are for %s; f = for, w = while, l = loop); %s" % (n, have[0], loops[n] or "none", f["message"]))
        if grew and left() > 120:
            continue
        state = "failed" if r["failed"] else ("undecided" if r["limit"] or external or rep["errors"] else "proved")
        for c in r["limit"]:
            notes.append("%s: the solver ran out of its resource limit" % c["item"])
        return {"state": state, "notes": dedup(notes), "external": sorted(external), "rep": rep, "res": r, "src": src}
    return {"state": "undecided", "notes": dedup(notes), "external": sorted(external), "rep": rep, "res": None}

def vacuity(unit, tag, external):
    base = os.path.join(BUILD, "units", tag + "_probe")
    src, rep = extract(unit, base, external, True)
    if src is None:
        return None
    r = verus(src, 10, min(200, left() - 60))
    want = {x[1] for x in regions(src).values() if x and x[1].endswith("/probe")}
    hit = {f["item"] for f in r["failed"] + r["limit"] if f["item"]}
    return {"probed": len(want), "reachable": len(want & hit), "vacuous": sorted(want - hit), "compile": r["compile"][:3]}

def harness(prop, tier, seed, box):
    """Build and run the harness binary of the property against the real crates in REPO."""
    name = prop.lower()
    h = os.path.join(VERIF, "harness")
    if not os.path.exists(os.path.join(h, "src/bin/%s.rs" % name)):
        box["state"] = "none"
        return
    cwd = h
    target = os.path.join(BUILD, "harness")
    if REPO != "/repo":
        # development only: the same harness against another copy of the repository
        cwd = os.path.join(BUILD, "harness_alt_" + re.sub(r"\W", "_", REPO))
        shutil.rmtree(cwd, ignore_errors=True)
        shutil.copytree(h, cwd, ignore=shutil.ignore_patterns("target"))
        for f in glob.glob(cwd + "/**/*.*", recursive=True):
            if f.endswith((".toml", ".rs")):
                t = open(f).read()
                open(f, "w").write(t.replace('"/repo/', '"%s/' % REPO).replace('"../../repo/', '"%s/' % REPO))
        target = os.environ.get("VERIF_ALT_TARGET", target + "_alt")
    meta = json.load(open(os.path.join(VERIF, "tools/props.json")))[prop]
    t = time.time()
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--bin", name, "--no-default-features", "--features", meta.get("features", "")], 600, cwd, {"CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0", "RUSTFLAGS": "--cfg verif"})
    box["build_s"] = round(time.time() - t, 1)
    if rc != 0:
        box["state"] = "nobuild"
        box["note"] = e[-2500:]
        return
    outdir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    t = time.time()
    limit = 150 if tier == "quick" else 420
    box["exe"] = os.path.join(target, "debug", name)
    drive(box, [box["exe"], tier, str(seed), outdir], min(limit, max(30, left() - 20)), outdir)

def drive(box, cmd, limit, outdir, again=False):
    t = time.time()
    rc, o, e = run(cmd, limit, outdir, {"RUST_BACKTRACE": "0", "VERIF_REPO": REPO})
    box["run_s"] = round(time.time() - t, 1)
    box["cmd"] = " ".join(cmd)
    box["fails"] = [l[5:] for l in o.split("\n") if l.startswith("FAIL ")]
    box["known"] = [l[6:] for l in o.split("\n") if l.startswith("KNOWN ")]
    box["cover"] = {}
    for l in o.split("\n"):
        m = re.match(r"COVER (\S+) (\d+)$", l)
        if m:
            box["cover"][m.group(1)] = box["cover"].get(m.group(1), 0) + int(m.group(2))
    box["samples"] = [l[7:] for l in o.split("\n") if l.startswith("SAMPLE ")][:6]
    box["note"] = e[-1500:]
    done = any(l.strip() == "DONE" for l in o.split("\n"))
    if box["fails"]:
        box["state"] = "fail"
    elif rc == 0 and done:
        box["state"] = "ok"
    else:
        box["state"] = "broken"
        box["note"] = "harness ended with %d: %s" % (rc, e[-1500:])
        if rc not in (124, 137, -9):
            # a crash of the real code, or an answer that the harness did not expect at all; once more, to be sure
            if again:
                box["state"] = "fail"
                box["fails"] = ["the real code, or the harness on an answer of it, ended abnormally (%d) after %s: %s" % (rc, json.dumps(box["cover"]), " ".join(e[-400:].split()))]
            else:
                drive(box, cmd, limit, outdir, True)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    meta = json.load(open(os.path.join(VERIF, "tools/props.json")))[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    box = {}
    th = threading.Thread(target=harness, args=(prop, tier, seed, box))
    th.start()
    units = [os.path.join(VERIF, "units", u) for u in meta["units"]]
    proofs, probes = {}, {}
    if build_extractor():
        for u in units:
            tag = os.path.basename(u)[:-3]
            proofs[tag] = prove(u, tag, tier)
            probes[tag] = vacuity(u, tag, proofs[tag]["external"]) if proofs[tag]["state"] != "failed" else None
    else:
        proofs["extractor"] = {"state": "undecided", "notes": ["extractor does not build"], "external": [], "rep": {"items": [], "errors": []}, "res": None}
    th.join()

    failed = [(t, f) for t, p in proofs.items() if p["res"] for f in p["res"]["failed"] if p["state"] == "failed"]
    undecided = [t for t, p in proofs.items() if p["state"] == "undecided"]
    verified = sum(p["res"]["verified"] for p in proofs.values() if p["res"])
    errs = sum(p["res"]["errors"] for p in proofs.values() if p["res"])
    functions = [i for p in proofs.values() for i in p["rep"]["items"] if i["kind"] == "fn" and i["name"] not in p["external"]]
    vac = [v for p in probes.values() if p for v in p["vacuous"]]
    externals = [x for p in proofs.values() for x in p["external"]]
    notes = [n for p in proofs.values() for n in p["notes"]]

    hstate = box.get("state", "none")
    for t, p in proofs.items():
        r = p["res"]
        print("unit %s: %s, %d functions extracted, obligations %d discharged %d, solver %d ms, external %s" % (t, p["state"], len([i for i in p["rep"]["items"] if i["kind"] == "fn"]), (r["verified"] + r["errors"]) if r else 0, r["verified"] if r else 0, r["smt_ms"] if r else 0, p["external"]))
        if probes.get(t):
            print("  vacuity probes: %d of %d bodies refuse `ensures false`%s" % (probes[t]["reachable"], probes[t]["probed"], (", vacuous: " + ", ".join(probes[t]["vacuous"])) if probes[t]["vacuous"] else ""))
    for n in notes:
        print("  note: " + n[:400].replace("\n", " "))
    print("harness (bounded, never counted as proved): %s %s build %ss run %ss" % (hstate, json.dumps(box.get("cover", {})), box.get("build_s"), box.get("run_s")))
    if hstate in ("nobuild", "broken"):
        print("  " + box.get("note", "")[-1200:])

    # a failed obligation without a failing input: search longer for one, on other inputs
    more = 0
    while failed and hstate == "ok" and more < 3 and left() > 120:
        more += 1
        deeper = {}
        outdir = os.path.join(BUILD, "replay", prop)
        drive(deeper, [box["exe"], "quick" if more == 1 else "thorough", str(seed + 1000 * more), outdir], min(300, left() - 40), outdir)
        print("further search for a failing input, seed %d: %s %s run %ss" % (seed + 1000 * more, deeper["state"], json.dumps(deeper.get("cover", {})), deeper["run_s"]))
        if deeper["state"] == "fail":
            box.update(deeper)
            hstate = "fail"

    violation = bool(failed) or hstate == "fail"
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
    for k in known:
        if k["property"] == prop and k["key"] in box.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    level = "proof" if not undecided and verified > 0 else "exploration"
    cov = {
        "obligations": verified + errs,
        "discharged": verified,
        "checker_cmd": "; ".join(p["res"]["cmd"] for p in proofs.values() if p["res"]) or "verus (not reached)",
        "backend": "Verus 0.2026.09.13 with its bundled Z3",
        "trusted_base": meta["trusted"] + ["the extraction rewrites of DESIGN.md (vextract)", "Verus, Z3, rustc"],
        "functions_under_contract": ["%s (%s:%d-%d)" % (i["name"], i["file"], i["lines"][0], i["lines"][1]) for i in functions],
        "functions_inlined": sorted({x for i in functions for x in i.get("inlined", [])}),
        "functions_not_verified_this_run": externals,
        "loops_with_invariants": sum(i.get("loops", 0) for i in functions),
        "solver_ms": sum(p["res"]["smt_ms"] for p in proofs.values() if p["res"]),
        "slowest_functions": sorted([f for p in proofs.values() if p["res"] for f in p["res"]["functions"]], key=lambda f: -f["ms"])[:6],
        "vacuity": {t: {"probed": p["probed"], "reachable": p["reachable"], "vacuous": p["vacuous"]} for t, p in probes.items() if p},
        "bounded_stand_in": {"label": "bounded, not proved", "bound": meta.get("bound", ""), "state": hstate, "counts": box.get("cover", {}), "samples": box.get("samples", [])},
        "evaluations": sum(box.get("cover", {}).values()),
        "distinct_nontrivial": box.get("cover", {}).get("nontrivial", sum(v for k, v in box.get("cover", {}).items() if k != "nontrivial")),
        "rule": "harness cases: " + meta.get("bound", "none"),
        "samples": box.get("samples", []) or [f["name"] for f in functions[:3]],
        "undecided_units": undecided,
        "notes": notes[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if violation:
        rd = os.path.join(BUILD, "replay", prop)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "replay.txt")
        with open(path, "w") as f:
            f.write("property %s\n" % prop)
            for t, x in failed:
                f.write("failed obligation: unit %s, %s (%s): %s\n" % (t, x["item"], x["source"], x["message"]))
                for w in x["where"]:
                    f.write("    %s\n" % w)
            if hstate == "fail":
                f.write("\nfailing input on the real code (reproduce with: %s):\n" % box.get("cmd"))
                for l in box["fails"]:
                    f.write("  " + l + "\n")
            f.write("\nverifier output:\n")
            for t, p in proofs.items():
                if p["res"] and p["state"] == "failed":
                    for line in p["res"]["raw"].split("\n"):
                        try:
                            f.write(json.loads(line).get("rendered", "") + "\n")
                        except Exception:
                            pass
        for t, x in failed:
            print("failed obligation: %s: %s | %s" % (x["item"], x["message"], " | ".join(x["where"])[:300]))
        for l in box.get("fails", [])[:5]:
            print("failing input: " + l[:600])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hstate == "fail" else " no-failing-input-found"))
        sys.exit(1)
    if undecided:
        print("held in the bounded stand-in; obligations of %s could not all be generated for this source" % ", ".join(undecided))
    else:
        print("held: every obligation discharged")
    sys.exit(0)

main()
