#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current tree (see DESIGN.md)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, ".build")
VX = os.path.join(B, "vx/release/vx")
HZ = os.path.join(B, "hz/release/hz")
CFG = json.load(open(os.path.join(V, "props.json")))


START = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(V, "hz/src")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(V, "hz/Cargo.toml"), os.path.join(V, "hz/Cargo.lock")):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def build_vx():
    if os.path.exists(VX):
        src = max(os.path.getmtime(os.path.join(V, "vx/src", f)) for f in os.listdir(os.path.join(V, "vx/src")))
        if os.path.getmtime(VX) >= src or os.environ.get("VX_NOBUILD"):
            return True
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "vx"))
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "vx"), env=e)
    return r.returncode == 0 and os.path.exists(VX)


def build_hz():
    """Rebuilds the harness whenever the content of /repo's sources changed."""
    stamp = os.path.join(B, "hz/stamp")
    want = tree_hash()
    if os.path.exists(HZ) and os.path.exists(stamp) and open(stamp).read() == want:
        return True, ""
    if os.path.exists(stamp):
        os.remove(stamp)
    fp = os.path.join(B, "hz/release/.fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("rust_graph-", "hz-")):
                shutil.rmtree(os.path.join(fp, d))
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "hz"))
    r = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "hz"), env=e)
    if r.returncode != 0:
        return False, r.stderr[-3000:]
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    open(stamp, "w").write(want)
    return True, ""


# ------------------------------------------------------------------ proof
FAIL = ("postcondition not satisfied", "precondition not met", "assertion not satisfied", "may fail to meet", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic",
        "decreases not satisfied", "possible division", "loop must have a decreases", "could not prove termination", "unable to prove", "arithmetic", "assertion failure",
        "possible bit shift", "cannot show", "loop ensures not satisfied", "constructed value may fail")
LIMIT = ("resource limit", "rlimit", "timed out", "canceled")
SECONDARY = ("failed precondition", "failed this postcondition", "failed this invariant")


def extract(work, demote, modules, reach=False, laws=()):
    out, mp = os.path.join(work, "crate.rs"), os.path.join(work, "map.json")
    cmd = [VX, "--repo", REPO, "--vt", os.path.join(V, "vt"), "--out", out, "--map", mp, "--snapshot", os.path.join(V, "snapshot.json"), "--only", ",".join(modules)]
    for d in sorted(demote):
        cmd += ["--demote", d]
    for d in sorted(laws):
        cmd += ["--laws", d]
    if reach:
        cmd.append("--reach")
    r = sh(cmd)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return json.load(open(mp)), ""


def verus(work, modules, timeout, merr=4, extra=()):
    cmd = ["verus", "crate.rs", "--triggers-mode", "silent", "--no-report-long-running", "--error-format=json", "--output-json", "--time", "--multiple-errors", str(merr), "--num-threads", "8", *extra]
    for m in modules:
        cmd += ["--verify-only-module", m]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        so, se, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        so, se, rc = "", "", 124
    js = {}
    i = so.find("{")
    if i >= 0:
        try:
            js = json.loads(so[i:])
        except ValueError:
            js = {}
    diags = []
    for l in se.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
    return dict(rc=rc, json=js, diags=diags, wall=time.time() - t, cmd=" ".join(cmd), stderr=se)


def owner(d, fns):
    """The function a diagnostic belongs to."""
    spans = list(d.get("spans", []))
    for c in d.get("children", []):
        spans += c.get("spans", [])
    spans.sort(key=lambda s: (not s.get("is_primary"),))
    best = None
    for s in spans:
        lab = (s.get("label") or "").lower()
        if any(x in lab for x in SECONDARY):
            continue
        for f in fns:
            a, b = f["out"]
            if a <= s["line_start"] <= b and not f["bodyless"]:
                return f
    for s in spans:
        for f in fns:
            a, b = f["out"]
            if a <= s["line_start"] <= b:
                best = best or f
    return best


def kind(d):
    m = d.get("message", "").lower()
    if any(x in m for x in LIMIT):
        return "limit"
    if any(x in m for x in FAIL):
        return "fail"
    return "compile"


# One proof that the solver accepts is a proof, whatever the search order that led to it: a function whose
# obligations are not all accepted by the first run is given to the verifier again with other seeds and more resources.
# In the first of these runs the laws of the id types, which most contracts need, are put at the start of those functions.
RETRIES = (["--rlimit", "20"], ["--rlimit", "30"], ["--rlimit", "20", "--smt-option", "smt.random_seed=7"], ["--rlimit", "20", "--smt-option", "smt.random_seed=23"],
           ["--rlimit", "20", "--smt-option", "smt.random_seed=101", "--smt-option", "sat.random_seed=5"])


# Functions whose contract names one of many results the property allows (props.json says why): losing it leaves
# the property undecided there, to be decided by the run of the real code.
WITNESS = set(CFG["witness_contracts"]["functions"])


def settle(work, diags, fns, res, demote, modules):
    """The functions with a rejected obligation in the first run all of whose obligations a further run accepts."""
    left, done, t0 = {}, set(), time.time()
    for d in diags:
        f = owner(d, fns)
        if f is not None:
            left[f["id"]] = f
    w2 = os.path.join(work, "again")
    os.makedirs(w2, exist_ok=True)
    for n, ex in enumerate(RETRIES):
        if not left or time.time() - t0 > 150 or time.time() - START > 450:
            break
        m2, fns2, where = None, fns, work
        if n == 0:
            m2, _ = extract(w2, demote, modules, laws=sorted(left))
            if m2 is None:
                continue
            where, fns2 = w2, [f for f in m2["functions"] if f.get("out")]
        r = verus(where, sorted({i.split("::")[0] for i in left}), 120, merr=4, extra=ex)
        res["runs"] += 1
        res["wall"] += r["wall"]
        vr = r["json"].get("verification-results", {})
        if r["rc"] == 124 or "verified" not in vr or (vr.get("errors", 0) and not r["diags"]):
            continue
        again = set()
        stray = False
        for d in r["diags"]:
            f = owner(d, fns2)
            stray = stray or f is None or kind(d) == "compile"
            again.add(f["id"] if f else "")
        if stray:
            continue
        for i in sorted(set(left) - again):
            done.add(i)
            del left[i]
            res["retried"].append({"function": i, "accepted_with": ("the laws of the id types, " if n == 0 else "") + " ".join(ex)})
    res["verified"] += len(done)
    res["errors"] = max(0, res["errors"] - len(done))
    return done


def prove(prop, tier, work, modules):
    """-> dict(status, failed=[(fn, diag)], undecided=[...], demoted=[...], ...)"""
    res = dict(status="ok", failed=[], undecided=[], demoted={}, notes=[], runs=0, wall=0.0, smt_ms=0, verified=0, errors=0, cmd="", other=[], retried=[])
    demote = {}
    timeout = 500 if tier == "quick" else 1500
    mp = None
    for rnd in range(12):
        mp, err = extract(work, demote, modules)
        if mp is None:
            res["status"] = "none"
            res["notes"].append("extraction failed: " + err)
            return res, None
        fns = [f for f in mp["functions"] if f.get("out")]
        r = verus(work, modules, timeout if tier != "quick" else max(60, min(timeout, 560 - (time.time() - START))))
        res["runs"] += 1
        res["wall"] += r["wall"]
        res["cmd"] = r["cmd"]
        vr = r["json"].get("verification-results", {})
        if r["rc"] == 124:
            res["status"] = "none"
            res["notes"].append("the verifier did not end within %d s" % timeout)
            return res, mp
        comp = [d for d in r["diags"] if kind(d) == "compile"]
        if comp:
            new = {}
            for d in comp:
                f = owner(d, fns)
                if f is not None and f["id"] not in demote:
                    new[f["id"]] = d["message"][:300]
            if not new:
                res["status"] = "none"
                res["notes"].append("outside the verifier's language: " + comp[0].get("rendered", comp[0]["message"])[:1500])
                return res, mp
            demote.update(new)
            continue
        if not vr or not vr.get("encountered-vir-error") is False and "verified" not in vr:
            res["status"] = "none"
            res["notes"].append("no verdict from the verifier: " + r["stderr"][-1500:])
            return res, mp
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        try:
            res["smt_ms"] += r["json"]["times-ms"]["smt"]["total"]
        except (KeyError, TypeError):
            pass
        settled = settle(work, r["diags"], fns, res, demote, modules)
        for d in r["diags"]:
            f = owner(d, fns)
            k = kind(d)
            if f is not None and f["id"] in settled:
                continue
            ent = (f["id"] if f else "(proof text)", d)
            if f is None:
                res["undecided"].append(ent)
            elif prop not in f["props"] and f["props"]:
                res["other"].append(ent)
            elif k == "limit" or f["lost"] or f["id"] in WITNESS:
                res["undecided"].append(ent)
            else:
                res["failed"].append(ent)
        if res["errors"] and not r["diags"]:
            res["notes"].append("errors without a message: " + r["stderr"][-1500:])
        break
    res["demoted"] = demote
    return res, mp


def vacuity(work, modules, mp, demoted, timeout):
    """assert(false) at the start of every function and loop body must fail: no contract is vacuous."""
    w2 = os.path.join(work, "reach")
    os.makedirs(w2, exist_ok=True)
    m2, err = extract(w2, demoted, modules, reach=True)
    if m2 is None:
        return None
    lines = open(os.path.join(w2, "crate.rs")).read().split("\n")
    fns = [f for f in m2["functions"] if f.get("out") and not f["bodyless"] and not f["trusted"] and f["level"] == 0
           and not f["id"].endswith(("::derive_Record", "::derive_Key"))]  # specifications only, no body
    mods = set(modules)
    want = set()
    for f in fns:
        if f["id"].split("::")[0] in mods:
            want.add(f["id"])
    r = verus(w2, modules, timeout, merr=0)
    hit = set()
    for d in r["diags"]:
        f = owner(d, fns)
        if f:
            hit.add(f["id"])
    if r["rc"] == 124 or not r["diags"]:
        return None
    return sorted(want - hit), len(want)


# ------------------------------------------------------------------ bounded search on the real code
def search(prop, seed, secs, work, procs):
    ps = []
    for i in range(procs):
        d = os.path.join(work, "hz%d" % i)
        os.makedirs(d, exist_ok=True)
        o = os.path.join(work, "hz%d.json" % i)
        ps.append((subprocess.Popen([HZ, prop, str(seed * 1000 + i), str(secs), d, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), o, d))
    tot = dict(evaluations=0, steps=0, distinct=0, samples=[], fail=None)
    for p, o, d in ps:
        try:
            p.communicate(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        try:
            j = json.load(open(o))
        except (OSError, ValueError):
            # the process died (abort, out of memory, ...)
            if tot["fail"] is None and p.returncode not in (0, 1):
                tot["fail"] = dict(fail="the process running the real code ended with status %s" % p.returncode, case_seed=seed * 1000 + ps.index((p, o, d)), size=0, log=[], crash=True)
            continue
        for k in ("evaluations", "steps", "distinct"):
            tot[k] += j.get(k, 0)
        if len(tot["samples"]) < 4:
            tot["samples"] += j.get("samples", [])[:2]
        if j.get("fail") and (tot["fail"] is None or len(str(j.get("log"))) < len(str(tot["fail"].get("log")))):
            tot["fail"] = j
    return tot


def assumed(seed, secs, work):
    """Runs the contracts assumed of the libraries against the libraries (bounded)."""
    d, o = os.path.join(work, "hzs"), os.path.join(work, "hzs.json")
    os.makedirs(d, exist_ok=True)
    try:
        subprocess.run([HZ, "stubs", str(seed), str(secs), d, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 60)
        j = json.load(open(o))
    except (OSError, ValueError, subprocess.TimeoutExpired):
        return None
    return dict(contracts=len(j["contracts"]), cases=sum(j["contracts"].values()), failed=j["failed"], names=sorted(j["contracts"]))


def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) demo=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = CFG["properties"][prop]
    modules = c["modules"]
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    os.makedirs(B, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vx_%s_" % prop, dir="/tmp")
    try:
        rc = run(prop, tier, seed, c, modules, ev, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, c, modules, ev, work, t0):
    if not build_vx():
        print("the extractor could not be built")
        return 2
    hz_ok, hz_err = build_hz()
    if modules:
        pr, mp = prove(prop, tier, work, modules)
    else:
        pr, mp = dict(status="ok", failed=[], undecided=[], demoted={}, notes=["no function of this property is under contract yet"], runs=0, wall=0.0, smt_ms=0, verified=0, errors=0, cmd="", other=[], retried=[]), None
    fns = mp["functions"] if mp else []
    mine = [f for f in fns if prop in f["props"]]
    proved_ids = []
    bad = {i for i, _ in pr["failed"] + pr["undecided"] + pr["other"]} | set(pr["demoted"])
    mset = set(modules)
    for f in mine:
        if pr["status"] == "ok" and f["id"] not in bad and not f["trusted"] and f["id"].split("::")[0] in mset and f["level"] == 0:
            proved_ids.append(f["id"])
    missing = [m for m in (mp or {}).get("missing", []) if prop in m.get("props", []) or not m.get("props")]
    # bounded search
    secs = c.get("secs", 10) if tier == "quick" else c.get("secs_thorough", 150)
    if pr["failed"] or pr["status"] != "ok" or ({i for i, _ in pr["undecided"]} | set(pr["demoted"])) & ({f["id"] for f in mine} | {"(proof text)"}):
        secs = max(secs, 60)  # the proof does not decide all of it: look longer for a failing input
    hz = dict(evaluations=0, steps=0, distinct=0, samples=[], fail=None)
    if hz_ok:
        hz = search(prop, seed, secs, work, 6)
    asm = assumed(seed, 1 if tier == "quick" else 30, work) if hz_ok else None
    findings = []
    if hz_ok:
        for demo, what in known(prop):
            d = os.path.join(work, "kf")
            os.makedirs(d, exist_ok=True)
            r = sh([HZ, "finding", demo, d])
            if r.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                findings.append(what)
    vac = None
    if pr["status"] == "ok" and not pr["failed"] and mp is not None and (tier == "thorough" or c.get("vacuity_quick", True)):
        left = 400 if tier != "quick" else 800 - (time.time() - START)
        vac = vacuity(work, modules, mp, pr["demoted"], min(400, left)) if left > 120 else None
    violations = []
    code = 0
    rp = os.path.join(ev, "replay_%s.txt" % prop)
    if os.path.exists(rp):
        os.remove(rp)
    obl = "".join("\nFAILED OBLIGATION in %s\n%s\n" % (i, d.get("rendered", d["message"])) for i, d in pr["failed"])
    if hz["fail"] is not None:
        j = hz["fail"]
        with open(rp, "w") as f:
            f.write("property %s: failing case found by running the real code\n%s\n\nreplay: %s %s replay %s %s /tmp/scratch_%s\n\nsteps:\n" % (
                prop, j["fail"], HZ, prop, j["case_seed"], j["size"], prop))
            for l in j.get("log") or []:
                f.write("  %s\n" % l)
            f.write(obl)
        violations.append(j["fail"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        code = 1
    elif pr["failed"]:
        with open(rp, "w") as f:
            f.write("property %s: the verifier rejects an obligation generated from the current source; no failing input was found in %d runs of the real code\n%s" % (prop, hz["evaluations"], obl))
        violations.append("failed obligations: " + ", ".join(sorted({i for i, _ in pr["failed"]})))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        code = 1
    # trusted base, counted mechanically from the verified text
    text = open(os.path.join(work, "crate.rs")).read() if mp else ""
    nofn = sum(1 for f in fns if f["trusted"])
    ext = len(re.findall(r"#\[verifier::external_body\]", text))
    assumes = len(re.findall(r"\bassume\s*\(|\badmit\s*\(", text))
    axioms = re.findall(r"(?:#\[verifier::external_body\]\s*pub (?:broadcast )?proof|axiom) fn (\w+)", text)
    kinds = c["level"]
    cov = dict(
        obligations=pr["verified"] + pr["errors"], discharged=pr["verified"],
        checker_cmd=pr["cmd"] or "verus crate.rs",
        trusted_base=CFG["trusted_base"] + c.get("trusted", []),
        back_end="Verus 0.2026.09.13 with its bundled Z3", solver_ms=pr["smt_ms"], verifier_wall_s=round(pr["wall"], 1),
        functions_under_contract=proved_ids, functions_under_contract_count=len(proved_ids),
        functions_demoted_to_bounded=[{"function": k, "why": v} for k, v in pr["demoted"].items()],
        undecided=[{"function": i, "message": d["message"]} for i, d in pr["undecided"]],
        failed_in_dependencies=[{"function": i, "message": d["message"]} for i, d in pr["other"]],
        not_found_in_source=[m["item"] for m in missing], hints_lost=[{"function": f["id"], "lost": f["lost"]} for f in fns if f["lost"]],
        accepted_on_retry=pr["retried"],
        rewriting_rules=(mp or {}).get("rules", {}),
        external_body_items=ext, trusted_repo_functions=[f["id"] for f in fns if f["trusted"]], assume_or_admit=assumes, axioms=axioms,
        proof_notes=pr["notes"], bounded_functions=c.get("bounded", []),
        bounded_search=dict(evaluations=hz["evaluations"], steps=hz["steps"], distinct_nontrivial=hz["distinct"], seconds=secs, processes=6,
                            rule=CFG["search_rule"], samples=hz["samples"], available=hz_ok),
        evaluations=hz["evaluations"], distinct_nontrivial=hz["distinct"], rule=CFG["search_rule"], samples=hz["samples"],
        known_findings=findings)
    if asm is not None:
        cov["assumed_contracts_sampled"] = dict(asm, rule="the contracts assumed of the libraries, restated as run-time conditions (hz/src/stubs.rs) and run against the libraries on drawn input: a sample, not a proof")
    if vac is not None:
        cov["vacuity"] = dict(functions_checked=vac[1], contracts_that_prove_false=vac[0])
    if kinds == "other":
        cov["explanation"] = c["level_note"]
    e = dict(property=prop, tier=tier, seed=seed, level=kinds, coverage=cov, wall_s=round(time.time() - t0, 1),
             assumptions=CFG["assumptions"] + c.get("assumptions", []), violations=violations)
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    und = sorted(set([i for i, _ in pr["undecided"]]) | set(pr["demoted"]))
    print("%s %s: %d obligations, %d discharged; %d functions of this property under contract; undecided %d%s; %d runs of the real code; %.0f s" % (
        prop, tier, cov["obligations"], cov["discharged"], len(proved_ids), len(und), (" (" + ", ".join(und[:4]) + ")") if und else "", hz["evaluations"], time.time() - t0))
    for n in pr["notes"]:
        print("note: " + n[:600])
    if not hz_ok:
        print("note: the harness did not build: " + hz_err[-600:])
    if vac is not None and vac[0]:
        print("note: contracts under which false is provable: %s" % vac[0])
    if asm is not None and asm["failed"]:
        print("note: a contract assumed of a library does not hold: %s" % asm["failed"])
        code = code or 2
    if pr["status"] != "ok" and not hz_ok and code == 0:
        return 2
    return code


main()
