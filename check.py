#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Decides one property of /repo: extracts the functions named in the proof templates from the
current source, lets Verus discharge every obligation, re-checks that no contract is vacuous, and
runs the executable form of the same contracts on real inputs (bounded; it supplies failing inputs).
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T = os.path.join(V, "target")
VERUS = "/opt/veriftools/verus/verus"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTFLAGS", None)


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), "timeout"


def cargo(crate, target, timeout=600, extra=()):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    for k in range(2):
        rc, out, err = sh(["cargo", "build", "--offline", *extra], timeout, cwd=os.path.join(V, crate), env=env)
        if rc == 0:
            return True, ""
    return False, err[-3000:]


OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion fail|invariant not satisfied|overflow|underflow|"
                        r"decreases not satisfied|recommendation not met|possible division by zero|unreachable|"
                        r"could not prove termination|index out of bounds|failed to satisfy|cannot show invariant|not satisfied|might not|assert_by", re.I)
LIMIT = re.compile(r"resource limit|rlimit|timed? ?out|canceled", re.I)


def run_verus(gen, extra=(), timeout=400, errors=6):
    rc, out, err = sh([VERUS, gen, "--output-json", "--time-expanded", "--triggers-mode", "silent", "--error-format=json",
                       "--multiple-errors", str(errors), "--num-threads", "4", *extra], timeout)
    try:
        res = json.loads(out[out.index("{"):])
    except Exception:
        res = None
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") == "error":
                    diags.append(d)
            except Exception:
                pass
    return rc, res, diags, err


def breakdown(res):
    r = {}
    for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"].split("::", 1)[-1]
            r.setdefault(k, {"function": k, "us": 0, "ok": True})
            r[k]["us"] += f.get("time-micros", 0)
            r[k]["ok"] &= bool(f.get("success"))
    return list(r.values())


def prove(vx, name, work, tier):
    """One proof template. Returns a dict with what was discharged, what failed and what is undecided."""
    r = {"template": f"proofs/{name}.rs", "verified": 0, "errors": 0, "functions": [], "failed": [], "undecided": [],
         "under_contract": [], "trust": [], "smt_ms": 0, "vacuity_checked": 0, "vacuous": [], "extraction_notes": []}
    tmpl = os.path.join(V, "proofs", name + ".rs")
    gen, gj = os.path.join(work, f"{name}.rs"), os.path.join(work, f"{name}.json")
    vgen, vgj = os.path.join(work, f"vac_{name}.rs"), os.path.join(work, f"vac_{name}.json")
    rc, _, err = sh([vx, tmpl, REPO, gen, gj], 120)
    if rc != 0:
        r["undecided"].append({"obligation": f"extraction of proofs/{name}.rs", "why": (err.strip() or "extractor failed")[-1500:]})
        return r
    sh([vx, tmpl, REPO, vgen, vgj, "--vacuity"], 120)
    meta = json.load(open(gj))
    r["trust"] = [t["text"] for t in meta["trust"]]
    for it in meta["items"]:
        if it["kind"] == "fn":
            r["under_contract"].append(f"{it['file']}:{it['line']} {it['path']}")
        for n in it["notes"]:
            r["extraction_notes"].append(f"{it['path']}: {n}")
        for s in it["substitutions"]:
            r["extraction_notes"].append(f"{it['path']}: {s}")
    def owner(line):
        for it in meta["items"]:
            if it["gen_start"] <= line <= it["gen_end"]:
                return it
        return None
    # every probe of a function must be reported, and no more: looking for further errors can be slow
    groups = {}
    for v in json.load(open(vgj))["vacuity"]:
        k = re.match(r"vx_vac[lf]?_(\d+)", v["name"]).group(1)
        groups[k] = groups.get(k, 0) + 1
    probes = max(groups.values(), default=1) + 2
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(run_verus, gen), ex.submit(run_verus, vgen, (), 400, probes)
        rc, res, diags, err = a.result()
        vrc, vres, vdiags, verr = b.result()
    vr = (res or {}).get("verification-results")
    if not vr or "verified" not in vr or vr.get("encountered-vir-error"):
        why = "\n".join(d["message"] + (f" (generated line {d['spans'][0]['line_start']})" if d["spans"] else "") for d in diags[:5]) or err[-1500:]
        r["undecided"].append({"obligation": f"every obligation of proofs/{name}.rs", "why": "the verifier did not accept the extracted text: " + why})
        return r
    if vr["errors"]:
        # a failure must survive a second attempt with another seed and a larger budget
        rc2, res2, diags2, err2 = run_verus(gen, ["--rlimit", "60", "--smt-option", "smt.random_seed=11"], timeout=500)
        vr2 = (res2 or {}).get("verification-results")
        if vr2 and "verified" in vr2 and vr2["errors"] <= vr["errors"] and not vr2.get("encountered-vir-error"):
            rc, res, diags, vr = rc2, res2, diags2, vr2
    bd = breakdown(res)
    r["functions"] = bd
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    r["smt_ms"] = sum(f["us"] for f in bd) / 1000.0
    if vr["verified"] == 0:
        r["undecided"].append({"obligation": f"proofs/{name}.rs", "why": "the verifier generated no obligations"})
    for d in diags:
        m = d["message"]
        if m.startswith("aborting"):
            continue
        spans = d["spans"]
        clause = "; ".join((s["text"][0]["text"].strip() if s["text"] else "") for s in spans[:2])
        it = None
        for s in sorted(spans, key=lambda s: not s["is_primary"]):
            it = it or owner(s["line_start"])
        rec = {"obligation": f"{it['file']}:{it['line']} {it['path']}" if it else f"proofs/{name}.rs lemma", "message": m, "clause": clause,
               "rendered": (d.get("rendered") or "")[:3000]}
        if LIMIT.search(m) or it is None or not OBLIGATION.search(m):
            r["undecided"].append({"obligation": rec["obligation"], "why": m + ": " + clause})
        else:
            r["failed"].append(rec)
    # vacuity: with a false postcondition (or loop assertion) added, each extracted function must fail
    vmeta = json.load(open(vgj))
    names = {v["name"]: v["of"] for v in vmeta["vacuity"]}
    r["vacuity_checked"] = len(names)
    text = open(vgen).read().splitlines()
    hit = set()
    for d in vdiags:
        for s in d["spans"]:
            for l in range(s["line_start"], s["line_end"] + 1):
                for n in re.findall(r"vx_vac[lf]?_\w+", text[l - 1] if l <= len(text) else ""):
                    hit.add(n)
    vvr = (vres or {}).get("verification-results") or {}
    if "verified" not in vvr or vvr.get("encountered-vir-error"):
        r["undecided"].append({"obligation": "vacuity probes", "why": "the probe file was not accepted: " + verr[-800:]})
    else:
        for n, of in names.items():
            if n not in hit:
                r["vacuous"].append(of)
        if r["vacuous"] and not r["failed"]:
            r["undecided"].append({"obligation": "vacuity probes", "why": "a false postcondition verified for: " + ", ".join(r["vacuous"])})
    return r


def run_exec(prop, tier, seed, work):
    binp = os.path.join(T, "exec", "debug", "jlx")
    out = os.path.join(work, "exec.json")
    if os.path.exists(out):
        os.remove(out)
    limit = 420 if tier == "quick" else 3000
    rc, so, se = sh([binp, prop, "--seed", str(seed), "--tier", tier, "--out", out], limit)
    if os.path.exists(out):
        return json.load(open(out)), None
    tr = os.path.join(work, "trace.txt")
    if rc not in (2, -999):
        sh([binp, prop, "--seed", str(seed), "--tier", tier, "--out", out, "--trace", tr], limit)
        if os.path.exists(out):
            return json.load(open(out)), None
        if os.path.exists(tr):
            t = open(tr, errors="replace").read()
            return {"evaluations": 1, "distinct": 1, "clauses": {}, "samples": [t], "failures": [
                {"signature": t, "clause": t.split(" :: ")[0], "input": t.split(" :: ", 1)[-1], "expected": "an answer", "got": f"the process died (status {rc})"}]}, None
    return None, f"the executable contracts gave no result (status {rc}) {se[-500:]}"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(V, "props.json")))[prop]
    work = os.path.join(T, "work", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    have_exec = conf.get("exec", True)
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(cargo, "exec", os.path.join(T, "exec"), 800, ("--features", conf["features"]) if conf.get("features") else ()) if have_exec else None
        ok, err = cargo("vx", os.path.join(T, "vx"), 300)
        if not ok:
            print("the extractor does not build:\n" + err)
            sys.exit(2)
        vx = os.path.join(T, "vx", "debug", "vx")
        proofs = [ex.submit(prove, vx, n, work, tier) for n in conf["proofs"]]
        proofs = [p.result() for p in proofs]
        xr, xerr = None, None
        if fe:
            ok, err = fe.result()
            if ok:
                xr, xerr = run_exec(prop, tier, seed, work)
            else:
                xerr = "the executable contracts do not build against this tree: " + err[-1500:]

    known = []
    kp = os.path.join(V, "known_findings.json")
    if os.path.exists(kp):
        known = [k for k in json.load(open(kp)) if k["property"] == prop and k.get("status", "open") == "open"]
    failed = [f for p in proofs for f in p["failed"]]
    undecided = [u for p in proofs for u in p["undecided"]]
    if xerr:
        undecided.append({"obligation": "executable contracts (bounded)", "why": xerr})
    new, hits = [], {}
    for f in (xr or {}).get("failures", []):
        k = next((k for k in known if k.get("signature") and f["signature"] == k["signature"] or k.get("signature_regex") and re.fullmatch(k["signature_regex"], f["signature"], re.S)), None)
        if k:
            hits.setdefault(k["what"], []).append(f)
        else:
            new.append(f)
    def known_obligation(f):
        for k in known:
            if k.get("obligation") and k["obligation"] in f["obligation"] and (not k.get("clause") or k["clause"] in f["clause"]):
                return k
        return None
    nf = []
    for f in failed:
        k = known_obligation(f)
        if k:
            hits.setdefault(k["what"], []).append(f)
        else:
            nf.append(f)
    for w in hits:
        print(f"KNOWN-FINDING: property={prop} {w}")

    rdir = os.path.join(V, "evidence", "replay")
    violations, lines = [], []
    if new or nf:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{prop}.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "failing_inputs": new[:20], "failed_obligations": nf[:20],
                   "rerun": f"VERIF_SEED={seed} python3 {V}/check.py {prop} --tier {tier}",
                   "how": "failing_inputs: the clause named was evaluated by the exec crate on the real code with this input"}, open(rp, "w"), indent=1)
        for f in nf[:10]:
            print(f"failed obligation: {f['obligation']}: {f['message']}: {f['clause']}")
        for f in new[:5]:
            print(f"failing input: {f['signature']}: expected {f['expected'][:300]}, got {f['got'][:300]}")
        line = f"VIOLATION property={prop} replay={rp}" + ("" if new else " no-failing-input-found")
        lines.append(line)
        violations.append({"replay": rp, "failing_inputs": len(new), "failed_obligations": [f["obligation"] for f in nf]})

    obligations = sum(p["verified"] + p["errors"] for p in proofs)
    discharged = sum(p["verified"] for p in proofs)
    for u in undecided:
        print(f"UNDECIDED {u['obligation']}: {u['why'][:600]}")
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": f"{VERUS} target/work/{prop}/<template>.rs --output-json --time-expanded",
        "trusted_base": ["Verus 0.2026.09.13 and its z3", "the extractor vx (drops attributes, doc comments and fn visibility; see extraction_notes)"]
                        + sorted({t for p in proofs for t in p["trust"]}),
        "functions_under_contract": sorted({f for p in proofs for f in p["under_contract"]}),
        "backend": "verus/z3",
        "solver_ms": round(sum(p["smt_ms"] for p in proofs), 1),
        "per_function": [dict(f, template=p["template"]) for p in proofs for f in p["functions"]],
        "vacuity_probes": sum(p["vacuity_checked"] for p in proofs),
        "vacuous": [v for p in proofs for v in p["vacuous"]],
        "extraction_notes": sorted({n for p in proofs for n in p["extraction_notes"]}),
        "failed_obligations": [f["obligation"] + ": " + f["clause"] for f in failed],
        "undecided": undecided,
        "bounded": {
            "label": "bounded: executable form of the contracts, run on the real crates; not counted as proved",
            "what": conf.get("bounded", ""),
            "evaluations": (xr or {}).get("evaluations", 0),
            "distinct": (xr or {}).get("distinct", 0),
            "clauses": (xr or {}).get("clauses", {}),
            "samples": (xr or {}).get("samples", []),
            "failures": len((xr or {}).get("failures", [])),
        },
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": conf.get("assumptions", []), "violations": len(violations), "violation_records": violations}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {cov['vacuity_probes']} vacuity probes, "
          f"{cov['bounded']['evaluations']} bounded evaluations, {len(undecided)} undecided, {ev['wall_s']} s")
    for l in lines:
        print(l)
    if lines:
        sys.exit(1)
    if not discharged and not (xr and xr["evaluations"]):
        print("nothing was decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
