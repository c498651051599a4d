#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decides one property against /repo's current working tree.
1. extract the functions under contract from /repo/src and let Verus discharge every obligation
   (and z3 the obligations over the expression trees the Python layer builds);
2. build the extension and evaluate the same contracts on the real code (bounded), also used to find a failing
   input for a failed obligation;
3. write evidence/<ID>.json; exit 0, or exit 1 with a VIOLATION line."""
import json, os, sys, subprocess, time, shutil, tempfile, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vdeduce
import registry

PY = "/opt/vp/venv/bin/python"
RULE_DEFAULT = "seeded structured generation; a case is non-trivial when it reaches a postcondition comparison; counted distinct by (clause, input)"


def sh_env():
    """environment of /opt/vp/env.sh"""
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True)
    e = {}
    for kv in r.stdout.decode().split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    return e


def build_ext(scratch, log):
    """build the extension from /repo's working tree into git-ignored /repo/target and lay out an importable copy in scratch"""
    env = sh_env()
    r = subprocess.run(["cargo", "build", "--locked", "--offline", "--lib"], cwd="/repo", env=env, capture_output=True, text=True)
    open(log, "w").write(r.stdout + r.stderr)
    if r.returncode != 0:
        return None, "the extension does not build: " + r.stderr[-1500:]
    dst = os.path.join(scratch, "py")
    shutil.copytree("/repo/python/polars_ds", os.path.join(dst, "polars_ds"), ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    shutil.copy("/repo/target/debug/lib_polars_ds.so", os.path.join(dst, "polars_ds", "_polars_ds.abi3.so"))
    meta = os.path.join(scratch, "meta")
    if os.path.isdir("/repo/target/pydist"):
        shutil.copytree("/repo/target/pydist", meta)
    else:
        os.makedirs(meta)
        subprocess.run(["/opt/vp/venv/bin/maturin", "pep517", "write-dist-info", "--metadata-directory", meta, "--interpreter", PY, "--offline"],
                       cwd="/repo", env=env, capture_output=True)
    env["PYTHONPATH"] = f"{dst}:{meta}:{os.path.join(VERIF, 'replay')}:{os.path.join(VERIF, 'lib')}"
    env["POLARS_MAX_THREADS"] = "8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env, None


def run_py(script, args, env, timeout, journal=None, scratch=None):
    p = subprocess.Popen([PY, script] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch or VERIF)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return "timeout", out


def read_known():
    known = {}
    f = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", ln.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = registry.PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    try:
        rc = decide(pid, tier, seed, cfg, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run_units(cfg, tier, scratch):
    try:
        exe = vdeduce.build_rs2v()
    except Exception as e:
        return [], [str(e)]
    rl = 60 if tier == "quick" else 200
    rs = []
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda u: vdeduce.run_unit(u, exe, os.path.join(scratch, "verus"), rlimit=rl), cfg.get("units", [])):
            rs.append(r)
        if tier == "thorough":
            # no marked point of the verified text may be provably unreachable under the contracts
            ok = [r for r in rs if r.get("ok")]
            for r, v in zip(ok, ex.map(lambda r: vdeduce.run_unit(r["unit"], exe, os.path.join(scratch, "verus"), rlimit=60, vacuity=True), ok)):
                r["reach"] = {"points": v.get("points", 0), "reached": v.get("reached", 0), "solver_gave_up": v.get("limit", []), "not_reached": v.get("unreachable", [])}
                if v.get("unreachable") and not v.get("limit"):
                    r["undecided"].append("vacuity: proved unreachable: " + ", ".join(v["unreachable"][:5]))
    return rs, []


def decide(pid, tier, seed, cfg, t0, scratch):
    und, viol, known_hits, notes = [], [], [], []
    known = read_known()
    with cf.ThreadPoolExecutor(2) as ex:
        fu = ex.submit(run_units, cfg, tier, scratch)
        fb = ex.submit(build_ext, scratch, os.path.join(scratch, "build.log"))
        units, uerr = fu.result()
        env, berr = fb.result()
    und += uerr
    if berr:
        print("ERROR:", berr)
        return 2
    # z3 obligations over the expression trees built by the Python layer
    zres = None
    if cfg.get("z3"):
        outp = os.path.join(scratch, "z3.json")
        rc, out = run_py(os.path.join(VERIF, "lib", "exprvc.py"), [pid, tier, outp], env, 300, scratch=scratch)
        if rc == 0 and os.path.exists(outp):
            zres = json.load(open(outp))
            und += ["expression: " + x for x in zres.get("undecided", [])]
        else:
            und.append(f"expression obligations not decided: {str(out)[-600:]}")
    budget = cfg.get("budget", {}).get(tier, 15 if tier == "quick" else 300)
    outp, jr = os.path.join(scratch, "replay.json"), os.path.join(scratch, "journal.json")
    rep = None
    if cfg.get("replay", True):
        rc, out = run_py(os.path.join(VERIF, "replay", "common.py"), [pid, str(seed), tier, str(budget), outp, jr], env, budget * 2 + 150, scratch=scratch)
        if os.path.exists(outp):
            rep = json.load(open(outp))
            if rep["error"]:
                und.append("run-time contract harness stopped: " + rep["error"][-1500:])
        else:
            cur = {}
            try:
                cur = json.load(open(jr))
            except Exception:
                pass
            if cur and (rc == "timeout" and time.time() - cur.get("t", time.time()) > 120 or (isinstance(rc, int) and rc < 0)):
                rep = {"evaluations": 1, "distinct": 1, "clauses": {}, "samples": [], "rule": "", "error": None, "failures": [{
                    "key": "crash:" + cur["clause"], "clause": cur["clause"], "input": cur["input"], "got": f"process ended with {rc}", "want": "a result",
                    "why": "the call must terminate without crashing"}]}
            else:
                und.append(f"run-time contract harness gave no result (rc={rc}): {str(out)[-1500:]}")
    # ---- decide
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    for f in (rep or {}).get("failures", []):
        if (pid, f["key"]) in known:
            known_hits.append((f["key"], known[(pid, f["key"])]))
        else:
            viol.append(("input", f))
    for z in (zres or {}).get("failures", []):
        if (pid, z["key"]) in known:
            known_hits.append((z["key"], known[(pid, z["key"])]))
        else:
            viol.append(("input" if z.get("confirmed") else "proof", z))
    for u in units:
        und += [f"{u['unit']}: {x}" for x in u["undecided"]]
        for d in u.get("definite", []):
            if cfg.get("owns") and not re.search(cfg["owns"], str(d["id"]) + " " + str(d["fn"])):
                notes.append(f"{u['unit']}: {d['fn']}: failed obligation, reported by the property that depends on it")
                continue
            viol.append(("proof", {"key": f"obligation:{d['fn']}", "clause": d["clause"], "message": d["message"], "context": d["context"],
                                   "fn": d["fn"], "unit": u["unit"], "verifier_output": (u.get("raw") or "")[-6000:]}))
    viol.sort(key=lambda v: v[0] != "input")
    obligations = sum(u["obligations"] for u in units) + (zres or {}).get("obligations", 0)
    discharged = sum(max(0, u["discharged"]) for u in units) + (zres or {}).get("discharged", 0)
    trusted = sorted({t for u in units for t in u["trusted"]} | set((zres or {}).get("trusted", [])) | set(cfg.get("trusted", [])))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(sorted({u["checker_cmd"].replace(scratch, "<scratch>") for u in units if u["checker_cmd"]})) + (("; z3 (python) over serialized Polars expressions") if zres else ""),
        "trusted_base": trusted or ["none beyond the verifier"],
        "functions_under_contract": [f"{x['fn']} ({x['at']})" for u in units for x in u["functions"] if not cfg.get("owns") or re.search(cfg["owns"], str(x.get("id", "")) + " " + str(x["fn"]))] + (zres or {}).get("functions", []),
        "units": [{"unit": u["unit"], "ok": bool(u.get("ok")), "obligations": u["obligations"], "discharged": u["discharged"], "back_end": "Verus (Z3)",
                   "solver_ms": u["solver_ms"], "wall_s": u["wall_s"], **({"vacuity": u["reach"]} if u.get("reach") else {})} for u in units],
        "extraction_drops": sorted({d for u in units for d in u["drops"]}),
        "undischarged_or_undecided": und,
        **({"reported_elsewhere": notes} if notes else {}),
        "evaluations": (rep or {}).get("evaluations", 0), "distinct_nontrivial": (rep or {}).get("distinct", 0),
        "rule": (rep or {}).get("rule") or RULE_DEFAULT,
        "samples": (rep or {}).get("samples", [])[:6],
        "bounded_clauses": (rep or {}).get("clauses", {}),
        "bounded_note": "the evaluations are a bounded run-time check of the same contracts on the built extension; never counted as proved",
        "known_findings_seen": [k for k, _ in known_hits],
        "explanation": cfg.get("note", ""),
    }
    if zres:
        cov["units"].append({"unit": "python expression trees", "ok": not zres["failures"], "obligations": zres["obligations"], "discharged": zres["discharged"],
                             "back_end": "z3", "solver_ms": zres.get("solver_ms", 0), "contracts": zres.get("contracts", [])})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + registry.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k, w in known_hits:
        print(f"KNOWN-FINDING: property={pid} {k}: {w}")
    for x in und:
        print("UNDECIDED:", x[:500].replace("\n", " | "))
    print(f"{pid} [{tier}] obligations={obligations} discharged={discharged} evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} "
          f"violations={len(viol)} wall={ev['wall_s']}s")
    if viol:
        for i, (kind, v) in enumerate(viol[:5]):
            path = os.path.join("evidence", "replay", f"{pid}_{i}.json")
            json.dump({"property": pid, "kind": kind, "violation": v, "how_to_replay": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid}"},
                      open(os.path.join(VERIF, path), "w"), indent=1, default=str)
            if kind == "input":
                print("  failing input:", json.dumps(v, default=str)[:700])
            else:
                print("  failed obligation:", v.get("fn") or v.get("key"), "|", v.get("message", ""), "|", v.get("clause", ""))
        k0 = viol[0][0]
        print(f"VIOLATION property={pid} replay=evidence/replay/{pid}_0.json" + ("" if k0 == "input" else " no-failing-input-found"))
        return 1
    if cfg.get("replay", True) and not (rep and rep["evaluations"]):
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
