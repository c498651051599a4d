"""Deductive back end: splice the mechanically extracted Rust functions into the contract files and run Verus.

A contract file (contracts/*.vrs) is Verus text with directives:
  //@default k=v ...            extraction options for the rest of the file
  //@rlimit N                   solver budget of this unit
  //@soft                       a failed obligation of this unit never decides alone (reported undecided; the replay decides)
  //@include FILE               splice another file of contracts/ verbatim (once)
  //@import FILE              another contract file's contracts, as a module (discharged by its own unit)
  //@twin path=.. file=..     the contract before it, on another function
  //@struct|enum|const path=.. file=..        splice the extracted item
  //@fn path=.. file=.. [id=..] [name=..] [ret=..] [opts]   ... sections ... //@end
      //@sig TEXT               replaces the extracted signature `fn name(inputs) -> ret` (loss is reported)
      //@attr TEXT              attributes put in front
      //@spec                   requires/ensures/decreases
      //@loop K                 invariant/decreases of the K-th loop
      //@at MARKER              ghost text inserted at a marker
      //@closure K              closure signature/ensures
Everything executable comes from /repo's current source; contract files hold ghost text and trusted stubs only.
"""
import json, os, re, subprocess, sys, tempfile, hashlib, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CDIR = os.path.join(VERIF, "contracts")
RS2V_DIR = os.path.join(VERIF, "tools", "rs2v")
BASELINE = os.path.join(CDIR, "baseline.json")

VMSG = ("postcondition not satisfied", "assertion failed", "invariant not satisfied", "precondition not satisfied",
        "possible arithmetic", "decreases not satisfied", "possible division by zero", "possible bit shift",
        "recommendation not met", "unable to prove", "loop invariant not satisfied", "might not be allowed", "assertion might fail",
        "constructed value may fail", "index out of bounds", "split ", "cannot prove", "could not prove", "must decrease")
RLMSG = ("Resource limit", "rlimit", "timeout", "timed out")


def clean_env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_INCREMENTAL", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_rs2v():
    exe = os.path.join(RS2V_DIR, "target", "release", "rs2v")
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--locked", "-q"], cwd=RS2V_DIR, env=clean_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("rs2v build failed: " + r.stderr[-2000:])
    return exe


def kv(s):
    out = {}
    for m in re.finditer(r'(\w+)=("(?:[^"]*)"|\S+)', s):
        v = m.group(2)
        if v.startswith('"'):
            v = v[1:-1]
        out[m.group(1)] = v
    return out


def opts_to_item(o, kind):
    it = {"id": o["id"], "file": o["file"], "path": o["path"], "kind": kind}
    it["types"] = dict(x.split(":", 1) for x in o.get("types", "").split(",") if x)
    for k in ("strip", "drop", "drop_stmts", "enter", "ref_iter", "opts"):
        if o.get(k):
            sep = "," if k in ("strip", "drop", "ref_iter", "opts") else ";;"
            it[{"strip": "strip_args", "drop": "drop_variants"}.get(k, k)] = o[k].split(sep)
    for k in ("methods", "calls"):
        if o.get(k):
            it[k] = dict(x.split("=>", 1) for x in o[k].split(","))
    for k in ("after", "from", "until", "through", "index_ty"):
        if o.get(k):
            it[k] = o[k]
    if o.get("stages"):
        it["stages"] = o["stages"].split(",")
    if o.get("parcols"):
        it["parcols"] = True
    if o.get("mats"):
        it["mats"] = True
    if o.get("hset"):
        it["hset"] = True
    if o.get("own_iter"):
        it["own_iter"] = True
    if o.get("wrap_tail"):
        it["wrap_tail"] = True
    return it


class Fn:
    def __init__(self, o, kind):
        self.o, self.kind = o, kind
        self.sig = None
        self.attr = ""
        self.sections = {}
        self.letty = {}
        self.imported = False


def parse_contract(path, defaults=None, seen=None):
    """-> list of ('text', str) | ('item', Fn)"""
    seen = seen if seen is not None else set()
    out, buf = [], []
    defaults = dict(defaults or {})
    cur = None
    sec = None
    nid = 0

    def flush():
        nonlocal buf
        if buf:
            out.append(("text", "\n".join(buf) + "\n"))
            buf = []
    for ln in open(path).read().split("\n"):
        st = ln.strip()
        if st.startswith("//@"):
            d = st[3:].strip()
            w, _, rest = d.partition(" ")
            if w == "default":
                defaults.update(kv(rest))
                continue
            if w == "include":
                flush()
                if rest.strip() not in seen:
                    seen.add(rest.strip())
                    out += parse_contract(os.path.join(CDIR, rest.strip()), defaults, seen)
                continue
            if w == "import":
                # another contract file: its contracts are used here, its obligations are discharged by its own unit
                flush()
                imp = parse_contract(os.path.join(CDIR, rest.strip()), {}, seen)
                for k, x in imp:
                    if k == "item":
                        x.imported = True
                mod = os.path.splitext(rest.strip())[0]
                out.append(("text", f"pub mod {mod} {{\nuse super::*;\nuse vstd::prelude::*;\n"))
                out += imp
                out.append(("text", f"}}\npub use {mod}::*;\n"))
                continue
            if w == "twin":
                # the same contract on another function
                prev = [x for k, x in out if k == "item" and x.kind == "fn"][-1]
                o = dict(prev.o)
                o.update(kv(rest))
                o["id"] = f"{os.path.basename(path)}:{o['path']}" + (":" + o["name"] if "name" in o else "")
                t = Fn(o, "fn")
                t.sig, t.attr, t.sections, t.letty = prev.sig, prev.attr, prev.sections, prev.letty
                out.append(("item", t))
                continue
            if w in ("struct", "enum", "const"):
                flush()
                o = dict(defaults)
                o.update(kv(rest))
                nid += 1
                o.setdefault("id", f"{os.path.basename(path)}:{o['path']}:{nid}")
                out.append(("item", Fn(o, w)))
                continue
            if w == "fn":
                flush()
                o = dict(defaults)
                o.update(kv(rest))
                nid += 1
                o.setdefault("id", f"{os.path.basename(path)}:{o['path']}" + (":" + o["name"] if "name" in o else ""))
                cur = Fn(o, "fn")
                sec = None
                continue
            if w == "end":
                out.append(("item", cur))
                cur = None
                continue
            if cur is not None:
                if w == "sig":
                    cur.sig = rest
                    continue
                if w == "attr":
                    cur.attr += rest + "\n"
                    continue
                if w in ("methods", "calls", "drop_stmts", "enter", "from", "until", "through", "after", "types"):
                    cur.o[w] = (cur.o[w] + "," + rest.strip()) if w == "types" and w in cur.o else rest.strip()
                    continue
                if w == "wrap_tail":
                    cur.o["wrap_tail"] = "1"
                    continue
                if w == "letty":  # type annotation for a local whose type rustc would infer
                    n, _, t = rest.partition(" ")
                    cur.letty[n] = t
                    continue
                sec = {"spec": "spec", "loop": f"loop{rest.strip()}.inv", "at": rest.strip(), "closure": f"closure{rest.strip()}"}.get(w)
                if sec is None:
                    raise RuntimeError(f"{path}: unknown directive {st}")
                cur.sections.setdefault(sec, [])
                continue
        if cur is not None:
            if sec is None:
                if st:
                    raise RuntimeError(f"{path}: text outside a section: {st}")
            else:
                cur.sections[sec].append(ln)
        else:
            buf.append(ln)
    flush()
    return out


def lit_expr(v):
    v = v.rstrip(".")
    m = re.match(r"^([0-9_.]+)(?:e([+-]?\d+))?(?:_?f64|_?f32)?$", v)
    if not m:
        return None
    mant, ex = m.group(1).replace("_", ""), int(m.group(2) or 0)
    ip, _, fp = mant.partition(".")
    num = int((ip + fp) or "0")
    e = ex - len(fp)
    num, den = (num * 10 ** e, 1) if e >= 0 else (num, 10 ** (-e))
    from math import gcd
    g = gcd(num, den) or 1
    num, den = num // g, den // g
    return f"({num}int as real)" if den == 1 else f"(({num}int as real) / ({den}int as real))"


def alpha(cur, base):
    """renamed locals/params: positional map base-name -> current-name"""
    m = {}
    for k in ("params", "lets"):
        a, b = base.get(k, []), cur.get(k, [])
        if len(a) == len(b):
            for x, y in zip(a, b):
                if x != y:
                    m[x] = y
    return m


def params_of(inputs):
    depth, parts, cur = 0, [], ""
    for c in inputs:
        if c in "([{<":
            depth += 1
        if c in ")]}>":
            depth -= 1
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    out = []
    for p in parts:
        p = p.strip()
        if not p:
            continue
        if ":" in p:
            n = p.split(":", 1)[0].replace("mut", "").strip()
            out.append(n)
        else:
            out.append("self")
    return out


def render_fn(f, x, base, lits, vac=None):
    """f: Fn spec; x: rs2v output -> (text, problems)"""
    problems = []
    ren = alpha({"params": params_of(x["inputs"]), "lets": x["lets"]}, base or {})

    def sub(t):
        if not ren:
            return t
        return re.sub(r"\b(" + "|".join(map(re.escape, ren)) + r")\b", lambda m: ren[m.group(1)], t)
    used = set()
    body = x["body"]
    secs = {}
    for k, v in f.sections.items():
        kk = k
        m = re.match(r"^(let|set)\.(.+)\.(\d+)$", k)
        if m and ren:
            kk = f"{m.group(1)}.{ren.get(m.group(2), m.group(2))}.{m.group(3)}"
        secs[kk] = sub("\n".join(v))
    # loops: the invariant goes between `while cond` and `{`
    def loop_repl(m):
        k = m.group(1)
        key = f"loop{k}.inv"
        used.add(key)
        inv = secs.get(key, "")
        return f"\n{inv}\n{{"
    body = re.sub(r'\{ __vm ! \("loop(\d+)\.inv"\) ;', loop_repl, body)
    body = re.sub(r'\{ *__vm ! \("loop(\d+)\.inv"\) ;', loop_repl, body)

    def clos(m):
        k = m.group(1)
        key = f"closure{k}"
        used.add(key)
        return secs.get(key, "") + " {"
    body = re.sub(r'-> __ClosRet(?:\d+) \{ __vm ! \("closure(\d+)"\) ;?', clos, body)

    def reach(key):
        # vacuity mode: a point the verifier must not be able to prove unreachable
        if vac is None or key.startswith(("let.__", "set.", "before.")):
            return ""
        vac.append((f.o["path"], key))
        return f"\nproof {{ if vx_reach({len(vac) - 1}) {{ assert(false); }} }}\n"

    def mark(m):
        key = m.group(1)
        if key in secs:
            used.add(key)
            return "\n" + secs[key] + "\n" + reach(key)
        return " " + reach(key)
    body = re.sub(r'__vm ! \("([^"]+)"\) ;', mark, body)
    if "fn.start" in secs:
        used.add("fn.start")
        body = secs["fn.start"] + "\n" + body
    body = reach("fn.start") + body
    for k in secs:
        if k != "spec" and k not in used:
            problems.append(f"anchor lost: marker {k}")
    for n, t in f.letty.items():
        n = ren.get(n, n)
        body, c = re.subn(r"\blet (mut )?%s (?::[^=;]*)?=" % re.escape(n), lambda m: f"let {m.group(1) or ''}{n} : {t} =", body)
        if not c:
            problems.append(f"anchor lost: let {n}")
    name = f.o.get("name", x["name"])
    if f.sig:
        sig = f.sig
    else:
        ret = f" -> ({f.o.get('ret', 'r')}: {x['ret']})" if x["ret"] else ""
        g = f.o.get("generics", x["generics"]).replace("none", "")
        sig = ("" if f.o.get("vis") == "none" else "pub ") + f"fn {name} {g} ({x['inputs']}){ret}"
    for n, v in x["lits"].items():
        lits[n] = v
    text = f"{f.attr}{sig}\n{secs.get('spec', '')}\n{{\n{body}\n}}\n"
    return text, problems


def load_baseline():
    return json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}


def prettify(t):
    t = re.sub(r" ([;,.?)\]])", r"\1", t)
    return t


class UnitResult(dict):
    pass


def run_unit(unit, exe, workdir, rlimit=60, keep=False, root=REPO + "/src", update_baseline=None, verify_fn=None, vacuity=False):
    """Extract + splice + verify one contract file. Returns dict."""
    t0 = time.time()
    base = load_baseline().get(unit, {})
    m = re.search(r"^//@rlimit (\d+)", open(os.path.join(CDIR, unit)).read(), re.M)
    if m:
        rlimit = min(rlimit, int(m.group(1)))
    parts = parse_contract(os.path.join(CDIR, unit))
    items = [p[1] for p in parts if p[0] == "item"]
    req = {"root": root, "items": [opts_to_item(f.o, f.kind) for f in items]}
    r = subprocess.run([exe], input=json.dumps(req), capture_output=True, text=True)
    res = {"unit": unit, "undecided": [], "failed": [], "functions": [], "obligations": 0, "discharged": 0, "drops": [],
           "checker_cmd": "", "solver_ms": 0, "trusted": [], "vacuity": "", "wall_s": 0}
    if r.returncode != 0:
        res["undecided"].append("extractor: " + r.stderr[-500:])
        return res
    ext = json.loads(r.stdout)
    lits, ranges = {}, []
    vac = [] if vacuity else None
    chunks = []
    newbase = {}
    fail_extract = False
    for kind, p in parts:
        if kind == "text":
            chunks.append((p, None))
            continue
        x = ext[p.o["id"]]
        if not x["ok"]:
            res["undecided"].append(f"{p.o['path']}: {x['error']}")
            fail_extract = True
            continue
        for d in (x.get("drops", []) or []) if not p.imported else []:
            res["drops"].append(f"{p.o['path']}: {d}")
        if p.kind != "fn":
            t = x["text"]
            chunks.append((t + "\n", None))
            if p.imported:
                continue
            newbase[p.o["id"]] = {"src": hashlib.sha256(t.encode()).hexdigest()}
            continue
        if p.imported:
            name = p.o.get("name", x["name"])
            ret = f" -> ({p.o.get('ret', 'r')}: {x['ret']})" if x["ret"] else ""
            g = p.o.get("generics", x["generics"]).replace("none", "")
            sig = p.sig or f"pub fn {name} {g} ({x['inputs']}){ret}"
            chunks.append((prettify(f"#[verifier(external_body)] {sig}\n" + "\n".join(p.sections.get("spec", [])) + "\n{ unimplemented!() }\n"), None))
            continue
        text, probs = render_fn(p, x, base.get(p.o["id"]), lits, vac)
        for q in probs:
            res["undecided"].append(f"{p.o['path']}: {q}")
        newbase[p.o["id"]] = {"src": hashlib.sha256((x["src"]).encode()).hexdigest(), "loops": x["loops"], "closures": x["closures"],
                              "callees": x["callees"], "lets": x["lets"], "params": params_of(x["inputs"])}
        for k in ("from", "until", "through", "after", "drop_stmts", "enter"):
            if p.o.get(k):
                res["drops"].append(f"{p.o['path']}: verified as a fragment ({k} `{p.o[k]}`)")
        chunks.append((prettify(text), (p.o["id"], p.o["path"], os.path.relpath(x["file"], REPO), x["line"])))
    if update_baseline is not None:
        update_baseline[unit] = newbase
    out = ["#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, non_camel_case_types, unused_assignments)]\n"]

    for t, meta in chunks:
        if "//@LITERALS" in t:
            decl = ""
            for n, v in sorted(lits.items()):
                e = lit_expr(v)
                if e is None:
                    res["undecided"].append(f"literal {v}")
                    continue
                decl += f"#[verifier::external_body] pub fn {n}() -> (r: R) ensures r@ == {e}, !nanp(r) {{ unimplemented!() }}\n"
            lit_slot = decl
            t = t.replace("//@LITERALS", "//@LITERALS@")
        out.append(t)
    src = "".join(out)
    if "//@LITERALS@" in src:
        decl = ""
        for n, v in sorted(lits.items()):
            e = lit_expr(v)
            if e is not None:
                decl += f"#[verifier::external_body] pub fn {n}() -> (r: R) ensures r@ == {e}, !nanp(r) {{ unimplemented!() }}\n"
        src = src.replace("//@LITERALS@", decl)
    elif lits:
        res["undecided"].append("float literals without a literal slot: " + ",".join(lits))
    if "//@STRKEYS" in src:
        # different texts are different names: one number per text that occurs
        ks = sorted(set(re.findall(r'"([^"\\\n]*)"', src)))
        src = src.replace("//@STRKEYS", "pub axiom fn vx_keys() ensures " + ", ".join(f'skey("{k}"@) == {i}' for i, k in enumerate(ks)) + ";")
    os.makedirs(workdir, exist_ok=True)
    if vacuity:
        return reachable(unit, src, vac, workdir, res, rlimit)
    fn = os.path.join(workdir, os.path.splitext(unit)[0] + ".rs")
    open(fn, "w").write(src)
    # line ranges of spliced functions
    for t, meta in chunks:
        if meta:
            i = src.find(t)
            a = src.count("\n", 0, i) + 1
            ranges.append((a, a + t.count("\n"), meta))
    for a, b, m in ranges:
        res["functions"].append({"id": m[0], "fn": m[1], "at": f"{m[2]}:{m[3]}"})
    res["trusted"] = scan_trusted(src)
    logd = os.path.join(workdir, os.path.splitext(unit)[0] + ".log")
    cmd = ["verus", fn, "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "5",
           "--log", "air", "--log-dir", logd, "--num-threads", "4"]
    if any(p.imported for p in items):
        cmd += ["--verify-root"]
    if verify_fn:
        cmd += (["--verify-root"] if "--verify-root" not in cmd else []) + ["--verify-function", verify_fn]
    res["checker_cmd"] = " ".join(cmd)
    if fail_extract:
        res["wall_s"] = time.time() - t0
        return res
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=clean_env(), timeout=400)
    except subprocess.TimeoutExpired:
        res["undecided"].append("verus: timeout")
        res["wall_s"] = time.time() - t0
        return res
    res["raw"] = r.stderr
    try:
        js = json.loads(r.stdout)
    except Exception:
        js = {}
    res["solver_ms"] = js.get("times-ms", {}).get("total-verify", 0) or js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    vr = js.get("verification-results", {})
    res["verified_functions"] = vr.get("verified", 0)
    # obligations per function from the AIR log
    per = {}
    try:
        cur = None
        for root_, _, fs in os.walk(logd):
            for g in fs:
                if not g.endswith(".air"):
                    continue
                seen_defs = set()
                for ln in open(os.path.join(root_, g)):
                    if ln.startswith(";; Function-Def") or ln.startswith(";; Function-"):
                        cur = ln.split()[-1] if "Function-Def" in ln or "Decl-Check" in ln or "Termination" in ln or "Recommends" not in ln else None
                    elif ln.strip() == "(assert" and cur:
                        per[cur] = per.get(cur, 0) + 1
    except FileNotFoundError:
        pass
    sh = lambda p: subprocess.run(["rm", "-rf", p])
    sh(os.path.abspath(logd))
    res["obligations"] = sum(per.values())
    res["per_function"] = per
    diags = []
    for ln in r.stderr.splitlines():
        try:
            d = json.loads(ln)
        except Exception:
            continue
        if d.get("level") == "error":
            diags.append(d)
    bad = 0
    for d in diags:
        msg = d.get("message", "")
        spans = d.get("spans", [])
        prim = [s for s in spans if s.get("is_primary")] or spans
        if msg.startswith("aborting") or "verification results" in msg:
            continue
        where = None
        for s in prim + spans:
            for a, b, m in ranges:
                if a <= s["line_start"] <= b:
                    where = m
                    break
            if where:
                break
        clause = "; ".join(" ".join(t["text"].strip() for t in s.get("text", []))[:300] for s in prim)
        allt = "; ".join((s.get("label") or "") + ": " + " ".join(t["text"].strip() for t in s.get("text", []))[:200] for s in spans if not s.get("is_primary"))
        rec = {"message": msg, "fn": where[1] if where else None, "id": where[0] if where else None, "clause": clause, "context": allt}
        if any(k in msg for k in RLMSG):
            res["undecided"].append(f"rlimit: {rec['fn']}: {msg}")
            bad += 1
        elif any(k in msg for k in VMSG):
            bad += 1
            res["failed"].append(rec)
        else:
            res["undecided"].append(f"verifier rejected the text: {msg} [{clause[:160]}] in {rec['fn']}")
            bad += 1
    if not vr and not diags:
        res["undecided"].append("verus produced no result: " + r.stderr[-400:])
    if vr and vr.get("encountered-vir-error"):
        res["undecided"].append("verus: VIR error")
    ok = bool(vr) and bool(vr.get("success", not vr.get("encountered-error") and not vr.get("encountered-vir-error") and vr.get("errors") == 0 and vr.get("verified", 0) > 0)) and not diags
    res["ok"] = ok and not res["undecided"]
    res["discharged"] = res["obligations"] - bad if not any("rejected" in u for u in res["undecided"]) else 0
    if res["ok"] and (res["obligations"] == 0 or res["verified_functions"] == 0):
        res["undecided"].append("vacuity guard: no obligations")
        res["ok"] = False
    # classify failures: definite only if the failing function's own text changed with an unchanged structure
    definite, soft = [], []
    softunit = "//@soft" in open(os.path.join(CDIR, unit)).read()
    for rec in res["failed"]:
        b = base.get(rec["id"] or "", {})
        c = newbase.get(rec["id"] or "", {})
        same_struct = all(b.get(k) == c.get(k) for k in ("loops", "closures")) and \
            set(b.get("callees", [])) - EXACT == set(c.get("callees", [])) - EXACT and len(b.get("lets", [])) == len(c.get("lets", []))
        changed = b.get("src") != c.get("src")
        rec["structure_same"] = bool(same_struct)
        rec["source_changed"] = bool(changed)
        # `//@soft` units: an algebraically equal chain may need another proof, so a failure there never decides by itself
        (definite if (rec["id"] and b and same_struct and changed and not softunit) else soft).append(rec)
    res["definite"] = definite
    for rec in soft:
        res["undecided"].append(f"undischarged (structure changed or ghost text only): {rec['fn']}: {rec['message']} [{rec['clause'][:120]}]")
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def reachable(unit, src, vac, workdir, res, rlimit):
    """Vacuity check: `assert(false)` under an unknown condition at every marked point of the extracted functions.
    Each must fail; a point where it is proved is unreachable under the contracts (contradictory precondition, invariant or trusted contract)."""
    if res["undecided"]:
        return res
    d = os.path.join(workdir, "vacuity")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, os.path.splitext(unit)[0] + ".rs")
    open(fn, "w").write(src + "\nverus!{ pub uninterp spec fn vx_reach(k: int) -> bool; }\n")
    cmd = ["verus", fn, "--output-json", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "1000", "--num-threads", "4"]
    if re.search(r"(?m)^pub use \w+::\*;$", src):
        cmd += ["--verify-root"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=clean_env(), timeout=800)
    except subprocess.TimeoutExpired:
        res["undecided"].append("vacuity: timeout")
        return res
    seen, limit = set(), set()
    lines = open(fn).read().split("\n")
    for ln in r.stderr.splitlines():
        try:
            x = json.loads(ln)
        except Exception:
            continue
        if x.get("level") == "error":
            for s in x.get("spans", []):
                for i in range(s["line_start"], s["line_end"] + 1):
                    m = re.search(r"vx_reach\((\d+)\)", lines[i - 1])
                    if m and "assert(false)" in lines[i - 1]:
                        seen.add(int(m.group(1)))
            if any(k in x.get("message", "") for k in RLMSG):
                limit.add(x.get("message", "")[:80] + " " + str([s["line_start"] for s in x.get("spans", [])][:1]))
    res["points"] = len(vac)
    res["reached"] = len(seen)
    res["unreachable"] = [f"{a}: {b}" for i, (a, b) in enumerate(vac) if i not in seen]
    res["limit"] = sorted(limit)
    res["ok"] = not res["unreachable"]
    return res


# functions whose trusted specification determines the result: using another of them is no change of structure
EXACT = {"vx_or", "vx_and", "min", "max", "abs", "abs_diff", "len", "is_empty", "clamp", "R::zero", "R::one", "name", "Some", "Ok", "Err"}


def scan_trusted(src):
    out = []
    for m in re.finditer(r"#\[verifier::external_body\][^;{]*?fn\s+(\w+)", src):
        n = m.group(1)
        if not n.startswith("__rl_"):
            out.append("external_body fn " + n)
    if "__rl_" in src:
        out.append("float literals read as exact decimals (__rl_*)")
    for m in re.finditer(r"\b(assume|admit)\s*\(", src):
        out.append("assume/admit in ghost text at offset %d" % m.start())
    for m in re.finditer(r"assume_specification[^;{]*?\[\s*([^\]]+?)\s*\]", src):
        out.append("assume_specification " + re.sub(r"\s+", "", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", src):
        out.append("axiom " + m.group(1))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("units", nargs="*")
    ap.add_argument("--baseline", action="store_true")
    ap.add_argument("--rlimit", type=float, default=60)
    ap.add_argument("--root", default=REPO + "/src")
    ap.add_argument("--fn")
    ap.add_argument("--vacuity", action="store_true")
    a = ap.parse_args()
    exe = build_rs2v()
    nb = {} if a.baseline else None
    units = a.units or sorted(f for f in os.listdir(CDIR) if f.endswith(".vrs") and not f.startswith("prelude"))
    for u in units:
        if a.vacuity:
            r = run_unit(u, exe, "/tmp/vwork", rlimit=a.rlimit, root=a.root, vacuity=True)
            print(f"{u}: vacuity points={r.get('points')} reached={r.get('reached')} {r['undecided'][:2]} {r.get('limit', [])[:3]}")
            for x in r.get("unreachable", []):
                print("   unreachable:", x)
            continue
        r = run_unit(u, exe, "/tmp/vwork", rlimit=a.rlimit, root=a.root, update_baseline=nb, verify_fn=a.fn)
        print(f"{u}: ok={r.get('ok')} obligations={r['obligations']} discharged={r['discharged']} fns={len(r['functions'])} {r['wall_s']}s")
        for x in r["undecided"]:
            print("   undecided:", x[:600])
        for x in r["failed"]:
            print("   FAILED:", x["fn"], x["message"], "|", x["clause"], "|", x["context"])
        if not r.get("ok") and not r["failed"] and r.get("raw"):
            for ln in r["raw"].splitlines():
                try:
                    print(json.loads(ln).get("rendered", "")[:1200])
                except Exception:
                    print(ln[:400])
    if nb is not None:
        b = load_baseline()
        b.update(nb)
        json.dump(b, open(BASELINE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
