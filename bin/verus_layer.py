"""The Verus layer: extract, annotate, verify, check for vacuity, classify."""
import importlib.util, json, os, pathlib, re, signal, subprocess, threading, time
import rsx
from rsx import Lost

V = pathlib.Path(__file__).resolve().parent.parent
SOFT = re.compile(r"rlimit|resource limit|not (yet )?support|unsupported|cancel|timed? ?out", re.I)
HARD = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                  r"possible arithmetic|possible division|decreases not satisfied|termination|panic|unreachable|possible bit shift", re.I)


def load(prop):
    spec = importlib.util.spec_from_file_location("vspec_" + prop, V / "verus" / (prop.lower() + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def generate(m, vac=False):
    """-> (text, [(qualified fn name)], dropped-notes, uncontracted helpers)"""
    out = ["// generated from /repo on every run; do not edit",
           "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, non_snake_case, unused_braces, non_upper_case_globals)]",
           "use vstd::prelude::*;", "use vstd::std_specs::ops::*;", "use vstd::std_specs::cmp::*;", "verus! {"]
    if vac:
        out.append("pub uninterp spec fn vacuity_probe(k: int) -> bool;")
    if "f64" in getattr(m, "USES", []):
        out.append((V / "verus" / "prelude_f64.rs").read_text())
    tys = []
    for f, n, der in getattr(m, "STRUCTS", []):
        st = rsx.Src(f).struct(n)
        out.append(der + "\n" + st)
        # Verus does not record that a double field holds a double (typing fact, needed to use quantified facts about doubles)
        for fld in re.findall(r"\bpub (\w+)\s*:\s*f64\b", st):
            tys.append("ax_ty_%s_%s" % (n, fld))
            out.append("pub broadcast axiom fn ax_ty_%s_%s(s: %s) ensures fty(#[trigger] s.%s);" % (n, fld, n, fld))
    if "f64" in getattr(m, "USES", []):
        out.append("pub broadcast group ty_ax { %s }" % ", ".join(["ax_ty_dummy"] + tys))
    for u in getattr(m, "USES", []):
        if u != "f64":
            out.append((V / "verus" / ("prelude_%s.rs" % u)).read_text())
    out.append(getattr(m, "PRELUDE", ""))
    names, helpers, assumed = [], [], []
    nfn = 0
    # constants whose value is an expression on doubles: `const C: f64 = e;` is read as `fn const_C() -> f64 { e }`
    rsx.CONST_REWRITES[:] = [(r"\b(?:%s|Self)::%s\b" % (im["ty"], c) if im["ty"] else r"\b%s\b" % c, "%s::const_%s()" % (im["ty"], c))
                             for im in m.IMPLS for c in im.get("constfns", {})]
    for im in m.IMPLS:
        src = rsx.Src(im["file"])
        spans = src.fn_spans(im["ty"])
        body_parts = []
        for c in im.get("consts", []):
            body_parts.append(src.const(im["ty"], c))
        for c, ens in im.get("constfns", {}).items():
            mm = re.match(r"(?:pub\s+)?const\s+%s\s*:\s*(\w+)\s*=\s*(.*);\s*$" % c, src.const(im["ty"], c).strip(), re.S)
            if not mm:
                raise Lost("%s::%s is no constant expression" % (im["ty"], c))
            body_parts.append(rsx.Fn("const_" + c, ensures=ens, start="broadcast use f64_ax, c_ax; " + im.get("conststart", "")).emit("pub fn const_%s() -> %s" % (c, mm.group(1)), "{ %s }" % mm.group(2)))
            names.append("%s::const_%s" % (im["ty"], c))
        done = set()
        todo = list(im["fns"])
        emitted = []
        while todo:
            f = todo.pop(0)
            if f.name in done:
                continue
            done.add(f.name)
            if f.name not in spans:
                raise Lost("%s::%s is gone from %s" % (im["ty"], f.name, im["file"]))
            sig, body = spans[f.name]
            nfn += 1
            emitted.append(f.emit(sig, body, vac=bool(vac) and not f.external, stub=bool(vac) and nfn % vac[1] != vac[0]))
            if f.external:
                assumed.append("%s::%s" % (im["ty"], f.name))
                continue
            else:
                names.append("%s::%s" % (im["ty"], f.name))
            # helpers of the same type that carry no contract: extracted as they are
            known = {g.name for g in im["fns"]}
            for ty, c in rsx.calls(body):
                if c in spans and c not in known and c not in done and c not in im.get("ignore", []) and \
                        (ty in ("Self", im["ty"]) or ("self.%s" % c) in body):
                    helpers.append("%s::%s" % (im["ty"], c))
                    nl = [dict(kind=k) for k, _, _ in rsx.find_loops(spans[c][1])]
                    todo.append(rsx.Fn(c, loops=nl))
        hdr = im.get("header") or ("impl %s {" % im["ty"] if im["ty"] else "")
        out.append(hdr + "\n" + "\n".join(body_parts + emitted) + ("\n}" if im["ty"] else ""))
    out.append(getattr(m, "LEMMAS", ""))
    out.append("} // verus!")
    return "\n".join(out), names, helpers, assumed


def run_verus(path, extra, timeout):
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.Popen(["verus", "--crate-type=lib", str(path), "--output-json", "--time-expanded", "--error-format=json",
                          "--num-threads", "8"] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         cwd=path.parent, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, []
    try:
        d = json.loads(o[o.index("{"):])
    except ValueError:
        d = None
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return d, diags


def fn_of_line(text):
    """line number -> enclosing function name"""
    res, cur = {}, None
    ty = None
    for i, l in enumerate(text.splitlines(), 1):
        m = re.match(r"impl\s+(\w+)\s*\{", l)
        if m:
            ty = m.group(1)
        m = re.match(r"\s*(?:pub\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:broadcast\s+)?(?:const\s+)?(?:(proof|spec|axiom)\s+)?fn\s+(\w+)", l)
        if m:
            cur = (m.group(2) if m.group(1) or ty is None else "%s::%s" % (ty, m.group(2)))
        res[i] = cur
    return res


# axioms whose theorem has another name
PROVED = {"ax_lits": "lit_split", "ax_three": "lit_3", "ax_34": "lit_4", "ax_4": "lit_4", "ax_180": "lit_180", "ax_ten": "lit_10",
          "ax_nan_lt": "ax_nan", "ax_nan_le": "ax_nan", "ax_nan_gt": "ax_nan", "ax_nan_ge": "ax_nan", "ax_nan_eq": "ax_nan", "ax_nan_ne": "ax_nan",
          "ax_rnd_idm": "ax_rnd_idem", "ax_hypr_float": "ax_hypr_double", "ax_sqrr1": "ax_sqrr", "ax_fneg": "ax_neg", "ax_pi_is_double": "lit_pi",
          "ax_2pi": "lit_2pi", "ax_eps": "lit_eps", "ax_snap": "lit_snap", "f64::sqrt ": "sqrt_is", "external_body: fneg": "ax_neg", "external_body: f64_max": "lit_max"}


def ieee(work):
    """have Rocq check the arithmetic axioms; without an answer they stay listed as assumed"""
    import shutil, tempfile
    src = V / "proofs" / "Ieee.v"
    if not shutil.which("coqc") or not src.exists():
        return {"note": "proofs/Ieee.v was not checked in this run: the axioms are assumed"}
    d = tempfile.mkdtemp(prefix="ieee-", dir=str(work))
    try:
        shutil.copy(str(src), d)
        p = subprocess.run(["coqc", "-q", "Ieee.v"], cwd=d, capture_output=True, text=True, timeout=180)
        txt = src.read_text()
        if p.returncode or re.search(r"\b(Admitted|Axiom|Parameter|Conjecture)\b", txt):
            return {"note": "proofs/Ieee.v was not accepted in this run: the axioms are assumed"}
        return {"theorems": re.findall(r"^Theorem (\w+)", txt, re.M),
                "note": "proofs/Ieee.v: Rocq 8.16 kernel, Flocq's binary64 as the meaning of f64, the axioms of classical real analysis; that rustc's f64 operations are Flocq's"}
    except (subprocess.TimeoutExpired, OSError):
        return {"note": "proofs/Ieee.v was not checked in this run: the axioms are assumed"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(prop, tier, work):
    t0 = time.time()
    m = load(prop)
    d = work / ("verus-" + prop)
    d.mkdir(parents=True, exist_ok=True)
    try:
        text, names, helpers, assumed = generate(m)
    except Lost as e:
        return {"status": "undecided", "why": "extraction: %s" % e, "items": []}
    f = d / "extracted.rs"
    f.write_text(text)
    rl = ["--rlimit", str(getattr(m, "RLIMIT", 60))]
    # the vacuity run goes on at the same time: with a probe `if p { assert(false) }` at the start of
    # every body and loop body, each probe must fail (be reachable under the contract's precondition)
    # (in K parts, each with the bodies of the other parts left out)
    K = min(5, 1 + len(names) // 25)
    parts = []
    for k in range(K):
        text2, _, _, _ = generate(m, vac=(k, K))
        text2 = re.sub(r"(?m)^((?:pub )?(?:broadcast )?proof fn )", r"#[verifier::external_body] \1", text2)   # lemmas are proved in the first run
        f2 = d / ("vacuity%d.rs" % k)
        f2.write_text(text2)
        parts.append([text2, f2, None, []])
    coq = {}
    cth = threading.Thread(target=lambda: coq.update(ieee(V / ".work")))
    cth.start()
    def vacrun(p):
        p[2:] = run_verus(p[1], ["--rlimit", "2", "--multiple-errors", "6"], 300)
    vths = [threading.Thread(target=vacrun, args=(p,)) for p in parts]
    for t in vths:
        t.start()
    js, diags = run_verus(f, rl, getattr(m, "TIMEOUT", 400))
    for t in vths:
        t.join()
    axioms = sorted(set(re.findall(r"axiom\s+fn\s+(\w+)", text)) | set(re.findall(r"assume_specification[^\n;]*\[\s*([^\]]+)\]", text))
                    | {"external_body: " + x for x in re.findall(r"#\[verifier::external_body\]\s*(?:pub\s+)?(?:proof\s+)?fn\s+(\w+)", text)
                       if not any(a.endswith("::" + x) for a in assumed)})
    bad = re.findall(r"\b(assume|admit)\s*\(", text)
    cth.join()
    thms = set(coq.get("theorems", []))
    def how(a):
        if PROVED.get(a, a) in thms and a.startswith("ax_hypr"):
            return "verus axiom on libm's hypot, proved of a correctly rounded one in proofs/Ieee.v (Rocq, Flocq; theorem %s): %s" % (PROVED.get(a, a), a)
        if PROVED.get(a, a) in thms:
            return "verus axiom, proved of IEEE binary64 in proofs/Ieee.v (Rocq, Flocq; theorem %s): %s" % (PROVED.get(a, a), a)
        if a.startswith("ax_ty_"):
            return "verus axiom (a struct field of type f64 holds a double): " + a
        if re.fullmatch(r"ax_(add|sub|mul|div|neg)_req", a):
            return "verus axiom (the operation has no precondition: it is total): " + a
        return "verus axiom / assumed specification: " + a
    base = {"trusted": ["Verus 0.2026.09.13 and Z3"] + [how(a) for a in axioms] + ([coq["note"]] if coq.get("note") else [])
            + (["verus assume/admit occurrences: %d" % len(bad)] if bad else []) + ["contract used here, discharged on the body by the check named in DESIGN.md: " + a for a in assumed] + getattr(m, "TRUSTED", []),
            "assumptions": getattr(m, "ASSUMPTIONS", []),
            "extraction": {"file": str(f), "functions": names, "uncontracted_helpers": helpers,
                           "drops": "visibility, attributes and comments; functions not listed; " + getattr(m, "DROPS", "nothing else")}}
    if js is None or js.get("verification-results", {}).get("encountered-vir-error") or "verification-results" not in (js or {}) \
            or not js.get("times-ms", {}).get("smt"):
        msg = next((x["message"] for x in diags if x.get("level") == "error"), "no result")
        return dict(base, status="undecided", why="Verus does not accept the extracted text: " + msg[:300], raw="\n".join(x.get("rendered", "") for x in diags if x.get("level") == "error")[:5000], items=[])
    vr = js["verification-results"]
    lines = fn_of_line(text)
    errs = {}
    for x in diags:
        if x.get("level") != "error" or not x.get("spans"):
            continue
        # attribute the error to the function whose body it is in
        prim = [s for s in x["spans"] if not s["is_primary"]] + [s for s in x["spans"] if s["is_primary"]]
        cand = [s for s in x["spans"] if "end of the function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or "")] or prim
        s0 = [s for s in x["spans"] if s["is_primary"]][0]
        if x["message"].startswith("precondition"):
            cand = [s for s in x["spans"] if s["is_primary"]]
            cand = [s0]
        fn = lines.get(cand[0]["line_start"]) or "?"
        errs.setdefault(fn, []).append(x)
    hardcompile = [x for x in diags if x.get("level") == "error" and x.get("code")]
    if hardcompile:
        return dict(base, status="undecided", why="extracted text does not compile: " + hardcompile[0]["message"][:300], raw="\n".join(x.get("rendered", "") for x in hardcompile[:3]), items=[])
    breakdown = {}
    for mt in js["times-ms"]["smt"].get("smt-run-module-times", []):
        for q in mt.get("function-breakdown", []):
            breakdown.setdefault(q["function"], []).append(q)
    items = []
    solver = js["times-ms"]["smt"]["total"] / 1000.0
    allnames = names + sorted(set(re.findall(r"\bproof\s+fn\s+(\w+)", text)) - set(a for a in axioms))
    for n in allnames:
        short = n.split("::")[-1]
        ex = errs.get(n) or (errs.get(short) if "::" not in n else None) or []
        q = [b for k, v in breakdown.items() if k.endswith("::" + n) or k.endswith("::" + short) and "::" not in n for b in v]
        it = {"name": n, "obligations": max(1, len(q)), "why": "", "raw": "\n".join(x.get("rendered", "") for x in ex)[:4000]}
        if not ex:
            it["status"] = "proved"
        elif any(SOFT.search(x["message"]) for x in ex) or not any(HARD.search(x["message"]) for x in ex):
            it.update(status="undecided", why=ex[0]["message"])
        elif helpers:
            it.update(status="undecided", why="not provable here: calls extracted helper(s) without a contract: %s" % ", ".join(helpers))
        else:
            x = [x for x in ex if HARD.search(x["message"])][0]
            loc = [s for s in x["spans"] if s["is_primary"]][0]
            it.update(status="failed", why="%s: %s" % (x["message"], " ".join(t["text"].strip() for t in loc["text"])[:200]))
        items.append(it)
    unatt = [fn for fn in errs if fn not in allnames]
    if unatt:
        for fn in unatt:
            items.append({"name": "verus:" + str(fn), "obligations": 1, "status": "undecided", "why": errs[fn][0]["message"], "raw": ""})
    if sum(1 for i in items if i["status"] == "proved") and vr.get("verified", 0) == 0:
        return dict(base, status="undecided", why="nothing was verified: " + "; ".join(x["message"] for x in diags if x.get("level") == "error")[:300], items=[])
    vac = {}
    for text2, _, js2, diags2 in parts if all(i["status"] == "proved" for i in items) else []:
        if js2 is None:
            continue
        want = [i for i, l in enumerate(text2.splitlines(), 1) if l.strip() == "assert(false);"]
        got = set()
        for x in diags2:
            for s in x.get("spans", []):
                if s["is_primary"]:
                    got.add(s["line_start"])
        miss = [w for w in want if w not in got]
        ln2 = fn_of_line(text2)
        # a probe the solver gives up on is not known to be unreachable
        gave_up = {ln2.get(s["line_start"]) for x in diags2 if SOFT.search(x.get("message", "")) for s in x.get("spans", [])}
        miss = [w for w in miss if ln2.get(w) not in gave_up]
        vac = {"probes": vac.get("probes", 0) + len(want), "reachable": vac.get("reachable", 0) + len(want) - len(miss),
               "unreached": sorted(set(vac.get("unreached", [])) | {str(ln2.get(w)) for w in miss})}
        allow = set(getattr(m, "VACUITY_OK", []))
        for w in miss:
            for it in items:
                if it["name"] == ln2.get(w) and it["name"] not in allow:
                    it.update(status="undecided", why="vacuous: a probe in the body is unreachable")
    return dict(base, status="ok", items=items, verified=vr.get("verified"), errors=vr.get("errors"), solver_s=solver, vacuity=vac,
                wall=round(time.time() - t0, 1))


if __name__ == "__main__":
    import sys
    sys.path[:0] = [str(V / "bin"), str(V / "verus")]
    r = run(sys.argv[1], "quick", V / ".work")
    for i in r["items"]:
        print(i["status"], i["name"], i["why"])
        if i["status"] != "proved" and "-v" in sys.argv:
            print(i["raw"])
    print(r.get("raw") or "")
    print({k: r.get(k) for k in ("status", "why", "verified", "errors", "solver_s", "vacuity", "wall")})
