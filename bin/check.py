#!/usr/bin/env python3
"""Decide one property against /repo's current working tree.

  check.py C01            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py --replay FILE  re-run a recorded failing input against the real code

Three layers, see DESIGN.md:
  1. Verus   deductive proofs over functions extracted mechanically from /repo (verus/<id>.py)
  2. Kani    contracts of harness/src/<id>.rs discharged on the MIR of the real functions
  3. native  the same contracts run on the compiled code: counterexample search and replay
Exit 0 held, 1 with a VIOLATION line, 2 the check itself could not run.
"""
import json, os, re, subprocess, sys, threading, time, pathlib, shutil, signal

V = pathlib.Path(__file__).resolve().parent.parent
H = V / "harness"
WORK = V / ".work"
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTC_WRAPPER="")
ENV.pop("RUSTUP_TOOLCHAIN", None)
NCPU = os.cpu_count() or 4


def sh(cmd, cwd=H, env=None, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


# ---------------------------------------------------------------- native
def native_build(prop):
    env = dict(ENV, CARGO_TARGET_DIR=str(WORK / "native"))
    rc, out = sh(["cargo", "build", "--offline", "-q", "--features", prop.lower()], env=env, timeout=600)
    exe = WORK / "native" / "debug" / "gh"
    if rc != 0 or not exe.exists():
        sys.stdout.write(out[-4000:])
        die("the contracts do not compile against /repo (build failed)")
    dst = WORK / ("gh-" + prop)
    shutil.copy2(exe, dst)
    return str(dst)


def native_list(exe):
    rc, out = sh([exe, "list"])
    return [json.loads(l) for l in out.splitlines() if l.startswith("{")]


def native_search(exe, secs, seed, threads, names):
    rc, out = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", exe, "search", str(secs), str(seed), str(threads)] + names, timeout=secs * 2 + 60)
    res = []
    for l in out.splitlines():
        if l.startswith("{"):
            res.append(json.loads(l))
    return rc, res, out


def native_seed(exe, name, seed):
    """the run the generator makes of this seed: (bad, what happened)"""
    rc, out = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", exe, "replayseed", name, str(seed)], timeout=40)
    if rc == 124:
        return True, "does not terminate"
    m = re.search(r"RESULT fail (.*)", out)
    return (rc != 0, m.group(1) if m else "crash (exit %s): %s" % (rc, out.strip().splitlines()[-1][:200] if out.strip() else ""))


def native_crash(exe, name, secs, seed):
    """a contract the search died in: find the run, by its seed"""
    t = WORK / ("trace-%d-%s" % (os.getpid(), name))
    env = dict(ENV, GH_TRACE=str(t))
    rc, out = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", exe, "search", str(secs), str(seed), "1", name], env=env, timeout=secs + 60)
    try:
        g = int.from_bytes(t.read_bytes()[:8], "little")
        t.unlink()
    except Exception:
        return None
    return g if rc not in (0,) and '"fail":null' not in out else None


def native_replay(exe, name, raws):
    rc, out = sh([exe, "replay", name] + [str(r) for r in raws], timeout=120)
    return ("RESULT fail" in out or rc not in (0, 1)), out


# ---------------------------------------------------------------- kani
SOFT = ("unwinding assertion", "is not currently supported by Kani", "unsupported", "recursion unwinding")


def kani_flags():
    return ["-Z", "stubbing", "-Z", "function-contracts", "-Z", "unstable-options"]


def kani_run(prop, names, jobs, htimeout, total):
    m = prop.lower()
    cmd = ["cargo", "kani", "--features", m, "--output-format", "terse", "-j", str(jobs),
           "--harness-timeout", "%ds" % htimeout, "--exact"] + kani_flags()
    for n in names:
        cmd += ["--harness", "%s::k::%s" % (m, n)]
    env = dict(ENV, CARGO_TARGET_DIR=str(WORK / ("kani-" + prop)))
    rc, out = sh(cmd, env=env, timeout=total)
    res = {}
    cur = {}
    th = None
    block = {}
    for line in out.splitlines():
        mm = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if mm:
            cur[mm.group(1) or "0"] = mm.group(2).split("::")[-1]
            th = None
            if mm.group(1) is None:
                th = "0"
                block[cur[th]] = []
            continue
        mm = re.match(r"Thread (\d+):\s*$", line)
        if mm:
            th = mm.group(1)
            block[cur[th]] = []
            continue
        if line.startswith(("Manual Harness Summary", "Verification failed for")):
            th = None
        if th is not None and th in cur:
            block.setdefault(cur[th], []).append(line)
    for n in names:
        b = "\n".join(block.get(n, []))
        r = {"name": n, "raw": b, "checks": 0, "failed": 0, "time": None, "status": "undecided", "why": "", "fails": []}
        x = re.search(r"\*\* (\d+) of (\d+) failed", b)
        if x:
            r["failed"], r["checks"] = int(x.group(1)), int(x.group(2))
        x = re.search(r"Verification Time: ([\d.]+)s", b)
        if x:
            r["time"] = float(x.group(1))
        x = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", b)
        r["cover"] = (x is not None and x.group(1) == x.group(2))
        fails = re.findall(r"Failed Checks: (.*)\n(?: File: (.*))?", b)
        r["fails"] = [{"check": a, "at": c} for a, c in fails]
        hard = [f for f in r["fails"] if not any(s in f["check"] for s in SOFT)]
        soft = [f for f in r["fails"] if any(s in f["check"] for s in SOFT)]
        if "VERIFICATION:- SUCCESSFUL" in b and r["cover"] and r["checks"] > 0:
            r["status"] = "proved"
        elif hard:
            r["status"] = "failed"
            r["why"] = hard[0]["check"]
            r["at"] = hard[0]["at"]
        elif soft:
            r["why"] = soft[0]["check"]
        elif "VERIFICATION:- SUCCESSFUL" in b:
            r["status"] = "vacuous"
            r["why"] = "end of the contract unreachable"
        elif "timed out" in b:
            r["why"] = "solver time limit"
        else:
            r["why"] = "no result from the verifier"
        res[n] = r
    return rc, res, out


def kani_counterexample(prop, name, htimeout):
    m = prop.lower()
    cmd = ["cargo", "kani", "--features", m, "--harness", "%s::k::%s" % (m, name), "--exact",
           "--harness-timeout", "%ds" % htimeout,
           "-Z", "concrete-playback", "--concrete-playback=print"] + kani_flags()
    env = dict(ENV, CARGO_TARGET_DIR=str(WORK / ("kani-" + prop)))
    rc, out = sh(cmd, env=env, timeout=htimeout + 120)
    tests = []
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*kani::concrete_playback_run", out, re.S):
        raws = []
        for bs in re.findall(r"vec!\[([\d,\s]*)\]", blk):
            b = bytes(int(t) for t in bs.split(",") if t.strip())
            raws.append(int.from_bytes(b[:8], "little"))
        if raws not in tests:
            tests.append(raws)
    return tests, out


# ---------------------------------------------------------------- main
def write_replay(prop, tag, data):
    d = V / "replays"
    d.mkdir(exist_ok=True)
    p = d / ("%s-%s.json" % (prop, tag))
    data["rerun"] = "python3 /verif/bin/check.py --replay %s" % p
    p.write_text(json.dumps(data, indent=1))
    return str(p)


def do_replay(path):
    d = json.load(open(path))
    print(json.dumps({k: d[k] for k in d if k not in ("raws",)}, indent=1))
    if d.get("gen_seed"):
        bad, out = native_seed(native_build(d["property"]), d["contract"], d["gen_seed"])
        print(out)
        return 1 if bad else 0
    if not d.get("raws"):
        print("no concrete input recorded")
        return 0
    exe = native_build(d["property"])
    bad, out = native_replay(exe, d["contract"], d["raws"])
    print(out)
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    WORK.mkdir(exist_ok=True)
    quick = tier != "thorough"
    budget = 840 if quick else 6 * 3600
    htimeout = 400 if quick else 3600
    search_s = 12 if quick else 180

    sys.path.insert(0, str(V / "bin"))
    sys.path.insert(0, str(V / "verus"))
    violations = []      # (sort key, line)
    notes = []

    # --- Verus layer, in the background
    vres = {"items": [], "status": "none"}
    vthread = None
    if (V / "verus" / (prop.lower() + ".py")).exists():
        import verus_layer
        def vrun():
            try:
                vres.update(verus_layer.run(prop, tier, WORK))
            except Exception as e:  # machinery failure, never an alarm
                vres.update({"status": "undecided", "why": "verus layer: %r" % (e,), "items": []})
        vthread = threading.Thread(target=vrun)
        vthread.start()

    exe = native_build(prop)
    metas = native_list(exe)
    byname = {m["name"]: m for m in metas}
    names = [m["name"] for m in metas if m["tier"] == "quick" or (m["tier"] == "thorough" and not quick)]
    find = [m["name"] for m in metas if m["tier"] == "finding"]
    searchable = [m["name"] for m in metas if m["tier"] != "finding"]

    # --- Kani in the background, native search meanwhile
    kres = {}
    kout = [""]
    def krun():
        if names:
            _, r, o = kani_run(prop, names, NCPU, htimeout, budget - 60)
            kres.update(r)
            kout[0] = o
    kthread = threading.Thread(target=krun)
    kthread.start()

    rc, sres, sout = native_search(exe, search_s, seed, 4, searchable)
    srun = {r["name"]: r for r in sres}
    reported = set()

    def report_concrete(name, raws, msg, inputs, source, extra=None):
        if name in reported:
            return
        reported.add(name)
        data = {"property": prop, "contract": name, "functions": byname[name]["f"], "raws": [str(x) for x in raws],
                "inputs": inputs, "failure": msg, "found_by": source}
        if extra:
            data.update(extra)
        p = write_replay(prop, name, data)
        violations.append((0, "VIOLATION property=%s replay=%s" % (prop, p), name + ": " + msg))

    crashed = [n for n in searchable if n not in srun]
    for r in sres:
        if r["fail"]:
            f = r["fail"]
            if f.get("seed"):
                bad, out = native_seed(exe, r["name"], f["seed"])
                if bad:
                    report_concrete(r["name"], [], out, f["inputs"], "native search over the contract", {"gen_seed": f["seed"]})
                continue
            bad, out = native_replay(exe, r["name"], f["raws"])
            if bad:
                report_concrete(r["name"], f["raws"], f["msg"], f["inputs"], "native search over the contract")
    if crashed and not violations:
        # the search process died (stack overflow, out of memory, abort): find the run
        for n in crashed[:12]:
            g = native_crash(exe, n, 4, seed)
            if g is not None:
                bad, out = native_seed(exe, n, g)
                if bad:
                    report_concrete(n, [], out, "generator seed %d" % g, "native search over the contract", {"gen_seed": str(g)})
                    break
    if crashed:
        notes.append("native search gave no result for: %s (rc=%s)" % (", ".join(crashed), rc))

    findings = []
    for n in find:
        bad, out = native_replay(exe, n, [])
        if bad:
            findings.append(n)

    kthread.join()
    if names and not any(r["status"] in ("proved", "failed") for r in kres.values()):
        if not violations:
            sys.stdout.write(kout[0][-3000:])
            die("the verifier produced no result at all")

    # --- failed Kani obligations: replay the counterexample on the compiled code
    for n, r in kres.items():
        if r["status"] != "failed" or n in reported:
            continue
        left = max(60, int(budget - (time.time() - t0)))
        ok = False
        cex_out = ""
        if violations and left < 200:
            notes.append("%s: obligation failed too, counterexample not extracted" % n)
            continue
        try:
            tests, cex_out = kani_counterexample(prop, n, min(htimeout, left))
        except Exception as e:
            tests = []
        for raws in tests:
            bad, out = native_replay(exe, n, raws)
            if bad:
                inputs = re.search(r"inputs: (.*)", out)
                msg = re.search(r"RESULT fail (.*)", out)
                report_concrete(n, raws, msg.group(1) if msg else "crash", inputs.group(1) if inputs else "",
                                "Kani counterexample, replayed", {"obligation": r["fails"]})
                ok = True
                break
        if not ok:
            rc2, s2, _ = native_search(exe, 20, seed + 7, NCPU, [n])
            for q in s2:
                if q["fail"]:
                    f = q["fail"]
                    report_concrete(n, f["raws"], f["msg"], f["inputs"], "native search after a failed obligation", dict({"obligation": r["fails"]}, **({"gen_seed": f["seed"]} if f.get("seed") else {})))
                    ok = True
        if not ok:
            p = write_replay(prop, n, {"property": prop, "contract": n, "functions": byname[n]["f"], "raws": [],
                                       "failed_obligation": r["fails"], "verifier_output": r["raw"][-3000:], "candidate_inputs": [[str(x) for x in t] for t in tests[:3]]})
            violations.append((1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p), n + ": " + r["why"]))

    if vthread:
        vthread.join()
        for it in vres.get("items", []):
            if it["status"] == "failed":
                if violations:
                    notes.append("Verus: %s also fails: %s" % (it["name"], it["why"]))
                    continue
                # look for a failing input of the contracts of this property, longer
                rc2, s2, _ = native_search(exe, 40, seed + 11, NCPU, searchable)
                for q in s2:
                    if q["fail"]:
                        f = q["fail"]
                        report_concrete(q["name"], f["raws"], f["msg"], f["inputs"], "native search after a failed Verus obligation", dict({"obligation": it["why"]}, **({"gen_seed": f["seed"]} if f.get("seed") else {})))
                if not violations:
                    p = write_replay(prop, "verus-" + it["name"].replace("::", "_"), {"property": prop, "contract": it["name"], "raws": [],
                                     "failed_obligation": it["why"], "verifier_output": it.get("raw", "")[-4000:]})
                    violations.append((1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p), it["name"] + ": " + it["why"]))

    # every replay file names the obligations the verifiers could not discharge on this tree
    failed_ob = ["Kani contract %s: %s" % (n, r["why"]) for n, r in sorted(kres.items()) if r["status"] == "failed"]
    failed_ob += ["Verus %s: %s" % (i["name"], i["why"]) for i in vres.get("items", []) if i["status"] == "failed"]
    for _, line, _w in violations:
        q = pathlib.Path(re.search(r"replay=(\S+)", line).group(1))
        d = json.loads(q.read_text())
        d["obligations_failed_on_this_tree"] = failed_ob
        q.write_text(json.dumps(d, indent=1))

    # --- evidence
    vitems = vres.get("items", [])
    full = [r for n, r in kres.items() if not byname[n]["scope"].startswith("bounded")]
    ob = sum(max(r["checks"], 1) for r in full) + sum(i.get("obligations", 1) for i in vitems)
    dis = sum(r["checks"] for r in full if r["status"] == "proved") + sum(i.get("obligations", 1) for i in vitems if i["status"] == "proved")
    undecided = [{"contract": n, "why": r["why"]} for n, r in kres.items() if r["status"] not in ("proved", "failed")]
    undecided += [{"contract": "verus:" + i["name"], "why": i["why"]} for i in vitems if i["status"] == "undecided"]
    if vres.get("status") == "undecided":
        undecided.append({"contract": "verus layer", "why": vres.get("why", "")})
    bounded = [{"contract": n, "scope": byname[n]["scope"]} for n, r in kres.items() if byname[n]["scope"].startswith("bounded")]
    man = {c["property"]: c for c in json.load(open(V / "MANIFEST.json"))["checks"]} if (V / "MANIFEST.json").exists() else {}
    level = man.get(prop, {}).get("level", "proof")
    allf = set()
    for n in names:
        allf.update(x.strip() for x in byname[n]["f"].split(",") if x.strip())
    for i in vitems:
        allf.add(i["name"])
    hsrc = (H / "src" / (prop.lower() + ".rs")).read_text()
    stubs = sorted(set(re.findall(r"kani::stub\(([^)]*)\)", hsrc)))
    cov = {
        "obligations": ob,
        "discharged": dis,
        "checker_cmd": "cargo kani (CBMC, SAT back end) on contracts in harness/src/%s.rs%s" % (prop.lower(), "; verus (Z3) on functions extracted from /repo" if vitems else ""),
        "trusted_base": TRUST + (["assumed contract on external function (Kani stub): " + x for x in stubs]) + vres.get("trusted", []),
        "functions_under_contract": sorted(allf),
        "unbounded_contracts": [n for n in kres if byname[n]["scope"] == "full" and kres[n]["status"] == "proved"],
        "bounded_stand_ins_not_counted_as_proved": bounded,
        "bounded_obligations": sum(r["checks"] for n, r in kres.items() if byname[n]["scope"].startswith("bounded")),
        "kani": [{"contract": n, "functions": byname[n]["f"], "scope": byname[n]["scope"], "checks": r["checks"], "status": r["status"],
                  "reachable": r["cover"], "solver_s": r["time"]} for n, r in sorted(kres.items())],
        "verus": [{k: i.get(k) for k in ("name", "status", "obligations", "why")} for i in vitems],
        "verus_stats": {k: vres.get(k) for k in ("verified", "errors", "solver_s", "extraction", "vacuity") if k in vres},
        "solver_s": round(sum(r["time"] or 0 for r in kres.values()) + (vres.get("solver_s") or 0), 1),
        "failed_obligations": failed_ob,
        "undecided": undecided,
        "native_counterexample_search": {"evaluations": sum(r["runs"] for r in sres), "inside_precondition": sum(r["ok"] for r in sres),
                                         "samples": [{"contract": r["name"], "inputs": r["sample"][:300]} for r in sres[:6]]},
        "notes": notes,
    }
    if level == "other":
        cov["explanation"] = ("Contracts discharged by the verifier within the bounds listed per contract (bounded_stand_ins), "
                              "so not counted as proof; unbounded ones are listed under unbounded_contracts.")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUME + vres.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))

    npv = sum(1 for r in kres.values() if r["status"] == "proved")
    print("%s: %d/%d Kani contracts discharged (%d obligations), Verus %s, native %d runs, %.0fs" % (
        prop, npv, len(kres), ob, ("%d/%d items" % (sum(1 for i in vitems if i["status"] == "proved"), len(vitems))) if vitems else vres["status"],
        cov["native_counterexample_search"]["evaluations"], time.time() - t0))
    for u in undecided:
        print("UNDECIDED %s: %s" % (u["contract"], u["why"]))
    for n in notes:
        print("NOTE " + n)
    kf = json.load(open(V / "known_findings.json")) if (V / "known_findings.json").exists() else {"findings": []}
    for n in findings:
        e = [k for k in kf["findings"] if k["property"] == prop and k["contract"] == n]
        if e:
            print("KNOWN-FINDING: property=%s %s" % (prop, e[0]["what"]))
        else:
            p = write_replay(prop, n, {"property": prop, "contract": n, "raws": [], "failure": "unlisted finding"})
            violations.append((0, "VIOLATION property=%s replay=%s" % (prop, p), n))
    if violations:
        for o in failed_ob:
            print("FAILED OBLIGATION " + o[:300])
    for _, line, what in sorted(violations):
        print("  " + what)
        print(line)
    sys.exit(1 if violations else 0)


TRUST = [
    "Kani 0.68 / CBMC 6.11 translation of MIR and of IEEE-754 double arithmetic, and its SAT solver",
    "rustc (the compiled code behaves as its MIR)",
]
ASSUME = [
    "allocation never fails",
    "termination of loops is not part of any Kani contract",
]

if __name__ == "__main__":
    main()
