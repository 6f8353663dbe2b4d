#!/usr/bin/env python3
"""full.py [RESULTS] : run the whole quick checks (native, Kani, Verus) on the survivors of mutate.py,
in a namespace of their own where scratch copies stand for /repo and /verif.  Appends to /tmp/mut/full.jsonl."""
import json, sys, pathlib, subprocess, shutil, re, os
T = pathlib.Path("/tmp/mut"); W = T / "full"
def props_of(f):
    out = []
    for l in open("/verif/properties.jsonl"):
        d = json.loads(l); i = d["id"]
        v = pathlib.Path("/verif/verus/%s.py" % i.lower())
        if f in json.dumps(d): out.append((0, i))
        elif v.exists() and f in v.read_text(): out.append((1, i))
    return [i for _, i in sorted(out)]
def trial(f, text, props):
    """results of the checks of these properties with file f holding text"""
    p = W / "repo" / f; keep = p.read_text(); p.write_text(text); r = {}
    try:
        for i in props:
            cmd = "mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 python3 bin/check.py %s" % (W / "repo", W / "verif", i)
            o = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = re.findall(r"^VIOLATION.*$", o.stdout, re.M); u = re.findall(r"^UNDECIDED.*$", o.stdout, re.M)
            r[i] = {"rc": o.returncode, "v": [x[:140] for x in v][:2], "u": [x[:160] for x in u][:3], "err": re.findall(r"^CHECK-ERROR.*$", o.stdout, re.M)}
            if v and not v[0].endswith("no-failing-input-found"): break
    finally: p.write_text(keep)
    return r
def setup():
    if W.exists(): shutil.rmtree(W)
    W.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(W / "repo")]); shutil.rmtree(W / "repo" / "target", ignore_errors=True)
    subprocess.run("mkdir %s/verif; cd /verif && cp -a bin harness verus tools MANIFEST.json known_findings.json properties.jsonl %s/verif/" % (W, W), shell=True)
    shutil.rmtree(W / "verif/harness/target", ignore_errors=True)
if __name__ == "__main__":
    setup()
    for l in open(sys.argv[1] if len(sys.argv) > 1 else T / "results.jsonl"):
        d = json.loads(l)
        if d["res"] != "SURVIVED" and d["res"] != "crash": continue
        t = (W / "repo" / d["file"]).read_text().split("\n")
        ind = t[d["line"] - 1]
        k = d["line"] - 1
        if d["old"].split("\n")[0].strip() not in ind.strip() and ind.strip() != d["old"].strip(): print("skip", d); continue
        t[k] = ind.replace(d["old"], d["new"]); 
        d["full"] = trial(d["file"], "\n".join(t), props_of(d["file"]))
        caught = [i for i, x in d["full"].items() if x["v"]]
        print("CAUGHT" if caught else "MISSED", d["file"], d["line"], "|", d["new"], "|", caught, flush=True)
        open(T / "full.jsonl", "a").write(json.dumps(d) + "\n")
