#!/usr/bin/env python3
"""seedrun.py [WORKERS] [ids...]: run each planted bug of /verif/seeded against the check of its property,
in a namespace of its own where scratch copies (under /tmp/seedrun) stand for /repo and /verif."""
import json, sys, pathlib, subprocess, shutil, re, threading, queue, time
T = pathlib.Path("/tmp/seedrun")
def worker(k, q, out):
    W = T / ("w%d" % k)
    if W.exists(): shutil.rmtree(W)
    W.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(W / "repo")]); shutil.rmtree(W / "repo" / "target", ignore_errors=True)
    subprocess.run("mkdir %s/verif; cd /verif && cp -a bin harness verus proofs tools MANIFEST.json known_findings.json properties.jsonl %s/verif/" % (W, W), shell=True)
    while True:
        try: s = q.get_nowait()
        except queue.Empty: break
        d = pathlib.Path("/verif/seeded") / s; p = json.load(open(d / "meta.json"))["property"]; t0 = time.time()
        a = subprocess.run(["git", "-C", str(W / "repo"), "apply", str(d / "patch.diff")], stderr=subprocess.PIPE, text=True)
        if a.returncode: print(s, "DOES NOT APPLY", a.stderr); continue
        cmd = "mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 python3 bin/check.py %s" % (W / "repo", W / "verif", p)
        o = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        subprocess.run(["git", "-C", str(W / "repo"), "checkout", "-q", "--", "."])
        v = re.findall(r"^VIOLATION.*$", o.stdout, re.M)
        r = {"id": s, "property": p, "rc": o.returncode, "seconds": round(time.time() - t0), "violations": v, "fails": re.findall(r"^(?:FAILED OBLIGATION|UNDECIDED|FAIL|CHECK-ERROR).*$", o.stdout, re.M)[:6]}
        print(json.dumps(r), flush=True); out.append(r)
    shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2
    ids = sys.argv[2:] or sorted(x.name for x in pathlib.Path("/verif/seeded").iterdir())
    q = queue.Queue(); [q.put(i) for i in ids]; out = []
    ts = [threading.Thread(target=worker, args=(k, q, out)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("caught %d of %d" % (sum(1 for r in out if r["rc"] == 1 and r["violations"]), len(ids)))
