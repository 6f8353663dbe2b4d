#!/usr/bin/env python3
"""mutate.py N [WORKERS] [FILE-REGEX]: how much the native layer notices.
Plants N random small changes (one each) in scratch copies of /repo, keeps those that compile and pass
the stable tests, runs the native contracts of every property on them and lists the survivors.
Everything happens under /tmp/mut; results in /tmp/mut/results.jsonl."""
import sys, os, re, json, random, subprocess, pathlib, shutil, threading, queue
N = int(sys.argv[1]); NW = int(sys.argv[2]) if len(sys.argv) > 2 else 4
PAT = re.compile(sys.argv[3]) if len(sys.argv) > 3 else re.compile("")
T = pathlib.Path("/tmp/mut")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
stable = set(x.split("lib.rs::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
RULES = [
 (r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<])<(?![=<])(?= )", ["<="]), (r"(?<![-=>])>(?![=>])(?= )", [">="]),
 (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]),
 (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\bmin(?=\()", ["max"]), (r"\bmax(?=\()", ["min"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.z\b", [".x"]),
 (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]),
 (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1"]), (r"\b0\.0?(?![0-9])", ["1.0"]), (r"\b1\.0?(?![0-9])", ["2.0"]), (r"\b2\.0?(?![0-9])", ["3.0"]),
 (r"(?<=[(,] )-(?=[a-z])", [""]), (r"return -", ["return "]), (r"!(?=[a-z(])", [""]), (r"\bbreak;", ["continue;"]),
 (r"\bp0\b", ["p1"]), (r"\bp1\b", ["p2", "p0"]), (r"\bp2\b", ["p1"]), (r"\bq1\b", ["q2"]), (r"\bq2\b", ["q1"]), (r"minx", ["miny"]), (r"maxy", ["maxx"]),
]
# subtler changes: tolerances, caps that only long inputs reach, lost precision, narrow integers
SMART = [
 (r"(?<=[\w\])]) < (?=[\w(&])", [" + 1e-9 < ", " < 1e-9 + "]), (r"(?<=[\w\])]) > (?=[\w(&])", [" > 1e-9 + "]), (r"(?<=[\w\])]) <= (?=[\w(&])", [" <= 1e-12 + "]), (r"(?<=[\w\])]) >= (?=[\w(&])", [" >= -1e-12 + "]),
 (r" == 0\.0?(?![0-9])", [" == 0.0 * 1e300 + 1e-300"]), (r" <= 0\.0?(?![0-9])", [" <= 1e-10"]), (r" < 0\.0?(?![0-9])", [" < -1e-10"]), (r" > 0\.0?(?![0-9])", [" > 1e-10"]), (r" >= 0\.0?(?![0-9])", [" >= -1e-10"]),
 (r"(?<=\.\.)([\w.()]+(?: - 1)?)(?= \{)", ["CAP20", "CAP70", "CAP300"]), (r"(?<=let )(\w+) = ([^;{}\n]+);", ["F32", "I16"]), (r"(?<=return )([^;{}\n]+);", ["RF32", "CLAMP"]),
 (r"(?<= )(\w[\w.]*) == (\w[\w.]*)(?= |\))", ["APPROX"]), (r"PI\b", ["PI * 1.000001"]), (r"\.is_nan\(\)", [".is_infinite()"]), (r"\bis_nan\(", ["is_infinite("]),
]
def sub(m, s):
    g = m.groups()
    if s.startswith("CAP"): return "((%s).min(%s))" % (g[0], s[3:])
    if s == "F32": return "%s = (%s) as f32 as f64;" % g
    if s == "I16": return "%s = (%s) as u8 as usize;" % g
    if s == "RF32": return "(%s) as f32 as f64;" % g
    if s == "CLAMP": return "(%s).max(-1e6).min(1e6);" % g
    if s == "APPROX": return "(%s - %s).abs() < 1e-9" % g
    return s
if os.environ.get("MUT") == "smart": RULES = SMART
def sites():
    out = []
    for f in sorted(pathlib.Path("/repo/src/core").rglob("*.rs")):
        r = str(f.relative_to("/repo"))
        if not PAT.search(r): continue
        t = f.read_text()
        masked = re.sub(r"/\*.*?\*/|//[^\n]*|\"[^\"\n]*\"", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
        d = masked.find("impl fmt::Display")
        lines = []
        for rx, subs in RULES:
            for m in re.finditer(rx, masked):
                ln = masked.rfind("\n", 0, m.start()) + 1
                line = masked[ln:masked.find("\n", m.start())]
                if re.match(r"\s*(use|pub fn|fn|impl|pub struct|pub mod|mod|#|pub trait|pub type|const)\b", line): continue
                if d >= 0 and m.start() > d: continue
                for s in subs: out.append((r, m.start(), m.end(), sub(m, s)))
    return out
def sh(cmd, cwd, env, to):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try: o, _ = p.communicate(timeout=to); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, _ = p.communicate(); return 124, o
lock = threading.Lock()
def worker(k, q, res):
    w = T / ("w%d" % k)
    repo, har = w / "repo", w / "harness"
    if not repo.exists():
        w.mkdir(parents=True)
        subprocess.run(["cp", "-a", "/repo", str(repo)]); shutil.rmtree(repo / "target", ignore_errors=True)
    if har.exists(): shutil.rmtree(har)
    subprocess.run(["cp", "-a", "/verif/harness", str(har)])
    m = har / "src/main.rs"; m.write_text(m.read_text().replace("/repo/src", str(repo / "src")))
    feats = ",".join("c%02d" % i for i in range(1, 28))
    while True:
        try: (f, a, b, s) = q.get_nowait()
        except queue.Empty: return
        p = repo / f; t = p.read_text()
        p.write_text(t[:a] + s + t[b:])
        ln = t.count("\n", 0, a) + 1
        r = {"file": f, "line": ln, "old": t[t.rfind("\n", 0, a) + 1:t.find("\n", b)].strip(), "new": (t[t.rfind("\n", 0, a) + 1:a] + s + t[b:t.find("\n", b)]).strip()}
        try:
            rc, o = sh(["cargo", "test", "--offline", "-q", "--lib", "--", "--test-threads", "2", "--format", "pretty"], repo, dict(ENV, CARGO_TARGET_DIR=str(w / "t1")), 120)
            if "could not compile" in o: r["res"] = "nocompile"
            else:
                okt = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M)); bad = [x for x in stable if x not in okt]
                if bad: r["res"] = "tests"
                else:
                    rc, o = sh(["cargo", "build", "--offline", "-q", "--features", feats], har, dict(ENV, CARGO_TARGET_DIR=str(w / "t2")), 300)
                    if rc: r["res"] = "nobuild"; r["o"] = o[-400:]
                    else:
                        rc, o = sh(["bash", "-c", "ulimit -v 8000000; exec \"$@\"", "x", str(w / "t2/debug/gh"), "search", "30", "1", "2"], har, ENV, 150)
                        fails = [json.loads(l) for l in o.splitlines() if l.startswith("{") and '"fail":null' not in l]
                        if fails: r["res"] = "killed"; r["by"] = [(x["name"], x["fail"]["msg"][:80]) for x in fails][:4]
                        elif rc != 0: r["res"] = "crash"
                        else: r["res"] = "SURVIVED"
        finally:
            p.write_text(t)
        with lock:
            res.write(json.dumps(r) + "\n"); res.flush()
def main():
    T.mkdir(exist_ok=True)
    S = sites(); random.seed(int(os.environ.get("SEED", "7"))); random.shuffle(S)
    print(len(S), "sites"); q = queue.Queue()
    for x in S[:N]: q.put(x)
    res = open(T / "results.jsonl", "a")
    ts = [threading.Thread(target=worker, args=(k, q, res)) for k in range(NW)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
