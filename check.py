#!/usr/bin/env python3
"""Runner: check.py <property> [quick|thorough]   (see DESIGN.md)

Builds the drivers of a property from /repo's working tree, explores them on all cores,
re-runs every reported violation from its recorded trail, writes evidence/<property>.json and
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored; 1: violation.
"""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, "build"))
KNOWN_ARGS = []
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
LIMIT = {"quick": 600, "thorough": 6 * 3600}

def compile_tu(d, tu, log):
    src = os.path.join(d, tu.key + ".cpp"); exe = os.path.join(d, tu.key)
    with open(src, "w") as f: f.write(tu.source)
    cmd = [tu.cxx] + tu.flags + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "mc"), src, "-o", exe] + tu.libs
    if "-fsanitize=thread" in tu.flags:     # compiled with it, linked without its runtime (see mc/race.hpp)
        cmd = ["sh", "-c", " ".join(cmd[:-2 - len(tu.libs)] + ["-c", "-o", exe + ".o", "&&", tu.cxx, "-no-pie", exe + ".o", "-o", exe] + tu.libs)]
    for attempt in (1, 2):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 0: return exe, None
        # killed compilers (memory, signals) are retried; so is anything else, once
        time.sleep(0.2)
    with open(log, "w") as f:
        f.write("command: " + " ".join(cmd) + "\n\n"); f.write(r.stdout.decode("utf-8", "replace")[:200000] if 'r' in dir() else "timeout\n")
    return None, log

def run_job(d, job, exe, pid, deadline, idx):
    out = os.path.join(d, f"viol_{idx}.txt")
    left = max(5.0, deadline - time.time())
    args = [exe, "--prop", pid, "--name", job.label, "--cfg", job.tu.cfg, "--out", out] + KNOWN_ARGS + [str(a) for a in job.args]
    if job.budget_arg: args += ["--budget", "%.0f" % max(3.0, left - 15)]
    t = time.time()
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 30)
        rc, txt = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", (e.stdout or b"").decode("utf-8", "replace")
    w = time.time() - t
    stats = None
    m = re.search(r"^STATS (\{.*\})\s*$", txt, re.M)
    if m:
        try: stats = json.loads(m.group(1))
        except ValueError: stats = None
    if rc == 0 and stats is not None: return dict(status="ok", stats=stats, wall=w)
    if rc == "timeout": return dict(status="timeout", stats=None, wall=w, text=txt[-4000:])
    if rc == 10: return dict(status="violation", text=open(out).read() if os.path.exists(out) else txt, wall=w)
    # abnormal end of the driver: crash of the code under test that the driver could not report itself
    return dict(status="crash", text=f"driver {job.label} ended abnormally (status {rc}) while executing the library:\n" + txt[-4000:], rc=rc, wall=w)

def confirm(d, job, exe, pid, res):
    """Re-run the recorded trail (or, for a crash without a trail, the whole driver)."""
    m = re.search(r"^replay: (\S.*)$", res.get("text", ""), re.M)
    if m:
        args = [exe, "--prop", pid, "--name", job.label, "--cfg", job.tu.cfg] + KNOWN_ARGS + [str(a) for a in job.args] + ["--replay", m.group(1).strip()]
        try: r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired: return True, "replay does not terminate"
        if r.returncode != 0: return True, "reproduced by replaying the trail"
        # history dependent on more than the shortest path: fall through to a full re-run
    args = [exe, "--prop", pid, "--name", job.label, "--cfg", job.tu.cfg] + KNOWN_ARGS + [str(a) for a in job.args]
    try: r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired: return True, "re-run does not terminate"
    return r.returncode != 0, "reproduced by re-running the driver"

def load_known():
    p = os.path.join(HERE, "KNOWN_FINDINGS.jsonl"); res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"): res.append(json.loads(l))
    return res

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); deadline = t0 + float(os.environ.get("VERIF_LIMIT", LIMIT[tier]))
    prop = J.PROPS[pid]
    jobs = prop["jobs"](tier)
    os.makedirs(WORK, exist_ok=True)
    d = tempfile.mkdtemp(prefix=f"{pid}_", dir=WORK)
    art = os.path.join(HERE, "artifacts"); os.makedirs(art, exist_ok=True)
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "open"]
    if any("id" in k for k in known): KNOWN_ARGS.extend(["--known", ",".join(k["id"] for k in known if "id" in k)])
    # one compilation per distinct TU, then all runs on it; the dearest first
    lock = threading.Lock(); results = {}; tu_fut = {}; comp_fail = {}
    stop = threading.Event()
    by_tu = {}
    for i, j in enumerate(jobs): by_tu.setdefault(j.tu.key, []).append((i, j))
    order = sorted(by_tu, key=lambda k: -max(j.cost for _, j in by_tu[k]))
    pool = ThreadPoolExecutor(NCPU)
    def do_run(i, j, exe):
        if stop.is_set(): return
        r = run_job(d, j, exe, pid, deadline, i)
        if r["status"] in ("violation", "crash"):
            ok, how = confirm(d, j, exe, pid, r)
            r["confirmed"], r["how"] = ok, how
            if ok and tier == "quick" and not known: stop.set()
        with lock: results[i] = r
    run_futs = []
    def do_tu(k):
        if stop.is_set(): return
        tu = by_tu[k][0][1].tu
        exe, log = compile_tu(d, tu, os.path.join(art, f"{pid}_{k}_compile.log"))
        if exe is None:
            with lock: comp_fail[k] = log
            return
        for i, j in sorted(by_tu[k], key=lambda x: -x[1].cost):
            with lock: run_futs.append(pool.submit(do_run, i, j, exe))
    tfs = [pool.submit(do_tu, k) for k in order]
    for f in tfs: f.result()
    for f in list(run_futs): f.result()
    pool.shutdown()
    viol = []; unconf = []; incomplete = []; findings = []
    for k, log in comp_fail.items():
        viol.append((f"the program using the public interface no longer compiles ({k})", log))
    tot = dict(states=0, transitions=0, traces=0, fault_runs=0, pair_transitions=0, pairs=0, replays=0, distinct=0)
    per = []; samples = []; exhaustive = True
    for i, j in enumerate(jobs):
        r = results.get(i)
        if r is None:
            exhaustive = False; continue
        if r["status"] == "ok":
            s = r["stats"]
            tot["states"] += s.get("states", 0)
            tot["transitions"] += s.get("transitions", 0) + s.get("fault_runs", 0) + s.get("pair_transitions", 0)
            tot["fault_runs"] += s.get("fault_runs", 0); tot["pair_transitions"] += s.get("pair_transitions", 0); tot["pairs"] += s.get("pairs", 0)
            tot["traces"] += s.get("replays", 0); tot["distinct"] += s.get("distinct", 0)
            for k in known:
                if k.get("id") in s.get("known", ()) and k not in findings: findings.append(k)
            if not s.get("complete", True): exhaustive = False; incomplete.append(j.label)
            per.append(dict(driver=j.label, options=" ".join(map(str, j.args)), **{k: v for k, v in s.items() if k not in ("samples", "driver")}, run_wall=round(r["wall"], 2)))
            for x in s.get("samples", [])[:1]:
                if len(samples) < 12: samples.append(dict(driver=j.label, trace=x))
        elif r["status"] == "timeout":
            exhaustive = False; incomplete.append(j.label)
        elif r.get("confirmed"):
            kf = next((k for k in known if "match" in k and re.search(k["match"], r["text"])), None)
            if kf:
                if kf not in findings: findings.append(kf)
                continue
            p = os.path.join(art, f"{pid}_{i}_{re.sub(r'[^A-Za-z0-9_]+', '_', j.label)}.txt")
            with open(p, "w") as f: f.write(r["text"] + f"\n# {r['how']}\n# rerun: {j.tu.key} {' '.join(map(str, j.args))}\n")
            viol.append((f"{j.label}: " + (re.search(r"^violation: (.*)$", r["text"], re.M).group(1) if re.search(r"^violation: (.*)$", r["text"], re.M) else r["text"].splitlines()[0]), p))
        else: unconf.append(j.label)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                            samples=samples or [dict(note="no complete driver run")], exhaustive=bool(exhaustive and not viol),
                            fault_schedules=tot["fault_runs"], two_container_transitions=tot["pair_transitions"], container_pairs=tot["pairs"], distinct_results=tot["distinct"],
                            drivers=per, incomplete=incomplete, unconfirmed=unconf, bounds=prop["bounds"]),
              assumptions=prop.get("assumptions", J.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(d, ignore_errors=True)
    for kf in findings: print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    print(f"{pid} [{tier}] drivers={len(jobs)} states={tot['states']} transitions={tot['transitions']} exhaustive={ev['coverage']['exhaustive']} incomplete={incomplete} unconfirmed={unconf} wall={ev['wall_s']}s")
    if viol:
        for what, p in viol[:20]:
            print(f"  {what}")
            print(f"VIOLATION property={pid} replay={p}")
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
