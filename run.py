#!/usr/bin/env python3
"""Build one property's monitors from /repo's working tree, run their workloads, judge what they observed.

usage: run.py <PROPERTY> [quick|thorough]      exit 0: held on everything explored;  exit 1: VIOLATION line printed
       run.py --setup                          checks the toolchain
       run.py --replay <file>                  re-runs the command recorded in a replay file
"""
import sys, os, json, threading, subprocess, time, re, shutil, signal, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS

CXX, CC = "g++-10", "gcc-10"
NCPU = os.cpu_count() or 4
BASE = ["-std=c++17", "-pthread", "-msse2", "-mcx16", "-DLIBICONV_PLUG", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-w", "-fmax-errors=20"]
LIBBASE = ["-pthread", "-msse2", "-mcx16", "-DLIBICONV_PLUG", "-DBSS_UTIL_EXPORTS", "-fPIC", "-I" + REPO + "/include", "-w"]
# memcpy(null, null, 0), null + 0 and x86 misaligned loads are tolerated by the project everywhere and change no behaviour.
UBOFF = "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment,vptr,returns-nonnull-attribute"
VARIANTS = {
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", UBOFF, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "asan_noub": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "asan_rel": ["-O2", "-g", "-DNDEBUG", "-fsanitize=address,undefined", UBOFF, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "opt": ["-O2", "-g"],
    "rel": ["-O2", "-g", "-DNDEBUG"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_context_size=8:quarantine_size_mb=64:max_allocation_size_mb=4096:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
           TSAN_OPTIONS="exitcode=97:halt_on_error=1:second_deadlock_stack=1")


STOP = threading.Event()  # set by the first violation: the other shards stop


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(cmd):
    r = sh(cmd)
    if r.returncode and ("internal compiler error" in r.stdout or "Killed" in r.stdout):
        r = sh(cmd)
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "error" in l.lower()]
        raise NoAnswer("does not compile: " + " ".join(cmd) + "\n" + "\n".join(e[:300] for e in errs[:10]))


def build(prop, jobs, bdir):
    """Compiles every distinct (source, variant, flags) combination of the property's jobs from /repo's current tree."""
    todo, links = {}, {}
    for j in jobs:
        var = j.get("variant", "asan")
        extra = " ".join(j.get("defs", []) + j.get("flags", []))
        tag = var + ("_" + hashlib.sha1(extra.encode()).hexdigest()[:6] if extra else "")
        exe = os.path.join(bdir, os.path.basename(j["src"]).replace(".cpp", "") + "." + tag)
        j["exe"] = exe
        if exe in links:
            continue
        objs = []
        vf = VARIANTS[var] + j.get("defs", []) + j.get("flags", [])
        o = exe + ".o"
        todo[o] = [CXX] + BASE + vf + ["-c", os.path.join(VERIF, "harness", j["src"]), "-o", o]
        objs.append(o)
        for l in j.get("lib", []):
            src = os.path.join(REPO, "bss-util", l)
            lo = os.path.join(bdir, l.replace(".", "_") + "." + tag + ".o")
            if l.endswith(".c"):
                todo[lo] = [CC] + LIBBASE + vf + ["-c", src, "-o", lo]
            else:
                todo[lo] = [CXX, "-std=c++17"] + LIBBASE + vf + ["-c", src, "-o", lo]
            objs.append(lo)
        links[exe] = [CXX] + VARIANTS[var] + ["-pthread"] + objs + ["-o", exe, "-lrt"] + j.get("ld", [])
        if any(l in ("bss_util.cpp",) for l in j.get("lib", [])):
            links[exe].append("-l:libfontconfig.so.1")
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, todo.values()))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(compile_one, links.values()))


SANFRAME = re.compile(r"^\s+#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", re.M)


def classify(rc, err):
    """Turns what a monitor reported into a stable key."""
    m = re.search(r"MONITOR-FAIL key=(\S+)", err)
    if m:
        return m.group(1), err[m.start():m.start() + 600]
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:" + re.sub(r"\s+", "", m.group(1))[:80], err[-1500:]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        frames = [f for f in SANFRAME.findall(err) if "/bss-util/" in f[1]]
        where = (os.path.basename(frames[0][1])) if frames else "?"
        return "asan:%s@%s" % (m.group(1), where), err[m.start():m.start() + 1500]
    m = re.search(r"(\S+):(\d+):\d+: runtime error: (.*)", err)
    if m:
        return "ubsan:%s@%s" % (re.sub(r"[^a-z]+", "-", m.group(3).lower())[:50], os.path.basename(m.group(1))), err[m.start():m.start() + 1500]
    m = re.search(r"WARNING: ThreadSanitizer: (.*?)\(", err)
    if m:
        frames = [f for f in SANFRAME.findall(err) if "/bss-util/" in f[1]]
        return "tsan:%s@%s" % (m.group(1).strip().replace(" ", "-"), os.path.basename(frames[0][1]) if frames else "?"), err[m.start():m.start() + 2500]
    if rc is not None and rc < 0:
        try:
            nm = signal.Signals(-rc).name
        except Exception:
            nm = str(-rc)
        t = err.strip().splitlines()[-1] if err.strip() else ""
        return "signal:" + nm, t
    if "terminate called" in err:
        return "terminate", err[-600:]
    return "exit:%s" % rc, err[-600:]


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def run_shard(a):
    """Runs cases [frm, frm+cnt) of a job; resumes after a case that hits a known finding."""
    job, seed, frm, cnt, tmp, idx, known = a
    res = {"runs": [], "viol": None, "known": {}}
    end = frm + cnt
    attempt_hang = -1
    k = 0
    while frm < end and not STOP.is_set():
        out = os.path.join(tmp, "s%d_%d.json" % (idx, k))
        k += 1
        cmd = [job["exe"], "--seed", str(seed), "--from", str(frm), "--count", str(end - frm), "--out", out]
        wd = os.path.join(tmp, "wd%d" % idx)
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        if os.path.exists(out + ".case"):
            os.unlink(out + ".case")
        errf = open(out + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=ENV, cwd=wd, start_new_session=True)
        # A stall is a case (thousands of times shorter than this when it runs freely) that makes no progress; the workload itself is bounded by its case count.
        stall, last, since, hang, wait = job.get("stall", 90), None, time.time(), False, 0.005
        while True:
            try:
                rc = p.wait(timeout=wait)
                break
            except subprocess.TimeoutExpired:
                wait = min(0.5, wait * 2)
            try:
                cur = open(out + ".case").read()
            except OSError:
                cur = None
            now = time.time()
            if cur != last:
                last, since = cur, now
            if now - since > stall or STOP.is_set():
                hang = now - since > stall
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                rc = p.wait()
                break
        errf.close()
        shutil.rmtree(wd, ignore_errors=True)
        if STOP.is_set() and not hang and rc == -9:
            return res
        with open(out + ".err", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 200000))
            e = f.read()
        err = e.decode("utf-8", "replace")
        case = frm
        try:
            case = int(open(out + ".case").read().strip())
        except Exception:
            pass
        data = None
        if os.path.exists(out):
            try:
                data = json.load(open(out))
            except Exception:
                data = None
        if not hang and rc == 0 and data and data.get("complete"):
            data["cases"] = end - frm
            res["runs"].append(data)
            return res
        if data:
            data["cases"] = max(0, case - frm)
            res["runs"].append(data)
        if hang:
            # a stall is inconclusive the first time: the same cases are run once more
            if attempt_hang != case:
                attempt_hang = case
                frm = case
                continue
            key, detail = "hang", "no progress in case %d for %d s, twice" % (case, stall)
        else:
            key, detail = classify(rc, err)
            if key == "signal:SIGKILL":  # killed from outside (memory): inconclusive, run again once
                if not res.get("killed"):
                    res["killed"] = 1
                    frm = case
                    continue
        if key in known:
            res["known"][key] = res["known"].get(key, 0) + 1
            frm = case + 1
            continue
        res["viol"] = {"key": key, "detail": detail, "case": case, "seed": seed, "exe": os.path.basename(job["exe"]),
                       "src": job["src"], "variant": job.get("variant", "asan"), "defs": job.get("defs", []), "stderr": err[-20000:]}
        STOP.set()
        return res
    return res


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    known = load_known(prop)
    jobs = [dict(j) for j in cfg["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    bdir = os.path.join(VERIF, "build", "%s.%d" % (prop, os.getpid()))
    tmp = os.path.join(bdir, "out")
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(tmp)
    try:
        build(prop, jobs, bdir)
        tb = time.time() - t0
        shards = []
        i = 0
        for j in jobs:
            n = j["cases"] if tier == "quick" else j.get("thorough", j["cases"] * 20)
            ns = min(j.get("shards", NCPU), n)
            per = (n + ns - 1) // ns
            f = 0
            while f < n:
                c = min(per, n - f)
                shards.append((j, seed, f, c, tmp, i, known))
                i += 1
                f += c
        excl = [s for s in shards if s[0].get("exclusive")]
        par = [s for s in shards if not s[0].get("exclusive")]
        results = []
        with ThreadPoolExecutor(NCPU) as ex:
            results += list(ex.map(run_shard, par))
        with ThreadPoolExecutor(max(1, cfg.get("excl_par", 2))) as ex:
            results += list(ex.map(run_shard, excl))
        order = par + excl
    finally:
        keep = os.environ.get("VERIF_KEEP")
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
            try:
                os.rmdir(os.path.join(VERIF, "build"))
            except OSError:
                pass
    ev, distinct, nontriv, ops, checks, cases, samples = {}, 0, 0, 0, 0, 0, []
    perjob = {}
    knownhits = {}
    viols = []
    for s, r in zip(order, results):
        nm = s[0]["src"].replace(".cpp", "") + ":" + s[0].get("variant", "asan")
        for d in r["runs"]:
            for k, v in d["events"].items():
                ev[k] = ev.get(k, 0) + v
            nontriv += d["nontrivial"]
            distinct += d["distinct"]
            ops += d["ops"]
            checks += d["checks"]
            cases += d["cases"]
            perjob[nm] = perjob.get(nm, 0) + d["cases"]
            if len(samples) < 3:
                samples += d["samples"][:1]
        for k, v in r["known"].items():
            knownhits[k] = knownhits.get(k, 0) + v
        if r["viol"]:
            viols.append(r["viol"])
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (key %s, reached %d times in this run)" % (prop, known[k], k, knownhits.get(k, 0)))
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": nontriv, "rule": cfg["rule"], "samples": samples or ["(no sample)"],
            "operations_observed": ops, "oracle_checks": checks, "distinct_histories_and_features": distinct, "cases_per_monitor": perjob,
            "events_observed": ev, "known_findings_reached": knownhits,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d operations, %d oracle checks, build %.1fs, total %.1fs" % (
        prop, tier, seed, cases, nontriv, ops, checks, tb, time.time() - t0))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seenk = set()
        for v in viols:
            if v["key"] in seenk:
                continue
            seenk.add(v["key"])
            rp = os.path.join(VERIF, "replays", "%s_%s_%d.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:60], v["case"]))
            v["property"] = prop
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("monitor %s (%s) case %d: %s\n%s" % (v["src"], v["variant"], v["case"], v["key"], v["detail"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    # an oracle that observed nothing decides nothing
    need = cfg.get("min_events", {})
    for k, v in need.items():
        if ev.get(k, 0) < v:
            raise NoAnswer("the workload did not reach '%s' often enough (%d < %d)" % (k, ev.get(k, 0), v))
    return 0


def replay(path):
    v = json.load(open(path))
    bdir = tempfile.mkdtemp(prefix="replay", dir=VERIF)
    try:
        jobs = [dict(j) for j in PROPS[v["property"]]["jobs"] if j["src"] == v["src"] and j.get("variant", "asan") == v["variant"] and j.get("defs", []) == v["defs"]][:1]
        build(v["property"], jobs, bdir)
        r = subprocess.run([jobs[0]["exe"], "--seed", str(v["seed"]), "--from", str(v["case"]), "--count", "1", "--verbose", "0"], env=ENV, cwd=bdir)
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for t in (CXX, CC):
            if not shutil.which(t):
                print("missing " + t)
                return 2
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        return check(prop, tier)
    except NoAnswer as e:
        print("NO-ANSWER property=%s: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
