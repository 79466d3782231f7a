#!/usr/bin/env python3
"""Driver: run.py <PROPERTY> <quick|thorough> | run.py --replay <replay file>

Builds the library from /repo's current working tree and the property's
harness, explores every case of the tier in parallel shards, attributes
crashes and hangs to the case that was running, replays every failing case in
a fresh process, compares with known_findings.json and writes the evidence.
Exit 0: held (or only listed findings); 1: VIOLATION; 2: error of the check.
"""
import sys, os, json, time, subprocess, re, shutil, tempfile, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
NCPU = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 8)))
SEED = int(os.environ.get("VERIF_SEED", "1"))

sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # per-property configuration

FLAVORS = {
    "rel": ["-O1", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def lib_sources():
    cm = open(os.path.join(REPO, "source/CMakeLists.txt")).read()
    m = re.search(r"set\s*\(\s*MOORDYN_SRCS(.*?)\)", cm, re.S)
    if not m:
        raise CheckError("cannot find MOORDYN_SRCS")
    srcs = [s for s in m.group(1).split() if s.endswith((".cpp", ".c"))]
    return srcs


def version_flags():
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    out = []
    for n in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"set\s*\(\s*MOORDYN_%s_VERSION\s+(\d+)\s*\)" % n, cm)
        out.append("-DMOORDYN_%s_VERSION=%s" % (n, m.group(1) if m else "0"))
    return out


def build(flavor, harnesses, bdir, extra=None):
    """compile all library sources and the harness sources; returns binaries"""
    extra = extra or {}
    bdir += extra.get("variant", "")
    os.makedirs(bdir, exist_ok=True)
    srcs = lib_sources()
    # objects are only reused for the very same source tree
    dg = hashlib.sha1(REPO.encode())
    for root, dirs, files in os.walk(os.path.join(REPO, "source")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".c", ".txt")):
                dg.update(f.encode())
                dg.update(open(os.path.join(root, f), "rb").read())
    for f in os.listdir(bdir):
        if f.startswith("x_"):
            os.unlink(os.path.join(bdir, f))
    stamp = os.path.join(bdir, "tree.sha1")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old.split(" ")[0] != dg.hexdigest() and os.environ.get("VF_INCR") != REPO:
        for f in os.listdir(bdir):
            if f.endswith(".o") and not f.startswith("h_"):
                os.unlink(os.path.join(bdir, f))
    open(stamp, "w").write(dg.hexdigest())
    flags = (["-std=c++17", "-fPIC", "-DLINUX", "-w", "-pthread",
              "-I" + os.path.join(REPO, "source"),
              "-I" + os.path.join(VERIF, "harness")]
             + version_flags() + FLAVORS[flavor]
             + [f.replace("{repo}", REPO).replace("{verif}", VERIF)
                for f in extra.get("cflags", [])])
    mk = []
    objs = []
    for s in extra.get("src", []):
        o = os.path.join(bdir, "x_" + s.replace("/", "_") + ".o")
        objs.append(o)
        mk.append("%s: %s\n\t%s %s -MMD -c %s -o %s\n" % (
            o, os.path.join(REPO, s), extra.get("cc", "g++"),
            " ".join(flags), os.path.join(REPO, s), o))
    for s in srcs:
        o = os.path.join(bdir, s.replace("/", "_") + ".o")
        objs.append(o)
        mk.append("%s: %s\n\tg++ %s -MMD -c %s -o %s\n" % (
            o, os.path.join(REPO, "source", s), " ".join(flags),
            os.path.join(REPO, "source", s), o))
    # Fortran sources of the library, and the harness's which use their modules
    for k, s in enumerate([os.path.join(REPO, f) for f in extra.get("fortran", [])]
                          + [os.path.join(VERIF, "harness", f) for f in extra.get("fharness", [])]):
        o = os.path.join(bdir, "x_f%d.o" % k)
        prev = os.path.join(bdir, "x_f%d.o" % (k - 1)) if k else ""
        objs.append(o)
        mk.append("%s: %s %s\n\tgfortran -O1 -fPIC -w -ffree-line-length-none -J%s -I%s -c %s -o %s\n" % (
            o, s, prev, bdir, bdir, s, o))
    bins = []
    for h in harnesses:
        o = os.path.join(bdir, "h_" + h + ".o")
        mk.append("%s: %s\n\tg++ %s -MMD -c %s -o %s\n" % (
            o, os.path.join(VERIF, "harness", h + ".cpp"), " ".join(flags),
            os.path.join(VERIF, "harness", h + ".cpp"), o))
        b = os.path.join(bdir, "bin_" + h)
        mk.append("%s: %s %s\n\tg++ %s %s %s %s -o %s\n" % (
            b, o, " ".join(objs), " ".join(flags), o, " ".join(objs),
            " ".join(extra.get("ldflags", [])), b))
        bins.append(b)
    mfile = os.path.join(bdir, "Makefile")
    txt = "all: %s\n\n%s\n-include %s/*.d\n" % (" ".join(bins), "\n".join(mk), bdir)
    open(mfile, "w").write(txt)
    # slowest files first
    r = sh(["make", "-s", "-j%d" % NCPU, "-f", mfile, "all"])
    if r.returncode != 0:
        raise CheckError("build failed:\n" + r.stdout[-6000:])
    return bins


class Journal:
    def __init__(self, path):
        self.path = path

    def read(self):
        try:
            return int(open(self.path).read().strip() or "-1")
        except (OSError, ValueError):
            return -1


def run_env(extra=None):
    env = dict(os.environ)
    env.update({
        "MALLOC_PERTURB_": "85",
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:max_allocation_size_mb=4000",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=66",
        "LC_ALL": "C",
        "VF_REPO": REPO,
    })
    if extra:
        env.update(extra)
    return env


def run_shard(binary, tier, shard, n, scratch, timeout, deadline, maxbad, env):
    """runs one shard to the end, restarting after crashes/hangs"""
    res = {"ran": 0, "nontrivial": 0, "transitions": 0, "checks": 0, "traces": 0,
           "states": set(), "outcomes": set(), "samples": [], "fails": [],
           "cases_total": 0, "complete": True, "harness_error": None, "seg": []}
    start = 0
    while True:
        d = os.path.join(scratch, "sh%d_%d" % (shard, start))
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "out.json")
        jr = os.path.join(d, "journal")
        cmd = [binary, "--tier", tier, "--shard", str(shard), str(n), "--from",
               str(start), "--dir", os.path.join(d, "w"), "--out", out,
               "--journal", jr, "--maxfail", str(maxbad)]
        logf = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen(cmd, stdout=logf, stderr=subprocess.STDOUT, env=env,
                             start_new_session=True, cwd=d)
        j = Journal(jr)
        cur, since = -1, time.time()
        hung = False
        while True:
            try:
                p.wait(0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            c = j.read()
            now = time.time()
            if c != cur:
                cur, since = c, now
            elif now - since > timeout:
                hung = True
            if hung or now > deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        logf.close()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        cur = j.read()
        fl = []
        if os.path.exists(out + ".fails"):
            for line in open(out + ".fails"):
                f = json.loads(line)
                f["from"], f["shard"] = start, shard
                fl.append(f)
        res["fails"] += fl
        if p.returncode == 0 and os.path.exists(out):
            o = json.load(open(out))
            for k in ("ran", "nontrivial", "transitions", "checks", "traces"):
                res[k] += o[k]
            res["states"].update(o["states"])
            res["outcomes"].update(o["outcomes"])
            res["samples"] += o["samples"]
            res["cases_total"] = o["cases_total"]
            if len(fl) >= maxbad:
                res["complete"] = False
            shutil.rmtree(d, ignore_errors=True)
            return res
        log = open(os.path.join(d, "log"), errors="replace").read()[-3000:]
        if p.returncode == 4 or p.returncode in (64, 65, 67, 68):
            res["harness_error"] = log or ("exit %d" % p.returncode)
            return res
        if time.time() > deadline and not hung:
            res["complete"] = False
            res["harness_error"] = "deadline exceeded at case %d" % cur
            return res
        if cur < 0:
            # died before running anything
            res["harness_error"] = "no journal; exit %s\n%s" % (p.returncode, log)
            return res
        kind = "hang" if hung else ("crash:%s" % (p.returncode,))
        res["fails"].append({"i": cur, "key": None, "sig": "hang" if hung else "crash",
                             "msg": kind + " " + log[-1500:], "from": start,
                             "shard": shard})
        res["ran"] += 1
        shutil.rmtree(d, ignore_errors=True)
        if len(res["fails"]) >= maxbad:
            res["complete"] = False
            return res
        start = cur + 1


def replay(binary, tier, key, scratch, timeout, env):
    """returns (status, sig, msg); status in pass, fail, crash, hang, error"""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        p = subprocess.Popen([binary, "--tier", tier, "--replay", key, "--dir",
                              os.path.join(d, "w")], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, env=env, text=True,
                             errors="replace", start_new_session=True, cwd=d)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "hang", "hang", "no answer within %g s" % timeout
        if p.returncode == 0:
            return "pass", "", ""
        if p.returncode == 3:
            i = out.index("FAIL ") if "FAIL " in out else 0
            lines = out[i:].split("\n", 1)
            return "fail", lines[0][5:].strip(), (lines[1] if len(lines) > 1 else "").strip()
        if p.returncode in (4, 64, 65, 66, 67, 68) and p.returncode != 66:
            return "error", "", out
        if p.returncode == 66 and "NO-SUCH-CASE" in out:
            return "error", "", out
        return "crash", "crash", "exit %d\n%s" % (p.returncode, out[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun_prefix(binary, tier, f, n, scratch, timeout, env):
    """re-execute the shard from its start up to the failing case"""
    d = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(d, "o.json")
    try:
        p = subprocess.run([binary, "--tier", tier, "--shard", str(f["shard"]), str(n),
                            "--from", str(f["from"]), "--to", str(f["i"] + 1), "--dir",
                            os.path.join(d, "w"), "--out", out, "--maxfail", "100000"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           timeout=timeout, cwd=d)
        if p.returncode == 0:
            if not os.path.exists(out + ".fails"):
                return False
            return any(json.loads(x)["i"] == f["i"] for x in open(out + ".fails"))
        return f["sig"] == "crash"
    except subprocess.TimeoutExpired:
        return f["sig"] == "hang"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def explore(prop, tier, cfg, stage, scratch, t0, budget):
    """one exploration stage of a property: a harness in one flavor"""
    flavor = stage.get("flavor", "rel")
    bdir = os.path.join(os.environ.get("VF_BUILD", os.path.join(VERIF, "build")), flavor)
    tb = time.time()
    binary = build(flavor, [stage["harness"]], bdir, stage.get("extra"))[0]
    tb = time.time() - tb
    n = NCPU
    timeout = stage.get("timeout", 45)
    maxbad = int(os.environ.get("VF_MAXBAD", stage.get("maxbad", 4)))
    env = run_env(stage.get("env"))
    deadline = t0 + budget
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda s: run_shard(binary, tier, s, n, scratch, timeout,
                                             deadline, maxbad, env), range(n)))
    for r in rs:
        if r["harness_error"]:
            raise CheckError("harness error: " + str(r["harness_error"]))
    agg = {"build_s": tb, "flavor": flavor, "harness": stage["harness"],
           "cases_total": max([r["cases_total"] for r in rs] + [0]),
           "complete": all(r["complete"] for r in rs)}
    for k in ("ran", "nontrivial", "transitions", "checks", "traces"):
        agg[k] = sum(r[k] for r in rs)
    agg["states"] = len(set().union(*[r["states"] for r in rs]))
    agg["outcomes"] = len(set().union(*[r["outcomes"] for r in rs]))
    agg["samples"] = [s for r in rs for s in r["samples"]][:6]
    fails = [f for r in rs for f in r["fails"]]
    need_keys = [f for f in fails if f["key"] is None]
    if need_keys:
        r = subprocess.run([binary, "--tier", tier, "--list"], stdout=subprocess.PIPE,
                           text=True, env=env)
        keys = {}
        for line in r.stdout.splitlines():
            a, b = line.split(" ", 1)
            keys[int(a)] = b
        agg["cases_total"] = max(agg["cases_total"], len(keys))
        for f in need_keys:
            f["key"] = keys.get(f["i"])
    fails.sort(key=lambda f: f["i"])
    # replay each in a fresh process before believing it
    confirmed, flaky = [], []

    def conf(f):
        to = timeout * 4 if f["sig"] == "hang" else timeout * 2
        st, sig, msg = replay(binary, tier, f["key"], scratch, to, env)
        if st == "error":
            return ("error", f, msg)
        if st != "pass":
            g = dict(f)
            g["sig"], g["msg"] = sig, msg
            return ("ok", g, "")
        if f["sig"] == "hang":
            return ("slow", f, "")
        if rerun_prefix(binary, tier, f, n, scratch, max(300, budget), env):
            g = dict(f)
            g["msg"] = "(needs the preceding cases of its shard: state leaks between systems) " + g["msg"]
            g["prefix"] = True
            return ("ok", g, "")
        return ("flaky", f, "")
    with ThreadPoolExecutor(n) as ex:
        for st, f, msg in ex.map(conf, fails):
            if st == "error":
                raise CheckError("replay error: " + msg)
            if st == "ok":
                confirmed.append(f)
            elif st == "flaky":
                flaky.append(f)
            else:
                print("SLOW " + str(f["key"]), flush=True)
    agg["unconfirmed"] = len(flaky)
    for f in flaky:
        print("note: failure of case %s did not reproduce: %s" % (f["key"], f["msg"][:300]))
    return agg, confirmed


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    cfg = PROPS[prop]
    t0 = time.time()
    budget = cfg.get("budget", {}).get(tier, 800 if tier == "quick" else 6 * 3600)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=base)
    try:
        stages = []
        known = [k for k in load_known() if k["property"] == prop]
        seen_known, violations = {}, []
        for stage in cfg["stages"]:
            if tier not in stage.get("tiers", ["quick", "thorough"]):
                continue
            agg, bad = explore(prop, tier, cfg, stage, scratch, t0, budget)
            stages.append(agg)
            for f in bad:
                k = next((k for k in known
                          if k.get("harness", stage["harness"]) == stage["harness"]
                          and re.fullmatch(k["case"], f["key"])
                          and re.fullmatch(k["sig"], f["sig"])), None)
                if k:
                    seen_known[k["id"]] = k
                else:
                    violations.append((stage, f))
            if violations:
                break
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        shown = 0
        for stage, f in violations:
            h = hashlib.sha1((f["key"] + f["sig"]).encode()).hexdigest()[:10]
            rp = os.path.join(rdir, "%s_%s.json" % (prop, h))
            json.dump({"property": prop, "tier": tier, "harness": stage["harness"],
                       "flavor": stage.get("flavor", "rel"), "case": f["key"],
                       "sig": f["sig"], "message": f["msg"], "env": stage.get("env"),
                       "how": "python3 run.py --replay " + os.path.relpath(rp, VERIF)},
                      open(rp, "w"), indent=1)
            if shown < 5:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
                print("  case %s: [%s] %s" % (f["key"], f["sig"], f["msg"][:700].replace("\n", "\n    ")))
                shown += 1
        if os.environ.get("VF_ALL"):
            for stage, f in violations:
                print("BAD %s [%s] %s" % (f["key"], f["sig"], f["msg"][:160].replace("\n", " ")))
        level = cfg.get("level", "model_checking")
        cov = {
            "states": sum(s["states"] for s in stages),
            "transitions": sum(s["transitions"] for s in stages),
            "traces_validated_against_impl": sum(s["traces"] for s in stages),
            "evaluations": sum(s["ran"] for s in stages),
            "distinct_nontrivial": sum(s["nontrivial"] for s in stages),
            "oracle_comparisons": sum(s["checks"] for s in stages),
            "distinct_outcomes": sum(s["outcomes"] for s in stages),
            "rule": cfg["rule"],
            "samples": [x for s in stages for x in s["samples"]][:10],
            "exhaustive": all(s["complete"] and s["ran"] == s["cases_total"] for s in stages),
            "stages": stages,
        }
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": cfg.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if violations:
            return 1
        if not cov["exhaustive"]:
            known_only = bool(seen_known)
            if not known_only:
                raise CheckError("exploration incomplete without a violation")
        print("%s %s: %d cases, %d states, %d transitions, %d comparisons, %.1f s" % (
            prop, tier, cov["evaluations"], cov["states"], cov["transitions"],
            cov["oracle_comparisons"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path):
    r = json.load(open(path))
    bdir = os.path.join(os.environ.get("VF_BUILD", os.path.join(VERIF, "build")), r["flavor"])
    ex = [s.get("extra") for s in PROPS[r["property"]]["stages"] if s["harness"] == r["harness"]]
    b = build(r["flavor"], [r["harness"]], bdir, ex[0] if ex else None)[0]
    scratch = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        st, sig, msg = replay(b, r["tier"], r["case"], scratch, 300, run_env(r.get("env")))
        print(st, sig, msg)
        return 0 if st == "pass" else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
