"""Shared driver of all checks: builds a harness from /repo's working tree, runs its
shards, confirms every reported violation by replaying the single case, compares with the
list of known findings, writes the evidence file and prints the verdict."""
import hashlib, json, os, re, subprocess, sys, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
JOBS = os.cpu_count() or 8

INC = ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "stubs"),
       "-I" + os.path.join(REPO, "solver/include"), "-I" + os.path.join(REPO, "momentumopt/include"),
       "-I" + os.path.join(REPO, "solver_lqr/include"), "-I/usr/include/eigen3"]
BASE = ["-std=c++17", "-w", "-pthread", "-fno-var-tracking", "-D_GLIBCXX_ASSERTIONS"]


class NoAnswer(Exception):
    pass


def _headers_digest():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, p, "include") for p in ("solver", "momentumopt", "solver_lqr")]
    roots += [os.path.join(VERIF, "lib"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "harness")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


_hd = None


def compile_one(src, flags):
    global _hd
    flags = list(flags) + os.environ.get("VP_CXX", "").split()   # other optimisation levels round differently: used to see that no verdict hangs on that
    if _hd is None:
        _hd = _headers_digest()
    h = hashlib.sha256()
    h.update(_hd.encode()); text = open(src, "rb").read(); h.update(text)
    for inc in re.findall(rb'#include "(\w+\.cpp)"', text):
        h.update(open(os.path.join(os.path.dirname(src).encode(), inc), "rb").read())
    h.update(src.encode()); h.update(" ".join(flags).encode())
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp.o" % os.getpid()
    cmd = ["g++"] + BASE + flags + INC + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer("compile failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:])
    os.replace(tmp, obj)
    return obj


def repo_sources(*globs):
    import glob
    out = []
    for g in globs:
        out += sorted(glob.glob(os.path.join(REPO, g), recursive=True))
    return list(dict.fromkeys(out))


SOLVER_SRC = ["solver/src/**/*.cpp"]
LQR_SRC = ["solver_lqr/src/**/*.cpp"]
MOM_SRC = ["momentumopt/src/**/*.cpp"]


def build(name, harness, globs=(), flags=("-O1",), link=(), per_file=None):
    """compile harness + the sources matched by globs and link; returns the binary"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    srcs = [os.path.join(VERIF, "harness", s) for s in harness] + repo_sources(*globs)
    flags = list(flags)
    def one(s):
        f = list(flags)
        if s.endswith("OptVar.cpp"):
            f.append("-DEIGEN_NO_STATIC_ASSERT")
        if per_file:
            f = per_file(s, f)
        return compile_one(s, f)
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, srcs))
    key = hashlib.sha256((" ".join(objs) + " ".join(link) + " ".join(flags)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", "%s.%s" % (name, key))
    if not os.path.exists(exe):
        san = [f for f in flags if f.startswith("-fsanitize") and "thread" not in f]
        cmd = ["g++", "-pthread"] + san + ["-o", exe + ".tmp"] + objs + list(link) + \
              ["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoAnswer("link failed: " + " ".join(cmd[:6]) + "\n" + p.stdout[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def pybind_headers():
    """the installed pybind11 2.11 predates NumPy 2, whose C interface moved one function and widened the type
    descriptor; a patched copy of its headers is used instead (nothing of the repository is touched)"""
    import shutil
    d = os.path.join(BUILD, "pybind"); h = os.path.join(d, "pybind11/numpy.h")
    major = subprocess.run([PY, "-c", "import numpy; print(numpy.__version__.split('.')[0])"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    t = open("/usr/include/pybind11/numpy.h").read()
    if major == "1" or "API_PyArray_CopyInto = 82" not in t:
        return []
    if not os.path.exists(h):
        tmp = d + ".%d" % os.getpid()
        shutil.copytree("/usr/include/pybind11", os.path.join(tmp, "pybind11"))
        t = t.replace("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50")
        a, b = "    char flags;\n    int type_num;\n    int elsize;\n    int alignment;\n    char *subarray;\n    PyObject *fields;\n    PyObject *names;\n", \
               "    char former_flags;\n    int type_num;\n    std::uint64_t flags;\n    Py_ssize_t elsize;\n    Py_ssize_t alignment;\n    PyObject *metadata;\n    Py_ssize_t hash;\n    void *reserved[2];\n    char *subarray;\n    PyObject *fields;\n    PyObject *names;\n"
        if a not in t:
            raise NoAnswer("unknown pybind11 headers")
        t = t.replace(a, b)
        open(os.path.join(tmp, "pybind11/numpy.h"), "w").write(t)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return ["-I" + d]


def build_module(name, globs, flags=(), link=(), own=()):
    """a Python extension module of the repository's own bindings; returns its directory"""
    import sysconfig
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'], sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    flags = pybind_headers() + ["-fPIC", "-fvisibility=hidden", "-I" + inc[0]] + list(flags)
    def one(s):
        return compile_one(s, flags + (["-DEIGEN_NO_STATIC_ASSERT"] if s.endswith("OptVar.cpp") else []))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, sorted(repo_sources(*globs), key=lambda f: ("srcpy" not in f, f)) + [os.path.join(VERIF, "harness", f) for f in own]))
    key = hashlib.sha256((" ".join(objs) + " ".join(link)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "py", "%s.%s" % (name, key))
    so = os.path.join(d, name + inc[1])
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        cmd = ["g++", "-pthread", "-shared", "-o", so + ".tmp"] + objs + list(link) + ["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-ldl"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoAnswer("link failed: " + name + "\n" + p.stdout[-4000:])
        os.replace(so + ".tmp", so)
    return d


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # runaway allocations end the shard, not the sandbox


def _run(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, preexec_fn=_limit, cwd=os.path.join(BUILD, "run"), text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"")[-2000:] if e.stdout else ""


def _outcome(out, rc, txt):
    """(json or None, abnormal violation or None)"""
    if rc == 0 and os.path.exists(out):
        return json.load(open(out)), None
    cur = ""
    try:
        b = open(out + ".cur", "rb").read(4000)
        cur = b[1:].split(b"\0")[0].decode(errors="replace")
        hang = b[:1] == b"H"
    except OSError:
        hang = False
    if rc == "timeout":
        return None, ("timeout", cur, "shard time limit")
    if hang or rc == 77:
        return None, ("hang", cur, "the call does not return")
    if isinstance(rc, int) and rc < 0 or rc in (1, 134, 136, 139, 99):
        tail = (txt or "")[-1500:]
        return None, ("crash", cur, "abnormal end (status %s): %s" % (rc, tail))
    return None, ("error", cur, "status %s: %s" % (rc, (txt or "")[-1500:]))


def run_check(prop, tier, cmds, level, rule, extra_cov=None, assumptions=(), shards=None, time_limit=None, exhaustive=True, t0=None):
    """cmds: list of (label, argv) harnesses speaking the vp.hpp protocol"""
    t0 = t0 or time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    rundir = os.path.join(BUILD, "run", "%s.%d" % (prop, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    shards = shards or JOBS
    time_limit = time_limit or (780 if tier == "quick" else 820)
    jobs = []
    for label, argv in cmds:
        for s in range(shards):
            jobs.append((label, argv, s))
    res, bad, noans = [], [], []
    def go(j):
        label, argv, s = j
        out = os.path.join(rundir, "%s.%d.json" % (label, s))
        left = max(10, time_limit - (time.time() - t0))
        rc, txt = _run(argv + ["--out", out, "--tier", tier, "--shard", "%d/%d" % (s, shards)], left)
        return j, _outcome(out, rc, txt)
    with ThreadPoolExecutor(JOBS) as ex:
        for j, (js, ab) in ex.map(go, jobs):
            if js is not None:
                res.append((j, js))
            else:
                bad.append((j, ab))
    known = known_findings(prop)
    cand, seen_known, counts = [], {}, {}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "sections": {}, "counters": {}, "samples": []}
    for (label, argv, s), js in res:
        cov["evaluations"] += js["evaluations"]; cov["distinct_nontrivial"] += js["nontrivial"]
        for k, v in js["sections"].items():
            cov["sections"][k] = cov["sections"].get(k, 0) + v
        for k, v in js["counters"].items():
            if k.startswith("max_"):
                cov["counters"][k] = max(cov["counters"].get(k, 0), v)
            else:
                cov["counters"][k] = cov["counters"].get(k, 0) + v
        if s == 0 or len(cov["samples"]) < 5:
            cov["samples"] += js["samples"]
        for k, v in js["viol_count"].items():
            counts[k] = counts.get(k, 0) + v
        for v in js["violations"]:
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                cand.append((label, argv, v["case"], v["key"], v["msg"], s))
    for (label, argv, s), (kind, cur, msg) in bad:
        key = kind + ":" + cur.split(":")[0] if kind in ("crash", "hang") else kind
        if kind in ("crash", "hang") and cur:
            cand.append((label, argv, cur, key, msg, s))
        else:
            noans.append("%s shard %d: %s" % (label, s, msg))
    # confirm by replay, one per key first
    confirmed, tried = [], 0
    byk = {}
    for c in cand:
        byk.setdefault(c[3], []).append(c)
    order = [l[0] for l in byk.values()] + [c for l in byk.values() for c in l[1:]]
    for label, argv, case, key, msg, sh in order:
        if len(confirmed) >= 5 or tried >= 12 or confirmed and time.time() - t0 > 300:
            break
        tried += 1
        out = os.path.join(rundir, "replay.json")
        ok = False
        # the single case; if it needs the cases before it, the whole shard again
        for how in (["--only", case], ["--shard", "%d/%d" % (sh, shards)]):
            for f in (out, out + ".cur"):
                if os.path.exists(f):
                    os.unlink(f)
            rc, txt = _run(argv + ["--out", out, "--tier", tier] + how, 200)
            js, ab = _outcome(out, rc, txt)
            if js is not None:
                ok = any(v["key"] == key for v in js["violations"])
            elif ab[0] in ("crash", "hang"):
                ok = True
            if ok or time.time() - t0 > time_limit:
                break
        if ok:
            rp = os.path.join(VERIF, "replays"); os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, "%s-%d.json" % (prop, len(confirmed)))
            json.dump({"property": prop, "case": case, "key": key, "what": msg,
                       "replay": "python3 check.py %s --tier %s %s" % (prop, tier, " ".join(how)), "label": label}, open(path, "w"), indent=1)
            confirmed.append((path, case, key, msg))
        else:
            noans.append("case %s [%s] was reported but did not fail when replayed alone: %s" % (case, key, msg[:300]))
    if len(cov["samples"]) > 12:
        step = len(cov["samples"]) / 12.0
        cov["samples"] = [cov["samples"][int(i * step)] for i in range(12)]
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    cov["rule"] = rule
    cov["exhaustive"] = bool(exhaustive and not bad)
    if level == "model_checking":
        cov["states"] = cov["counters"].get("states", 0)
        cov["transitions"] = cov["counters"].get("transitions", 0)
        cov["traces_validated_against_impl"] = cov["counters"].get("traces", cov["evaluations"])
    if extra_cov:
        cov.update(extra_cov(cov))
    if counts:
        cov["failing_keys"] = dict(list(counts.items())[:50])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    evd = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    shutil.rmtree(rundir, ignore_errors=True)
    for k, what in known.items():
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            print("note: listed finding not seen in this run: property=%s key=%s" % (prop, k))
    for path, case, key, msg in confirmed:
        print("case %s [%s]: %s" % (case, key, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for n in noans:
        print("note:", n[:1500])
    print("%s %s: %d evaluations, %d nontrivial, %d violations, %.1f s" %
          (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], len(confirmed), time.time() - t0))
    if confirmed:
        return 1
    return 2 if noans else 0
