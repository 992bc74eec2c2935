"""Python counterpart of vp.hpp: case enumeration with sharding, replay of a single case,
crash/hang attribution, violation records and JSON output."""
import atexit, faulthandler, json, mmap, os, signal, sys, time, traceback

A = {"out": "", "tier": "quick", "shard": (0, 1), "only": None, "hang": 60}
evaluations = 0
_nontrivial = 0
counters, sections, index, samples, sample_n, viol_count, viols = {}, {}, {}, [], {}, {}, []
_cur = ("", -1)
_shm = None
_ticks = 0
_last = [-1, 0, 0.]
_t0, _patience = time.monotonic(), 0 if os.environ.get("VP_FAILFAST") else 200


def _alarm(*_):
    if _ticks == _last[0]:
        _last[1] += 1
        # processor time without progress (or five times as much of the clock's): a loaded machine is no hang
        if _last[1] >= 5 * A["hang"] or time.process_time() - _last[2] >= A["hang"]:
            if _shm is not None:
                _shm[0:1] = b"H"
            os._exit(77)
    else:
        _last[:] = _ticks, 0, time.process_time()


def _uncaught(et, e, tb):
    """an exception out of the repository's code where none was expected (preparing a case) is a violation too"""
    global _cur
    text = "".join(traceback.format_exception(et, e, tb)); sys.stderr.write(text)
    repo = os.path.realpath(os.environ.get("VP_REPO", "/repo")) + os.sep
    if not issubclass(et, Exception) or not any(os.path.realpath(f.filename).startswith(repo) for f in traceback.extract_tb(tb)):
        return
    if not _cur[0]: _cur = ("setup", 0)
    fail("exception:" + _cur[0], text[-1200:]); finish(); sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


def init():
    global _shm
    a = sys.argv[1:]
    while a:
        k = a.pop(0)
        if k == "--out": A["out"] = a.pop(0)
        elif k == "--tier": A["tier"] = a.pop(0)
        elif k == "--shard": A["shard"] = tuple(int(x) for x in a.pop(0).split("/"))
        elif k == "--only":
            s, i = a.pop(0).rsplit(":", 1); A["only"] = (s, int(i))
        elif k == "--hang": A["hang"] = int(a.pop(0))
    if A["out"]:
        f = open(A["out"] + ".cur", "w+b"); f.truncate(4096); f.flush()
        _shm = mmap.mmap(f.fileno(), 4096)
    sys.excepthook = _uncaught
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 1, 1)
    atexit.register(signal.setitimer, signal.ITIMER_REAL, 0)


def thorough():
    return A["tier"] == "thorough"


def nextcase(sec):
    """advance to the next case of a section; true if this process has to evaluate it"""
    global evaluations, _cur, _ticks
    if viols and not A["only"] and time.monotonic() - _t0 >= _patience:     # an answer matters more than completeness now
        _ticks += 1; return False
    i = index.get(sec, 0); index[sec] = i + 1; _ticks += 1
    if A["only"]:
        if A["only"] != (sec, i):
            return False
    elif i % A["shard"][1] != A["shard"][0]:
        return False
    _cur = (sec, i)
    if _shm is not None:
        b = ("%s:%d" % (sec, i)).encode() + b"\0"
        _shm[1:1 + len(b)] = b; _shm[0:1] = b"R"
    evaluations += 1; sections[sec] = sections.get(sec, 0) + 1
    faulthandler.dump_traceback_later(150, exit=True)      # compiled code that does not return never lets the alarm in
    return True


def case_id():
    return "%s:%d" % _cur


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def margin(key, value, limit):
    """records how close a comparison came to its tolerance (per mille) and tells whether it held"""
    k = "max_permille_" + key
    r = value / limit
    if r == r and r <= 1: counters[k] = max(counters.get(k, 0), int(1000 * r))
    return r <= 1


def nontrivial(b=True):
    global _nontrivial
    if b: _nontrivial += 1


def sample(text, per_sec=2):
    s = _cur[0]
    if sample_n.get(s, 0) < per_sec:
        sample_n[s] = sample_n.get(s, 0) + 1
        samples.append(case_id() + " " + (text() if callable(text) else text))


def fail(key, msg):
    n = viol_count[key] = viol_count.get(key, 0) + 1
    if n <= 3 and len(viols) < 200:
        viols.append({"case": case_id(), "key": key, "msg": str(msg)[:1500]})
    if A["only"]:
        print("FAIL", case_id(), "[" + key + "]", str(msg)[:3000], file=sys.stderr)


class guard:
    """an exception raised by the code under test is a violation of the case, not an end of the run"""
    def __init__(self, key=None): self.key = key
    def __enter__(self): return self
    def __exit__(self, et, e, tb):
        if et is None or not issubclass(et, Exception):
            return False
        fail(self.key or "exception:" + _cur[0], "".join(traceback.format_exception(et, e, tb))[-1200:])
        return True


def finish():
    signal.setitimer(signal.ITIMER_REAL, 0); faulthandler.cancel_dump_traceback_later()
    if _shm is not None:
        _shm[0:1] = b"D"
    js = {"evaluations": evaluations, "nontrivial": _nontrivial, "counters": counters, "sections": sections,
          "samples": samples, "viol_count": viol_count, "violations": viols}
    if A["out"]:
        with open(A["out"], "w") as f: json.dump(js, f)
    else:
        print(json.dumps(js, indent=1))
