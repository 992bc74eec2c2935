"""mutate.py OUT.jsonl WORKERS SEED FILE:COUNT:P05,P06 ...: small changes to single lines of the repository's sources, each
judged by the quick checks of the listed properties. Prints those that no check reports (to be read: equivalent, outside the
property, or a gap)."""
import sys, os, re, random, subprocess, json, tempfile, shutil, threading, queue, time
MUT = os.environ.get("MUT", "/tmp/mut"); SRC = os.environ.get("SRC", "/repo"); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, W, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
CPP = [(r"(?<![<>=!\-+*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=\-])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="])]
ANY = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r"(?<=\w)\+(?=[\w(])", ["-"]), (r"(?<=[\w)])-(?=[\w(])(?!>)", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", ["/", "+"]), (r" / ?|(?<=[\w)])/(?=[\w(])", ["*"]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" and ", [" or "]), (r" or ", [" and "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\bnot ", [""]), (r"!(?=[\w(])", [""]),
       (r"(?<![\w.])\d+(?![\w.])", ["N"]), (r"(?<![\w.])\d+\.\d*(?:e-?\d+)?(?![\w])", ["F"]), (r"\.transpose\(\)", [""]), (r"\.T\b", [""]), (r"\b(?:std::)?(?:f?abs)\(", ["("]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
       (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\blmom\b", ["amom"]), (r"\bamom\b", ["lmom"]), (r"\bcontinue\b", ["break", "pass"]), (r"\bbreak\b", ["continue"]), (r"(?<=[(=,] )-(?=[\w(])|(?<=[(=,])-(?=[\w(])", [""]), (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".z()"]), (r"\.z\(\)", [".x()"]),
       (r"\binverse\(\)", ["conjugate()"]), (r"\bLOWER\b|\blower\b", ["upper"]), (r"\bids\b", ["ids"]), (r"_id\+1\b", ["_id"]), (r"\btime_id\b", ["(time_id-1)"]), (r"\bsqrt\(", ["("])]
def mutants(path, text):
    py = path.endswith(".py"); L = text.split("\n"); res = []; incomment = False; doc = False
    for i, l in enumerate(L):
        s = l.strip()
        if py and s.count("'''") + s.count('"""') == 1: doc = not doc; continue
        if doc or not s: continue
        if not py:
            if s.startswith("/*"): incomment = True
            if incomment:
                if "*/" in s: incomment = False
                continue
        if s.startswith(("#", "//", "*", "import", "from ", "namespace", "using", "template", "print", "class", "def ", "}", "std::cout", "throw", "public", "private", "protected", "assert", "raise", "plt.", "ax", "fig")): continue
        code = l.split("#")[0] if py else l.split("//")[0]
        def add(a, b, r):
            m = code[:a] + r + code[b:]
            if m != code: res.append((i, m + l[len(code):]))
        ops = list(ANY)
        if py or (re.search(r"\b(if|while|for|return)\b|\?", code) and not re.search(r"Eigen::|vector<|_ptr|_cast<|<<", code)): ops += CPP
        instr = [m.span() for m in re.finditer(r'"[^"]*"' + (r"|'[^']*'" if py else ""), code)]
        for rx, reps in ops:
            for m in re.finditer(rx, code):
                if any(a <= m.start() < b for a, b in instr): continue
                for r in reps:
                    g = m.group()
                    if r == "N":
                        v = int(g); add(*m.span(), str(v + 1)); 
                        if v: add(*m.span(), str(v - 1))
                    elif r == "F": add(*m.span(), repr(float(g) * 2 if float(g) else 1.)); 
                    elif r == "pass" and not py: add(*m.span(), "")
                    else: add(*m.span(), r)
        m = re.match(r"^(\s*(?:if|while|elif) ?\(?)(.*?)(\)? *[:{]?\s*)$", code)
        if not py:
            if re.match(r"^\s*(this->)?[\w.\->()\[\]]+(\(.*\)| [+\-*/]?= .*| <<.*);\s*$", code) and not re.match(r"^\s*(return|const|double|int|bool|auto|Eigen|std::)\b", code): add(len(code) - len(code.lstrip()), len(code), ";")
            k = re.search(r"\bif ?\((?!!)([\w.()>\-]+)\)", code)
            if k: add(k.start(1), k.end(1), "!(" + k.group(1) + ")")
        else:
            if re.match(r"^\s*[\w.\[\],: ]+ ?[+\-]?= .*[^\\(\[,]$|^\s*[\w.]+\(.*\)$", code) and i + 1 < len(L) and not s.startswith(("if", "for", "return", "while")): add(len(code) - len(code.lstrip()), len(code), "pass")
    return list(dict.fromkeys(res))
jobs = []; rnd = random.Random(seed)
for a in sys.argv[4:]:
    f, n, ps = a.split(":"); text = open(os.path.join(SRC, f)).read(); M = mutants(f, text); rnd.shuffle(M)
    # spread over lines: no two of one line before every line was used
    seen = {}; M.sort(key=lambda m: seen.setdefault(m[0], []).append(1) or len(seen[m[0]]))
    jobs += [(f, i, m, ps.split(",")) for i, m in M[:int(n)]]; print(f, len(M), "possible", flush=True)
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
Q = queue.Queue(); lock = threading.Lock()
for j in jobs:
    if (j[0], j[1] + 1, j[2]) not in done: Q.put(j)
print(len(jobs), "jobs,", Q.qsize(), "to do", flush=True)
def snap(B): return {os.path.join(d, f) for d, _, fs in os.walk(B) for f in fs}
def work(w):
    R = MUT + "/r%d" % w; B = MUT + "/b%d" % w; shutil.rmtree(R, ignore_errors=True); os.makedirs(R); os.makedirs(B, exist_ok=True)
    subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (SRC, R), shell=True, check=True)
    env = dict(os.environ, VP_FAILFAST="1", VP_REPO=R, VP_BUILD=B, VP_EVIDENCE=MUT + "/ev%d" % w); based = set()
    while True:
        try: f, i, m, ps = Q.get_nowait()
        except queue.Empty: break
        for p in ps:                # unchanged objects once
            if p not in based:
                r = subprocess.run(["nice", "-n", "5", "python3", "check.py", p], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); based.add(p)
                if r.returncode: print("BASE", p, r.stdout[-800:], flush=True)
        keep = snap(B); F = os.path.join(R, f); t = open(F).read(); L = t.split("\n"); old = L[i]; L[i] = m; open(F, "w").write("\n".join(L)); res = {}; t0 = time.time(); state = "SURVIVED"
        try:
            for p in ps:
                r = subprocess.run(["nice", "-n", "5", "python3", "check.py", p], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                res[p] = r.returncode
                if r.returncode == 1: state = "killed"; break
                if r.returncode == 2:
                    if "compile failed" in r.stdout: state = "stillborn"; break
                    state = "NOANSWER"; res[p + "_note"] = r.stdout[-300:]
        finally: open(F, "w").write(t)
        for x in snap(B) - keep:
            try: os.unlink(x)
            except OSError: pass
        with lock:
            open(out, "a").write(json.dumps(dict(file=f, line=i + 1, old=old, new=m, state=state, res=res, s=round(time.time() - t0, 1))) + "\n")
            if state in ("SURVIVED", "NOANSWER"): print("%s %s:%d\n  - %s\n  + %s" % (state, f, i + 1, old.strip(), m.strip()), flush=True)
T = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in T]; [t.join() for t in T]
c = {}
for l in open(out): s = json.loads(l)["state"]; c[s] = c.get(s, 0) + 1
print(c)
