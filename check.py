#!/usr/bin/env python3
import sys, os, argparse, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner, specs

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--shard"); ap.add_argument("--shards", type=int); ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        if a.prop == "setup":
            return specs.setup()
        s = specs.SPECS[a.prop]
        cmds = s["cmds"](a.tier)
        if a.build_only:
            return 0
        if a.only or a.shard:
            import subprocess
            rc = 0
            for label, argv in cmds:
                out = "/tmp/vp_only_%d.json" % os.getpid()
                p = subprocess.run(argv + ["--out", out, "--tier", a.tier] + (["--only", a.only] if a.only else ["--shard", a.shard]))
                if p.returncode or ('"violations":[]' not in open(out).read().replace(" ", "")):
                    rc = 1
                for f in (out, out + ".cur"):
                    if os.path.exists(f): os.unlink(f)
            return rc
        return runner.run_check(a.prop, a.tier, cmds, s["level"], s["rule"], shards=a.shards or s.get("shards"),
                                assumptions=s.get("assumptions", ()), extra_cov=s.get("extra_cov"), t0=t0)
    except runner.NoAnswer as e:
        print("no answer:", e)
        return 2

sys.exit(main())
