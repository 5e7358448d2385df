#!/usr/bin/env python3
"""run.py mutfile.py [names..]: apply each mutant to scratch copy and run its property checks"""
import sys, os, subprocess, shutil, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
def one(mu):
    name, props, f, edits = mu[0], mu[1].split(), mu[2], mu[3]
    W = tempfile.mkdtemp(prefix="mu_", dir="/tmp")
    try:
        subprocess.run(("cp -a %s/include " % os.environ["BASE"] if "BASE" in os.environ else "git -C /repo archive HEAD include | tar x -C ") + W, shell=True, check=True)
        p = W + "/include/gtl/" + f; t = open(p).read()
        for e in edits:
            old, new = e[0], e[1]; n = e[2] if len(e) > 2 else 1
            if t.count(old) != n: return "%s EDITCOUNT %d for %r" % (name, t.count(old), old[:60])
            t = t.replace(old, new)
        open(p, "w").write(t)
        out = []
        for pr in props:
            r = subprocess.run([sys.executable, "/verif/tools/check.py", pr, "--repo", W], capture_output=True, text=True)
            o = (r.stdout + r.stderr).strip().splitlines()
            out.append("%s %s rc=%d %s | %s" % (name, pr, r.returncode, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERR"), " ; ".join(x[:260] for x in o[:2])))
        return "\n".join(out)
    finally: shutil.rmtree(W)
ms = [x for x in m.MUTS if not only or x[0] in only]
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ms): print(r, flush=True)
