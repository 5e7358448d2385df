#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property on /repo's current tree by static analysis.

exit 0: no violation; 1: VIOLATION line printed; 2: the analysis could not be carried out.
"""
import argparse, concurrent.futures, fcntl, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import witness, claims

CXX = shutil.which("clang++-18") or shutil.which("clang++")
CFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-gline-tables-only", "-w"]


def build_analyser():
    exe = os.path.join(ROOT, "analyzer", "build", "gtlcheck")
    os.makedirs(os.path.join(ROOT, "analyzer", "build"), exist_ok=True)
    with open(os.path.join(ROOT, "analyzer", "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-j8", "-C", os.path.join(ROOT, "analyzer")], capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:], r.stderr[-4000:])
            print("ERROR: the analyser does not build")
            sys.exit(2)
    return exe


def run_tu(t, exe, repo, work, rules, ):
    base = os.path.join(work, t.name)
    open(base + ".cpp", "w").write(t.source())
    open(base + ".spec", "w").write(t.spec())
    cmd = [CXX] + CFLAGS + t.flags + ["-I" + repo + "/include", "-I" + ROOT + "/witness", "-emit-llvm", "-c", base + ".cpp", "-o", base + ".bc"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return t, None, "witness unit %s does not compile:\n%s" % (t.name, "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:3000])
    r = subprocess.run([exe, base + ".bc", base + ".spec", base + ".json", ",".join(rules)], capture_output=True, text=True)
    if r.returncode:
        return t, None, "analyser failed on %s: rc=%d %s" % (t.name, r.returncode, r.stderr[-1500:])
    try:
        return t, json.load(open(base + ".json")), None
    finally:
        os.unlink(base + ".bc")


def known(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(json.loads(l.split(" ", 2)[2]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("GTL_REPO", "/repo"))
    ap.add_argument("--keep")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    c = claims.CLAIMS[prop]
    viol, errors, counts, ops, facts, samples = [], [], {}, {}, {}, []
    work = a.keep or tempfile.mkdtemp(prefix="gtlverif_")
    os.makedirs(work, exist_ok=True)
    try:
        if c.get("rules"):
            exe = build_analyser()
            tus = witness.tus_for(prop, c, a.tier)
            if not tus:
                errors.append("no witness units")
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for t, d, err in ex.map(lambda t: run_tu(t, exe, a.repo, work, c["rules"]), tus):
                    if err:
                        errors.append(err)
                        continue
                    errors += ["%s: %s" % (t.name, e) for e in d["errors"]]
                    for k, n in d["counts"].items():
                        counts[k] = counts.get(k, 0) + n
                    for k, l in d["ops"].items():
                        ops.setdefault(k, {})[t.name] = l
                    for k, l in d["facts"].items():
                        facts.setdefault(k, {})[t.name] = l
                    for v in d["violations"]:
                        if v["prop"] == prop or v["prop"] in c.get("accept", ()):
                            viol.append(dict(v, unit=t.name))
        if c.get("pyrule"):
            import pyrules
            r = getattr(pyrules, c["pyrule"])(prop, a.repo, work, ROOT, facts, a.tier)
            viol += r.get("violations", [])
            errors += r.get("errors", [])
            for k, n in r.get("counts", {}).items():
                counts[k] = counts.get(k, 0) + n
            for k, l in r.get("ops", {}).items():
                ops.setdefault(k, {}).update(l)
        n = counts.get(prop + ".obligations", 0)
        if n < c.get("floor", 1):
            errors.append("only %d obligations found for %s (expected at least %d): the analysis lost its subject" % (n, prop, c.get("floor", 1)))
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)

    kf = known(prop)
    fresh, listed = [], []
    for v in viol:
        for k in kf:
            if v["op"] == k["op"] and v["msg"] == k["msg"] and k["where"] in v["where"] and k.get("unit", v["unit"]) == v["unit"]:
                listed.append((k, v))
                break
        else:
            fresh.append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    nops = sum(len(l) for d in ops.values() for l in d.values())
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(explanation=c["note"], rule=c["technique"], operations_analysed=nops,
                            obligations=counts.get(prop + ".obligations", 0), counts={k: v for k, v in counts.items() if k.startswith(prop) or "." not in k or k.startswith("lock.")},
                            units={u: l for d in ops.values() for u, l in d.items()},
                            violations=viol[:50], errors=errors[:20], known_findings=len(set(json.dumps(k) for k, _ in listed))),
              wall_s=round(time.time() - t0, 2))
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    seen = set()
    for k, v in listed:
        s = "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
        if s not in seen:
            print(s)
            seen.add(s)
    if fresh:
        rp = os.path.join(ROOT, "evidence", prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s, repository %s\nreplay: python3 tools/check.py %s\n\n" % (prop, a.repo, prop))
            for v in fresh:
                f.write("%s %s: %s\n    at %s\n" % (v["unit"], v["op"], v["msg"], v["where"]))
            for e in errors:
                f.write("note: " + e + "\n")
        for v in fresh[:12]:
            print("%s %s: %s\n    at %s" % (v["unit"], v["op"], v["msg"], v["where"]))
        if len(fresh) > 12:
            print("... %d more" % (len(fresh) - 12))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("ERROR:", e)
        sys.exit(2)
    print("OK property=%s operations=%d obligations=%d wall=%.1fs" % (prop, nops, counts.get(prop + ".obligations", 0), time.time() - t0))


if __name__ == "__main__":
    main()
