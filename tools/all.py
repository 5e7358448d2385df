#!/usr/bin/env python3
"""all.py [--repo DIR]: every claimed property at once (each witness unit compiled and analysed once). Development helper; check.py is the registered command."""
import argparse, concurrent.futures, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, claims, witness

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--repo", default="/repo"); ap.add_argument("--props"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    exe = check.build_analyser()
    props = a.props.split(",") if a.props else list(claims.CLAIMS)
    tus, want = {}, {}
    for p in props:
        c = claims.CLAIMS[p]
        if not c.get("rules"): continue
        for t in witness.tus_for(p, c, "quick"):
            tus[t.name] = t; want.setdefault(t.name, {})[p] = c["rules"]
    work = tempfile.mkdtemp(prefix="gtlall_"); res = {p: [0, 0, [], []] for p in props}; allfacts = {}
    try:
        def one(n):
            rules = sorted({r for l in want[n].values() for r in l})
            return check.run_tu(tus[n], exe, a.repo, work, rules)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for t, d, err in ex.map(one, sorted(tus, key=lambda n: -len(want[n]))):
                for p, rules in want[t.name].items():
                    r = res[p]
                    if err: r[3].append(err); continue
                    r[1] += d["counts"].get(p + ".obligations", 0)
                    r[2] += [dict(v, unit=t.name) for v in d["violations"] if v["prop"] == p or v["prop"] in claims.CLAIMS[p].get("accept", ())]
                    for k, l in d["facts"].items(): allfacts.setdefault(p, {}).setdefault(k, {})[t.name] = l
                if not err and d["errors"]:
                    for p in want[t.name]: res[p][3] += [t.name + ": " + e for e in d["errors"]]
        for p in props:
            c = claims.CLAIMS[p]
            if c.get("pyrule"):
                import pyrules
                r = getattr(pyrules, c["pyrule"])(p, a.repo, work, check.ROOT, allfacts.get(p, {}), "quick")
                res[p][2] += r.get("violations", []); res[p][3] += r.get("errors", []); res[p][1] += r.get("counts", {}).get(p + ".obligations", 0)
    finally: shutil.rmtree(work, ignore_errors=True)
    bad = 0
    for p in props:
        n, ob, vi, er = res[p]
        if ob < claims.CLAIMS[p].get("floor", 1): er.append("only %d obligations" % ob)
        if vi or er or a.v:
            print(p, "obligations", ob, "violations", len(vi), "errors", len(er))
            for v in vi[:2]: print("   ", v["unit"], v["op"], v["msg"], "|", v["where"][:160])
            for e in er[:2]: print("    ERR", e[:200])
        bad += bool(vi or er)
    print("all:", len(props), "properties,", bad, "not quiet")
main()
