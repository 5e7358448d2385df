"""Rules decided by the type checker: witness programs that must (or must not) be well-formed, checked against /repo's headers without running anything."""
import concurrent.futures, glob, os, re, shutil, subprocess

CLANG = shutil.which("clang++-18") or shutil.which("clang++")
GCC = shutil.which("g++")
BASE = ["-std=c++20", "-w", "-DNDEBUG"]
MUTEXES = ["gtl::NullMutex", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "MX"]


def _run(cmd, src=None):
    return subprocess.run(cmd, input=src, capture_output=True, text=True)


def _errs(stderr):
    """[(where, message)] : each error, with the nearest location in the library when the diagnostic's instantiation trail names one."""
    out, lib = [], None
    for l in stderr.splitlines():
        m = re.match(r"(.*?):(\d+):(?:\d+:)? (fatal error|error|note|required from.*|In instantiation.*): ?(.*)", l) or re.match(r"(.*?):(\d+):(?:\d+:)? ()(.*required from.*)", l)
        if not m:
            continue
        if m.group(3) in ("error", "fatal error"):
            out.append(["%s:%s" % (m.group(1), m.group(2)), m.group(4)])
        elif out and "/include/gtl/" in m.group(1) and "/include/gtl/" not in out[-1][0] and len(out[-1]) == 2:
            out[-1].append("%s:%s" % (m.group(1), m.group(2)))
    return [((w[2] + " (" + w[0] + ")") if len(w) > 2 else w[0], w[1]) for w in out]


def _jobs(jobs):
    """jobs: (name, what, cmd, src, pick) -> results in order."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: (j, _run(j[2], j[3])), jobs))


def compile_all(prop, repo, work, ROOT, facts, tier):
    """C30: headers alone, the instantiation units, and no strong definitions in headers."""
    inc = ["-I" + repo + "/include", "-I" + os.path.join(ROOT, "witness", "c30")]
    headers = sorted(glob.glob(repo + "/include/gtl/*.hpp"))
    viol, counts, ops, jobs = [], {}, {}, []
    for h in headers:
        n = os.path.basename(h)
        src = '#include "gtl/%s"\n#include "gtl/%s"\n' % (n, n)
        for cc in (CLANG, GCC):
            jobs.append((n, "header", [cc] + BASE + inc + ["-fsyntax-only", "-x", "c++", "-"], src))
        jobs.append((n, "strong", [CLANG] + BASE + inc + ["-O0", "-S", "-emit-llvm", "-gline-tables-only", "-o", "-", "-x", "c++", "-"], src))
    # all headers together, in both orders
    for o, hs in (("forward", headers), ("backward", headers[::-1])):
        src = "".join('#include "gtl/%s"\n' % os.path.basename(h) for h in hs)
        for cc in (CLANG, GCC):
            jobs.append(("all_headers_" + o, "header", [cc] + BASE + inc + ["-fsyntax-only", "-x", "c++", "-"], src))
    for u in sorted(glob.glob(os.path.join(ROOT, "witness", "c30", "u_*.cpp"))):
        for mx in (MUTEXES if "MUTEX" in open(u).read() else [None]):
            for cc in (CLANG, GCC):
                jobs.append((os.path.basename(u) + ("<%s>" % mx if mx else ""), "unit", [cc] + BASE + (["-DMUTEX=" + mx] if mx else []) + inc + ["-fsyntax-only", u], None))
    ob = 0
    for (name, what, cmd, src), r in _jobs(jobs):
        cc = os.path.basename(cmd[0])
        ops.setdefault("instantiation", {}).setdefault(name, []).append("%s %s" % (cc, what))
        if what == "strong":
            if r.returncode:
                continue  # reported by the plain compilation of the same header
            for l in r.stdout.splitlines():
                m = re.match(r"(?:define\b.*?|)(@[\w.$\"]+)", l) if l.startswith(("define", "@")) else None
                if not m or re.search(r"\b(linkonce_odr|linkonce|internal|private|weak_odr|weak|available_externally|external|appending)\b", l) or "@llvm." in l[:12]:
                    if m:
                        ob += 1
                    continue
                ob += 1
                viol.append(dict(prop=prop, op="include in two translation units", unit=name, where=repo + "/include/gtl/" + name, msg="defines the non-inline symbol " + m.group(1)[1:]))
            continue
        ob += 1 if what == "header" else len(re.findall(r";", open(cmd[-1]).read()))
        if r.returncode:
            es = _errs(r.stderr) or [(name, r.stderr[-300:])]
            for w, m in es[:6]:
                viol.append(dict(prop=prop, op="include" if what == "header" else "instantiate", unit=name, where=w, msg="%s: %s" % (cc, m[:300])))
    counts[prop + ".obligations"] = ob
    return dict(violations=viol, counts=counts, ops=ops)


def type_facts(prop, repo, work, ROOT, facts, tier):
    """C31: units of static_assert(!requires ...) facts."""
    inc = ["-I" + repo + "/include", "-I" + os.path.join(ROOT, "witness", "c30"), "-I" + os.path.join(ROOT, "witness", "c31")]
    viol, errors, ops, jobs, ob = [], [], {}, [], 0
    for u in sorted(glob.glob(os.path.join(ROOT, "witness", "c31", "t_*.cpp"))):
        for cc in (CLANG, GCC):
            jobs.append((os.path.basename(u), "unit", [cc] + BASE + ["-ferror-limit=0" if "clang" in cc else "-fmax-errors=0"] + inc + ["-fsyntax-only", u], None))
    for (name, what, cmd, src), r in _jobs(jobs):
        cc = os.path.basename(cmd[0])
        ops.setdefault("type facts", {}).setdefault(name, []).append(cc)
        if r.returncode == 0:
            continue
        for w, m in (_errs(r.stderr) or [(name, r.stderr[-300:])])[:12]:
            viol.append(dict(prop=prop, op="type fact", unit=name, where=w, msg="%s: %s" % (cc, m[:300])))
    for u in glob.glob(os.path.join(ROOT, "witness", "c31", "*")):
        ob += len(re.findall(r"\b(?:YES|NO|SAME|MUT|static_assert)\b", open(u).read()))
    return dict(violations=viol, errors=errors, counts={prop + ".obligations": ob}, ops=ops)
