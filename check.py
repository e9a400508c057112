#!/usr/bin/env python3
"""Builds the check of one property against /repo's working tree, runs it and writes its evidence.

usage: check.py ID [--replay FILE] [--repo DIR] [--thorough]
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself could not run.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CXX = "clang++"
BASE = ["-std=c++17", "-g", "-fno-omit-frame-pointer", "-pthread"]
FLAVOURS = {
    # suffix of the harness file, engine objects, flags of code under test and harness, link flags
    "ds": dict(suffix="", engine=[("pbt.cpp", ["-O2"]), ("ds.cpp", ["-O2"])],
               flags=["-O1", "-fsanitize=thread", "-DVERIF_DS"], link=["-rdynamic", "-ldl", "-pthread"]),
    "seq": dict(suffix="_seq", engine=[("pbt.cpp", ["-O1", "-fsanitize=address"]), ("seq.cpp", ["-O1", "-fsanitize=address"])],
                flags=["-O1", "-fsanitize=address,alignment,null,vptr,bounds,return,unreachable", "-fno-sanitize-recover=all"],
                link=["-rdynamic", "-fsanitize=address,alignment,null,vptr,bounds,return,unreachable", "-ldl", "-pthread"]),
    "rel": dict(suffix="_rel", engine=[("pbt.cpp", ["-O2"]), ("seq.cpp", ["-O2"])],
                flags=["-O2", "-DNDEBUG"], link=["-rdynamic", "-ldl", "-pthread"]),
    "crowd": dict(suffix="_crowd", engine=[("pbt.cpp", ["-O2"]), ("crowd.cpp", ["-O2"])],
                  flags=["-O2"], link=["-rdynamic", "-ldl", "-pthread"]),
}

# C25 counts what is executed, so branches are counted besides memory accesses.
EXTRA = {("C25", "ds"): ["-fsanitize-coverage=edge,trace-pc"]}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(pid, repo, out):
    """Compiles the flavours that exist for this property; returns {flavour: executable}."""
    jobs, exes = [], {}
    defs = ["-DREISER_RT_HAS_PTHREADS", "-I" + HERE + "/engine", "-I" + HERE + "/engine/include", "-I" + HERE + "/props", "-I" + repo + "/src"]
    srcs = sorted(glob.glob(repo + "/src/**/*.cpp", recursive=True))
    for name, f in FLAVOURS.items():
        harness = "%s/props/%s%s.cpp" % (HERE, pid, f["suffix"])
        if not os.path.exists(harness):
            continue
        objs = []
        def add(src, flags):
            o = "%s/%s_%d_%s.o" % (out, name, len(objs), os.path.basename(src))
            objs.append(o)
            jobs.append([CXX] + BASE + flags + defs + ["-c", src, "-o", o])
        for s in srcs:
            add(s, f["flags"] + EXTRA.get((pid, name), []))
        for s, fl in f["engine"]:
            add(HERE + "/engine/" + s, fl)
        add(harness, f["flags"] + EXTRA.get((pid, name), []))
        exes[name] = (out + "/" + pid + f["suffix"], objs, f["link"])
    if not exes:
        sys.exit("no harness for " + pid)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                print(r.stdout)
                print("check %s: does not build: %s" % (pid, " ".join(r.args)))
                sys.exit(2)
    for name, (exe, objs, link) in exes.items():
        r = sh([CXX] + objs + link + ["-o", exe])
        if r.returncode:
            print(r.stdout)
            print("check %s: does not link" % pid)
            sys.exit(2)
    return {n: e[0] for n, e in exes.items()}


def known(pid):
    """Findings recorded rather than repaired: lines 'finding: property=ID suite=NAME match=REGEX :: what fails'."""
    out = []
    path = HERE + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) suite=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = lambda n: args[args.index(n) + 1] if n in args else None
    repo = os.path.abspath(opt("--repo") or "/repo")
    tier = "thorough" if "--thorough" in args else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        rc = run(pid, repo, tier, seed, t0, tmp, opt("--replay"), opt("--scale"), opt("--cap"), opt("--evidence"), opt("--replays"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, repo, tier, seed, t0, tmp, replay, scale, capOpt, evidenceDir, replayDir):
    if os.path.exists("%s/props/%s.py" % (HERE, pid)):
        sys.dont_write_bytecode = True
        sys.path.insert(0, HERE + "/props")
        return __import__(pid).run(HERE, pid, repo, tier, seed, t0, tmp, replay, scale, capOpt, evidenceDir, replayDir, known)
    exes = build(pid, repo, tmp)
    tb = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    if replay:
        suite = json.load(open(replay))["suite"]
        for n, e in exes.items():
            if suite in subprocess.run([e, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout.split():
                r = subprocess.run([e, "--replay", replay, "--tmp", tmp], env=env)
                return r.returncode
        print("no suite " + suite)
        return 2
    repdir = replayDir or HERE + "/replays"
    os.makedirs(repdir, exist_ok=True)
    suites, failures = [], []
    cap = float(capOpt or (160 if tier == "quick" else 2400)) / len(exes)
    for n, e in exes.items():
        out = tmp + "/" + n + ".json"
        cmd = [e, "--seed", str(seed), "--workers", os.environ.get("VERIF_WORKERS") or str(min(os.cpu_count() or 4, 16)), "--cap", str(cap), "--out", out, "--tmp", tmp,
               "--replay-dir", repdir, "--shrink", "25" if tier == "quick" else "90"]
        if tier == "thorough":
            cmd.append("--thorough")
        if scale:
            cmd += ["--scale", scale]
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(out):
            print("check %s: %s ended with %d and no result" % (pid, n, r.returncode))
            return 2
        res = json.load(open(out))
        for s in res["suites"]:
            s["flavour"] = n
            suites.append(s)
            if s["failed"]:
                failures.append(s)
    bad = []
    for s in failures:
        for suite, rx, what in known(pid):
            if suite == s["name"] and rx.search(s["message"]):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
                break
        else:
            bad.append(s)
    samples = []
    for s in suites:
        samples += [{"suite": s["name"], "case": x} for x in s["samples"]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["cases"] for s in suites),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in suites),
            "rule": " | ".join("%s: %s" % (s["name"], s["rule"]) for s in suites) +
                    " (distinct: by program choices plus the schedule actually executed)",
            "samples": samples,
            "suites": [{k: s[k] for k in ("name", "flavour", "cases", "requested", "nontrivial", "distinct_nontrivial", "labels", "time_capped", "unreproduced", "wall_s")} for s in suites],
            "build_s": round(tb, 1),
        },
        "assumptions": [
            "sequentially consistent interleavings at the granularity of instrumented accesses; weak memory effects only through the happens-before race detector",
            "a sleeping or timed-waiting thread wakes only when no other thread can run (timing assumption of the library's own destructors)",
        ] if "ds" in exes else ["single-threaded histories unless the suite says otherwise"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    evdir = evidenceDir or HERE + "/evidence"
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open("%s/%s.json" % (evdir, pid), "w"), indent=1)
    for s in bad:
        print("suite %s: %s" % (s["name"], s["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, s["replay"]))
    if not bad:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 1 if bad else 0


if __name__ == "__main__":
    main()
