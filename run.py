#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N]

Builds the property's harness from /repo's current tree (headers) and
/verif/checks/PROPERTY_*.cpp, drives it over generated cases, shrinks and
re-confirms failures, writes evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import tempfile
import sys, os, json, time, hashlib, subprocess, glob, argparse, struct, shutil, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CML_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
from meta import META  # noqa

NW = 8
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:exitcode=77",
           TSAN_OPTIONS="halt_on_error=1:exitcode=77:report_signal_unsafe=0",
           UBSAN_OPTIONS="abort_on_error=0:exitcode=77:print_stacktrace=0", LC_ALL="C")


def sha(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "cml")):
        out += [os.path.join(d, f) for f in fs]
    return out


class BuildBroken(Exception):
    pass


class CompileFails(Exception):
    def __init__(self, src, cmd, log):
        self.src, self.cmd, self.log = src, cmd, log


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def thread_sanitizer_runs(cxx):
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/t.cpp", "w") as f:
            f.write("#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x - 1; }\n")
        return run([cxx, "-fsanitize=thread", "-pthread", d + "/t.cpp", "-o", d + "/t"]).returncode == 0 and run([d + "/t"]).returncode == 0


def generate(pid, gen, suffix):
    """sources of a check whose sub-checks are generated programs; gen = (seed, files) or (seed, "=file")"""
    out = os.path.join(HERE, ".build", pid + "-programs" + suffix)
    shutil.rmtree(out, ignore_errors=True)
    r = run([sys.executable, os.path.join(HERE, "checks", META[pid]["generator"]), str(gen[0]), out, str(gen[1]), str(META[pid]["per_file"])])
    if r.returncode != 0:
        raise BuildBroken(r.stdout[-3000:])
    return sorted(glob.glob(os.path.join(out, "*.cpp")))


def build(pid, fuzz=False, opt=False, gen=None):
    srcs = sorted(glob.glob(os.path.join(HERE, "checks", pid + "_*.cpp")))
    if gen:
        srcs += generate(pid, gen, "-fuzz" if fuzz else "-opt" if opt else "")
    hdrs = glob.glob(os.path.join(HERE, "harness", "*")) + glob.glob(os.path.join(HERE, "checks", "*.h"))
    # quick: clang -O0 (compiles 4x faster than g++ -O1); thorough adds an
    # optimised g++ build and an optimised libFuzzer build of the same harness
    cxx = "g++" if opt else "clang++"
    flags = ["-std=c++17", "-O1" if fuzz or opt else "-O0", "-g0", "-w", "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "checks")]
    kinds = META[pid].get("sanitizers", "address,undefined")
    if kinds == "thread" and not thread_sanitizer_runs(cxx):
        kinds = "address,undefined"          # results are still compared; races then only show as wrong results
    san = list(SAN)
    san[0] = "-fsanitize=" + ("fuzzer," if fuzz else "") + kinds
    if kinds == "none":
        san = []
    if fuzz:
        flags.append("-DFW_FUZZER")
    key = sha(repo_files() + srcs + hdrs, (cxx, flags, san, REPO))
    bdir = os.path.join(HERE, ".build", pid + ("-fuzz" if fuzz else "-opt" if opt else ""))
    kdir = os.path.join(bdir, key)
    binp = os.path.join(kdir, "check")
    if os.path.exists(binp):
        return binp
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(kdir)
    jobs = []
    for s in srcs:
        own = open(s).readline()            # a source built with a compiler and flags of its own
        cmd = own[10:].split() + ["-w"] + [f for f in flags if f.startswith("-I")] if own.startswith("// BUILD: ") else [cxx] + flags + san
        jobs.append((s, cmd + ["-c", s, "-o", os.path.join(kdir, os.path.basename(s) + ".o")]))
    fwsrc = os.path.join(HERE, "harness", "fw.cpp")
    fwsan = ["-fsanitize=" + kinds.split(",")[0]] if not fuzz and san else san
    jobs.append((fwsrc, [cxx] + flags + fwsan + ["-c", fwsrc, "-o", os.path.join(kdir, "fw.o")]))

    def comp(job):
        src, cmd = job
        r = run(cmd)
        if r.returncode != 0:
            r = run(cmd)           # once more, in case memory ran short
        return src, cmd, r
    with ThreadPoolExecutor(NW) as ex:
        res = list(ex.map(comp, jobs))
    for src, cmd, r in res:
        if r.returncode != 0:
            bad = re.search(r"internal compiler error|No space left|Killed|out of memory|cannot allocate", r.stdout, re.I)
            if src == fwsrc or bad or ": error:" not in r.stdout and "fatal error" not in r.stdout:
                raise BuildBroken(r.stdout[-3000:])
            raise CompileFails(src, cmd, r.stdout)
    objs = [j[1][-1] for j in jobs]
    r = run([cxx] + san + objs + ["-pthread", "-o", binp])
    if r.returncode != 0:
        if "undefined reference" in r.stdout or "multiple definition" in r.stdout:
            raise CompileFails("link", [cxx], r.stdout)
        raise BuildBroken(r.stdout[-3000:])
    for o in objs:
        os.unlink(o)
    return binp


def replay_once(binp, prop, choices, timeout=30):
    """-> (failed, text)"""
    try:
        r = run([binp, "replay", prop], input=" ".join(map(str, choices)), env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return True, "HANG: did not finish in %d s" % timeout
    if r.returncode == 9:
        return False, r.stdout
    return r.returncode != 0, r.stdout


def confirm(binp, prop, choices):
    for _ in range(3):
        bad, txt = replay_once(binp, prop, choices)
        if not bad:
            return None
    return txt


def history_once(binp, h, prop, timeout=400):
    """h = [seed, mult, worker, nworkers, from_prop, index]"""
    try:
        r = run([binp, "history", *h[:5], prop, h[5]], env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, ""
    return r.returncode not in (0, 9), r.stdout


def program_text(pid, prop):
    m = re.match(r"program_\d+_(\d+)_(\d+)$", prop)
    if "generator" not in META[pid] or not m:
        return ""
    fs = glob.glob(os.path.join(HERE, ".build", pid + "-programs*", "%s_%03d.cpp" % (pid, int(m.group(1)))))
    t = open(fs[0]).read() if fs else ""
    i = t.find("static void p%s_%s(" % m.groups())
    return "the program:\n" + t[i:t.find("\nINST(", i)] + "\n" if i >= 0 else ""


def report_history(pid, binp, prop, seed, origin, hist, names):
    """a failing case that passes on its own: repeat the run that led to it"""
    for first in (str(names.index(prop)), "0"):
        h = hist[:4] + [first] + hist[4:]
        txt = None
        for _ in range(3):
            bad, txt = history_once(binp, h, prop)
            if not bad:
                break
        if bad:
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.txt" % (pid, re.sub(r"[^A-Za-z0-9_.]+", "_", prop)[:80]))
            with open(path, "w") as f:
                f.write("property=%s\nsubcheck=%s\nseed=%s\norigin=%s\n%shistory=%s\n---\n%s\n%s" % (
                    pid, prop, seed, origin, report.gen, " ".join(h), txt[-6000:], program_text(pid, prop)))
            return path
    return None


def report(pid, binp, prop, choices, seed, origin, hist=None, names=()):
    """confirm, shrink, write the replay file; returns path or None"""
    if confirm(binp, prop, choices) is None:
        return report_history(pid, binp, prop, seed, origin, hist, names) if hist else None
    small = choices
    try:
        r = run([binp, "shrink", prop], input=" ".join(map(str, choices)), env=ENV, timeout=120)
        if r.returncode == 0:
            cand = [int(x) for x in r.stdout.split()]
            if confirm(binp, prop, cand) is not None:
                small = cand
    except (subprocess.TimeoutExpired, ValueError):
        pass
    txt = confirm(binp, prop, small)
    if txt is None:
        return None
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.txt" % (pid, re.sub(r"[^A-Za-z0-9_.]+", "_", prop)[:80]))
    with open(path, "w") as f:
        f.write("property=%s\nsubcheck=%s\nseed=%s\norigin=%s\n%schoices=%s\n---\n%s\n%s" % (
            pid, prop, seed, origin, report.gen, " ".join(map(str, small)), txt[-6000:], program_text(pid, prop)))
    return path


def replay_gen(path):
    """seed and number of the generated sources a replay file was found with"""
    for l in open(path):
        if l.startswith("gen="):
            a, b = l[4:].split()
            return int(a), b
        if l.strip() == "---":
            return None


def read_replay(path):
    d = {}
    for l in open(path):
        if l.strip() == "---":
            break
        k, _, v = l.rstrip("\n").partition("=")
        d[k] = v
    return d["subcheck"], [int(x) for x in d.get("choices", "").split()]


def replay_history(path):
    for l in open(path):
        if l.startswith("history="):
            return l[8:].split()
        if l.strip() == "---":
            return None


def props(binp):
    r = run([binp, "list"], env=ENV)
    if r.returncode != 0:
        return []
    return [l.rsplit(" ", 1)[0] for l in r.stdout.splitlines()]


def campaign(binp, seed, mult, work, names, limit):
    """one full pass; returns (stats, failures[(prop, choices, origin)], hashes, inconclusive)"""
    fails, inconc = [], []
    wall_end = time.time() + limit

    def worker(w):
        out = os.path.join(work, "w%d" % w)
        start = 0
        myf = []
        while start < len(names):
            try:
                r = run([binp, "run", str(seed), repr(mult), str(w), str(NW), out, str(start)], env=ENV,
                        timeout=max(5, wall_end - time.time()))
                rc, hung = r.returncode, False
            except subprocess.TimeoutExpired:
                rc, hung = -1, True
            if rc == 0:
                break
            with open(out + ".cur", "rb") as f:
                idx, pi = struct.unpack("QQ", f.read(16))
            if pi >= len(names):
                break
            c = run([binp, "choices", str(seed), names[pi], str(idx)], env=ENV, timeout=60)
            ch = [int(x) for x in c.stdout.split()]
            myf.append((names[pi], ch, ("hang" if hung else "crash") + " at index %d" % idx))
            if hung:
                inconc.append(names[pi])
                break
            start = pi + 1
        return myf
    with ThreadPoolExecutor(NW) as ex:
        for m in ex.map(worker, range(NW)):
            fails += m
    stats, hashes = {}, set()
    for w in range(NW):
        out = os.path.join(work, "w%d" % w)
        if os.path.exists(out + ".jsonl"):
            for l in open(out + ".jsonl"):
                d = json.loads(l)
                s = stats.setdefault(d["prop"], {"evals": 0, "nontrivial": 0, "labels": {}, "samples": []})
                s["evals"] += d["evals"]
                s["nontrivial"] += d["nontrivial"]
                s["samples"] += d["samples"]
                for k, v in d["labels"].items():
                    s["labels"][k] = s["labels"].get(k, 0) + v
                if "fail" in d:
                    fails.append((d["prop"], d["choices"], "index %d" % d["index"],
                                  [str(seed), repr(mult), str(w), str(NW), str(d["index"])]))
        if os.path.exists(out + ".hash"):
            b = open(out + ".hash", "rb").read()
            hashes.update(struct.unpack("%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    return stats, fails, hashes, inconc


def fuzz_campaign(pid, work, secs, seed, names, gen=None):
    try:
        fb = build(pid, fuzz=True, gen=gen)
    except (BuildBroken, CompileFails) as e:
        return {"fuzz": "build failed"}, []
    fails, total = [], 0

    def one(w):
        d = os.path.join(work, "fz%d" % w)
        os.makedirs(d)
        cur = os.path.join(d, "cur")
        env = dict(ENV, FW_FUZZ_CUR=cur)
        cor = os.path.join(d, "corpus")
        os.makedirs(cor)
        r = run([fb, cor, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=600", "-len_control=20",
                 "-timeout=30", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/"], env=env)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", r.stdout)
        n = int(m.group(1)) if m else 0
        f = None
        if r.returncode != 0 and os.path.exists(cur):
            b = open(cur, "rb").read()
            v = struct.unpack("%dQ" % (len(b) // 8), b)
            f = (names[v[0]], list(v[2:2 + v[1]]), "libFuzzer")
        cov = re.findall(r"cov: (\d+)", r.stdout)
        return n, f, int(cov[-1]) if cov else 0
    with ThreadPoolExecutor(NW) as ex:
        res = list(ex.map(one, range(NW)))
    for n, f, c in res:
        total += n
        if f:
            fails.append(f)
    return {"fuzz_executions": total, "fuzz_edges": max(c for _, _, c in res)}, fails


def known_lines(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--mult", type=float)
    a = ap.parse_args()
    pid = a.pid
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    m = META[pid]
    rd = os.path.join(HERE, "replays")
    viol = []

    def evidence(stats, nhash, extra, nviol):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        samples, labels = [], {}
        for n, s in sorted(stats.items()):
            for x in s["samples"][:1]:
                samples.append("%s: %s" % (n, x[:400]))
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
        step = max(1, len(samples) // 24)
        cov = {"evaluations": sum(s["evals"] for s in stats.values()), "distinct_nontrivial": nhash,
               "rule": m["rule"], "samples": samples[::step][:30] or ["(no case ran)"],
               "subchecks": {n: s["evals"] for n, s in sorted(stats.items())}, "labels": labels}
        cov.update(extra)
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": "exploration", "coverage": cov, "assumptions": m.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": nviol}
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    gen = None
    if "generator" in m:
        gen = (seed, m["files"][a.tier == "thorough"])
        if a.replay:
            gen = replay_gen(a.replay) or gen
            pm = re.match(r"program_(\d+)_(\d+)_\d+$", read_replay(a.replay)[0])
            if pm and pid == "P28":
                gen = (int(pm.group(1)), "=" + pm.group(2))
    report.gen = "gen=%s %s\n" % gen if gen else ""
    try:
        binp = build(pid, gen=gen)
    except BuildBroken as e:
        print("harness could not be built (environment):\n" + str(e))
        return 2
    except CompileFails as e:
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-compile.txt" % pid)
        with open(path, "w") as f:
            f.write("property=%s\nsubcheck=compile\nchoices=\n---\n%s\n%s\n" % (pid, " ".join(e.cmd), e.log[:8000]))
        errs = [l for l in e.log.splitlines() if "error" in l][:3]
        print("a valid client program of the public API no longer compiles: " + " | ".join(errs))
        evidence({}, 0, {"explanation": "harness program rejected by the compiler: see replay"}, 1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1

    if a.replay:
        prop, ch = read_replay(a.replay)
        h = replay_history(a.replay)
        bad, txt = history_once(binp, h, prop) if h else replay_once(binp, prop, ch)
        print(txt)
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if bad else 0

    t_build = time.time() - t0
    names = props(binp)
    if not names:
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-start.txt" % pid)
        txt = run([binp, "list"], env=ENV).stdout[-4000:]
        with open(path, "w") as f:
            f.write("property=%s\nsubcheck=start\nchoices=\n---\nthe program crashes before main()\n%s\n" % (pid, txt))
        evidence({}, 0, {"explanation": "the program crashes while its statics are initialised: see replay"}, 1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    work = os.path.join(HERE, ".build", pid + "-work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    stats, hashes, fails, inconc, extra = {}, set(), [], [], {}
    if a.tier == "thorough":
        plan = [(seed * 1000 + k, a.mult or m.get("thorough_mult", 6.0)) for k in range(3)]
        limit = 200
    else:
        plan = [(seed, a.mult or m.get("quick_mult", 4.0))]
        limit = 400
    for k, (sd, mult) in enumerate(plan):
        if k == 1 and m.get("opt", True):
            try:
                binp = build(pid, opt=True, gen=gen)      # remaining seeds: optimised g++ build
                extra["second_build"] = "g++ -O1"
            except (BuildBroken, CompileFails):
                extra["second_build"] = "failed"
        st, fl, hs, ic = campaign(binp, sd, mult, work, names, limit)
        for n, s in st.items():
            d = stats.setdefault(n, {"evals": 0, "nontrivial": 0, "labels": {}, "samples": []})
            d["evals"] += s["evals"]; d["nontrivial"] += s["nontrivial"]; d["samples"] += s["samples"]
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
        hashes |= hs
        fails += fl
        inconc += ic
        if fails:
            break
    if a.tier == "thorough" and not fails and m.get("fuzz", True):
        ex, fl = fuzz_campaign(pid, work, int(os.environ.get("FW_FUZZ_SECS", "90")), seed, names, gen)
        extra.update(ex)
        fails += fl
    # saved regression inputs (seconds-long)
    nreg = 0
    for f in sorted(glob.glob(os.path.join(HERE, "regress", pid + "-*.txt"))):
        prop, ch = read_replay(f)
        if prop in names:
            nreg += 1
            if replay_once(binp, prop, ch)[0]:
                fails.append((prop, ch, "regress/" + os.path.basename(f)))
    extra["regression_inputs"] = nreg
    reported = {}
    tries = 0
    for prop, ch, origin, *hist in fails:
        if prop in reported or len(reported) >= 4:
            continue
        hist = hist[0] if hist and tries < 6 else None
        path = report(pid, binp, prop, ch, seed, origin, hist, names)
        tries += path is None
        if path:
            reported[prop] = path
        else:
            print("note: unconfirmed failure of %s (%s) did not replay" % (prop, origin))
    for k in sorted(set(inconc)):
        print("note: time limit reached in sub-check %s (inconclusive)" % k)
    for rp, what in known_lines(pid):
        prop, ch = read_replay(os.path.join(HERE, rp))
        if replay_once(binp, prop, ch)[0]:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    shutil.rmtree(work, ignore_errors=True)
    extra["build_s"] = round(t_build, 1)
    evidence(stats, len(hashes), extra, len(reported))
    print("%s: %d cases, %d distinct non-trivial, %d sub-checks, build %.1fs, total %.1fs" % (
        pid, sum(s["evals"] for s in stats.values()), len(hashes), len(names), t_build, time.time() - t0))
    for prop, path in reported.items():
        print("failed: %s" % prop)
        for l in open(path).read().split("---\n", 1)[1].splitlines()[:12]:
            print("   " + l[:300])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if reported else 0


if __name__ == "__main__":
    sys.exit(main())
