#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  check.py PROPERTY            run a check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE       rebuild and replay a replay file (exit 1 when the violation reproduces)
  check.py --setup             compile the simulator
  check.py --determinism N     run N seeds of every scenario twice in different processes, compare hashes
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CERAS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from props import PROPS, ASSUME  # noqa: E402

FLAGS = ("-std=c++20 -w -fmax-errors=5 -ftemplate-depth=100860 -fdata-sections -ffunction-sections "
         "-funsafe-math-optimizations -O1 -ffast-math -pipe -pthread").split()   # the flags of the tests
INSTR = "-U_FORTIFY_SOURCE -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-pie".split()
WRAP = "-Wl," + ",".join("--wrap=" + f for f in "malloc free calloc realloc memcpy memmove memset memcmp".split())
LINK = ["-ffast-math", "-pthread", "-no-pie", WRAP, "-Wl,--gc-sections"]
NPROC = min(8, os.cpu_count() or 1)


def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sources_of_repo():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        r += [os.path.join(d, f) for f in fs]
    return r


class Builder:
    """Builds harness binaries from /repo's working tree into a cache keyed by the content of everything that goes in."""

    def __init__(self):
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.repo_key = digest(sources_of_repo(), " ".join(FLAGS + INSTR + LINK) + REPO)
        self.sim_key = digest(glob.glob(SIM + "/*"))

    def sim_obj(self):
        o = os.path.join(BUILD, "sim-%s.o" % self.sim_key)
        if not os.path.exists(o):
            t = o + ".%d" % os.getpid()
            r = run(["g++", "-std=c++20", "-O2", "-g1", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-c", SIM + "/sim.cpp", "-o", t])
            if r.returncode:
                die("the simulator does not compile:\n" + r.stdout[-3000:])
            os.rename(t, o)
        return o

    def target(self, spec):
        """spec: (name, source file, [defines]) -> path of the binary"""
        name, src, defs = spec
        if not os.path.isabs(src):
            src = os.path.join(HARNESS, src)
        key = digest([src] + glob.glob(HARNESS + "/*.hpp"), self.repo_key + self.sim_key + " ".join(defs))
        return name, src, defs, os.path.join(BUILD, "bin", "%s-%s" % (name, key))

    def build_one(self, spec, simo):
        name, src, defs, out = self.target(spec)
        if os.path.exists(out):
            os.utime(out)
            return out, ""
        tmp = out + ".%d" % os.getpid()
        flags, link = FLAGS, LINK
        if "EXACT" in defs:     # value-safe arithmetic: see DESIGN.md, P02
            flags = [f for f in FLAGS if f not in ("-ffast-math", "-funsafe-math-optimizations")] + ["-ffp-contract=off"]
            link = [f for f in LINK if f != "-ffast-math"]
        instr = INSTR
        if "PLAIN" in defs:     # no instrumentation of memory accesses (for runs of billions of steps): no race detection, no switches at accesses
            instr = [f for f in INSTR if "tsan" not in f and f != "-fsanitize=thread" and f != "--param"]
        r = run(["g++"] + flags + instr + ["-DCERAS_HPP=\"%s/include/ceras.hpp\"" % REPO, "-DCERAS_IMAGEIO=\"%s/include/utils/imageio.hpp\"" % REPO, "-I" + HARNESS, "-I" + SIM] + ["-D" + d for d in defs] + ["-c", src, "-o", tmp + ".o"])
        if r.returncode:
            return None, r.stdout
        r = run(["g++"] + link + [tmp + ".o", simo, "-o", tmp, "-ldl"])
        if os.path.exists(tmp + ".o"):
            os.unlink(tmp + ".o")
        if r.returncode:
            return None, r.stdout
        os.rename(tmp, out)
        return out, ""

    def build(self, specs):
        simo = self.sim_obj()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda s: self.build_one(s, simo), specs))
        bins = {}
        for s, (b, log) in zip(specs, res):
            if not b:
                die("harness %s does not compile against %s:\n%s" % (s[0], REPO, log[-3000:]))
            bins[s[0]] = b
        self.clean()
        return bins

    def clean(self):
        fs = sorted(glob.glob(os.path.join(BUILD, "bin", "*")), key=os.path.getmtime)
        now = time.time()
        for f in fs[:-60]:
            if now - os.path.getmtime(f) > 900:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return d
    return "/tmp"


ENV = dict(os.environ, SIM_SCRATCH=scratch_base(), LC_ALL="C")


def sim_cmd(binary, *args):
    # address-space randomisation off where the sandbox allows it: one nondeterminism less
    return ["setarch", "-R", binary, *args] if SETARCH else [binary, *args]


try:
    SETARCH = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
except OSError:
    SETARCH = False


def replay(binary, path, out=None, timeout=600):
    cmd = sim_cmd(binary, "replay", path)
    if out:
        cmd += ["--out", out]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return {"verdict": 2, "kind": "timeout", "text": "", "hash": ""}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"verdict": 2, "kind": "no-answer", "text": r.stdout[-300:], "hash": ""}


def parse_replay(path):
    head, streams, trace = [], {}, []
    intrace = False
    with open(path, errors="replace") as f:
        for l in f:
            l = l.rstrip("\n")
            if intrace:
                trace.append(l)
            elif l == "trace":
                intrace = True
            elif l.startswith("stream "):
                s, v = l[7:].split(":", 1)
                streams[int(s)] = [int(x) for x in v.split()]
            else:
                head.append(l)
    return head, streams, trace


def write_replay(path, head, streams):
    with open(path, "w") as f:
        f.write("\n".join(head) + "\n")
        for s in sorted(streams):
            if streams[s]:
                f.write("stream %d : %s\n" % (s, " ".join(map(str, streams[s]))))
        f.write("trace\n")


def minimise(binary, path, kind, workdir, budget):
    """Shrinks the tapes: shorter and smaller values first; a candidate counts when a fresh process reports the same kind."""
    end = time.time() + budget
    head, streams, _ = parse_replay(path)
    tried = 0

    def cost(s):
        return (sum(len(v) for v in s.values()), sum(sum(v) for v in s.values()))

    def attempt(cands):
        """several candidates at once; the first that keeps the violation wins"""
        nonlocal tried
        if time.time() > end:
            return None
        def one(ic):
            i, c = ic
            p = os.path.join(workdir, "m%d.replay" % i)
            o = os.path.join(workdir, "m%d.out" % i)
            write_replay(p, head, c)
            r = replay(binary, p, o, timeout=60)
            if r["verdict"] == 1 and r["kind"] == kind:
                _, got, _ = parse_replay(o)
                return got if cost(got) < cost(c) else c
            return None
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, enumerate(cands)))
        tried += len(cands)
        for r in res:
            if r is not None:
                return r
        return None

    progress = True
    while progress and time.time() < end:
        progress = False
        # cut off and zero whole streams, then halves, then blocks
        for s in sorted(streams, reverse=True):
            for size in (len(streams.get(s, [])), 64, 16, 4, 1):
                if s not in streams or size == 0 or size > max(1, len(streams[s])):
                    continue
                pos = 0
                while s in streams and pos < len(streams[s]) and time.time() < end:
                    cands = []
                    for k in range(NPROC // 2):
                        a = pos + k * size
                        v = streams[s]
                        if a >= len(v):
                            break
                        if s != 0 or size < len(v):
                            c = dict(streams)
                            c[s] = v[:a] + v[a + size:]
                            cands.append(c)
                        if any(v[a:a + size]):
                            c = dict(streams)
                            c[s] = v[:a] + [0] * len(v[a:a + size]) + v[a + size:]
                            cands.append(c)
                    cands = [c for c in cands if cost(c) < cost(streams)]
                    got = attempt(cands) if cands else None
                    if got is not None and cost(got) < cost(streams):
                        streams = {k: v for k, v in got.items() if v}
                        progress = True
                    else:
                        pos += size * max(1, NPROC // 2)
        # smaller values
        for s in sorted(streams):
            for i in range(len(streams[s])):
                v = streams[s][i] if i < len(streams[s]) else 0
                if v <= 1 or time.time() > end:
                    continue
                cands = []
                for nv in sorted({1, v // 2, v - 1}):
                    c = dict(streams)
                    c[s] = streams[s][:i] + [nv] + streams[s][i + 1:]
                    if cost(c) < cost(streams):
                        cands.append(c)
                got = attempt(cands) if cands else None
                if got is not None and cost(got) < cost(streams):
                    streams = {k: w for k, w in got.items() if w}
                    progress = True
                    if s not in streams:
                        break
    write_replay(path, head, streams)
    return tried


def symbolise(binary, text):
    m = re.search(r"pc (0x[0-9a-f]+)", text)
    if not m:
        return ""
    r = run(["addr2line", "-Cfpie", binary, m.group(1)])
    return " | ".join(l.strip() for l in r.stdout.splitlines()[:4])


def load_known(prop):
    """known_findings.tsv: status TAB property TAB scenario TAB kind TAB text TAB description"""
    res = []
    p = os.path.join(HERE, "known_findings.tsv")
    if os.path.exists(p):
        for l in open(p):
            c = l.rstrip("\n").split("\t")
            if len(c) >= 6 and c[0] == "known" and c[1] == prop:
                res.append(c)
    return res


def specs_of(prop, seed, gen_dir):
    cfg = PROPS[prop]
    specs = []
    for b in cfg["bins"]:
        if callable(b):
            specs += b(seed, gen_dir)
        else:
            specs.append(b)
    return specs


def run_check(prop):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    secs = float(os.environ.get("VERIF_SECONDS", cfg["quick"] if tier == "quick" else cfg["thorough"]))
    work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        return run_check_in(prop, cfg, seed, tier, secs, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check_in(prop, cfg, seed, tier, secs, work, t0):
    specs = specs_of(prop, seed, os.path.join(BUILD, "gen"))
    bins = Builder().build(specs)
    tb = time.time() - t0
    known = load_known(prop)
    kf = os.path.join(work, "known.tsv")
    with open(kf, "w") as f:
        for c in known:
            f.write("\t".join(c[1:5]) + "\n")
    # spread the workers over the binaries
    names = [s[0] for s in specs]
    jobs = []
    per = max(NPROC, len(names))
    share = {n: [] for n in names}
    for w in range(per):
        share[names[w % len(names)]].append(w)
    rounds = (per + NPROC - 1) // NPROC
    for n in names:
        for k, w in enumerate(share[n]):
            d = os.path.join(work, "%s-%d" % (n, w))
            os.makedirs(d)
            jobs.append((n, k, len(share[n]), d))

    def work_one(j):
        n, k, stride, d = j
        # every binary explores its own seeds: the base seed is salted with its name
        base = (seed * 1000 + int(hashlib.sha256(n.encode()).hexdigest()[:6], 16)) % (1 << 40)
        cmd = sim_cmd(bins[n], "worker", "--prop", prop, "--base", str(base), "--start", str(k), "--stride", str(stride),
                      "--time", "%.1f" % (secs / rounds), "--out", d, "--known", kf)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 700, env=ENV)
        except subprocess.TimeoutExpired:
            return n, d, 3, "worker timed out"
        return n, d, r.returncode, r.stdout

    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(work_one, jobs))

    agg = dict(runs=0, skipped=0, nontrivial=0, steps=0, switches=0, lifetimes=0, sim_ns=0, known=0, choices=0, rechecked=0)
    faults, counters, scen, cover, samples, known_seen = {}, {}, {}, set(), [], {}
    hashes = set()
    viols, errors = [], []
    wall_workers = 0.0
    for n, d, rc, log in res:
        got = False
        for p in glob.glob(d + "/w*.jsonl"):
            for l in open(p, errors="replace"):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if x["type"] == "summary":
                    got = True
                    for k in agg:
                        agg[k] += x[k]
                    wall_workers += x["wall"]
                    for src, dst in ((x["faults"], faults), (x["counters"], counters), (x["scenarios"], scen), (x["known_seen"], known_seen)):
                        for k, v in src.items():
                            dst[k] = dst.get(k, 0) + v
                    cover.update(x["cover"])
                    samples += x["samples"][:1]
                elif x["type"] == "violation":
                    x["bin"] = n
                    viols.append(x)
                else:
                    errors.append("%s %s seed %s: %s" % (n, x.get("scenario", ""), x.get("seed", ""), x.get("text", "")))
        for p in glob.glob(d + "/h*.bin"):
            b = open(p, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if not got:
            errors.append("worker of %s gave no summary (status %s): %s" % (n, rc, log[-500:]))

    nviol = 0
    exit_code = 0
    reports = []
    seen_kinds = set()
    for v in sorted(viols, key=lambda x: (x["bin"], x["kind"], x["seed"])):
        if v["kind"] in seen_kinds or len(reports) >= 3:
            continue
        # gate: a fresh process must reproduce the very same run twice
        r1, r2 = replay(bins[v["bin"]], v["replay"]), replay(bins[v["bin"]], v["replay"])
        ok = all(r["verdict"] == 1 and r["kind"] == v["kind"] and r["hash"] == v["hash"] for r in (r1, r2))
        if not ok:
            errors.append("violation %s of %s (seed %s) does not replay exactly: %s / %s / %s" % (v["kind"], v["bin"], v["seed"], v["hash"], r1, r2))
            continue
        seen_kinds.add(v["kind"])
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%s.replay" % (prop, re.sub(r"[^a-z0-9]+", "-", v["kind"].lower()), v["seed"] % 1000000))
        shutil.copy(v["replay"], path)
        budget = (20 if not reports else 6) if tier == "quick" else (120 if not reports else 40)
        mdir = os.path.join(work, "min")
        os.makedirs(mdir, exist_ok=True)
        tried = minimise(bins[v["bin"]], path, v["kind"], mdir, budget)
        fin = path + ".tmp"
        r3 = replay(bins[v["bin"]], path, fin)
        if r3["verdict"] == 1 and r3["kind"] == v["kind"] and os.path.exists(fin):
            os.rename(fin, path)
        else:
            shutil.copy(v["replay"], path)
            r3 = r1
        head = open(path, errors="replace").read().split("\n", 1)
        with open(path, "w") as f:
            f.write(head[0] + "\nbinary %s\ngenseed %d\n" % (v["bin"], seed) + head[1])
        r4 = replay(bins[v["bin"]], path)
        if not (r4["verdict"] == 1 and r4["kind"] == v["kind"]):
            errors.append("minimised replay of %s does not reproduce" % v["kind"])
            continue
        reports.append((v, r3, path, tried))
        nviol += 1

    for c in known:
        n = sum(x for k, x in known_seen.items() if k.startswith(c[3] + "\t" + c[4]))
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, c[5], n), flush=True)
    for v, r3, path, tried in reports:
        print("violation [%s] %s" % (r3["kind"], r3["text"]))
        sym = symbolise(bins[v["bin"]], r3["text"])
        if sym:
            print("  at " + sym)
        print("  scenario %s seed %s, choices after minimising %s (%d candidates tried)" % (v["scenario"], v["seed"], r3.get("choices"), tried))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        exit_code = 1
    for e in errors[:10]:
        print("ERROR " + e, flush=True)
    if errors and not reports:
        exit_code = 2
    if agg["runs"] - agg["skipped"] <= 0 and exit_code == 0:
        print("ERROR no run was executed")
        exit_code = 2
    wall = time.time() - t0
    hours = max(wall_workers, 0.001) / 3600.0 / max(1, len(jobs)) * rounds
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"] - agg["skipped"],
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"] + " A run counts as non-trivial when a fault fired, a thread was preempted, a process was restarted or the harness saw the situation it aims at; distinct runs are counted by the hash of the whole event sequence (choices, scheduling decisions, file operations, faults, results).",
            "samples": samples[:4] or ["(no non-trivial sample in this run)"],
            "seeds_per_hour": int((agg["runs"]) / hours) if hours > 0 else 0,
            "runs_per_scenario": scen,
            "process_lifetimes": agg["lifetimes"],
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 3),
            "instrumented_steps": agg["steps"],
            "thread_switches": agg["switches"],
            "recorded_choices": agg["choices"],
            "seeds_repeated_for_determinism": agg["rechecked"],
            "faults_injected": faults,
            "counters": counters,
            "situations_reached": sorted(cover),
            "situations_count": len(cover),
            "known_finding_hits": known_seen,
            "binaries": names,
            "real_code": cfg.get("real", "all of the library (headers of /repo/include compiled from the working tree with the flags of its tests), libstdc++ and libc above the seams"),
            "stubs": cfg.get("stub", "thread start/join/locks and processor count, operator new, file-system calls, clocks, terminal size and entropy are answered by the simulator; files live in a scratch directory"),
            "build_s": round(tb, 1),
        },
        "assumptions": ASSUME + cfg.get("assume", []),
        "wall_s": round(wall, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d lifetimes, faults %s, %.0f s, exit %d" %
          (prop, ev["coverage"]["evaluations"], len(hashes), agg["lifetimes"], faults, wall, exit_code), flush=True)
    return exit_code


def run_replay(path):
    head, _, trace = parse_replay(path)
    h = dict(l.split(" ", 1) for l in head if " " in l)
    prop = h["property"]
    seed = int(h.get("genseed", "1"))
    specs = [s for s in specs_of(prop, seed, os.path.join(BUILD, "gen")) if s[0] == h.get("binary", s[0])]
    bins = Builder().build(specs)
    b = bins[specs[0][0]]
    r = replay(b, path)
    print(json.dumps(r))
    print(symbolise(b, r["text"]))
    if r["verdict"] == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0 if r["verdict"] in (0, 3) else 2


def determinism(n):
    bad = total = 0
    for prop in PROPS:
        specs = specs_of(prop, 1, os.path.join(BUILD, "gen"))
        bins = Builder().build(specs)
        for name, b in bins.items():
            scs = [l.split()[:2] for l in run([b, "list"]).stdout.splitlines()]
            todo = [(sc, s) for p, sc in scs if p == prop for s in range(1, n + 1)]

            def one(t):
                sc, s = t
                r = []
                for aslr in (True, False):
                    cmd = [b, "one", "--prop", prop, "--scenario", sc, "--seed", str(s)]
                    cmd = sim_cmd(*cmd) if aslr else cmd
                    x = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
                    r.append(x.stdout)
                return sc, s, r

            with cf.ThreadPoolExecutor(NPROC) as ex:
                for sc, s, r in ex.map(one, todo):
                    total += 1
                    if r[0] != r[1]:
                        bad += 1
                        print("NOT REPRODUCIBLE", prop, name, sc, s, r)
    print("determinism: %d runs executed twice in different processes, %d differ" % (total, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(run_replay(sys.argv[2]))
    if len(sys.argv) == 3 and sys.argv[1] == "--determinism":
        sys.exit(determinism(int(sys.argv[2])))
    if sys.argv[1:] == ["--setup"]:
        Builder().sim_obj()
        print("simulator built; harnesses are built by the checks")
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        die("usage: check.py PROPERTY; known: " + " ".join(PROPS))
    sys.exit(run_check(sys.argv[1]))
