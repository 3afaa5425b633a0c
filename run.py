#!/usr/bin/env python3
"""Driver of the checks:  run.py <property id> [quick|thorough] [--replay FILE] [--workers N]

Builds the library from /repo's working tree with the flavour the check needs, builds the harness,
runs it on all cores, confirms a reported violation by replaying it, and writes the evidence file.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import specs  # noqa: E402

DEFS = ("-DNDEBUG -D_GNU_SOURCE=1 -D_ISOC99_SOURCE=1 -D_POSIX_C_SOURCE=999999L -D_FILE_OFFSET_BITS=64 "
        "-D_REENTRANT -D__EXTENSIONS__ -D_TKRZW_COMP_ZLIB -D_TKRZW_COMP_ZSTD -D_TKRZW_COMP_LZ4 "
        "-D_TKRZW_COMP_LZMA").split()
BASE = "-std=c++17 -g1 -pthread -fPIC -fsigned-char -fno-omit-frame-pointer -w".split() + DEFS
FLAVOURS = {
    # The runtime in engine/ replaces the ThreadSanitizer runtime: compiled with, linked without.
    "tsan": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
    "asan": ["-O1", "-fsanitize=address", "-DMC_ASAN"],
}


def version_defs():
    """The version macros the Makefile passes."""
    text = open(os.path.join(os.environ.get("VP_REPO", "/repo"), "configure"), errors="replace").read()

    def var(name, default):
        m = re.search(r"^%s='?([^'\n]*)'?$" % name, text, re.M)
        return m.group(1) if m else default
    return ['-D_TKRZW_PKG_VERSION="%s"' % var("PACKAGE_VERSION", "1.0.0"),
            '-D_TKRZW_LIB_VERSION="%s.%s.%s"' % (var("MYLIBVER", "1"), var("MYLIBREV", "0"), var("MYLIBFMT", "0"))]


BASE += version_defs()
LIBS = "-llzma -llz4 -lzstd -lz -lrt -latomic -lpthread -lm -ldl".split()
NCPU = os.cpu_count() or 8


def lib_sources():
    text = open(os.path.join(REPO, "configure"), errors="replace").read()
    names = set()
    for m in re.finditer(r'MYLIBOBJFILES="([^"]*)"', text):
        names |= set(re.findall(r"(tkrzw_\w+)\.o", m.group(1)))
    return sorted(n + ".cc" for n in names if os.path.exists(os.path.join(REPO, n + ".cc")))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        os.utime(obj)
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("cannot compile %s\n%s" % (src, r.stderr[-4000:]))
    os.rename(tmp, obj)


def build(spec):
    flavour = spec["flavour"]
    os.makedirs(BUILD, exist_ok=True)
    # Old objects are dropped.
    objs = sorted(glob.glob(BUILD + "/*"), key=os.path.getmtime)
    for p in objs[:-600]:
        try:
            os.remove(p)
        except OSError:
            pass
    eng = os.path.join(VERIF, "engine")
    chk = os.path.join(VERIF, "checks")
    heads = sha(*[read(p) for p in sorted(glob.glob(REPO + "/tkrzw_*.h"))])
    eheads = sha(*[read(p) for p in sorted(glob.glob(eng + "/*.h") + glob.glob(chk + "/*.h"))])
    inc = ["-I" + REPO, "-I" + eng, "-I" + chk]
    jobs = []
    objs = []

    def add(src, flags, key):
        text = read(src)
        obj = os.path.join(BUILD, os.path.basename(src) + "-" + sha(text, " ".join(flags), key) + ".o")
        objs.append(obj)
        jobs.append((src, obj, flags))

    ff = BASE + FLAVOURS[flavour]
    for s in spec["srcs"]:
        add(os.path.join(chk, s), ff + inc + spec.get("cflags", []), heads + eheads)
    want = spec.get("libs", "all")
    for s in lib_sources():
        if want == "all" or s in want:
            add(os.path.join(REPO, s), ff + ["-I" + REPO], heads)
    for s in spec.get("extra_repo", []):
        add(os.path.join(REPO, s), ff + ["-I" + REPO], heads)
    plain = [f for f in BASE if not f.startswith("-D_FILE_OFFSET")]
    rts = ["rt_report.cc"] + (["rt_sched.cc", "rt_fs.cc"] if flavour == "tsan" else [])
    for s in rts:
        add(os.path.join(eng, s), plain + ["-O2", "-I" + eng] + (["-DMC_ASAN"] if flavour == "asan" else []), eheads)
    # The biggest first.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, j) for j in jobs]:
            f.result()
    exe = os.path.join(BUILD, "h-" + spec["srcs"][0].replace(".cc", "") + "-" + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["clang++", "-rdynamic", "-o", tmp] + objs
        if flavour == "asan":
            cmd += ["-fsanitize=address"]
        r = subprocess.run(cmd + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("cannot link\n" + r.stderr[-4000:])
        os.rename(tmp, exe)
    return exe


def known_findings(pid):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=\[([^\]]*)\] (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def run_workers(exe, spec, tier, outdir, known, extra=(), workers=None):
    t = spec[tier]
    n = workers or t.get("workers", NCPU)
    procs = []
    scratch_root = tempfile.mkdtemp(prefix="vpmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        for w in range(n):
            sd = os.path.join(scratch_root, str(w))
            os.makedirs(sd)
            cmd = [exe, "--tier=" + tier, "--out=" + outdir, "--worker=%d" % w, "--num_workers=%d" % n,
                   "--time=%s" % t.get("time", 60), "--scratch=" + sd]
            cmd += ["--%s=%s" % kv for kv in spec.get("args", {}).items()]
            cmd += ["--%s=%s" % kv for kv in t.get("args", {}).items()]
            cmd += ["--known=" + k for k, _ in known]
            cmd += list(extra)
            env = dict(os.environ, VP_SCRATCH=sd)
            log = open(os.path.join(outdir, "w%d.log" % w), "w")
            procs.append((w, cmd, subprocess.Popen(cmd, stdout=log, stderr=log, cwd=sd, env=env,
                                                   start_new_session=True)))
        deadline = time.time() + t.get("hard", t.get("time", 60) * 3 + 120)
        codes = {}
        while len(codes) < n:
            for w, cmd, p in procs:
                if w in codes:
                    continue
                rc = p.poll()
                if rc is not None:
                    codes[w] = rc
                elif time.time() > deadline:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    codes[w] = "timeout"
            if any(c == 3 for c in codes.values()):
                # One violation is enough.
                for w, cmd, p in procs:
                    if w not in codes:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                        codes[w] = "stopped"
            time.sleep(0.02)
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch_root, ignore_errors=True)
    res = {}
    for w, cmd, p in procs:
        path = os.path.join(outdir, "w%d.json" % w)
        data = None
        if os.path.exists(path):
            try:
                data = json.load(open(path))
            except ValueError:
                data = None
        res[w] = (codes[w], data, cmd)
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    workers = None
    extra = []
    i = 2
    while i < len(sys.argv):
        a = sys.argv[i]
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            i += 1
            replay = sys.argv[i]
        elif a == "--workers":
            i += 1
            workers = int(sys.argv[i])
        else:
            extra.append(a)
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.SPECS[pid]
    start = time.time()
    try:
        exe = build(spec)
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    built = time.time()
    known = known_findings(pid)
    outdir = tempfile.mkdtemp(prefix="vpout.")
    try:
        if replay:
            rp = json.load(open(replay))
            res = run_workers(exe, spec, rp.get("tier", tier), outdir, known,
                              extra=["--only=" + rp["scenario"], "--replay=" + rp["schedule"]] + rp.get("extra", []), workers=1)
            rc, data, _ = res[0]
            print(open(os.path.join(outdir, "w0.log")).read()[-6000:])
            if rc == 3:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                return 1
            print("not reproduced (exit %s)" % rc)
            return 0
        res = run_workers(exe, spec, tier, outdir, known, extra, workers)
        merged = {"sum": {}, "max": {}, "samples": [], "notes": [], "known": {}}
        violation = None
        errors = []
        for w in sorted(res):
            rc, data, cmd = res[w]
            if data:
                for k, v in data.get("sum", {}).items():
                    merged["sum"][k] = merged["sum"].get(k, 0) + v
                for k, v in data.get("max", {}).items():
                    merged["max"][k] = max(merged["max"].get(k, 0), v)
                for k, v in data.get("known", {}).items():
                    merged["known"][k] = merged["known"].get(k, 0) + v
                merged["samples"] += data.get("samples", [])[:3]
                for s in data.get("notes", []):
                    if s not in merged["notes"]:
                        merged["notes"].append(s)
            if rc == 3 and data and "violation" in data:
                if violation is None:
                    violation = (w, data["violation"])
            elif rc not in (0, "stopped"):
                log = open(os.path.join(outdir, "w%d.log" % w), errors="replace").read()[-3000:]
                errors.append("worker %d ended with %s\n%s" % (w, rc, log))
        status = 0
        if violation:
            w, v = violation
            n = workers or spec[tier].get("workers", NCPU)
            rp = {"property": pid, "tier": tier, "scenario": v["scenario"] or v["context"],
                  "schedule": v["schedule"], "what": v["what"], "extra": list(extra)}
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, "%s-%s.json" % (pid, sha(v["id"], v["scenario"], v["schedule"], v["context"])[:10]))
            json.dump(rp, open(rpath, "w"), indent=1)
            # Confirm: the same case once more, alone.
            confirmed = False
            for _ in range(2):
                od2 = tempfile.mkdtemp(prefix="vpout.")
                r2 = run_workers(exe, spec, tier, od2, known,
                                 ["--only=" + rp["scenario"], "--replay=" + rp["schedule"]] + list(extra), 1)
                shutil.rmtree(od2, ignore_errors=True)
                if r2[0][0] == 3:
                    confirmed = True
                    break
            if not confirmed:
                # The whole worker once more.
                od2 = tempfile.mkdtemp(prefix="vpout.")
                t2 = dict(spec)
                r2 = run_workers(exe, t2, tier, od2, known, extra, workers)
                shutil.rmtree(od2, ignore_errors=True)
                confirmed = any(x[0] == 3 for x in r2.values())
            log = open(os.path.join(outdir, "w%d.log" % w), errors="replace").read()
            print(v["what"][:5000])
            if "AddressSanitizer" in log:
                k = log.find("ERROR: AddressSanitizer")
                print(log[k:k + 2500])
            if confirmed:
                print("VIOLATION property=%s replay=%s" % (pid, rpath))
                status = 1
            else:
                print("NOT CONFIRMED: the failure above did not come back on replay")
                status = 2
        elif errors:
            print("ERROR: the check gave no answer")
            for e in errors[:3]:
                print(e)
            status = 2
        for k, what in known:
            if status == 0:
                print("KNOWN-FINDING: property=%s %s (met %d times)" % (pid, what, merged["known"].get(k, 0)))
        wall = time.time() - start
        s = merged["sum"]
        cov = {k: (int(x) if float(x).is_integer() else x) for k, x in sorted(s.items())}
        level = spec["level"]
        if level == "model_checking":
            cov["states"] = int(s.get("states", 0))
            cov["transitions"] = int(s.get("transitions", 0))
            cov["traces_validated_against_impl"] = int(s.get("traces", 0))
            cov.pop("traces", None)
        else:
            cov["evaluations"] = int(s.get("evaluations", 0))
            cov["distinct_nontrivial"] = int(s.get("distinct_nontrivial", 0))
            cov["rule"] = spec["rule"]
        cov["exhaustive"] = bool(status == 0 and s.get("incomplete", 0) == 0)
        cov["max"] = {k: int(x) for k, x in merged["max"].items()}
        cov["samples"] = merged["samples"][:12]
        cov["notes"] = merged["notes"][:60]
        cov["build_s"] = round(built - start, 1)
        cov["bounds"] = spec.get("bounds", "")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
              "violations": 1 if status == 1 else 0}
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: status %d, build %.1fs, total %.1fs, %s" % (
            pid, tier, status, built - start, wall,
            {k: v for k, v in cov.items() if isinstance(v, int)}))
        for nt in merged["notes"][:40]:
            print("  note: " + nt)
        return status
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
