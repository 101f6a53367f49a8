"""Builds redGrapes (from /repo's working tree) together with a harness.

Every variant is compiled from scratch into /verif/build/<name>-<hash>, where the hash covers the
sources of /repo and of the harness and the flags; an existing complete build with the same hash is
reused (that only ever happens when checks run one after the other in the same sandbox)."""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

LIB = [
    "resource/resource.cpp", "resource/resource_user.cpp", "dispatch/thread/execute.cpp",
    "dispatch/thread/cpuset.cpp", "dispatch/thread/worker.cpp", "dispatch/thread/worker_pool.cpp",
    "scheduler/event.cpp", "scheduler/event_ptr.cpp", "scheduler/default_scheduler.cpp",
    "task/property/graph.cpp", "task/task_space.cpp", "task/queue.cpp", "memory/allocator.cpp",
    "memory/bump_allocator.cpp", "sync/cv.cpp", "util/trace.cpp", "redGrapes.cpp",
]

CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-w", "-ferror-limit=3", "-pthread", "-DREDGRAPES_VERIF", "-DSPDLOG_FMT_EXTERNAL",
        "-DSPDLOG_COMPILED_LIB",
        "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=trace-pc-guard,pc-table"]
LIBS = ["-lboost_context", "-lfmt", "-lspdlog", "-lhwloc", "-ldl", "-pthread", "-rdynamic"]

SAN = {
    "plain": ["-O0"],
    # -fno-inline: schedule points are told apart by the function they are in
    "asan": ["-O1", "-fno-inline", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "tsan": ["-O1", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def lib_sources():
    """the .cpp files of the library, as far as they do not need absent dependencies"""
    out = []
    root = os.path.join(REPO, "redGrapes")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def tree_hash(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    with open(q, "rb") as fh:
                        h.update(fh.read())
        else:
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


class Variant:
    """san: plain | asan | tsan; units: instrumented harness sources; raw: uninstrumented ones"""

    def __init__(self, name, san, units, raw, defs=(), include=(), link=(), cov=True, lib=True, opt=None):
        self.name, self.san, self.units, self.raw = name, san, list(units), list(raw)
        self.defs, self.include, self.link, self.cov, self.lib = list(defs), list(include), list(link), cov, lib
        self.opt = opt

    def jobs(self, out):
        inc = []
        for i in self.include:
            inc += ["-I", os.path.join(VERIF, "harness", i)]
        inc += ["-I", os.path.join(VERIF, "harness", "config"), "-I", REPO,
                "-I", os.path.join(REPO, "share/thirdParty/cameron314/concurrentqueue/include")]
        san = list(SAN[self.san])
        if self.opt:
            san = [self.opt] + [f for f in san if not f.startswith("-O")]
        flags = BASE + san + (COV if self.cov else []) + self.defs + inc
        js = []
        for u in self.units:
            src = os.path.join(VERIF, "harness", u)
            js.append(([CXX] + flags + ["-c", src, "-o", os.path.join(out, u.replace("/", "_") + ".o")]))
        if self.lib:
            for s in lib_sources():
                src = os.path.join(REPO, "redGrapes", s)
                js.append(([CXX] + flags + ["-c", src, "-o", os.path.join(out, "lib_" + s.replace("/", "_") + ".o")]))
        raw = ["-std=c++17", "-O2", "-g1", "-w", "-pthread"] + self.defs
        for u in self.raw:
            src = os.path.join(VERIF, "harness", u)
            js.append(([CXX] + raw + ["-c", src, "-o", os.path.join(out, u.replace("/", "_") + ".o")]))
        return js

    def link_cmd(self, out):
        objs = sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".o"))
        fl = [f for f in SAN[self.san] if f.startswith("-fsanitize")]
        return [CXX] + fl + objs + ["-o", os.path.join(out, self.name)] + self.link + LIBS


def build(variants):
    """builds all variants in parallel; returns {name: path of the executable}"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    todo, res = [], {}
    for v in variants:
        key = tree_hash([os.path.join(REPO, "redGrapes"), os.path.join(VERIF, "harness")],
                        [v.name, v.san, v.units, v.raw, v.defs, v.include, v.link, v.cov, v.opt, BASE, SAN, LIBS])
        out = os.path.join(BUILD, "%s-%s" % (v.name, key))
        res[v.name] = os.path.join(out, v.name)
        if os.path.exists(os.path.join(out, "complete")):
            continue
        if os.path.isdir(out):
            shutil.rmtree(out)
        # keep the disk small: drop older builds of the same variant
        for d in os.listdir(BUILD):
            if d.rsplit("-", 1)[0] == v.name:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out)
        todo.append((v, out))
    if todo:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {}
            for v, out in todo:
                for j in v.jobs(out):
                    futs[ex.submit(run, j)] = j
            for f in cf.as_completed(futs):
                rc, txt = f.result()
                if rc:
                    raise BuildError(" ".join(futs[f]) + "\n" + txt[-6000:])
            links = [ex.submit(run, v.link_cmd(out)) for v, out in todo]
            for l in links:
                rc, txt = l.result()
                if rc:
                    raise BuildError(txt[-6000:])
        for v, out in todo:
            for f in os.listdir(out):
                if f.endswith(".o"):
                    os.unlink(os.path.join(out, f))
            open(os.path.join(out, "complete"), "w").close()
    res["_build_s"] = round(time.time() - t0, 1)
    return res


SUPPORT = ["support/sched.cpp", "support/memwatch.cpp", "support/nobind.cpp"]
PROG = dict(units=["prog/prog.cpp"], raw=["prog/pm.cpp"] + SUPPORT)
PROG_ASAN = dict(units=["prog/prog.cpp"], raw=["prog/pm.cpp"] + SUPPORT, include=["shadow_fiber"])
PROG_TSAN = dict(units=["prog/prog.cpp"], raw=["prog/pm.cpp", "support/vfq.cpp"] + SUPPORT,
                 include=["shadow_fiber", "shadow_queue"], defs=["-DVF_TSAN_GUARDS"],
                 link=["-Wl,-z,muldefs"])

HX = SUPPORT + ["support/hx.cpp"]
CONC = dict(units=["conc/conc.cpp"], raw=HX)
CONC_TSAN = dict(units=["conc/conc.cpp"], raw=HX + ["support/vfq.cpp"], include=["shadow_queue", "shadow_fiber"],
                 defs=["-DVF_TSAN_GUARDS"], link=["-Wl,-z,muldefs"])

RT_UNITS = ["rt/main.cpp", "rt/call.cpp", "rt/access.cpp", "rt/refuse.cpp", "rt/guard.cpp", "rt/tags.cpp", "rt/mpi.cpp", "rt/workers.cpp"]
WAVE_UNITS = ["rt/wave.cpp", "rt/wave_main.cpp"]
WAVE_DEFS = ["-DREDGRAPES_RUL_CHUNKSIZE=3", "-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=2",
             "-DREDGRAPES_ALLOC_CHUNKSIZE=8192"]
RT = dict(units=RT_UNITS, raw=HX, include=["shadow_mpi"])
RT_TSAN = dict(units=RT_UNITS, raw=HX + ["support/vfq.cpp"], include=["shadow_queue", "shadow_fiber", "shadow_mpi"],
               defs=["-DVF_TSAN_GUARDS"], link=["-Wl,-z,muldefs"])

_V = [
    Variant("rt", "plain", **RT),
    Variant("rt_asan", "asan", **dict(RT, include=["shadow_fiber", "shadow_mpi"])),
    Variant("rt_tsan", "tsan", **RT_TSAN),
    Variant("wave", "plain", units=WAVE_UNITS, raw=HX),
    Variant("wave_tiny", "plain", units=WAVE_UNITS, raw=HX, defs=WAVE_DEFS),
    Variant("wave_asan_tiny", "asan", units=WAVE_UNITS, raw=HX, include=["shadow_fiber"], defs=WAVE_DEFS),
    Variant("conc", "plain", **CONC),
    Variant("conc_asan", "asan", include=["shadow_fiber"], **CONC),
    Variant("conc_tsan", "tsan", **CONC_TSAN),
    Variant("prog", "plain", **PROG),
    Variant("prog_tiny", "plain", defs=["-DREDGRAPES_RUL_CHUNKSIZE=3",
            "-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=2"], **PROG),
    Variant("prog_asan", "asan", **PROG_ASAN),
    Variant("prog_asan_tiny", "asan", defs=["-DREDGRAPES_RUL_CHUNKSIZE=3",
            "-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=2"], **PROG_ASAN),
    Variant("prog_tsan", "tsan", **PROG_TSAN),
]
VARIANTS = {v.name: v for v in _V}

if __name__ == "__main__":
    r = build([VARIANTS[n] for n in sys.argv[1:]])
    for k, v in r.items():
        print(k, v)
