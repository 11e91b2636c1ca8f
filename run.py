#!/usr/bin/env python3
"""Builds and runs one runtime-monitoring check against /repo's working tree.

usage: run.py ID [--tier quick|thorough] [--seed N] [--group G] [--replay FILE] [--keep]
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
STALL = 150  # seconds one case may take (quick tier) before it counts as a hang
SKIP = re.compile(r"(^|/)(test_|bench_)[^/]*$|_(test|bench)\.cxx$")
JOBS = min(8, os.cpu_count() or 4)

SLOTS = threading.BoundedSemaphore(JOBS)  # compilers at a time, over all variants of a check

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
BASE = ["-std=c++17", "-g1", "-DNDEBUG_OFF", "-DFMT_DEPRECATED_OSTREAM", "-DCHECK_THROW",
        "-fopenmp", "-w", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
ENV_SAN = {
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=96:second_deadlock_stack=1",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                    "max_malloc_fill_size=268435456:malloc_fill_byte=254:"
                    "detect_stack_use_after_return=1:strict_string_checks=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "OMP_NUM_THREADS": "1", "TZ": "UTC",
}


class BuildError(Exception):
    pass


class SubjectError(BuildError):
    """The code generator under test failed, or what it generated does not compile."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def gen_ekf(dest_root, yaml="core/ekf/rtk_ekf.yaml", sub="core/ekf", name=None, hashseed=None):
    """Runs the repository's own EKF code generator into dest_root/<sub>.

    With a name, yaml is a template of this check (below harness/) whose NSNAME becomes that name;
    with a leading @ it was written into dest_root by the check.
    """
    dest = os.path.join(dest_root, sub)
    os.makedirs(dest, exist_ok=True)
    src = os.path.join(dest_root, yaml[1:]) if yaml[0] == "@" else os.path.join(REPO, yaml)
    if name:
        src = os.path.join(dest_root, name + ".yaml")
        with open(os.path.join(VERIF, "harness", yaml)) as f, open(src, "w") as o:
            o.write(f.read().replace("NSNAME", name))
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    p = sh(["python3", os.path.join(REPO, "core/ekf/ekf_gen/ekf_gen.py"), "--config_file",
            src, "--destination", sub], env=env, cwd=dest_root)
    if p.returncode != 0:
        raise SubjectError("ekf_gen failed:\n" + p.stdout[-4000:])
    return dest


def compile_one(src, obj, flags, cxx):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cache = os.environ.get("VERIF_OBJCACHE")
    key = None
    if cache:
        pp = subprocess.run([cxx, "-E"] + flags + [src], stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL)
        if pp.returncode == 0:
            key = hashlib.sha256(pp.stdout + "\0".join([cxx] + flags).encode()).hexdigest()
            hit = os.path.join(cache, key + ".o")
            if os.path.exists(hit):
                shutil.copy(hit, obj)
                return None
    with SLOTS:
        p = sh([cxx] + flags + ["-c", src, "-o", obj])
    if p.returncode != 0:
        return "%s:\n%s" % (src, p.stdout[:3000])
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(obj, os.path.join(cache, key + ".o.tmp%d" % os.getpid()))
        os.replace(os.path.join(cache, key + ".o.tmp%d" % os.getpid()), hit)
    return None


def repo_sources(patterns):
    res = []
    for p in patterns:
        hits = sorted(glob.glob(os.path.join(REPO, p)))
        for h in hits:
            # a pattern without a wildcard names its file on purpose
            if "*" in p and SKIP.search(h):
                continue
            if h not in res:
                res.append(h)
    return res


def rest_of_repo(bdir, have, flags, cxx):
    """An archive of the repository's other library sources, for the linker to pick from."""
    srcs = []
    for top in ("common", "utils", "models", "core", "sim", "parsers"):
        for s in sorted(glob.glob(os.path.join(REPO, top, "**", "*.cxx"), recursive=True)):
            if s in have or re.search(r"(^|_)(test|bench)(_|\.|$)", os.path.basename(s)):
                continue
            # quat.cxx stands for quat.h in older builds and does not compile
            if s.endswith("common/math/quat.cxx") or re.search(r"^int main\(", open(s, errors="replace").read(), re.M):
                continue
            srcs.append(s)
    objs = [os.path.join(bdir, "rest_" + s.strip("/").replace("/", "_") + ".o") for s in srcs]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = list(ex.map(lambda so: compile_one(so[0], so[1], flags, cxx), zip(srcs, objs)))
    lib = os.path.join(bdir, "rest.a")
    sh(["ar", "rcs", lib] + [o for o, e in zip(objs, errs) if not e])
    return [lib]


def build(cid, spec, variant="san"):
    bdir = os.path.join(BUILD, cid, variant)
    shutil.rmtree(bdir, ignore_errors=True)
    gen = os.path.join(bdir, "gen")
    os.makedirs(gen)
    for fn, text in spec.get("files", {}).items():
        with open(os.path.join(gen, fn), "w") as f:
            f.write(text)
    cxx = spec.get("cxx", "g++")
    opt = spec.get("opt", ["-O1"])
    inc = ["-I" + gen, "-I" + os.path.join(VERIF, "harness")]
    if spec.get("stubs"):
        inc += ["-I" + os.path.join(VERIF, "stubs")]
    inc += ["-I" + REPO, "-I/usr/include/eigen3"]
    base = [f for f in BASE if f != "-fopenmp"] if "clang" in cxx else BASE
    plain = flags = base + opt + inc + spec.get("flags", [])
    if variant == "san":
        flags = flags + SAN + spec.get("san_flags", [])
    if variant == "tsan":
        flags = [f for f in flags if f != "-fopenmp"] + TSAN
    link = {"san": SAN, "tsan": TSAN}.get(variant, [])
    srcs = [os.path.join(VERIF, "harness", s) for s in spec["src"]]
    srcs += repo_sources(spec.get("repo", []))
    for g in spec.get("gen", []):
        d = gen_ekf(gen, *g)
        srcs += [s for s in sorted(glob.glob(os.path.join(d, "*.cxx")))
                 if not s.endswith("_sparse_test.cxx") and s not in srcs
                 and os.path.basename(s) not in spec.get("gen_skip", [])]
    objs, errs = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = []
        for s in sorted(srcs, key=lambda f: -os.path.getsize(f)):
            o = os.path.join(bdir, s.replace(bdir, "").strip("/").replace("/", "_") + ".o")
            objs.append(o)
            # generated filters are huge expressions: full instrumentation multiplies their compile time
            own = spec.get("gen_san") if s.startswith(gen) else None
            futs.append(ex.submit(compile_one, s, o, flags if own is None else plain + own, cxx))
        for f in futs:
            e = f.result()
            if e:
                errs.append(e)
    bad_gen = [e for e in errs if e.startswith(gen)]
    if bad_gen and spec.get("gen_is_subject"):
        raise SubjectError("\n".join(bad_gen))
    if errs:
        raise BuildError("\n".join(errs))
    exe = os.path.join(bdir, "check")
    def link_with(more):
        return sh([cxx] + ([] if "clang" in cxx or variant == "tsan" else ["-fopenmp"]) + link + objs + more +
                  ["-o", exe] + spec.get("libs", []) + ["-lfmt", "-lyaml-cpp", "-lglog", "-ldl", "-lpthread", "-lstdc++fs"])
    p = link_with([])
    if p.returncode != 0 and "undefined reference" in p.stdout:
        # the code leans on a file of the repository it did not use before
        p = link_with(rest_of_repo(bdir, srcs, flags, cxx))
    if p.returncode != 0:
        raise BuildError("link:\n" + p.stdout[:3000])
    return exe


def classify(rc, err, timed_out):
    """(kind, summary) of an abnormal end of a harness process."""
    if timed_out:
        return "hang", "no answer within the watchdog"
    m = re.search(r"^(\S+?):(\d+):(\d+:)? runtime error: (.*)$", err, re.M)
    if m:
        fn = os.path.basename(m.group(1))
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(4))
        return "ubsan", "%s %s" % (fn, what[:80])
    m = re.search(r"SUMMARY: ThreadSanitizer: (.*?) (\S+) in (.*)", err)
    if m:
        return "tsan", "%s in %s" % (m.group(1), m.group(3)[:60])
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+) (\S+) in (\S+)", err)
    if m:
        return "asan", "%s %s" % (m.group(1), m.group(3)[:60])
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan", m.group(1)
    if rc == 255 or rc == -1:
        return "assert-exit", "check() ended the process"
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "exception", m.group(1)
    if "Assertion" in err:
        m = re.search(r"Assertion `(.*?)' failed", err)
        return "assertion", (m.group(1)[:80] if m else "")
    return "exit", "rc=%d" % rc


def read_progress(path):
    try:
        b = open(path, "rb").read()
        n = int.from_bytes(b[:8], "little")
        return n, b[8:].split(b"\0")[0].decode("latin1")
    except Exception:
        return 0, ""


def run_group(exe, cid, group, seed, tier, workdir, timeout, case=None, memcheck=False, attempt=0,
              suffix="", prefix=""):
    tag = prefix + group + (".mc" if memcheck else "") + suffix
    out = os.path.join(workdir, tag + ".json")
    prog = os.path.join(workdir, tag + ".progress")
    scratch = os.path.join(workdir, tag + ".scratch")
    for p in (out, prog):
        if os.path.exists(p):
            os.remove(p)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [exe, "--group", group, "--seed", str(seed), "--tier", tier, "--out", out,
           "--progress", prog, "--scratch", scratch]
    if case is not None:
        cmd += ["--case", str(case)]
    env = dict(os.environ)
    env.update(ENV_SAN)
    env["VH_REPO"] = REPO
    if memcheck:
        env["VH_MEMCHECK"] = "1"
        cmd = ["valgrind", "--error-exitcode=98", "--exit-on-first-error=yes", "-q",
               "--track-origins=no", "--num-callers=20"] + cmd
    logp = os.path.join(workdir, tag + ".log")
    timed = False
    t0 = time.time()
    with open(logp, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch,
                             start_new_session=True)
        # one case that does not end is a hang, even if the group would have time left
        stall = timeout if memcheck or tier != "quick" else min(timeout, STALL)
        last, since = None, time.time()
        while True:
            try:
                rc = p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            n = read_progress(prog)[0]
            if n != last:
                last, since = n, now
            if now - t0 > timeout or now - since > stall:
                timed = True
                os.killpg(p.pid, 9)
                rc = p.wait()
                break
    # keep only the tail of a chatty log
    sz = os.path.getsize(logp)
    with open(logp, "rb") as lf:
        head = lf.read(4000).decode("latin1")
        lf.seek(max(0, sz - 60000))
        tail = lf.read().decode("latin1")
    shutil.rmtree(scratch, ignore_errors=True)
    res = {"group": tag, "rc": rc, "wall": time.time() - t0, "abort": None}
    if not timed and rc == 0 and os.path.exists(out):
        res.update(json.load(open(out)))
        res["group"] = tag
        return res
    if memcheck and rc == 98:
        m = re.search(r"==\d+== ([A-Z].*)\n((?:==\d+==    .*\n)+)", tail + head)
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*?) \(", m.group(2)) if m else []
        kind, summ = "memcheck", (m.group(1)[:70] + " in " + (fr[0][:60] if fr else "?")) if m else "?"
    else:
        kind, summ = classify(rc, head + tail, timed)
    n, d = read_progress(prog)
    res.update(evaluations=n, distinct=0, samples=[], counters={}, violations=[])
    res["abort"] = {"kind": kind, "summary": summ, "case": n, "desc": d, "tail": tail[-3000:]}
    if attempt == 0 and case is None and kind != "tsan":
        # an abnormal end must reproduce before it is believed (a race that was seen is a race)
        again = run_group(exe, cid, group, seed, tier, workdir, timeout, case, memcheck, 1, suffix, prefix)
        if not again["abort"]:
            again.setdefault("counters", {})["unreproduced_abnormal_end"] = 1
        return again
    return res


def load_known(cid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", line.strip())
            if m and m.group(1) == cid:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--group")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    cid = a.id
    spec = CHECKS[cid]
    t0 = time.time()
    work = os.path.join(OUT, cid)
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(work, "*")):
        if os.path.isfile(f) and f != (a.replay and os.path.abspath(a.replay)):
            os.remove(f)
    rep = json.load(open(a.replay)) if a.replay else None
    if rep:
        a.seed, a.tier = rep["seed"], rep["tier"]
    viols = []  # (key, message, replay info)
    results = []
    try:
        variants = spec["variants"](a.seed, a.tier) if "variants" in spec else []
        if rep or a.group:
            want = [rep["group"]] if rep else a.group.split(",")
            variants = [v for v in variants if any(w.startswith(v[0] + "-") for w in want)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            exe = ex.submit(build, cid, spec, "san")
            vexe = [(v[0], ex.submit(build, os.path.join(cid, v[0]), dict(spec, **v[1]))) for v in variants]
            exe = exe.result()
            vexe = [(tag, f.result()) for tag, f in vexe]
        groups = sh([exe, "--list"], env=dict(os.environ, **ENV_SAN)).stdout.split()
        vgroups = [(tag, e, g) for tag, e in vexe
                   for g in sh([e, "--list"], env=dict(os.environ, **ENV_SAN)).stdout.split()]
        if a.group:
            groups = [g for g in groups if g in a.group.split(",")]
            vgroups = [v for v in vgroups if v[0] + "-" + v[2] in a.group.split(",")]
        if rep:
            vgroups = [v for v in vgroups if v[0] + "-" + v[2] == rep["group"]]
            groups = [] if vgroups else [rep["group"].replace(".mc", "").replace(".ts", "")]
        mc = [g for g in spec.get("memcheck", []) if g in groups]
        ts = [g for g in spec.get("tsan", []) if g in groups]
        to = spec.get("timeout", {"quick": 240, "thorough": 5400})[a.tier]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            mcexe = ex.submit(build, cid, spec, "plain") if mc else None
            futs = [ex.submit(run_group, exe, cid, g, a.seed, a.tier, work, to,
                              rep and rep.get("case")) for g in groups]
            futs += [ex.submit(run_group, e, cid, g, a.seed, a.tier, work, to, rep and rep.get("case"),
                               False, 0, "", tag + "-") for tag, e, g in vgroups]
            tsexe = ex.submit(build, cid, spec, "tsan") if ts else None
            results = [f.result() for f in futs]
            if ts:
                e3 = tsexe.result()
                futs = [ex.submit(run_group, e3, cid, g, a.seed, a.tier, work, to,
                                  rep and rep.get("case"), False, 0, ".ts") for g in ts]
                results += [f.result() for f in futs]
            if mc:
                e2 = mcexe.result()
                futs = [ex.submit(run_group, e2, cid, g, a.seed, a.tier, work, to, None, True)
                        for g in mc]
                results += [f.result() for f in futs]
    except SubjectError as e:
        if not spec.get("gen_is_subject"):
            print("CHECK-ERROR build failed for %s\n%s" % (cid, e))
            return 2
        results = []
        viols.append(("generate:failed", "the generator does not produce a working filter: %s" % str(e)[-600:], dict(group="generate", case=0, desc=str(e)[-3000:])))
    except BuildError as e:
        print("CHECK-ERROR build failed for %s\n%s" % (cid, e))
        return 2
    evals = distinct = 0
    samples, counters = [], {}
    for r in results:
        evals += r["evaluations"]
        distinct += r["distinct"]
        samples += ["%s: %s" % (r["group"], s) for s in r["samples"][:2]]
        for k, v in r["counters"].items():
            counters[r["group"] + "." + k] = v
        for v in r["violations"]:
            viols.append((r["group"] + ":" + v["key"], v["msg"], dict(
                group=r["group"], case=v["case"], desc=v["desc"], count=v["count"])))
        if r["abort"]:
            b = r["abort"]
            viols.append(("%s:%s:%s" % (r["group"], b["kind"], b["summary"]),
                          "abnormal end at case %d (%s)" % (b["case"], b["desc"][:300]),
                          dict(group=r["group"], case=b["case"], desc=b["desc"],
                               tail=b["tail"])))
        if a.v:
            print("  %-28s %6.1fs evals=%d distinct=%d %s" % (
                r["group"], r["wall"], r["evaluations"], r["distinct"], r["counters"]))
    known = load_known(cid)
    hits, fresh, seen = {}, [], set()
    for key, msg, info in viols:
        k = next((x for x in known if x[0] == key), None)
        if k:
            hits[k[0]] = k[1]
        else:
            fresh.append((key, msg, info))
    ev = {
        "property": cid, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"],
                     "samples": samples[:12] or ["(none)"], "observed": counters},
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    if not rep and not a.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, what in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (cid, what))
    rc = 0
    for i, (key, msg, info) in enumerate(fresh):
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(work, "violation_%d.json" % i)
        with open(path, "w") as f:
            json.dump(dict(property=cid, key=key, message=msg, seed=a.seed, tier=a.tier,
                           rerun="python3 run.py %s --replay %s" % (cid, path), **info), f,
                      indent=1)
        print("VIOLATION property=%s replay=%s key=[%s] %s" % (cid, path, key, msg[:600]))
        if a.v and info.get("tail"):
            print(info["tail"])
        rc = 1
    if rc == 0 and not rep and not a.group and evals == 0:
        print("CHECK-ERROR nothing was executed")
        return 2
    print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (
        cid, a.tier, evals, distinct, len(fresh), time.time() - t0))
    # the sandbox keeps no build output a later command needs
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(os.path.join(BUILD, cid), ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
