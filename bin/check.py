#!/usr/bin/env python3
"""Decide one property: build its monitors from /repo's working tree, run them, judge, write evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

INC = ["-std=c++23", "-w", "-pipe", "-DWITH_MPI", "-DWITH_PETSC", "-DWITH_METIS", "-I" + REPO + "/lib", "-I" + VERIF + "/lib",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
       "-isystem", "/usr/include/petsc", "-isystem", "/opt/pyre/include",
       "-include", VERIF + "/lib/compat.h"]
LIBS = ["-L/opt/pyre/lib", "-ljournal", "-lpyre", "-Wl,-rpath,/opt/pyre/lib", "-Wl,--as-needed",
        "-lpetsc", "-lmpi", "-lmpi_cxx", "-lmetis", "-lpthread"]
VARIANTS = {
    "dbg": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
            "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "dbg0": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "rel": ["-O2", "-DNDEBUG"],
    "rel1": ["-O1", "-DNDEBUG"],
    "vg": ["-O1", "-g1"],
    "o0": ["-O0"],
    "o3": ["-O3", "-DNDEBUG"],
}
CXX = "g++-14"
CACHE = os.path.join(VERIF, ".cache")


class Harness(Exception):
    """no verdict possible"""


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO + "/lib", REPO + "/extensions"):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p[len(REPO):].encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def env_for(extra=None):
    e = dict(os.environ)
    e.update({
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
        "OMPI_MCA_btl_base_warn_component_unused": "0", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0:"
                        "hard_rss_limit_mb=6000:max_allocation_size_mb=4000:detect_odr_violation=0:quarantine_size_mb=64",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=66",
        "LSAN_OPTIONS": "suppressions=" + VERIF + "/lib/lsan.supp:print_suppressions=0",
    })
    if extra:
        for k, v in extra.items():
            e[k] = (e.get(k, "") + v) if k.endswith("_OPTIONS") else v
    return e


MPI_TROUBLE = re.compile(r"orte_init failed|Unable to start a daemon|ompi_rte_init failed|not enough slots|mpirun was unable to (launch|start)")


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.violations, self.sections, self.rules, self.builds, self.notes = [], [], {}, [], []
        self.inconclusive = []
        self.tree = tree_hash()

    # ---- building
    def compile(self, src, variant, petsc=False, extra=(), shared=False, libs=(), more=(), tag=""):
        srcs = [os.path.join(VERIF, "monitors", src) if not os.path.isabs(src) else src]
        if petsc:
            for d, _, fs in sorted(os.walk(REPO + "/lib/mito")):
                srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cc")]
        more = [os.path.join(VERIF, "monitors", m) for m in more]
        srcs += more
        flags = INC + VARIANTS[variant] + list(extra)
        h = hashlib.sha256()
        h.update(self.tree.encode())
        h.update(json.dumps([flags, srcs, shared, list(libs)]).encode())
        for p in sorted(os.path.join(d, f) for d, _, fs in os.walk(VERIF + "/lib") for f in fs) + srcs[:1] + more:
            h.update(open(p, "rb").read())
        for d in sorted(os.listdir(VERIF + "/monitors")):
            if d.endswith(".h"):
                h.update(open(os.path.join(VERIF, "monitors", d), "rb").read())
        key = os.path.join(CACHE, h.hexdigest()[:40])
        out = os.path.join(self.tmp, "%s.%s%s%s" % (os.path.basename(src), variant, tag, ".so" if shared else ""))
        t = time.time()
        if os.path.isdir(CACHE) and os.path.exists(key):
            shutil.copy(key, out)
            self.builds.append({"source": src, "variant": variant, "seconds": 0.0, "cached": True})
            return out
        objs = []

        def cc(i_s):
            i, s = i_s
            o = "%s.%d.o" % (out, i)
            r = subprocess.run([CXX] + flags + (["-fPIC"] if shared else []) + ["-c", s, "-o", o],
                               capture_output=True, text=True, errors="replace", timeout=700)
            return o, r, s
        with ThreadPoolExecutor(4) as ex:
            for o, r, s in ex.map(cc, enumerate(srcs)):
                if r.returncode:
                    raise Harness("%s does not compile (%s):\n%s" % (s, variant, "\n".join(r.stderr.splitlines()[:40])))
                objs.append(o)
        r = subprocess.run([CXX] + VARIANTS[variant] + (["-shared"] if shared else []) + objs + ["-o", out] + LIBS + list(libs),
                           capture_output=True, text=True, errors="replace", timeout=300)
        if r.returncode:
            raise Harness("%s does not link (%s):\n%s" % (src, variant, r.stderr[:4000]))
        for o in objs:
            os.unlink(o)
        self.builds.append({"source": src, "variant": variant, "seconds": round(time.time() - t, 1)})
        if os.path.isdir(CACHE):
            shutil.copy(out, key + ".tmp%d" % os.getpid())
            os.rename(key + ".tmp%d" % os.getpid(), key)
        return out

    # ---- running a process with limits; returns (rc, stdout, stderr, timed_out)
    def spawn(self, cmd, timeout, cwd=None, env=None, rlimit_as=None, again=None):
        # MPI may be unable to start up when the machine is busy: this says nothing about the code
        for attempt in range(5):
            r = self.spawn_once(cmd, timeout, cwd, env, rlimit_as)
            if r[0] == 0 or not MPI_TROUBLE.search(r[2]):
                return r
            time.sleep(2 + 3 * attempt)
            if again:
                again()
        raise Harness("MPI does not start: " + r[2][-1500:])

    def spawn_once(self, cmd, timeout, cwd, env, rlimit_as):
        e = env_for(env)
        if cmd[0] != "mpirun":
            e.setdefault("OMPI_MCA_ess_singleton_isolated", "1")    # no daemon for processes of their own

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if rlimit_as:
                resource.setrlimit(resource.RLIMIT_AS, (rlimit_as, rlimit_as))
        so = tempfile.TemporaryFile(dir=self.tmp)
        se = tempfile.TemporaryFile(dir=self.tmp)
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, cwd=cwd or self.tmp, env=e, preexec_fn=pre)
        timed = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        so.seek(0), se.seek(0)
        return p.returncode, so.read(40 << 20).decode("utf8", "replace"), se.read(4 << 20).decode("utf8", "replace"), timed

    def add_violation(self, **kw):
        self.violations.append(kw)

    # ---- running a monitor binary (one that uses vmon.h)
    def run_monitor(self, exe, name, variant, timeout=None, scale=1.0, shard=(0, 1), launcher=(), env=None, args=(), seed=None,
                    only=None, cwd=None, sub="", np=0):
        timeout = timeout or (3000 if self.tier == "thorough" else 600)
        if np:
            launcher = ("mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(np))
            sub = "%s.np%d" % (sub, np)
            env = dict(env or {}, ASAN_OPTIONS=":detect_leaks=0") if variant.startswith("dbg") else env
        xml = None
        if variant == "vg":
            sub += ".vg"
            xml = os.path.join(self.tmp, "vg.%s.%d%s.xml" % (name, shard[0], sub))
            launcher = ("valgrind", "--tool=memcheck", "--xml=yes", "--xml-file=" + xml, "--leak-check=no", "--child-silent-after-fork=yes",
                        "--num-callers=30", "--error-limit=no")
            args = list(args) + ["--hang", "900"]
        tag = "%s.%s.%d%s" % (name, variant, shard[0], sub)
        work = cwd or os.path.join(self.tmp, "cwd." + tag)
        os.makedirs(work, exist_ok=True)
        rep = os.path.join(self.tmp, "rep." + tag)
        seed = self.seed if seed is None else seed
        cmd = list(launcher) + [exe, "--seed", str(seed), "--tier", self.tier, "--report", rep, "--scale", str(scale),
                                "--shard", str(shard[0]), "--nshards", str(shard[1])] + list(args)
        if only:
            cmd += ["--section", only[0], "--case", str(only[1])]
        asan = variant.startswith("dbg")
        rc, out, err, timed = self.spawn(cmd, timeout, cwd=work, env=env, rlimit_as=None if asan or launcher else 8 << 30)
        origin = {"binary": name, "variant": variant, "seed": seed, "scale": scale, "shard": list(shard), "args": list(args), "np": np}
        found = 0
        if os.path.exists(rep + ".viol"):
            for l in open(rep + ".viol", errors="replace"):
                try:
                    v = json.loads(l)
                except ValueError:
                    continue
                found += 1
                self.add_violation(**origin, **v)
        if xml:
            for rule, msg, detail in memcheck_errors(xml, exe):
                found += 1
                self.add_violation(rule=rule, section="memcheck", case=-1, message=msg, detail=detail, **origin)
            if not os.path.exists(xml):
                raise Harness("%s: valgrind left no report: %s" % (tag, err[-1000:]))
        cur = {"section": "?", "case": -1, "note": ""}
        if os.path.exists(rep + ".cur"):
            b = open(rep + ".cur", "rb").read()
            if len(b) >= 384:
                cur["section"] = b[:120].split(b"\0")[0].decode("utf8", "replace")
                cur["case"] = int.from_bytes(b[120:128], "little", signed=True)
                cur["note"] = b[128:384].split(b"\0")[0].decode("utf8", "replace")
        ok_report = os.path.exists(rep)
        if ok_report:
            d = json.load(open(rep))
            for s in d["sections"]:
                s.update({"binary": name, "variant": variant})
                self.sections.append(s)
            for k, v in d["rules"].items():
                self.rules[k] = self.rules.get(k, 0) + v
        if timed:
            self.inconclusive.append("%s ended by the watchdog after %d s in section %s case %s" % (tag, timeout, cur["section"], cur["case"]))
            return out
        if rc == 0 and ok_report:
            return out
        if rc == 1 and ok_report and found:
            return out
        if rc == 77:
            if only:
                self.add_violation(rule="does-not-terminate", section=cur["section"], case=cur["case"], message="case exceeds its CPU budget, twice", **origin)
            else:
                n = len(self.violations)
                self.run_monitor(exe, name, variant, timeout, scale, (0, 1), launcher, env, args, seed, (cur["section"], cur["case"]), None, sub + ".again", np)
                if len(self.violations) == n:
                    self.inconclusive.append("%s: case %s/%s exceeded its CPU budget once" % (tag, cur["section"], cur["case"]))
            return out
        if cur["section"] == "start" and not re.search(r"Sanitizer|runtime error|Assertion", err):
            raise Harness("%s failed to start (rc %s): %s" % (tag, rc, err[-2000:]))
        self.add_violation(rule=crash_kind(rc, err), section=cur["section"], case=cur["case"],
                           message=(cur["note"] + " | " if cur["note"] else "") + crash_summary(rc, err), detail=err[-6000:], **origin)
        return out


def memcheck_errors(xml, exe):
    """errors that happen in the monitored program itself (system libraries called by it count, those calling nobody do not)"""
    import xml.etree.ElementTree as ET
    try:
        root = ET.parse(xml).getroot()
    except (ET.ParseError, FileNotFoundError):
        return []
    seen, res = set(), []
    for e in root.iter("error"):
        kind = e.findtext("kind") or "?"
        frames = [(f.findtext("obj") or "", f.findtext("fn") or "?", f.findtext("file") or "", f.findtext("line") or "") for f in e.find("stack").iter("frame")]
        plain = re.compile(r"/(libc|libm|libstdc\+\+|libgcc_s|ld-linux|vgpreload)[^/]*$")
        own = next((f for f in frames if not plain.search(f[0])), None)
        if not own or os.path.basename(own[0]) != os.path.basename(exe):
            continue
        key = (kind, own[1], own[3])
        if key in seen:
            continue
        seen.add(key)
        what = e.findtext("what") or e.findtext("xwhat/text") or kind
        res.append(("memcheck:" + kind, "%s in %s (%s:%s)" % (what, own[1][:160], own[2], own[3]), "\n".join("%s %s:%s" % f[1:] for f in frames)))
    return res


def crash_kind(rc, err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        return "sanitizer:" + m.group(2)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "sanitizer:undefined-behavior"
    if "Assertion" in err:
        return "assertion"
    if "hard rss limit" in err:
        return "memory-runaway"
    if "terminate called" in err:
        return "terminate"
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


def crash_summary(rc, err):
    out = []
    for pat in (r"runtime error: .*", r"SUMMARY: .*", r".*Assertion.*", r"what\(\):.*", r"ERROR: \w+Sanitizer.*"):
        m = re.search(pat, err)
        if m:
            out.append(m.group(0)[:300])
    frames = [l.strip() for l in err.splitlines() if re.search(r"#\d+ .*(/repo/|" + re.escape(REPO) + "/)", l)][:3]
    return " ; ".join(out + frames) or ("ended with status %s: %s" % (rc, err[-300:]))


def load_findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append({"property": m.group(1), "key": m.group(2), "text": m.group(3)})
    return res


def vkey(v):
    return "%s/%s/%s" % (v["binary"], v["section"], v["rule"])


def default_run(ctx, spec):
    jobs = []
    for b in spec["bins"]:
        for var in b.get("variants", ["dbg", "rel"]):
            jobs.append((b, var))

    def build(j):
        b, var = j
        try:
            return ctx.compile(b["src"], var, petsc=b.get("petsc", False), extra=b.get("flags", ()), more=b.get("more", ()))
        except Harness as e:
            if not b.get("more") or "multiple definition" not in str(e):
                raise
            # a program of several translation units cannot be made
            ctx.add_violation(binary=os.path.splitext(b["src"])[0], variant=var, section="link", case=-1, rule="several-translation-units", message=str(e)[:1500])
            return None
    keys = [json.dumps([b["src"], var, b.get("petsc", False), list(b.get("flags", ()))]) for b, var in jobs]
    first = {k: jobs[i] for i, k in reversed(list(enumerate(keys)))}
    with ThreadPoolExecutor(6) as ex:
        built = dict(zip(first, ex.map(build, first.values())))
    if any(x is None for x in built.values()):
        return
    exes = [built[k] for k in keys]
    runs = []
    for (b, var), exe in zip(jobs, exes):
        n = b.get("shards", 1)
        if isinstance(n, dict):
            n = n.get(var, 1)
        if ctx.tier == "thorough":
            n = max(n, b.get("thorough_shards", 3))
        for s in range(n):
            runs.append((b, var, exe, s, n))

    def go(r):
        b, var, exe, s, n = r
        sc = b.get("scale", {}).get(var, 1.0)
        name = os.path.splitext(os.path.basename(b["src"]))[0]
        ctx.run_monitor(exe, name, var, scale=sc, shard=(s, n), env=b.get("env"), args=b.get("args", ()), np=b.get("np", 0),
                        sub=b.get("tag", ""))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, runs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    spec = CHECKS[a.id]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vmon.%s." % a.id)
    ctx = Ctx(a.id, a.tier, a.seed, tmp)
    rc = 2
    try:
        if a.replay:
            rc = replay(ctx, spec, a.replay)
        else:
            spec.get("run", default_run)(ctx, spec)
            rc = judge(ctx, spec, t0)
    except Harness as e:
        print("HARNESS-ERROR property=%s %s" % (a.id, e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("HARNESS-ERROR property=%s compiler timed out" % a.id)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def replay(ctx, spec, path):
    r = json.load(open(path))
    v = r["violation"]
    b = [b for b in spec.get("bins", []) if os.path.splitext(os.path.basename(b["src"]))[0] == v["binary"]]
    if not b or v["case"] < 0:
        spec.get("run", default_run)(ctx, spec)
    else:
        ctx.tier = r["tier"]
        exe = ctx.compile(b[0]["src"], v["variant"], petsc=b[0].get("petsc", False), extra=b[0].get("flags", ()), more=b[0].get("more", ()))
        ctx.run_monitor(exe, v["binary"], v["variant"], scale=v["scale"], env=b[0].get("env"), args=v["args"], seed=v["seed"], only=(v["section"], v["case"]), np=v.get("np", 0))
    for x in ctx.violations:
        print("REPRODUCED %s: %s" % (vkey(x), x["message"]))
        if x.get("detail"):
            print(x["detail"])
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    print("not reproduced")
    return 0


def judge(ctx, spec, t0):
    known = [k for k in load_findings() if k["property"] == ctx.pid]
    hit, new = [], []
    for v in ctx.violations:
        ks = [k for k in known if k["key"] == vkey(v)]
        (hit if ks else new).append(v)
    for k in known:
        if any(vkey(v) == k["key"] for v in hit):
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["text"]))
    evals = sum(s["evaluations"] for s in ctx.sections)
    distinct = sum(s["distinct"] for s in ctx.sections)
    samples = []
    for s in ctx.sections:
        for x in s["samples"][:1]:
            if len(samples) < 12:
                samples.append("%s/%s: %s" % (s["binary"], s["name"], x))
    per = []
    for s in ctx.sections:
        per.append({k: s[k] for k in ("binary", "variant", "name", "cases", "evaluations", "distinct", "trivial", "counters")} | {"cpu_s": round(s["cpu_s"], 2)})
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples,
                       "cases": sum(s["cases"] for s in ctx.sections), "oracle_rules_evaluated": ctx.rules, "sections": per,
                       "builds": ctx.builds, "notes": ctx.notes, "inconclusive": ctx.inconclusive, "tree_sha256": ctx.tree},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % ctx.pid, "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = "evidence/replay/%s-%d.json" % (ctx.pid, i)
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump({"property": ctx.pid, "tier": ctx.tier, "violation": v, "how": "bin/check.py %s --replay %s" % (ctx.pid, path)}, f, indent=1)
            print("%s: %s" % (vkey(v), v["message"][:600]))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    if ctx.inconclusive:
        for i in ctx.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (ctx.pid, i))
        return 3
    if not ctx.sections or evals == 0 or distinct == 0:
        print("INCONCLUSIVE property=%s nothing was observed" % ctx.pid)
        return 3
    for s in ctx.sections:
        if s["cases"] > 0 and s["evaluations"] == 0:
            print("INCONCLUSIVE property=%s section %s observed nothing" % (ctx.pid, s["name"]))
            return 3
    print("HELD property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (
        ctx.pid, ctx.tier, ctx.seed, ev["coverage"]["cases"], evals, distinct, ev["wall_s"]))
    return 0


if __name__ == "__main__":
    main()
