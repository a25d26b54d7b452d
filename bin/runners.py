"""Checks whose monitors are generated when they run."""
import os, random, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gen"))
import exprs  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _raw(s):
    return 'R"~(%s)~"' % s


def _case_f01(k, dom, x):
    return "values<%s>(c, f, r, t, %d);" % (exprs.cpp_type(dom), 24)


def _case_f02(k, dom, x):
    X, n = exprs.cpp_type(dom), exprs.ncomp(dom)
    s = "derivatives<%s>(c, f, r, t, 12);" % X
    if dom[0] in "SVM" and (x.cost <= 6 or (n <= 2 and x.cost <= 10)):
        s += " jacobian<%s>(c, f, r, t, 8);" % X
    if x.cost <= 7:
        s += " second<%s,%d,%d>(c, f, r, t, 8);" % (X, k % n, (k * 7 // 3) % n)
    return s


def _emit(cases, path):
    with open(path, "w") as o:
        o.write('#include "exprs.h"\n')
        for k, (name, body) in enumerate(cases):
            o.write("static void e%d(vm::Case & c)\n{\n%s\n}\n" % (k, body))
        o.write("int main(int argc, char ** argv)\n{\n    vm::init(argc, argv);\n    static void (*f[])(vm::Case &) = {%s};\n"
                "    vm::section(\"expressions\", %d, %d, [&](vm::Case & c) { f[c.index](c); });\n    return vm::finish();\n}\n"
                % (", ".join("e%d" % k for k in range(len(cases))), len(cases), len(cases)))


def _run_generated(ctx, cases, ntu, variants):
    tus = [[] for _ in range(ntu)]
    for i, c in enumerate(cases):
        tus[i % ntu].append(c)
    jobs = []
    for i, t in enumerate(tus):
        if t:
            p = os.path.join(ctx.tmp, "gen%d.cc" % i)
            _emit(t, p)
            jobs.append((i, p, variants[i % len(variants)]))

    def go(j):
        i, p, v = j
        exe = ctx.compile(p, v, extra=("-I" + VERIF + "/gen",))
        ctx.run_monitor(exe, "gen%d" % i, v)
        if ctx.tier == "thorough":
            for s in range(1, 6):
                ctx.run_monitor(exe, "gen%d" % i, v, seed=ctx.seed + 1000 * s, sub=".s%d" % s)
        os.unlink(exe)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))


def _body(x, call):
    return "    const auto f = %s;\n    const E r = %s;\n    const char * t = %s;\n    c.note(t);\n    %s" % (x.cpp, x.ref, _raw(x.cpp), call)


def f01(ctx, spec):
    cat, used = exprs.catalogue(ctx.seed * 2 + 1, 300 if ctx.tier == "quick" else 1600, False, 3 if ctx.tier == "quick" else 4,
                                30 if ctx.tier == "quick" else 60)
    ctx.notes.append("%d expressions; %d (type, domain, production) combinations" % (len(cat), len(used)))
    _run_generated(ctx, [("e", _body(x, _case_f01(k, d, x))) for k, (d, x) in enumerate(cat)], 8 if ctx.tier == "quick" else 40,
                   ["dbg0", "rel1", "rel1"])


def f02(ctx, spec):
    cat, used = exprs.catalogue(ctx.seed * 2 + 2, 190 if ctx.tier == "quick" else 900, True, 3, 12 if ctx.tier == "quick" else 18)
    ctx.notes.append("%d expressions; %d (type, domain, production) combinations" % (len(cat), len(used)))
    _run_generated(ctx, [("e", _body(x, _case_f02(k, d, x))) for k, (d, x) in enumerate(cat)], 12 if ctx.tier == "quick" else 60,
                   ["rel1", "o0", "dbg0"])


def f03(ctx, spec):
    rng = random.Random(ctx.seed * 2 + 3)
    g = exprs.Gen(rng, True)
    quick = ctx.tier == "quick"
    cases = []

    def draw(t, dom, cap, depth=2):
        while True:
            x = g.gen(t, dom, rng.choice(range(1, depth + 1)))
            if x.deriv and 2 <= x.cost <= cap:
                return x
    for rep in range(4 if quick else 30):
        for n in (1, 2, 3):
            dom = ("C", n)
            X = exprs.cpp_type(dom)
            cap = {1: 14, 2: 11, 3: 8}[n]
            x = draw(("S",), dom, cap)
            cases.append(("g", _body(x, "gradient_of<%s>(c, f, r, t, 12);" % X)))
            x = draw(("S",), dom, 6 if n < 3 else 4)
            cases.append(("l", _body(x, "laplacian_of<%s>(c, f, r, t, 8);" % X)))
            for m in (2, 3):
                if n == 1 and m == 3:
                    continue
                x = draw(("V", m), dom, cap - 2)
                cases.append(("gv", _body(x, "gradient_of<%s>(c, f, r, t, 10);" % X)))
            if n > 1:
                x = draw(("V", n), dom, cap)
                cases.append(("d", _body(x, "divergence_of<%s>(c, f, r, t, 12);" % X)))
                x = draw(("M", n, n), dom, cap)
                cases.append(("dm", _body(x, "divergence_of<%s>(c, f, r, t, 10);" % X)))
                x, w = draw(("S",), dom, 5), draw(("V", n), dom, 6)
                cases.append(("p", "    const auto f = %s;\n    const auto w = %s;\n    const E rf = %s, rw = %s;\n    const char * t = %s;\n"
                              "    product_rule<%s>(c, f, w, rf, rw, t, 8);" % (x.cpp, w.cpp, x.ref, w.ref, _raw(x.cpp + " ; " + w.cpp), X)))
                a, b, d = (draw(("V", n), dom, 6) for _ in range(3))
                if rep % 2 == 0:
                    cases.append(("f", "    const auto f = %s;\n    const auto g = %s;\n    const auto h = %s;\n    const E rf = %s, rg = %s, rh = %s;\n"
                                  "    const char * t = %s;\n    forms_of<%s>(c, f, g, h, rf, rg, rh, t, 8);" % (
                                      a.cpp, b.cpp, d.cpp, a.ref, b.ref, d.ref, _raw(a.cpp + " ; " + b.cpp + " ; " + d.cpp), X)))
    ctx.notes.append("%d fields" % len(cases))
    _run_generated(ctx, cases, 10 if quick else 60, ["rel1", "o0", "dbg0"])


# ---- S02: programs of two translation units that log events, and the offline checker of the logs
def _s02_scripts(rng, quick):
    fixed = ["a", "b", "ab", "ba", "aau", "bu", "auby", "au", "by", "apuq", "aptq", "paubq", "pbsq", "apsq", "maubf", "mbf", "auf", "abypsq", "t", "ta", "at",
             "o", "ao", "abu", "mpsqabf", "mapsqf", "pabsqo", "payqt",
             "ga", "gabu", "gyo", "gapsqb", "gpaq", "ad", "gad", "yaud", "apsqd", "gpadsq"]
    out = [(s, 1 + i % 4) for i, s in enumerate(fixed)] + [(s, 0) for s in ("ab", "apsq", "paq", "auf", "mabf", "gab", "abd", "gapud" + "q")]
    for k in range(12 if quick else 150):
        # a random history: message passing by nobody else, by hand or through petsc, before or after the first look
        s, mpi, petsc, hand, over, session, last, powner = "", False, False, False, False, False, False, False
        for _ in range(rng.randint(2, 12)):
            c = rng.choice("abbaupqmoftysgd")
            if c in "aby" and (not over):
                s += c
                mpi = True
            elif c in "us" and mpi and not over and (c == "u" or petsc):
                s += c
            elif c == "p" and not petsc and "p" not in s:
                s += c
                own = not mpi
                petsc = mpi = True
                powner = own
            elif c == "q" and petsc:
                s += c
                petsc = False
                over = over or powner
            elif c == "m" and not mpi:
                s += c
                mpi = hand = True
            elif c == "g" and not mpi:
                s += c
                mpi = session = True
            elif c == "d" and mpi and not over and not hand and not powner and not last:
                s += c
                last = True
            elif c == "f" and mpi and not petsc and not over and not session and not last and (hand or rng.random() < 0.3):
                s += c
                over = True
            elif c in "to":
                s += c
        if petsc:
            s += "q"
            over = over or powner
        if hand and not over:
            s += "f"
        if s:
            out.append((s, rng.randint(0, 4 if quick else 8)))
    return out


def _s02_judge(script, np, rc, err, timed, logs, mpi):
    """all complaints about one run; logs: list of lists of event lines, one per process"""
    bad, evals = [], 0

    def rule(name, ok, msg):
        nonlocal evals
        evals += 1
        if not ok:
            bad.append((name, msg))
    n = max(np, 1)
    rule("job-ends-well", rc == 0 and not timed, "job ended with status %s%s: %s" % (rc, " (timeout)" if timed else "", err[-400:]))
    rule("all-processes-ran", len(logs) == n, "%d of %d processes ran" % (len(logs), n))
    ranks = []
    looked = any(c in script for c in "aby")
    for ev in logs:
        views, where, init, fin, alive = [], set(), 0, 0, False
        for l in ev:
            w = l.split()
            f = dict(x.split("=") for x in w[1:] if "=" in x)
            if w[0] == "view":
                views.append(f)
                where.add((f["simulation"], f["context"], f["clock"]))
                rule("context-reports-the-job", f["world-rank"] in ("-1", f["rank"]) and f["world-size"] in ("-1", f["size"]) and int(f["size"]) == (n if mpi else 1),
                     "the context says rank %s of %s; the process is rank %s of %s" % (f["rank"], f["size"], f["world-rank"], n))
                rule("clock-starts-at-zero", float(f["time"]) == 0, l)
                rule("initialized-before-use", not mpi or init == 1, "no initialization before: " + l)
            elif w[0] == "init":
                rule("initialized-once", f["again"] == "0" and mpi, "initialized again")
                init += 1
            elif w[0] == "finalize":
                rule("finalized-once", f["again"] == "0" and f["before-init"] == "0" and mpi, l)
                fin += 1
            elif w[0] == "abort":
                rule("no-abort", False, l)
            elif w[0] in ("use", "solve", "race", "others"):
                rule({"use": "usable", "solve": "usable", "race": "one-instance", "others": "one-instance"}[w[0]],
                     all(v == "1" for v in f.values()), l)
            elif w[0] == "types":
                rule("not-copyable", f["copyable"] == "0", l)
        rule("ends", ev and any(l == "leave" for l in ev), "the process did not reach the end of its script: %s" % ev[-3:])
        if views:
            rule("one-simulation", len(where) == 1, "different objects: %s" % sorted(where))
            rule("same-rank-always", len({(f["rank"], f["size"]) for f in views}) == 1, "changing reports")
            ranks.append(int(views[0]["rank"]))
        if mpi and any(c in script for c in "abypmg"):
            rule("initialized-once", init == 1, "%d initializations" % init)
            rule("finalized-once", fin == 1, "%d finalizations" % fin)
            last = max([i for i, l in enumerate(ev) if l.startswith(("use", "solve"))], default=-1)
            first = min([i for i, l in enumerate(ev) if l.startswith("finalize")], default=1 << 30)
            rule("usable-while-alive", last < first, "shut down before the last use")
        if not mpi:
            rule("initialized-once", init == 0 and fin == 0, "a build without message passing calls it")
        if "t" in script:
            rule("constructed-once", ev.count("probe constructed") == 1, "singleton constructed %d times" % ev.count("probe constructed"))
            rule("destroyed-once", ev.count("probe destroyed") == 1, "singleton destroyed %d times" % ev.count("probe destroyed"))
    if looked and mpi:
        rule("ranks-cover-the-job", sorted(ranks) == list(range(n)), "ranks reported: %s" % sorted(ranks))
    return bad, evals


def s02(ctx, spec):
    rng = random.Random(ctx.seed * 2 + 4)
    quick = ctx.tier == "quick"
    from __main__ import Harness
    builds = {}
    for tag, petsc, extra in (("mpi", True, ()), ("nompi", False, ("-UWITH_MPI", "-UWITH_PETSC"))):
        for var in ("dbg0",) if tag == "mpi" else ("rel1",):
            try:
                builds[tag] = ctx.compile("S02.cc", var, petsc=petsc, extra=extra, more=("S02b.cc",), tag="." + tag)
            except Harness as e:
                if "multiple definition" not in str(e):
                    raise
                ctx.add_violation(binary="S02", variant=var, section="link", case=-1, rule="several-translation-units", message=str(e)[:1500])
                return
    jobs = [(s, np, "mpi") for s, np in _s02_scripts(rng, quick)]
    jobs += [(s, 0, "nompi") for s in ("ab", "bya", "t", "abto")]

    def go(j):
        i, (s, np, tag) = j
        d = os.path.join(ctx.tmp, "s02.%d" % i)
        os.makedirs(d)
        cmd = (["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(np)] if np else []) + [builds[tag], d + "/log", s]
        rc, out, err, timed = ctx.spawn(cmd, 120, cwd=d, env={"ASAN_OPTIONS": ":detect_leaks=0"},
                                        again=lambda: [os.remove(os.path.join(d, f)) for f in os.listdir(d) if f.startswith("log.")])
        logs = [open(os.path.join(d, f)).read().splitlines() for f in sorted(os.listdir(d)) if f.startswith("log.")]
        return (s, np, tag, rc, err, timed, logs)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(go, list(enumerate(jobs))))
    evals, rules, seen, counters = 0, 0, set(), {"processes": 0, "events": 0}
    for i, (s, np, tag, rc, err, timed, logs) in enumerate(res):
        bad, n = _s02_judge(s, np, rc, err, timed, logs, tag == "mpi")
        evals += n
        seen.add((s, np, tag))
        counters["processes"] += len(logs)
        counters["events"] += sum(len(l) for l in logs)
        for name, msg in bad[:3]:
            ctx.add_violation(binary="S02", variant=tag, section="scripts", case=i, rule=name, message="script %s on %s processes: %s" % (s, np or "1 (no launcher)", msg),
                              detail=err[-3000:])
    ctx.rules["event-log rules"] = evals
    ctx.sections.append({"binary": "S02", "variant": "dbg0", "name": "scripts", "cases": len(res), "evaluations": evals, "distinct": len(seen), "trivial": 0,
                         "counters": counters, "cpu_s": 0.0, "samples": ["script %s on %d processes: %s" % (s, np, logs[0][:12]) for s, np, _, _, _, _, logs in res[:6]]})


# ---- X02: recordings of the same workflows by differently built processes with different pasts and layouts, compared offline
def _x02_read(paths):
    cases, cur = {}, None
    for p in paths:
        for l in open(p, errors="replace"):
            if l.startswith("C "):
                cur = cases.setdefault(l.rstrip("\n"), [])
            elif cur is not None:
                cur.append(l.rstrip("\n"))
    return cases


def _x02_differs(a, b):
    """first difference of two recordings: None, or what differs"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if x[0] == "F" and y[0] == "F":
            kx, vx, sx = x[2:].rsplit(" ", 2)
            ky, vy, sy = y[2:].rsplit(" ", 2)
            if kx == ky and (abs(float(vx) - float(vy)) <= 1e-11 * float(sx) or vx == vy):
                continue
        return "observation %d: '%s' / '%s'" % (i, x[:200], y[:200]), x[0], x.split(" ")[1] if " " in x else "?"
    if len(a) != len(b):
        return "%d / %d observations" % (len(a), len(b)), "L", "length"
    return None


def x02(ctx, spec):
    quick = ctx.tier == "quick"
    flags = ("-fno-sanitize=null,returns-nonnull-attribute,nonnull-attribute",)
    variants = ["rel", "o0", "o3", "dbg0"]
    with ThreadPoolExecutor(4) as ex:
        exes = dict(zip(variants, ex.map(lambda v: ctx.compile("X02.cc", v, petsc=True, extra=flags), variants)))
    # (name, variant, processes, environment)
    configs = [("reference", "rel", 1, {}),
               ("again", "rel", 1, {}),
               ("no optimization, assertions", "o0", 1, {}),
               ("full optimization", "o3", 1, {}),
               ("instrumented", "dbg0", 1, {"ASAN_OPTIONS": ":detect_leaks=0"}),
               ("three processes", "rel", 3, {}),
               ("other pasts 1", "rel", 1, {"X02_HISTORY": "1"}),
               ("other pasts 2", "o0", 2, {"X02_HISTORY": "2", "X02_SHUFFLE": "1"}),
               ("shuffled addresses", "rel", 1, {"X02_SHUFFLE": "1"}),
               ("shuffled addresses, full optimization", "o3", 4, {"X02_SHUFFLE": "1", "X02_HISTORY": "3"}),
               ("dirty memory", "rel", 1, {"MALLOC_PERTURB_": "165"}),
               ("dirty memory, unoptimized", "o0", 1, {"MALLOC_PERTURB_": "90", "X02_SHUFFLE": "1"})]
    if not quick:
        for k in range(4, 16):
            configs.append(("other pasts %d" % k, variants[k % 3], 1 + k % 5, {"X02_HISTORY": str(k), "X02_SHUFFLE": str(k % 2), "MALLOC_PERTURB_": str(17 * k % 256)}))

    def go(j):
        i, (name, var, n, env) = j
        outs = []

        def one(s):
            p = os.path.join(ctx.tmp, "x02.%d.%d" % (i, s))
            ctx.run_monitor(exes[var], "X02", var, shard=(s, n), env=dict(env, X02_OUT=p), sub=".c%d" % i)
            return p
        for s in range(n):
            outs.append(one(s))
        return _x02_read([p for p in outs if os.path.exists(p)])
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(go, enumerate(configs)))
    if ctx.violations:
        return
    ref = recs[0]
    compared = wholes = reals = 0
    worst = 0.0
    for (name, var, n, env), rec in zip(configs[1:], recs[1:]):
        reported = set()
        if set(rec) != set(ref):
            ctx.add_violation(rule="comparison:all-workflows-recorded", section=name, case=-1, binary="X02", variant=var, seed=ctx.seed, scale=1.0, shard=[0, 1],
                              args=[], message="%d workflows instead of %d" % (len(rec), len(ref)))
            continue
        for k in ref:
            compared += 1
            wholes += sum(1 for l in rec[k] if l[0] == "E")
            reals += len(rec[k])
            d = _x02_differs(ref[k], rec[k])
            if d and len(reported) < 3:
                reported.add(k)
                ctx.add_violation(rule="comparison:%s" % ("whole-numbers" if d[1] != "F" else "reals"), section=name, case=-1, binary="X02", variant=var, seed=ctx.seed,
                                  scale=1.0, shard=[0, 1], args=[], message="workflow '%s' differs between 'rel' and '%s' (%s): %s" % (k[2:], name, var, d[0]))
    ctx.rules["comparison:whole-numbers"] = wholes
    ctx.rules["comparison:reals"] = reals - wholes
    ctx.sections.append({"binary": "offline", "variant": "comparison", "name": "configurations", "cases": compared, "evaluations": reals, "distinct": len(configs),
                         "trivial": 0, "samples": ["%s: %d workflows" % (c[0], len(r)) for c, r in zip(configs, recs)], "counters": {"configurations": len(configs)}, "cpu_s": 0.0})


# ---- Y01: Python programs against the bindings, plain and instrumented, with a C++ twin
def y01(ctx, spec):
    import shutil
    import subprocess
    import sysconfig
    from __main__ import CXX, REPO
    quick = ctx.tier == "quick"
    inc = sysconfig.get_paths()["include"]
    flags = ("-isystem", inc, "-fno-sanitize=null,returns-nonnull-attribute,nonnull-attribute")
    variants = ["rel1", "dbg0"]

    def build(v):
        if v == "twin":
            return ctx.compile("Y01.cc", "o0", petsc=True)
        return ctx.compile(REPO + "/extensions/mito/mito.cc", v, petsc=True, shared=True, extra=flags)
    with ThreadPoolExecutor(3) as ex:
        built = dict(zip(variants + ["twin"], ex.map(build, variants + ["twin"])))
    jobs = []
    for v in variants:
        d = os.path.join(ctx.tmp, "plain" if v == "rel1" else "asan")
        os.makedirs(d)
        shutil.move(built[v], d + "/mito.so")
        env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        if v == "dbg0":
            lib = [subprocess.run([CXX, "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
            env.update({"LD_PRELOAD": ":".join(os.path.realpath(p) for p in lib), "PYTHONMALLOC": "malloc", "ASAN_OPTIONS": ":detect_leaks=0"})
        else:
            env["MALLOC_PERTURB_"] = "165"
        n = (2 if v == "rel1" else 5) if quick else 8
        jobs += [(v, d, env, (s, n)) for s in range(n)]

    def go(j):
        v, d, env, shard = j
        ctx.run_monitor(VERIF + "/monitors/y01.py", "y01", v, launcher=(sys.executable,), env=env, shard=shard, scale=1.0 if v == "rel1" else 0.5,
                        args=["--module", d, "--twin", built["twin"]])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
