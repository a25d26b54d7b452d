#!/usr/bin/env python3
"""Programs against the Python bindings, watched by: exact rational arithmetic, the C++ library called directly (the twin), weak references, and
   (in the instrumented build) AddressSanitizer and UBSan. Speaks the same command line and report format as vmon.h."""
import sys, os, json, math, random, gc, weakref, threading, functools, subprocess, resource, signal, time, argparse
from fractions import Fraction as Q

ap = argparse.ArgumentParser()
for o, t, d in (("seed", int, 1), ("tier", str, "quick"), ("report", str, ""), ("scale", float, 1.0), ("shard", int, 0), ("nshards", int, 1), ("section", str, ""),
                ("case", int, -1), ("module", str, ""), ("twin", str, "")):
    ap.add_argument("--" + o, type=t, default=d)
A = ap.parse_args()
os.environ.pop("LD_PRELOAD", None)
sys.path.insert(0, A.module)
import mito  # noqa: E402

if "asan" not in A.module:
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.setrecursionlimit(2000)
RULES, SECTIONS, VIOLATIONS = {}, [], 0


class Case:
    def __init__(self, section, index):
        self.section, self.index = section, index
        self.rng = random.Random("%d/%s/%d" % (A.seed, section["name"], index))

    def check(self, rule, ok, msg="", detail=""):
        global VIOLATIONS
        RULES[rule] = RULES.get(rule, 0) + 1
        self.section["evaluations"] += 1
        if not ok:
            VIOLATIONS += 1
            if A.report and VIOLATIONS <= 50:
                with open(A.report + ".viol", "a") as f:
                    f.write(json.dumps({"rule": rule, "section": self.section["name"], "case": self.index, "message": str(msg)[:1500], "detail": detail}) + "\n")
            else:
                print("VIOLATION", rule, msg, file=sys.stderr)
        return ok

    def near(self, rule, a, b, tol, what=""):
        return self.check(rule, a == b or abs(a - b) <= tol, "%s: %r instead of %r (tolerance %g)" % (what, a, b, tol))

    def raises(self, rule, kinds, call, what=""):
        try:
            r = call()
        except kinds:
            return self.check(rule, True)
        except BaseException as e:
            return self.check(rule, False, "%s: %s(%s) instead of one of %s" % (what, type(e).__name__, str(e)[:200], kinds))
        return self.check(rule, False, "%s: returned %r instead of raising one of %s" % (what, r, kinds))

    def count(self, k, n=1):
        self.section["counters"][k] = self.section["counters"].get(k, 0) + n

    def sample(self, s):
        if len(self.section["samples"]) < 3:
            self.section["samples"].append(str(s)[:300])

    def distinct(self, key):
        self.section["_d"].add(key)


def section(name, quick, thorough, fn):
    n = max(1, int((thorough if A.tier == "thorough" else quick) * A.scale))
    if A.section and A.section != name:
        return
    s = {"name": name, "cases": 0, "evaluations": 0, "distinct": 0, "trivial": 0, "samples": [], "counters": {}, "cpu_s": 0.0, "_d": set()}
    SECTIONS.append(s)
    t = time.process_time()
    for i in range(n):
        if A.case >= 0 and i != A.case or A.case < 0 and i % A.nshards != A.shard:
            continue
        if A.report:
            with open(A.report + ".cur", "wb") as f:
                f.write(name.encode().ljust(120, b"\0") + i.to_bytes(8, "little", signed=True) + b"".ljust(256, b"\0"))
        # a case that takes this much processor time is not going to end
        signal.setitimer(signal.ITIMER_PROF, 200)
        c = Case(s, i)
        try:
            fn(c)
        except Exception as e:
            import traceback
            c.check("no-unexpected-exception", False, "%s: %s" % (type(e).__name__, str(e)[:400]), traceback.format_exc()[-3000:])
        s["cases"] += 1
    s["cpu_s"] = time.process_time() - t


signal.signal(signal.SIGPROF, signal.SIG_DFL)


# ---- generators
def number(r):
    k = r.randrange(12)
    if k < 6:
        return r.uniform(-10, 10)
    if k < 8:
        return r.randint(-1000, 1000)
    return [0.0, -0.0, 1e300, -1e-300, 5e-324, math.inf, -math.inf, 2 ** 60, True, 1.5e-8][r.randrange(10)]


def same(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b


def triangles(r, big=False):
    """points and triangles (0-based) of a plane mesh; all positively oriented unless mixed"""
    k = r.randrange(4)
    if k == 0:
        n = r.randint(1, 12 if big else 6)
        pts, tri = [], []
        for i in range(n):
            while True:
                p = [(r.uniform(-3, 3) + 7 * i, r.uniform(-3, 3)) for _ in range(3)]
                d = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
                if abs(d) > 1e-2:
                    break
            tri.append([3 * i, 3 * i + 1, 3 * i + 2] if d > 0 else [3 * i, 3 * i + 2, 3 * i + 1])
            pts += p
    else:
        nx, ny = r.randint(1, 9 if big else 5), r.randint(1, 9 if big else 5)
        lx, ly, ox, oy = r.uniform(0.1, 4), r.uniform(0.1, 4), r.uniform(-2, 2), r.uniform(-2, 2)
        jit = r.choice((0.0, 0.2))
        pts = [(ox + lx * (i + r.uniform(-jit, jit)), oy + ly * (j + r.uniform(-jit, jit))) for j in range(ny + 1) for i in range(nx + 1)]
        tri = []
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i
                tri += [[a, b, c], [a, c, d]] if r.random() < 0.5 else [[a, b, d], [b, c, d]]
        if k == 3 and len(tri) > 1:
            tri = r.sample(tri, r.randint(1, len(tri)))
    r.shuffle(tri)
    tri = [t[j:] + t[:j] for t in tri for j in (r.randrange(3),)]
    mixed = r.random() < 0.25
    if mixed:
        tri = [t if r.random() < 0.5 else [t[0], t[2], t[1]] for t in tri]
    used = list(range(len(pts)))
    r.shuffle(used)
    new = {o: n for n, o in enumerate(used)}
    return [pts[o] for o in used], [[new[v] for v in t] for t in tri], mixed


N_FILES = 0


def write(pts, tri, r):
    global N_FILES
    N_FILES += 1
    path = "m%d.summit" % N_FILES
    with open(path, "w") as f:
        f.write("2\n%d %d 1\n" % (len(pts), len(tri)))
        for p in pts:
            f.write("%r %r\n" % p)
        for t in tri:
            f.write("3 %d %d %d %s\n" % (t[0] + 1, t[1] + 1, t[2] + 1, r.choice(("1", "1", "steel", "1 2"))))
    return path


def coefficients(r, poly=False):
    c = [r.uniform(-2, 2) for _ in range(6)]
    if r.random() < 0.3:
        c = [0.0] * 6
        c[r.randrange(6)] = 1.0
    return c + ([0.0] * 5 if poly else [r.uniform(-2, 2), r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-1, 1), r.uniform(-1, 1)])


def value(c, x, y):
    return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y + c[6] * math.sin(c[7] * x + c[8] * y) + c[9] * math.exp(c[10] * x / 10)


def exact(c, pts, tri):
    """the integral of a polynomial of degree two and the sum of the sizes of its terms"""
    q = [Q(v) for v in c[:6]]
    total, size = Q(0), 0.0
    for t in tri:
        p = [(Q(pts[v][0]), Q(pts[v][1])) for v in t]
        area = ((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])) / 2
        m = [((p[i][0] + p[j][0]) / 2, (p[i][1] + p[j][1]) / 2) for i, j in ((0, 1), (1, 2), (2, 0))]
        f = lambda x, y: q[0] + q[1] * x + q[2] * y + q[3] * x * x + q[4] * x * y + q[5] * y * y
        total += area / 3 * sum(f(*x) for x in m)
        w = max(abs(float(x)) for y in p for x in y)
        size += float(abs(area)) * sum(abs(c[i]) * w ** k for i, k in enumerate((0, 1, 1, 2, 2, 2)))
        # the directors are differences of rounded coordinates
        size += 1e-3 * w * w * sum(abs(c[i]) * w ** k for i, k in enumerate((0, 1, 1, 2, 2, 2)))
    return float(total), size


def size_of(c, pts, tri):
    s = exact(c, pts, tri)[1]
    for t in tri:
        w = max(abs(x) for v in t for x in pts[v])
        s += w * w * (abs(c[6]) + abs(c[9]) * math.exp(min(700, abs(c[10]) * w / 10)))
    return s


class Twin:
    """the same calls made by a C++ program"""
    def __init__(self):
        self.p = subprocess.Popen([A.twin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, line):
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        while True:
            a = self.p.stdout.readline()
            if not a:
                raise RuntimeError("the twin is gone")
            if a.startswith("= "):
                return a[2:].split()

    def mesh(self, path):
        return int(self.ask("mesh " + path)[0])

    def integral(self, c):
        return float.fromhex(self.ask("f " + " ".join("%r" % v for v in c))[0])


TWIN = Twin()


# ---- coordinates
def coordinates(c):
    r = c.rng
    for cls, d in ((mito.Coordinates2D, 2), (mito.Coordinates3D, 3)):
        v = tuple(number(r) for _ in range(d))
        arg = v if r.random() < 0.7 else list(v) if r.random() < 0.5 else tuple(float(x) for x in v)
        x = cls(arg)
        c.distinct(repr(v))
        c.sample(v)
        for i in range(d):
            c.check("coordinates:entries", same(x[i], float(v[i])), "%s%r[%d] = %r" % (cls.__name__, v, i, x[i]))
        got = []
        for e in x:
            got.append(e)
            if len(got) > d:
                break
        c.check("coordinates:iterate", len(got) == d and all(same(a, float(b)) for a, b in zip(got, v)), "iterating %s%r gives %r" % (cls.__name__, v, got))
        c.check("coordinates:default", [cls()[i] for i in range(d)] == [0.0] * d, "default coordinates")
        for i in (d, d + 1, r.randint(d, 1 << 20), (1 << 31) - 1, r.randint(-(1 << 31), -d - 1)):
            c.raises("coordinates:out-of-range", (IndexError,), lambda: x[i], "%s[%d]" % (cls.__name__, i))
        for i in range(-d, 0):
            # either not supported or counted from the end
            try:
                e = x[i]
            except IndexError:
                c.check("coordinates:negative", True)
            else:
                c.check("coordinates:negative", same(e, float(v[i])), "%s%r[%d] = %r" % (cls.__name__, v, i, e))
        for bad in ("a", 1.5, None, 1 << 40, [0], (0,)):
            c.raises("coordinates:bad-index", (TypeError, IndexError), lambda: x[bad], "[%r]" % (bad,))
        for bad in (v[:-1], v + (1.0,), (), ("a",) * d, None, "abc"[:d], (None,) * d, 1.0, {1: 2}):
            c.raises("coordinates:bad-arguments", (TypeError,), lambda: cls(bad), "%s(%r)" % (cls.__name__, bad))
        c.raises("coordinates:bad-arguments", (TypeError,), lambda: cls(*v), "%s(*%r)" % (cls.__name__, v))
        # copies of what was read do not depend on the object
        kept = [x[i] for i in range(d)]
        del x
        junk = [cls(tuple(number(r) for _ in range(d))) for _ in range(5)]
        c.check("coordinates:entries", all(same(a, float(b)) for a, b in zip(kept, v)), "kept entries")
        del junk


# ---- fields
class Oops(Exception):
    pass


class Counter:
    def __init__(self, c):
        self.c, self.calls, self.kept = c, 0, []

    def __call__(self, x):
        self.calls += 1
        return value(self.c, x[0], x[1])

    def method(self, x):
        return self(x)


def fields(c):
    r = c.rng
    k = coefficients(r)
    c.distinct(tuple(k))
    three = r.random() < 0.5
    field, coords, d = (mito.ScalarField3D, mito.Coordinates3D, 3) if three else (mito.ScalarField2D, mito.Coordinates2D, 2)
    pts = [tuple(r.uniform(-5, 5) for _ in range(d)) for _ in range(r.randint(1, 8))]
    last = lambda p: p[2] * k[0] if three else 0.0
    seen = []

    def f(x):
        seen.append(x)
        return value(k, x[0], x[1]) + (x[2] * k[0] if three else 0.0)
    o = Counter(k)
    forms = {"function": f, "partial": functools.partial(lambda a, x: a(x), f)}
    if not three:
        forms.update({"object": o, "method": o.method})
    g = field(f)
    forms["field"] = g
    for name, h in forms.items():
        F = field(h)
        for p in pts:
            v = F(coords(p))
            c.check("field:value", same(v, value(k, p[0], p[1]) + last(p)), "field of a %s at %r: %r" % (name, p, v))
            c.count("callbacks")
    # the arguments a callback keeps stay what they were
    gc.collect()
    junk = [coords(tuple(float(j) for _ in range(d))) for j in range(20)]
    c.check("field:kept-arguments", [tuple(x[i] for i in range(d)) for x in seen] == pts * (len(seen) // len(pts)), "arguments kept by a callback changed")
    del junk
    # results of other types
    p = coords(pts[0])
    for res, ok in ((3, True), (True, True), (2.5, True), (Q(1, 4), True), (math.nan, True), (math.inf, True), ("a", False), (None, False), ([1.0], False), (1j, False), (10 ** 400, False)):
        F = field(lambda x: res)
        if ok:
            c.check("field:value", same(F(p), float(res)), "callback returning %r" % (res,))
        else:
            c.raises("field:bad-result", (TypeError, RuntimeError, ValueError, OverflowError), lambda: F(p), "callback returning %r" % (res,))
    # exceptions pass through as they are
    err = Oops("x")

    def bad(x):
        raise err
    try:
        field(bad)(p)
        c.check("field:exceptions", False, "no exception")
    except Oops as e:
        c.check("field:exceptions", e is err, "another exception")
    for kind in (ZeroDivisionError, KeyError, StopIteration, MemoryError, KeyboardInterrupt, SystemExit, GeneratorExit):
        def bad2(x):
            raise kind("k")
        c.raises("field:exceptions", (kind,), lambda: field(bad2)(p), "callback raising %s" % kind.__name__)

    def deep(x):
        return F2(x) + 1
    F2 = field(deep)
    sys.setrecursionlimit(300)
    c.raises("field:exceptions", (RecursionError,), lambda: F2(p), "endless recursion")
    sys.setrecursionlimit(2000)
    # wrong arguments
    for a in (3, "a", None, (1.0,) * d, (mito.Coordinates2D if three else mito.Coordinates3D)()):
        c.raises("field:bad-arguments", (TypeError,), lambda: g(a), "field(%r)" % (a,))
    for a in (3, "a", (1.0,), p):
        c.raises("field:bad-arguments", (TypeError,), lambda: field(a), "construction from %r" % (a,))
    c.raises("field:bad-arguments", (TypeError,), lambda: g(), "no arguments")
    # the field keeps its function, and lets it go
    class Fn:
        def __call__(self, x):
            return x[0]
    fn = Fn()
    w = weakref.ref(fn)
    F = field(fn)
    del fn
    gc.collect()
    c.check("field:lifetime", w() is not None and F(p) == pts[0][0], "function gone before its field")
    del F
    gc.collect()
    c.check("field:lifetime", w() is None, "function still held after its field is gone")


# ---- meshes and integrals
def build(path, cs=None):
    cs = cs or mito.CoordinateSystem2D()
    mesh = mito.SimplicialMesh2D(path, cs)
    manifold = mito.ManifoldTriangle2D(mesh, cs)
    return cs, mesh, manifold, mito.GaussIntegrator2Triangle2D(manifold)


def integrals(c):
    r = c.rng
    pts, tri, mixed = triangles(r, c.index % 10 == 0)
    path = write(pts, tri, r)
    c.distinct((tuple(pts), tuple(map(tuple, tri))))
    c.sample("%d triangles on %d points%s" % (len(tri), len(pts), ", mixed orientations" if mixed else ""))
    n = TWIN.mesh(path)
    cs, mesh, manifold, integrator = build(path)
    c.check("mesh:cells", len(mesh.cells) == len(tri) == n, "%d cells, the library reads %d, the file has %d" % (len(mesh.cells), n, len(tri)))
    cells = list(mesh.cells)
    c.check("mesh:cells", len(cells) == len(tri) and len(set(map(id, cells))) == len(tri), "iterating gives %d cells" % len(cells))
    c.count("cells", len(cells))
    for i in range(4):
        k = coefficients(r, i % 2 == 0)
        o = Counter(k)
        v = integrator.integrate(mito.ScalarField2D(o))
        s = size_of(k, pts, tri)
        c.near("integral:same-as-library", v, TWIN.integral(k), 1e-12 * s, "integral of %r over %s" % (k, path))
        if i % 2 == 0 and not mixed:
            c.near("integral:exact", v, exact(k, pts, tri)[0], 1e-11 * s, "integral of %r" % (k,))
        c.check("integral:every-cell-visited", o.calls >= len(tri), "%d evaluations on %d cells" % (o.calls, len(tri)))
        c.count("callbacks", o.calls)
    # the points where the field is evaluated lie on the cells
    box = [min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)]
    seen = []
    integrator.integrate(mito.ScalarField2D(lambda x: seen.append((x[0], x[1])) or 0.0))
    c.check("integral:points", all(box[0] - 1e-9 <= x <= box[1] + 1e-9 and box[2] - 1e-9 <= y <= box[3] + 1e-9 for x, y in seen), "points outside the mesh")
    # exceptions leave the integrator as it was
    left = [r.randint(0, 3 * len(tri))]
    k = coefficients(r)
    want = integrator.integrate(mito.ScalarField2D(Counter(k)))

    def f(x):
        left[0] -= 1
        if left[0] < 0:
            raise Oops("stop")
        return 1.0
    try:
        integrator.integrate(mito.ScalarField2D(f))
    except Oops:
        pass
    c.check("integral:after-exception", integrator.integrate(mito.ScalarField2D(Counter(k))) == want, "the integral changed after an exception")
    # fields of fields, integrals inside integrals
    inner = mito.ScalarField2D(lambda x: 1.0)
    nested = [0]

    def g(x):
        nested[0] += 1
        return integrator.integrate(inner) if nested[0] < 4 else value(k, x[0], x[1])
    integrator.integrate(mito.ScalarField2D(g))
    c.check("integral:after-exception", integrator.integrate(mito.ScalarField2D(mito.ScalarField2D(Counter(k)))) == want, "the integral of a field of a field")
    for a in (3, None, "a", lambda x: 1.0, mito.ScalarField3D(lambda x: 1.0)):
        c.raises("integral:bad-arguments", (TypeError,), lambda: integrator.integrate(a), "integrate(%r)" % (a,))
    os.unlink(path)


# ---- any order of deletion
def lifetimes(c):
    r = c.rng
    live, systems, expected, files, refs, trace = {}, [], {}, [], [], []
    for i in range(r.randint(1, 3)):
        pts, tri, mixed = triangles(r)
        path = write(pts, tri, r)
        files.append((path, pts, tri))
    serial = 0
    probe = coefficients(r)
    field = mito.ScalarField2D(Counter(probe))
    keep = {}
    def use(n):
        kind, obj, what = live[n]
        if kind == "integrator":
            path, pts, tri = files[what]
            if what not in expected:
                TWIN.mesh(path)
                expected[what] = TWIN.integral(probe)
            c.near("lifetime:integral", obj.integrate(field), expected[what], 1e-12 * size_of(probe, pts, tri), "integral over %s after %s" % (path, trace[-20:]))
            c.count("integrals")
        elif kind == "manifold":
            path, pts, tri = files[what]
            v = mito.GaussIntegrator2Triangle2D(obj).integrate(mito.ScalarField2D(lambda x: 1.0))
            c.near("lifetime:integral", v, exact([1.0] + [0.0] * 5, pts, tri)[0], 1e-11 * size_of([1.0] + [0.0] * 10, pts, tri), "area of %s" % path)
        elif kind == "cells":
            c.check("lifetime:cells", len(obj) == len(files[what][2]) == len(list(obj)), "cells after %s" % trace[-20:])
        elif kind == "iterator":
            n = 1 + sum(1 for _ in obj)
            c.check("lifetime:cells", n in (len(files[what[0]][2]), 1), "%d cells left after %s" % (n, trace[-20:]))
        elif kind == "mesh":
            c.check("lifetime:cells", len(obj.cells) == len(files[what[0]][2]), "cells of a mesh after %s" % trace[-20:])

    for step in range(r.randint(10, 60)):
        op = r.choice(("system", "mesh", "mesh", "mesh", "manifold", "manifold", "manifold", "integrator", "integrator", "integrator", "cells", "cells", "iterator", "iterator",
                       "drop", "drop", "use", "use", "use", "use", "collect", "junk"))
        if not any(v[0] == "system" for v in live.values()):
            op = r.choice((op, "system"))
        serial += 1
        pick = lambda kind: r.choice([n for n in sorted(live) if live[n][0] == kind] or [None])
        trace.append(op)
        if op == "system":
            live[serial] = ("system", mito.CoordinateSystem2D(), None)
        elif op == "mesh":
            s = pick("system")
            if s is None:
                continue
            f = r.randrange(len(files))
            m = mito.SimplicialMesh2D(files[f][0], live[s][1])
            live[serial] = ("mesh", m, (f, s))
            refs.append(weakref.ref(m))
        elif op == "manifold":
            m = pick("mesh")
            if m is None or live[m][2][1] not in live:
                # the mesh belongs to the coordinate system it was read in
                continue
            live[serial] = ("manifold", mito.ManifoldTriangle2D(live[m][1], live[live[m][2][1]][1]), live[m][2][0])
            refs.append(weakref.ref(live[serial][1]))
        elif op == "integrator":
            m = pick("manifold")
            if m is None:
                continue
            live[serial] = ("integrator", mito.GaussIntegrator2Triangle2D(live[m][1]), live[m][2])
        elif op == "cells":
            m = pick("mesh")
            if m is not None:
                live[serial] = ("cells", live[m][1].cells, live[m][2][0])
        elif op == "iterator":
            m = pick("cells")
            if m is not None:
                it = iter(live[m][1])
                first = next(it)
                live[serial] = ("iterator", it, (live[m][2], first))
        elif op == "drop" and live:
            del live[r.choice(sorted(live))]
        elif op == "collect":
            gc.collect()
        elif op == "junk":
            keep[serial] = [mito.CoordinateSystem2D() for _ in range(5)] + [mito.Coordinates2D((1.0, 2.0)) for _ in range(20)]
            if len(keep) > 2:
                keep.pop(min(keep))
        elif op == "use" and live:
            use(r.choice(sorted(live)))
    c.distinct(tuple(trace))
    c.sample(" ".join(trace))
    c.count("objects", serial)
    names = sorted(live)
    r.shuffle(names)
    m = it = first = None
    for n in names:
        if live[n][0] != "system":
            use(n)
        del live[n]
        if r.random() < 0.1:
            gc.collect()
    gc.collect()
    c.check("lifetime:released", all(w() is None for w in refs), "%d objects of %d are still there when nothing refers to them" % (sum(w() is not None for w in refs), len(refs)))
    for f in files:
        os.unlink(f[0])


# ---- files that cannot be read
def damaged(c):
    r = c.rng
    pts, tri, mixed = triangles(r)
    path = write(pts, tri, r)
    text = open(path).read()
    kind = r.choice(("missing", "directory", "empty", "dimension", "truncated", "index", "garbage"))
    c.distinct((kind, text))
    c.count(kind)
    cs = mito.CoordinateSystem2D()
    if kind == "missing":
        bad = path + ".not"
    elif kind == "directory":
        bad = "."
    else:
        bad = path + ".bad"
        if kind == "empty":
            t = ""
        elif kind == "dimension":
            t = r.choice("1345") + text[1:]
        elif kind == "truncated":
            lines = text.splitlines()
            t = "\n".join(lines[:r.randrange(1, len(lines))])
        elif kind == "index":
            lines = text.splitlines()
            i = r.randrange(2 + len(pts), len(lines))
            w = lines[i].split()
            w[r.randint(1, 3)] = r.choice(("0", "-1", str(len(pts) + 1), "99999999", "x"))
            lines[i] = " ".join(w)
            t = "\n".join(lines)
        else:
            t = "".join(r.choice("abc xyz\n-.") for _ in range(50))
        open(bad, "w").write(t)
    c.raises("file:refused", (RuntimeError, ValueError, OSError), lambda: mito.SimplicialMesh2D(bad, cs), "file %s" % kind)
    if bad.endswith(".bad"):
        os.unlink(bad)
    # the same coordinate system is still good for the undamaged file
    k = coefficients(r, True)
    mesh = mito.SimplicialMesh2D(path, cs)
    v = mito.GaussIntegrator2Triangle2D(mito.ManifoldTriangle2D(mesh, cs)).integrate(mito.ScalarField2D(Counter(k)))
    if not mixed:
        c.near("file:after-refusal", v, exact(k, pts, tri)[0], 1e-11 * size_of(k, pts, tri), "integral after a refused file")
    for a in ((), (path,), (cs,), (path, path), (cs, path), (path, None), (1, cs), (path, cs, 1)):
        c.raises("mesh:bad-arguments", (TypeError,), lambda: mito.SimplicialMesh2D(*a), "SimplicialMesh2D%r" % (a,))
    for a in ((), (mesh,), (mesh, mesh), (mesh, None), (None, cs), (cs, mesh)):
        c.raises("mesh:bad-arguments", (TypeError,), lambda: mito.ManifoldTriangle2D(*a), "ManifoldTriangle2D%r" % (a,))
    for a in ((), (mesh,), (None,), (1,)):
        c.raises("mesh:bad-arguments", (TypeError,), lambda: mito.GaussIntegrator2Triangle2D(*a), "GaussIntegrator2Triangle2D%r" % (a,))

    def cells():
        mesh.cells = 3
    c.raises("mesh:read-only", (AttributeError,), cells, "assigning to cells")
    os.unlink(path)


# ---- several Python threads
def threads(c):
    r = c.rng
    pts, tri, mixed = triangles(r)
    path = write(pts, tri, r)
    c.distinct((tuple(pts), tuple(map(tuple, tri))))
    cs, mesh, manifold, integrator = build(path)
    ks = [coefficients(r) for _ in range(4)]
    want = [integrator.integrate(mito.ScalarField2D(Counter(k))) for k in ks]
    bad = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(j):
        try:
            f = mito.ScalarField2D(Counter(ks[j]))
            for n in range(6):
                if integrator.integrate(f) != want[j]:
                    bad.append("integral %d differs" % j)
                own = build(path)
                if own[3].integrate(f) != want[j]:
                    bad.append("integral %d over a mesh of its own differs" % j)
                if len(own[1].cells) != len(tri):
                    bad.append("cells")
        except BaseException as e:
            bad.append(repr(e))
    ts = [threading.Thread(target=work, args=(j,)) for j in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(old)
    c.check("threads:same-results", not bad, bad[:3])
    c.count("integrals", 48)
    os.unlink(path)


section("coordinates", 600, 6000, coordinates)
section("fields", 300, 3000, fields)
section("integrals", 400, 4000, integrals)
section("lifetimes", 800, 5000, lifetimes)
section("damaged", 300, 3000, damaged)
section("threads", 10, 100, threads)
TWIN.p.stdin.close()
TWIN.p.wait()
signal.setitimer(signal.ITIMER_PROF, 0)
for s in SECTIONS:
    s["distinct"] = len(s.pop("_d"))
if A.report:
    with open(A.report, "w") as f:
        json.dump({"violations": VIOLATIONS, "sections": SECTIONS, "rules": RULES}, f)
else:
    print(json.dumps(SECTIONS, indent=1), VIOLATIONS)
# everything below is destroyed by the interpreter on its way out, in an order of its choosing
p = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]
path = write(p, [[0, 1, 2]], random.Random(1))
zz_integrator, aa_integrator = build(path)[3], build(path)[3]
cs, mesh, manifold, integrator = build(path)
cells = iter(mesh.cells)
field = mito.ScalarField2D(lambda x: x[0])
loop = [field]
loop.append(loop)
sys.exit(1 if VIOLATIONS else 0)
