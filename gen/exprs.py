"""Random well-typed expressions, as library code and as reference code.

A type is ('S',), ('V',n) or ('M',r,c); a domain adds ('C',n) coordinates (cartesian) and ('P',n) (polar, spherical)."""
import random

S = ("S",)


def cpp_type(d):
    k = d[0]
    return {"S": lambda: "S_", "V": lambda: "V_<%d>" % d[1], "M": lambda: "M_<%d,%d>" % d[1:], "C": lambda: "C_<%d>" % d[1],
            "P": lambda: "P%d_" % d[1]}[k]()


def ncomp(d):
    return 1 if d[0] == "S" else d[1] * d[2] if d[0] == "M" else d[1]


class X:
    """an expression: library code, reference code, whether the library has its derivative, cost"""
    def __init__(self, t, cpp, ref, deriv=True, cost=1, packed=False):
        self.t, self.cpp, self.ref, self.deriv, self.cost, self.packed = t, cpp, ref, deriv, cost, packed


class Gen:
    def __init__(self, rng, deriv_only=False):
        self.r = rng
        self.deriv_only = deriv_only
        self.used = {}

    def num(self, nz=False):
        r = self.r
        if r.random() < 0.25:
            v = r.choice([-3, -2, -1, 1, 2, 3])
            return str(v) + ".0"
        if r.random() < 0.06:    # other units
            return "%se%d" % (round(r.uniform(1, 9) * r.choice([-1, 1]), 2), r.choice([-9, -7, -5, -4, 4, 6, 8]))
        v = round(r.uniform(0.3, 2.5) * r.choice([-1, 1]), 3)
        return repr(v)

    def scalar_const(self):
        # integers are scalars, too
        if self.r.random() < 0.2:
            v = str(self.r.choice([-3, -2, 2, 3, 5]))
            return ("(%s)" % v), "cst(%s.0)" % v
        v = self.num()
        return ("(%s)" % v), "cst(%s)" % v

    def const(self, t):
        if t[0] == "S":
            return self.scalar_const()
        n = ncomp(t)
        v = [self.num() for _ in range(n)]
        if self.r.random() < 0.25:    # sparse
            k = self.r.randrange(n)
            if t[0] == "V":
                return "T::e<%d,%d>" % (k, n), "cst(%d,1,{%s})" % (n, ",".join("1.0" if i == k else "0.0" for i in range(n)))
            return "T::unit<M_<%d,%d>,%d,%d>" % (t[1], t[2], k // t[2], k % t[2]), "cst(%d,%d,{%s})" % (
                t[1], t[2], ",".join("1.0" if i == k else "0.0" for i in range(n)))
        r, c = (t[1], 1) if t[0] == "V" else t[1:]
        return "%s{%s}" % (cpp_type(t), ",".join(v)), "cst(%d,%d,{%s})" % (r, c, ",".join(v))

    # -- the productions for each type; each returns an expression
    def productions(self, t, dom):
        p = ["const", "sum", "diff", "c+f", "f+c", "f-c", "c-f", "c*f", "f*c", "f/c", "neg", "lin", "summation", "comp"]
        if t[0] == "S":
            p += ["leaf", "leaf", "leaf", "prod", "quot", "c/f", "dot", "subv", "subm", "submi", "subpk", "cdot", "fn", "fn", "fn", "fn",
                  "trig", "logs", "arc", "powc"]
            if not self.deriv_only:
                p += ["det", "functor"]
        elif t[0] == "V":
            p += ["s*cv", "cv*s", "s*kv", "f*s", "s*f", "f/s", "cm*f", "m*f", "m*cv", "basis", "basis"]
        else:
            p += ["s*cv", "cv*s", "s*kv", "f*s", "s*f", "f/s", "m*m", "cm*m", "m*cm", "tr", "trtr", "basis", "basis"]
            if not self.deriv_only:
                p += ["dyad"]
                if t[1] == t[2] and t[1] in (2, 3):
                    p += ["inv", "invinv"]
        if self.deriv_only and dom[0] == "S":
            p = [q for q in p if q not in ("comp",)]
        return p

    def leaf(self, dom):
        r = self.r
        if dom[0] == "S":
            k = r.choice(["sin", "cos", "exp", "atan", "pow<1>", "pow<2>", "pow<3>"])
            return X(S, "F::" + k, "fn(%s, arg())" % k.upper().replace("<", "").replace(">", ""))
        i = r.randrange(ncomp(dom))
        return X(S, "F::component<%s,%d>" % (cpp_type(dom), i), "sub(arg(),%d)" % i)

    def gen(self, t, dom, depth, prod=None):
        r = self.r
        if depth <= 0 and prod is None:
            if t[0] == "S":
                return self.leaf(dom) if r.random() < 0.9 else self.gen(t, dom, 0, "const")
            prod = r.choice(["s*cv", "cv*s", "s*kv"])
        if prod is None:
            prod = r.choice(self.productions(t, dom))
        self.used[(t[0], dom[0], prod)] = self.used.get((t[0], dom[0], prod), 0) + 1
        return self.build(prod, t, dom, depth)

    def fn(self, k, a):
        names = {"pow": None}
        return X(S, "F::%s(%s)" % (k, a.cpp), "fn(%s, %s)" % (k.upper().replace("<", "").replace(">", ""), a.ref), a.deriv, a.cost + 1)

    def denominator(self, b):
        """something to divide by: of either sign, possibly crossing zero (places too close to zero are skipped as ill conditioned)"""
        k = self.r.randrange(4)
        if k == 0:
            return X(S, "(0.75 + F::pow<2>(%s))" % b.cpp, "(cst(0.75) + fn(POW2, %s))" % b.ref, b.deriv, b.cost + 2)
        if k == 1:
            return X(S, "(-0.75 - F::pow<2>(%s))" % b.cpp, "(cst(-0.75) - fn(POW2, %s))" % b.ref, b.deriv, b.cost + 2)
        return b

    def build(self, prod, t, dom, depth):
        r, d = self.r, depth - 1
        g = lambda tt=t, dd=None: self.gen(tt, dom, d if dd is None else dd)
        D = cpp_type(dom)
        if prod == "leaf":
            return self.leaf(dom)
        if prod == "const":
            c, k = self.const(t)
            if t == S and (self.r.random() < 0.6 or "." in c):
                c = "double" + c
            return X(t, "F::constant<%s>(%s)" % (D, c), k)
        if prod in ("sum", "diff"):
            a, b = g(), g()
            o = "+" if prod == "sum" else "-"
            return X(t, "(%s %s %s)" % (a.cpp, o, b.cpp), "(%s %s %s)" % (a.ref, o, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod in ("c+f", "f+c", "f-c", "c-f"):
            a = g()
            c, k = self.const(t)
            o = prod[1]
            if prod[0] == "c":
                return X(t, "(%s %s %s)" % (c, o, a.cpp), "(%s %s %s)" % (k, o, a.ref), a.deriv, a.cost + 1)
            return X(t, "(%s %s %s)" % (a.cpp, o, c), "(%s %s %s)" % (a.ref, o, k), a.deriv, a.cost + 1)
        if prod in ("c*f", "f*c"):
            a = g()
            c, k = self.scalar_const()
            if prod == "c*f":
                return X(t, "(%s * %s)" % (c, a.cpp), "(%s * %s)" % (k, a.ref), a.deriv, a.cost + 1)
            return X(t, "(%s * %s)" % (a.cpp, c), "(%s * %s)" % (a.ref, k), a.deriv, a.cost + 1)
        if prod == "f/c":
            a = g()
            c, k = self.scalar_const()
            return X(t, "(%s / %s)" % (a.cpp, c), "quo(%s, %s)" % (a.ref, k), a.deriv, a.cost + 1)
        if prod == "neg":
            a = g()
            return X(t, "(-(%s))" % a.cpp, "neg(%s)" % a.ref, a.deriv, a.cost + 1)
        if prod == "lin":
            n = r.choice([1, 2, 2, 3, 4, 5, 6])
            # (those that come first, or those that come last, are simple)
            fs = [g() if k < 2 else g(t, 0) for k in range(n)]
            r.shuffle(fs)
            if n > 1 and r.random() < 0.4:
                fs[-1] = fs[0]            # the same function twice
            cs = [self.num() for _ in fs]
            return X(t, "F::linear_combination(std::array<double,%d>{%s}, %s)" % (n, ",".join(cs), ", ".join(f.cpp for f in fs)),
                     "lin({%s}, {%s})" % (",".join(cs), ", ".join(f.ref for f in fs)), all(f.deriv for f in fs), sum(f.cost for f in fs) + 1)
        if prod == "summation":
            n = r.choice([1, 2, 3, 4, 5])
            fs = [g() if k < 2 else g(t, 0) for k in range(n)]
            r.shuffle(fs)
            return X(t, "F::summation(%s)" % ", ".join(f.cpp for f in fs), "(%s)" % " + ".join(f.ref for f in fs), all(f.deriv for f in fs),
                     sum(f.cost for f in fs) + 1)
        if prod == "comp":
            # the outer function has a domain of its own
            mid = r.choice([("V", 2), ("V", 3), ("M", 2, 2)] if dom[0] != "M" else [("V", 2), ("V", 3)])
            if dom[0] == "S" and self.deriv_only:
                mid = S
            if r.random() < 0.25:
                mid = S
            o = self.gen(t, mid, min(d, 1))
            i = self.gen(mid, dom, min(d, 1))
            deriv = o.deriv and i.deriv and (mid == S or dom[0] != "S")
            return X(t, "(%s)(%s)" % (o.cpp, i.cpp), "after(%s, %s)" % (o.ref, i.ref), deriv, o.cost * 2 + i.cost * 2)
        # ---- scalars
        if prod == "prod":
            a, b = g(), g()
            return X(S, "(%s * %s)" % (a.cpp, b.cpp), "(%s * %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod == "quot":
            a, b = g(), self.denominator(g())
            return X(S, "(%s / %s)" % (a.cpp, b.cpp), "quo(%s, %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod == "c/f":
            b = self.denominator(g())
            c, k = self.scalar_const()
            return X(S, "(%s / %s)" % (c, b.cpp), "quo(%s, %s)" % (k, b.ref), b.deriv, b.cost + 1)
        if prod == "dot":
            n = r.choice([2, 3])
            a, b = g(("V", n)), g(("V", n))
            return X(S, "(%s * %s)" % (a.cpp, b.cpp), "(%s * %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod == "cdot":
            n = r.choice([2, 3])
            a = g(("V", n))
            c, k = self.const(("V", n))
            if r.random() < 0.5:
                return X(S, "(%s * %s)" % (a.cpp, c), "(%s * %s)" % (a.ref, k), a.deriv, a.cost + 1)
            return X(S, "(%s * %s)" % (c, a.cpp), "(%s * %s)" % (k, a.ref), a.deriv, a.cost + 1)
        if prod == "subv":
            n = r.choice([2, 3])
            a, i = g(("V", n)), r.randrange(n)
            return X(S, "(%s)[%d]" % (a.cpp, i), "sub(%s,%d)" % (a.ref, i), a.deriv, a.cost + 1)
        if prod in ("subm", "submi"):
            m = r.choice([("M", 2, 2), ("M", 2, 3), ("M", 3, 2)])
            a = g(m)
            i, j = r.randrange(m[1]), r.randrange(m[2])
            if prod == "subm":
                return X(S, "flatsub<%d,%d>(%s)" % (i, j, a.cpp), "sub(%s,%d,%d)" % (a.ref, i, j), a.deriv, a.cost + 1)
            return X(S, "(%s)[{%d,%d}]" % (a.cpp, i, j), "sub(%s,%d,%d)" % (a.ref, i, j), a.deriv, a.cost + 1)
        if prod == "subpk":
            # an entry of a matrix that is stored in a packed form
            n = r.choice([2, 3])
            i, j = r.randrange(n), r.randrange(n)
            terms, refs, ok, cost = [], [], True, 1
            for _ in range(r.choice([1, 2])):
                a = g(S, min(d, 1))
                v = [[float(r.choice([-2, -1, 0, 1, 2, 3, 4])) for _ in range(n)] for _ in range(n)]
                if r.random() < 0.4:
                    c, k = "T::identity<%d>" % n, [[1.0 if p == q else 0.0 for q in range(n)] for p in range(n)]
                else:
                    c = "T::symmetric(M_<%d,%d>{%s})" % (n, n, ",".join(map(repr, sum(v, []))))
                    k = [[0.5 * (v[p][q] + v[q][p]) for q in range(n)] for p in range(n)]
                terms.append("%s * %s" % (a.cpp, c))
                refs.append("%s * cst(%d,%d,{%s})" % (a.ref, n, n, ",".join(map(repr, sum(k, [])))))
                ok &= a.deriv
                cost += a.cost + 2
            if r.random() < 0.6:
                return X(S, "flatsub<%d,%d>(%s)" % (i, j, " + ".join(terms)), "sub(%s,%d,%d)" % (" + ".join(refs), i, j), ok, cost)
            return X(S, "(%s)[{%d,%d}]" % (" + ".join(terms), i, j), "sub(%s,%d,%d)" % (" + ".join(refs), i, j), ok, cost)
        if prod == "fn":
            return self.fn(r.choice(["sin", "cos", "atan", "exp", "pow<1>", "pow<2>", "pow<3>", "pow<4>", "cbrt"]), g())
        if prod == "powc":
            return self.fn(r.choice(["pow<5>", "pow<6>", "pow<7>"]), self.fn("sin", g()))
        if prod == "trig":
            a = self.fn("sin", g())
            return self.fn(r.choice(["tan", "exp"]), a)
        if prod == "logs":
            a = g()
            b = X(S, "(1.5 + F::pow<2>(%s))" % a.cpp, "(cst(1.5) + fn(POW2, %s))" % a.ref, a.deriv, a.cost + 2)
            return self.fn(r.choice(["log", "sqrt", "cbrt"]), b)
        if prod == "arc":
            a = self.fn("sin", g())
            b = X(S, "(0.9 * %s)" % a.cpp, "(cst(0.9) * %s)" % a.ref, a.deriv, a.cost + 1)
            return self.fn(r.choice(["asin", "acos"]), b)
        if prod == "det":
            n = r.choice([2, 2, 3])
            a = self.gen(("M", n, n), dom, min(d, 1))
            return X(S, "F::determinant(%s)" % a.cpp, "det(%s)" % a.ref, False, a.cost + 1)
        if prod == "functor":
            i = r.randrange(ncomp(dom))
            c = self.num()
            at = "x" if dom[0] == "S" else "x[%d]" % i
            if r.random() < 0.6:
                # with a state of its own
                return X(S, "stateful<%s>(%d, %s)" % (D, i, c), "(fn(POW2, sub(arg(),%d)) + cst(%s))" % (i, c), False, 2)
            return X(S, "F::function([](const %s & x) -> double { return %s * %s + (%s); })" % (D, at, at, c),
                     "(fn(POW2, sub(arg(),%d)) + cst(%s))" % (i, c), False, 2)
        # ---- vectors and matrices
        if prod in ("s*cv", "cv*s", "s*kv"):
            s = self.gen(S, dom, d)
            c, k = self.const(t)
            if prod == "s*kv":
                c = "F::constant<%s>(%s)" % (D, c if not c.startswith("T::") else "%s(%s)" % (cpp_type(t), c))
            if prod == "cv*s":
                return X(t, "(%s * %s)" % (c, s.cpp), "(%s * %s)" % (k, s.ref), s.deriv, s.cost + 1)
            return X(t, "(%s * %s)" % (s.cpp, c), "(%s * %s)" % (s.ref, k), s.deriv, s.cost + 1)
        if prod == "basis":
            # component by component
            n = ncomp(t)
            if n > 4:
                ks = sorted(r.sample(range(n), 3))
            else:
                ks = range(n)
            terms, refs, ok, cost = [], [], True, 0
            for k in ks:
                s = self.gen(S, dom, min(d, 1) if n < 4 else 0)
                u = "1.0" if False else None
                one = ",".join("1.0" if i == k else "0.0" for i in range(n))
                if t[0] == "V":
                    terms.append("%s * T::e<%d,%d>" % (s.cpp, k, n))
                    refs.append("%s * cst(%d,1,{%s})" % (s.ref, n, one))
                else:
                    terms.append("%s * T::unit<M_<%d,%d>,%d,%d>" % (s.cpp, t[1], t[2], k // t[2], k % t[2]))
                    refs.append("%s * cst(%d,%d,{%s})" % (s.ref, t[1], t[2], one))
                ok &= s.deriv
                cost += s.cost + 2
            return X(t, "(%s)" % " + ".join(terms), "(%s)" % " + ".join(refs), ok, cost)
        if prod in ("f*s", "s*f"):
            a, s = g(), g(S)
            if prod == "f*s":
                return X(t, "(%s * %s)" % (a.cpp, s.cpp), "(%s * %s)" % (a.ref, s.ref), a.deriv and s.deriv, a.cost + s.cost + 1)
            return X(t, "(%s * %s)" % (s.cpp, a.cpp), "(%s * %s)" % (s.ref, a.ref), a.deriv and s.deriv, a.cost + s.cost + 1)
        if prod == "f/s":
            a, b = g(), self.denominator(g(S))
            return X(t, "(%s / %s)" % (a.cpp, b.cpp), "quo(%s, %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod in ("cm*f", "m*f", "m*cv"):
            m = ("M", t[1], r.choice([2, 3]))
            v = ("V", m[2])
            if prod == "cm*f":
                a = g(v)
                c, k = self.const(m)
                return X(t, "(%s * %s)" % (c, a.cpp), "(%s * %s)" % (k, a.ref), a.deriv, a.cost + 1)
            a = g(m)
            if prod == "m*cv":
                c, k = self.const(v)
                return X(t, "(%s * %s)" % (a.cpp, c), "(%s * %s)" % (a.ref, k), a.deriv, a.cost + 1)
            b = g(v)
            return X(t, "(%s * %s)" % (a.cpp, b.cpp), "(%s * %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
        if prod in ("m*m", "cm*m", "m*cm"):
            q = r.choice([2, 3])
            m1, m2 = ("M", t[1], q), ("M", q, t[2])
            if prod == "m*m":
                a, b = g(m1), g(m2)
                return X(t, "(%s * %s)" % (a.cpp, b.cpp), "(%s * %s)" % (a.ref, b.ref), a.deriv and b.deriv, a.cost + b.cost + 1)
            if prod == "cm*m":
                c, k = self.const(m1)
                b = g(m2)
                return X(t, "(%s * %s)" % (c, b.cpp), "(%s * %s)" % (k, b.ref), b.deriv, b.cost + 1)
            a = g(m1)
            c, k = self.const(m2)
            return X(t, "(%s * %s)" % (a.cpp, c), "(%s * %s)" % (a.ref, k), a.deriv, a.cost + 1)
        if prod == "tr":
            a = g(("M", t[2], t[1]))
            return X(t, "F::transpose(%s)" % a.cpp, "tr(%s)" % a.ref, a.deriv, a.cost + 1)
        if prod == "trtr":
            a = g()
            return X(t, "F::transpose(F::transpose(%s))" % a.cpp, "tr(tr(%s))" % a.ref, a.deriv, a.cost + 2)
        if prod == "invinv":
            a = self.build("inv", t, dom, depth)
            return X(t, "F::inverse(%s)" % a.cpp, "inve(%s)" % a.ref, False, a.cost + 2)
        if prod == "dyad":
            if t[1] != t[2]:
                return self.build("tr", t, dom, depth)
            a, b = g(("V", t[1])), g(("V", t[1]))
            return X(t, "F::dyadic(%s, %s)" % (a.cpp, b.cpp), "dy(%s, %s)" % (a.ref, b.ref), False, a.cost + b.cost + 1)
        if prod == "inv":
            a = self.gen(t, dom, min(d, 1))
            n = t[1]
            i = ",".join("3.5" if p == q else "0.25" for p in range(n) for q in range(n))
            return X(t, "F::inverse(%s{%s} + %s)" % (cpp_type(t), i, a.cpp), "inve(cst(%d,%d,{%s}) + %s)" % (n, n, i, a.ref), False, a.cost + 2)
        raise KeyError(prod)


DOMAINS = [S, ("V", 2), ("V", 3), ("M", 2, 2), ("C", 1), ("C", 2), ("C", 3), ("P", 2), ("P", 3)]
TYPES = [S, ("V", 2), ("V", 3), ("M", 2, 2), ("M", 2, 3), ("M", 3, 2)]


def catalogue(seed, budget, deriv_only, depth, max_cost):
    """every production at the root, on varying domains, then random ones, until the budget is spent"""
    rng = random.Random(seed)
    g = Gen(rng, deriv_only)
    out = []

    def emit(t, dom, dep, prod=None):
        for _ in range(40):
            x = g.gen(t, dom, dep, prod)
            if x.cost <= max_cost and (x.deriv or not deriv_only):
                out.append((dom, x))
                return
    doms = list(DOMAINS)
    for t in TYPES:
        prods = sorted(set(g.productions(t, ("V", 2))))
        for p in prods:
            if t[0] == "M" and t != ("M", 2, 2) and p not in ("tr", "trtr", "m*m", "basis", "s*cv"):
                continue
            if t == ("V", 3) and p not in ("m*f", "basis", "cm*f", "m*cv", "comp"):
                continue
            rng.shuffle(doms)
            n = 0
            for dom in doms:
                if p in g.productions(t, dom):
                    emit(t, dom, 2, p)
                    n += 1
                if n == 2 - deriv_only:
                    break
    # every elementary function, bare and composed
    for f in ["sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "sqrt", "cbrt"] + ["pow<%d>" % k for k in range(1, 8)]:
        out.append((S, X(S, "F::" + f, "fn(%s, arg())" % f.upper().replace("<", "").replace(">", ""))))
    for dom in DOMAINS[1:]:
        for i in range(ncomp(dom)):
            out.append((dom, X(S, "F::component<%s,%d>" % (cpp_type(dom), i), "sub(arg(),%d)" % i)))
    # small functions with many entries, for the matrices of their derivatives
    if deriv_only:
        for t in [("V", 2), ("V", 3), ("M", 2, 2), ("M", 2, 3)]:
            for dom in [("V", 2), ("V", 3), ("M", 2, 2)]:
                # every entry depends on every coordinate
                n, D = ncomp(dom), cpp_type(dom)
                terms, refs = [], []
                for k in range(ncomp(t)):
                    cs = ",".join(g.num() for _ in range(n))
                    f = rng.choice(["sin", "exp", "atan", "pow<2>", "pow<3>"])
                    e = "F::%s(F::linear_combination(std::array<double,%d>{%s}, %s))" % (
                        f, n, cs, ", ".join("F::component<%s,%d>" % (D, i) for i in range(n)))
                    one = ",".join("1.0" if i == k else "0.0" for i in range(ncomp(t)))
                    u = "T::e<%d,%d>" % (k, t[1]) if t[0] == "V" else "T::unit<M_<%d,%d>,%d,%d>" % (t[1], t[2], k // t[2], k % t[2])
                    terms.append("%s * %s" % (e, u))
                    refs.append("fn(%s, lin({%s}, {%s})) * cst(%s,{%s})" % (
                        f.upper().replace("<", "").replace(">", ""), cs, ", ".join("sub(arg(),%d)" % i for i in range(n)),
                        "%d,1" % t[1] if t[0] == "V" else "%d,%d" % t[1:], one))
                out.append((dom, X(t, "(%s)" % " + ".join(terms), "(%s)" % " + ".join(refs), True, 6)))
    while len(out) < budget:
        emit(rng.choice(TYPES[:5] + [S, S]), rng.choice(DOMAINS), rng.choice(range(1, depth + 1)))
    rng.shuffle(out)
    return out, g.used
