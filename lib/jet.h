// Reference evaluation of expressions: values, gradients and Hessians by automatic differentiation, with a running bound of the rounding errors.
#pragma once
#include "vmon.h"
#include <memory>

namespace jet {

    // a number and the rounding error it may carry, in units of the machine epsilon
    struct Err {
        double v = 0, e = 0;
        Err() = default;
        Err(double x) : v(x), e(0) {}
        Err(double x, double y) : v(x), e(y) {}
    };
    inline Err operator+(Err a, Err b) { double v = a.v + b.v; return { v, a.e + b.e + std::fabs(v) }; }
    inline Err operator-(Err a, Err b) { double v = a.v - b.v; return { v, a.e + b.e + std::fabs(v) }; }
    inline Err operator-(Err a) { return { -a.v, a.e }; }
    inline Err operator*(Err a, Err b)
    {
        double v = a.v * b.v;
        return { v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + std::fabs(v) };
    }
    // a function with known value f and derivative d at a
    inline Err fun(Err a, double f, double d) { return { f, std::fabs(d) * a.e + 2 * std::fabs(f) }; }
    inline Err inv(Err a) { return fun(a, 1 / a.v, 1 / (a.v * a.v)); }

    constexpr int MAXN = 9;
    inline int & nvars() { static int n = 1; return n; }
    inline int & order() { static int n = 0; return n; }
    // whether some operand was evaluated where it is not defined or not differentiable (as often as asked for)
    inline bool & singular() { static bool b = false; return b; }

    struct J {
        Err v;
        std::array<Err, MAXN> g {};
        std::array<Err, MAXN * MAXN> h {};
        J() = default;
        J(double c) : v(c) {}
        static J var(double c, int i)
        {
            J j(c);
            j.g[i] = Err(1);
            return j;
        }
    };
    template <class F>
    J comb(const J & a, const J & b, F && f)
    {
        J r;
        r.v = f(a.v, b.v);
        int n = nvars();
        if (order() >= 1)
            for (int i = 0; i < n; ++i) r.g[i] = f(a.g[i], b.g[i]);
        if (order() >= 2)
            for (int i = 0; i < n * n; ++i) r.h[i] = f(a.h[i], b.h[i]);
        return r;
    }
    inline J operator+(const J & a, const J & b) { return comb(a, b, [](Err x, Err y) { return x + y; }); }
    inline J operator-(const J & a, const J & b) { return comb(a, b, [](Err x, Err y) { return x - y; }); }
    inline J operator-(const J & a) { return J(0.0) - a; }
    inline J operator*(const J & a, const J & b)
    {
        J r;
        int n = nvars();
        r.v = a.v * b.v;
        if (order() >= 1)
            for (int i = 0; i < n; ++i) r.g[i] = a.v * b.g[i] + a.g[i] * b.v;
        if (order() >= 2)
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    r.h[i * n + j] = a.v * b.h[i * n + j] + a.h[i * n + j] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i];
        return r;
    }
    // chain rule: value, first and second derivative of the outer function at a (third for the error of the second)
    inline J chain(const J & a, double f0, double f1, double f2, double f3)
    {
        J r;
        if (!std::isfinite(f0) || (order() >= 1 && !std::isfinite(f1)) || (order() >= 2 && !std::isfinite(f2))) singular() = true;
        int n = nvars();
        r.v = fun(a.v, f0, f1);
        Err d1 = fun(a.v, f1, f2), d2 = fun(a.v, f2, f3);
        if (order() >= 1)
            for (int i = 0; i < n; ++i) r.g[i] = d1 * a.g[i];
        if (order() >= 2)
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) r.h[i * n + j] = d1 * a.h[i * n + j] + d2 * a.g[i] * a.g[j];
        return r;
    }
    inline J recip(const J & a)
    {
        double x = a.v.v;
        return chain(a, 1 / x, -1 / (x * x), 2 / (x * x * x), -6 / (x * x * x * x));
    }

    enum Fn { SIN, COS, TAN, ACOS, ASIN, ATAN, EXP, LOG, SQRT, CBRT, POW1, POW2, POW3, POW4, POW5, POW6, POW7 };
    inline J apply(Fn f, const J & a)
    {
        double x = a.v.v;
        switch (f) {
            case SIN: return chain(a, std::sin(x), std::cos(x), -std::sin(x), -std::cos(x));
            case COS: return chain(a, std::cos(x), -std::sin(x), -std::cos(x), std::sin(x));
            case TAN: {
                double c = std::cos(x), t = std::tan(x), s2 = 1 / (c * c);
                return chain(a, t, s2, 2 * t * s2, 2 * s2 * s2 + 4 * t * t * s2);
            }
            case ACOS:
            case ASIN: {
                double q = 1 - x * x, r = 1 / std::sqrt(q), sg = f == ASIN ? 1 : -1;
                // the library evaluates 1 - x^2: its cancellation near the ends of the interval
                J res = chain(a, f == ASIN ? std::asin(x) : std::acos(x), sg * r, sg * x * r / q, sg * (r / q + 3 * x * x * r / (q * q)));
                int n = nvars();
                for (int i = 0; i < n; ++i) res.g[i].e += std::fabs(r / q * a.g[i].v);
                for (int i = 0; i < n * n; ++i) res.h[i].e += std::fabs(res.h[i].v / q) + r / (q * q);
                return res;
            }
            case ATAN: {
                double q = 1 / (1 + x * x);
                return chain(a, std::atan(x), q, -2 * x * q * q, 8 * x * x * q * q * q - 2 * q * q);
            }
            case EXP: return chain(a, std::exp(x), std::exp(x), std::exp(x), std::exp(x));
            case LOG: return chain(a, std::log(x), 1 / x, -1 / (x * x), 2 / (x * x * x));
            case SQRT: {
                double s = std::sqrt(x);
                return chain(a, s, 0.5 / s, -0.25 / (s * x), 0.375 / (s * x * x));
            }
            case CBRT: {
                double s = std::cbrt(x);
                return chain(a, s, 1 / (3 * s * s), -2 / (9 * s * s * x), 10 / (27 * s * s * x * x));
            }
            default: {
                int n = f - POW1 + 1;
                auto p = [&](int k) { double r = 1; for (int i = 0; i < k; ++i) r *= x; return k < 0 ? 0.0 : r; };
                auto c = [&](int k) { double r = 1; for (int i = 0; i < k; ++i) r *= n - i; return r; };
                // products of n factors: n roundings
                J r = chain(a, p(n), c(1) * p(n - 1), n > 1 ? c(2) * p(n - 2) : 0, n > 2 ? c(3) * p(n - 3) : 0);
                r.v.e += n * std::fabs(r.v.v);
                return r;
            }
        }
    }

    // a scalar (1x1), vector (nx1) or matrix
    struct Ten {
        int r = 1, c = 1;
        std::vector<J> x = std::vector<J>(1);
        Ten() = default;
        Ten(int a, int b) : r(a), c(b), x(a * b) {}
        Ten(double v) : x { J(v) } {}
        J & at(int i, int j) { return x[i * c + j]; }
        const J & at(int i, int j) const { return x[i * c + j]; }
        bool scalar() const { return r == 1 && c == 1; }
    };
    inline Ten ten(int r, int c, std::vector<double> v)
    {
        Ten t(r, c);
        for (size_t i = 0; i < v.size(); ++i) t.x[i] = J(v[i]);
        return t;
    }
    inline Ten add(const Ten & a, const Ten & b)
    {
        Ten t(a.r, a.c);
        if (a.r != b.r || a.c != b.c) throw std::logic_error("shape");
        for (size_t i = 0; i < a.x.size(); ++i) t.x[i] = a.x[i] + b.x[i];
        return t;
    }
    // the library's product: scaling, dot product of vectors, matrix products
    inline Ten mul(const Ten & a, const Ten & b)
    {
        if (a.scalar() || b.scalar()) {
            const Ten & s = a.scalar() ? a : b;
            const Ten & o = a.scalar() ? b : a;
            Ten t(o.r, o.c);
            for (size_t i = 0; i < o.x.size(); ++i) t.x[i] = s.x[0] * o.x[i];
            return t;
        }
        if (a.c == 1 && b.c == 1) {
            if (a.r != b.r) throw std::logic_error("shape");
            Ten t;
            for (int i = 0; i < a.r; ++i) t.x[0] = t.x[0] + a.x[i] * b.x[i];
            return t;
        }
        if (a.c == 1) {    // vector times matrix: a row of the matrix product
            if (a.r != b.r) throw std::logic_error("shape");
            Ten t(b.c, 1);
            for (int j = 0; j < b.c; ++j)
                for (int i = 0; i < a.r; ++i) t.x[j] = t.x[j] + a.x[i] * b.at(i, j);
            return t;
        }
        if (a.c != b.r) throw std::logic_error("shape");
        Ten t(a.r, b.c);
        for (int i = 0; i < a.r; ++i)
            for (int j = 0; j < b.c; ++j)
                for (int k = 0; k < a.c; ++k) t.at(i, j) = t.at(i, j) + a.at(i, k) * b.at(k, j);
        return t;
    }

    // expressions: functions of one argument, which is a scalar, vector or matrix
    using E = std::function<Ten(const Ten &)>;
    inline E cst(double v) { return [v](const Ten &) { return Ten(v); }; }
    inline E cst(int r, int c, std::vector<double> v) { return [=](const Ten &) { return ten(r, c, v); }; }
    inline E arg() { return [](const Ten & x) { return x; }; }
    inline E sub(E f, int i) { return [=](const Ten & x) { Ten t; t.x[0] = f(x).x.at(i); return t; }; }
    inline E sub(E f, int i, int j) { return [=](const Ten & x) { Ten t; t.x[0] = f(x).at(i, j); return t; }; }
    inline E operator+(E f, E g) { return [=](const Ten & x) { return add(f(x), g(x)); }; }
    inline E operator*(E f, E g) { return [=](const Ten & x) { return mul(f(x), g(x)); }; }
    inline E operator-(E f, E g) { return [=](const Ten & x) { return add(f(x), mul(Ten(-1.0), g(x))); }; }
    inline E neg(E f) { return [=](const Ten & x) { return mul(Ten(-1.0), f(x)); }; }
    inline E quo(E f, E g)
    {
        return [=](const Ten & x) {
            Ten d;
            d.x[0] = recip(g(x).x[0]);
            return mul(f(x), d);
        };
    }
    inline E fn(Fn k, E f) { return [=](const Ten & x) { Ten t; t.x[0] = apply(k, f(x).x[0]); return t; }; }
    // f after g
    inline E after(E f, E g) { return [=](const Ten & x) { return f(g(x)); }; }
    inline E tr(E f)
    {
        return [=](const Ten & x) {
            Ten a = f(x), t(a.c, a.r);
            for (int i = 0; i < a.r; ++i)
                for (int j = 0; j < a.c; ++j) t.at(j, i) = a.at(i, j);
            return t;
        };
    }
    inline J cof(const Ten & a, int i, int j);
    inline J detj(const Ten & a)
    {
        if (a.r == 1) return a.x[0];
        J s;
        for (int j = 0; j < a.r; ++j) s = s + a.at(0, j) * cof(a, 0, j);
        return s;
    }
    inline J cof(const Ten & a, int i, int j)
    {
        Ten m(a.r - 1, a.r - 1);
        for (int p = 0, q = 0; p < a.r; ++p) {
            if (p == i) continue;
            for (int s = 0, t = 0; s < a.r; ++s) {
                if (s == j) continue;
                m.at(q, t++) = a.at(p, s);
            }
            ++q;
        }
        J d = detj(m);
        return (i + j) % 2 ? -d : d;
    }
    inline E det(E f) { return [=](const Ten & x) { Ten t; t.x[0] = detj(f(x)); return t; }; }
    inline E inve(E f)
    {
        return [=](const Ten & x) {
            Ten a = f(x), t(a.r, a.r);
            J d = recip(detj(a));
            for (int i = 0; i < a.r; ++i)
                for (int j = 0; j < a.r; ++j) t.at(i, j) = (a.r == 1 ? J(1.0) : cof(a, j, i)) * d;
            return t;
        };
    }
    inline E dy(E f, E g)
    {
        return [=](const Ten & x) {
            Ten a = f(x), b = g(x), t(a.r, b.r);
            for (int i = 0; i < a.r; ++i)
                for (int j = 0; j < b.r; ++j) t.at(i, j) = a.x[i] * b.x[j];
            return t;
        };
    }
    // linear combination
    inline E lin(std::vector<double> c, std::vector<E> f)
    {
        return [=](const Ten & x) {
            Ten t = mul(Ten(c[0]), f[0](x));
            for (size_t i = 1; i < f.size(); ++i) t = add(t, mul(Ten(c[i]), f[i](x)));
            return t;
        };
    }
    // any functor on jets
    inline E user(std::function<Ten(const Ten &)> f) { return f; }
}
