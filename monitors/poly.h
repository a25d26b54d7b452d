// Polynomials in up to three variables and exact integrals over straight simplices
#pragma once
#include "meshgen.h"

namespace poly {
    using mgen::P3;
    struct Term { double c; std::array<int, 3> e; };
    inline double ipow(double x, int n) { double y = 1; while (n-- > 0) y *= x; return y; }
    struct Poly {
        std::vector<Term> t;
        double operator()(const P3 & x) const
        {
            double s = 0;
            for (auto & a : t) s += a.c * ipow(x[0], a.e[0]) * ipow(x[1], a.e[1]) * ipow(x[2], a.e[2]);
            return s;
        }
        // a bound on the size of the terms within |x_i| <= big
        double bound(double big) const
        {
            double s = 0;
            for (auto & a : t) s += std::fabs(a.c) * ipow(big, a.e[0] + a.e[1] + a.e[2]);
            return s;
        }
        Poly derivative(int i) const
        {
            Poly d;
            for (auto a : t) if (a.e[i] > 0) { a.c *= a.e[i]--; d.t.push_back(a); }
            return d;
        }
        int degree() const { int d = 0; for (auto & a : t) d = std::max(d, a.e[0] + a.e[1] + a.e[2]); return d; }
    };
    inline Poly operator+(Poly a, const Poly & b) { a.t.insert(a.t.end(), b.t.begin(), b.t.end()); return a; }
    inline Poly operator*(double s, Poly a) { for (auto & x : a.t) x.c *= s; return a; }
    inline Poly operator*(const Poly & a, const Poly & b)
    {
        Poly p;
        for (auto & x : a.t) for (auto & y : b.t) p.t.push_back({ x.c * y.c, { x.e[0] + y.e[0], x.e[1] + y.e[1], x.e[2] + y.e[2] } });
        return p;
    }
    // all monomials of degree <= deg in dim variables
    inline std::vector<std::array<int, 3>> monomials(int dim, int deg)
    {
        std::vector<std::array<int, 3>> v;
        for (int i = 0; i <= deg; ++i) for (int j = 0; j <= (dim > 1 ? deg - i : 0); ++j) for (int k = 0; k <= (dim > 2 ? deg - i - j : 0); ++k) v.push_back({ i, j, k });
        return v;
    }
    inline Poly random(vm::Rng & r, int dim, int deg)
    {
        Poly p;
        auto m = monomials(dim, deg);
        if (r.coin(0.25)) { p.t.push_back({ r.real(-2, 2), r.of(m) }); return p; }
        for (auto & e : m) p.t.push_back({ r.real(-2, 2), e });
        return p;
    }
    // 6-point Gauss-Legendre on [0,1]
    inline const std::array<std::array<double, 2>, 6> & gauss()
    {
        static const auto g = [] {
            std::array<std::array<double, 2>, 6> a;
            for (int i = 0; i < 6; ++i) {
                double x = std::cos(M_PI * (i + 0.75) / 6.5), dp = 1;
                for (int it = 0; it < 60; ++it) {
                    double p0 = 1, p1 = x;
                    for (int k = 2; k <= 6; ++k) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                    dp = 6 * (x * p1 - p0) / (x * x - 1);
                    x -= p1 / dp;
                }
                a[i] = { (1 + x) / 2, 1 / ((1 - x * x) * dp * dp) };
            }
            return a;
        }();
        return g;
    }
    // average over the straight simplex of p[0..N], exact for polynomials up to degree 9
    template <class F>
    double average(int N, const P3 * p, const F & f)
    {
        using mgen::operator+; using mgen::operator*;
        const auto & g = gauss();
        double s = 0;
        if (N == 1) {
            for (auto & a : g) s += a[1] * f((1 - a[0]) * p[0] + a[0] * p[1]);
        } else if (N == 2) {
            for (auto & a : g) for (auto & b : g) {
                double l1 = a[0], l2 = (1 - a[0]) * b[0];
                s += 2 * a[1] * b[1] * (1 - a[0]) * f((1 - l1 - l2) * p[0] + l1 * p[1] + l2 * p[2]);
            }
        } else {
            for (auto & a : g) for (auto & b : g) for (auto & c : g) {
                double l1 = a[0], l2 = (1 - a[0]) * b[0], l3 = (1 - a[0]) * (1 - b[0]) * c[0];
                s += 6 * a[1] * b[1] * c[1] * (1 - a[0]) * (1 - a[0]) * (1 - b[0]) * f((1 - l1 - l2 - l3) * p[0] + l1 * p[1] + l2 * p[2] + l3 * p[3]);
            }
        }
        return s;
    }
    template <int N, class F>
    double integral(const mgen::Data<N> & d, int e, const F & f)
    {
        P3 p[4];
        for (int i = 0; i <= N; ++i) p[i] = d.x[d.c[e][i]];
        return d.measure(e) * average(N, p, f);
    }
    template <int N, class F>
    double integral(const mgen::Data<N> & d, const F & f)
    {
        double s = 0;
        for (int e = 0; e < (int) d.c.size(); ++e) s += integral(d, e, f);
        return s;
    }
    // a scalar field of the library
    template <int D, class F>
    auto field(const F & f)
    {
        return mito::functions::function([f](const mgen::cart_t<D> & x) { return f(mgen::p3(x)); });
    }
}
