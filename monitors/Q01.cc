// Q01: quadrature rules are exact up to their declared degree
#include "poly.h"
#include <mito/fields.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>

using mgen::P3;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;
namespace quad = mito::quadrature;

static double factorial(int n) { return n <= 1 ? 1 : n * factorial(n - 1); }

// the rule itself, on the reference cell
template <int N, int R>
static void rule(vm::Case & c)
{
    auto & r = c.rng;
    using ref_t = mito::geometry::reference_simplex_t<N>;
    using rule_t = quad::quadrature_rule_t<quad::GAUSS, ref_t, R>;
    rule_t rule;
    constexpr int Q = rule_t::npoints;
    double total = 0;
    for (int q = 0; q < Q; ++q) {
        auto x = rule.point(q);
        double rest = 1;
        for (int i = 0; i < N; ++i) { rest -= x[i]; c.check("rule:point-inside", x[i] > -1e-15 && x[i] < 1 + 1e-15, [&] { return vm::str("point ", q, " coordinate ", x[i]); }); }
        c.check("rule:point-inside", rest > -1e-15, [&] { return vm::str("point ", q, " last coordinate ", rest); });
        for (int p = 0; p < q; ++p) {
            double d = 0;
            for (int i = 0; i < N; ++i) d = std::max(d, std::fabs(rule.point(p)[i] - x[i]));
            c.check("rule:points-distinct", d > 1e-6);
        }
        total += rule.weight(q);
    }
    c.near("rule:weights-sum-to-one", total, 1, 1e-14);
    for (auto & e : poly::monomials(N, R)) {
        double s = 0;
        for (int q = 0; q < Q; ++q) { double v = rule.weight(q); for (int i = 0; i < N; ++i) v *= poly::ipow(rule.point(q)[i], e[i]); s += v; }
        int deg = e[0] + e[1] + e[2];
        double exact = factorial(e[0]) * factorial(e[1]) * factorial(e[2]) * factorial(N) / factorial(deg + N);
        c.near_abs("rule:monomials", s, exact, 2e-15, vm::str("degree ", R, " rule, monomial ", vm::seq(e)));
        c.distinct(vm::hcomb(vm::hseq(e), R * 10 + N));
    }
    // products of affine functions
    for (int k = 0; k < 20; ++k) {
        std::vector<std::array<double, 4>> f(r.range(1, R));
        double b = 1;
        for (auto & a : f) { double m = 0; for (int i = 0; i <= N; ++i) { a[i] = r.real(-2, 2); m += std::fabs(a[i]); } b *= m; }
        auto value = [&](const P3 & x) { double v = 1; for (auto & a : f) { double l = a[N]; for (int i = 0; i < N; ++i) l += a[i] * x[i]; v *= l; } return v; };
        P3 ref[4] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
        double s = 0;
        for (int q = 0; q < Q; ++q) { P3 x {}; for (int i = 0; i < N; ++i) x[i] = rule.point(q)[i]; s += rule.weight(q) * value(x); }
        c.near("rule:products-of-affine-functions", s, poly::average(N, ref, value), 1e-14, 1 + b);
    }
}

template <int N, int D>
static mgen::Data<N> flat(vm::Rng & r, bool one)
{
    mgen::Data<N> d;
    if (one) {
        d.x.resize(N + 1);
        std::array<int, N + 1> v;
        for (int i = 0; i <= N; ++i) { v[i] = i; P3 p {}; for (int a = 0; a < N; ++a) p[a] = r.real(-1, 1); d.x[i] = p; }
        d.c = { v };
        if (d.measure(0) < (N == 3 ? 0.01 : 0.03)) return flat<N, D>(r, one);
        d.orient_positively();
        if constexpr (N > 1) d.scramble(r);
    } else {
        mgen::Opt o;
        o.max = N == 3 ? 2 : 3;
        d = mgen::random<N>(r, o);
    }
    mgen::embed(d, D, r, true);
    double s = std::pow(10.0, r.coin(0.3) ? r.real(-3, 2) : 0);
    d.map([&](const P3 & p) { return s * p; });
    return d;
}

// a constant vector as a field
template <int D>
static auto constant(const P3 & n)
{
    mito::tensor::vector_t<D> v;
    for (int i = 0; i < D; ++i) v[i] = n[i];
    return mito::functions::function([v](const mgen::cart_t<D> &) { return v; });
}

template <int N, int D, class M, class CS>
static auto flat_manifold(const mgen::Data<N> & d, const M & mesh, const CS & cs, double & sign)
{
    if constexpr (N == D) {
        sign = 1;
        return mito::manifolds::manifold(mesh, cs);
    } else {
        auto & v = d.c[0];
        P3 t = d.x[v[1]] - d.x[v[0]];
        if constexpr (D == 2) {
            P3 n = (1 / mgen::norm(t)) * P3 { t[1], -t[0], 0 };
            sign = 1; // det(n, t) > 0
            return mito::manifolds::submanifold(mesh, cs, constant<2>(n));
        } else if constexpr (N == 2) {
            P3 n = mgen::cross(t, d.x[v[2]] - d.x[v[0]]);
            sign = 1; // det(n, t1, t2) > 0
            return mito::manifolds::submanifold(mesh, cs, constant<3>((1 / mgen::norm(n)) * n));
        } else {
            P3 a = std::fabs(t[0]) < 0.7 * mgen::norm(t) ? P3 { 1, 0, 0 } : P3 { 0, 1, 0 };
            P3 n1 = mgen::cross(t, a);
            n1 = (1 / mgen::norm(n1)) * n1;
            P3 n2 = mgen::cross(t, n1);
            n2 = (1 / mgen::norm(n2)) * n2;
            sign = mgen::dot(n1, mgen::cross(n2, t)) > 0 ? 1 : -1;
            return mito::manifolds::submanifold(mesh, cs, constant<3>(n1), constant<3>(n2));
        }
    }
}

template <int N, int D, int R>
static void cells(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(20));
    auto d = flat<N, D>(r, r.coin(0.6));
    double big = 0;
    for (auto & p : d.x) for (double a : p) big = std::max(big, std::fabs(a));
    using L = mgen::Lib<N, D>;
    auto integrals = [&](const mgen::Data<N> & d, const std::vector<poly::Poly> & ps) {
        L lib;
        lib.make_nodes(d.x);
        lib.pollute(d, r, r.coin(0.3) ? 0.4 : 0);
        typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
        lib.fill(mesh, d);
        double sign = 1;
        auto manifold = flat_manifold<N, D>(d, mesh, lib.cs, sign);
        auto integrator = quad::integrator<quad::GAUSS, R>(manifold);
        std::vector<double> s;
        for (auto & p : ps) s.push_back(sign * integrator.integrate(poly::field<D>(p)));
        return s;
    };
    std::vector<poly::Poly> ps;
    for (int k = 0; k < 4; ++k) ps.push_back(poly::random(r, D, k == 0 ? R : (int) r.range(0, R)));
    auto s = integrals(d, ps);
    double m = d.measure();
    for (int k = 0; k < 4; ++k)
        c.near("cells:polynomials-exact", s[k], poly::integral(d, ps[k]), 1e-12, m * ps[k].bound(big), vm::str("degree ", R, " rule, polynomial of degree ", ps[k].degree(), ", ", d.c.size(), " cells"));
    // another numbering
    auto e = d;
    e.scramble(r);
    auto z = integrals(e, ps);
    for (int k = 0; k < 4; ++k) c.near("cells:independent-of-numbering", z[k], s[k], 1e-12, m * ps[k].bound(big));
    c.distinct(vm::hcomb(vm::hreal(d.x[0][0]), R));
    c.sample(vm::str(d.c.size(), " cells of dimension ", N, " in ", D, "D, degree ", R, ": ", s[0]));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("rule segment 1", 5, 400, rule<1, 1>);
    vm::section("rule segment 2", 5, 400, rule<1, 2>);
    vm::section("rule triangle 1", 5, 400, rule<2, 1>);
    vm::section("rule triangle 2", 5, 400, rule<2, 2>);
    vm::section("rule triangle 3", 5, 400, rule<2, 3>);
    vm::section("rule triangle 4", 5, 400, rule<2, 4>);
    vm::section("rule tetrahedron 1", 5, 400, rule<3, 1>);
    vm::section("rule tetrahedron 2", 5, 400, rule<3, 2>);
    vm::section("segments 1D degree 1", 30, 9000, cells<1, 1, 1>);
    vm::section("segments 1D degree 2", 30, 9000, cells<1, 1, 2>);
    vm::section("segments 2D degree 1", 30, 9000, cells<1, 2, 1>);
    vm::section("segments 2D degree 2", 30, 9000, cells<1, 2, 2>);
    vm::section("segments 3D degree 1", 30, 9000, cells<1, 3, 1>);
    vm::section("segments 3D degree 2", 30, 9000, cells<1, 3, 2>);
    vm::section("triangles 2D degree 1", 30, 9000, cells<2, 2, 1>);
    vm::section("triangles 2D degree 2", 30, 9000, cells<2, 2, 2>);
    vm::section("triangles 2D degree 3", 30, 9000, cells<2, 2, 3>);
    vm::section("triangles 2D degree 4", 30, 9000, cells<2, 2, 4>);
    vm::section("triangles 3D degree 1", 20, 5000, cells<2, 3, 1>);
    vm::section("triangles 3D degree 2", 20, 5000, cells<2, 3, 2>);
    vm::section("triangles 3D degree 3", 20, 5000, cells<2, 3, 3>);
    vm::section("triangles 3D degree 4", 20, 5000, cells<2, 3, 4>);
    vm::section("tetrahedra degree 1", 20, 5000, cells<3, 3, 1>);
    vm::section("tetrahedra degree 2", 20, 5000, cells<3, 3, 2>);
    return vm::finish();
}
