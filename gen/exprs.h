// Run the library's expressions against the reference evaluation.
#pragma once
#include "jet.h"
#include <memory>
#include <mito/functions.h>
#include <mito/fields.h>
#include <mito/geometry.h>

namespace F = mito::functions;
namespace T = mito::tensor;
namespace G = mito::geometry;
using jet::arg, jet::cst, jet::sub, jet::fn, jet::quo, jet::neg, jet::after, jet::tr, jet::det, jet::inve, jet::dy, jet::lin, jet::E;
using namespace jet;

using S_ = double;
template <int N> using V_ = T::vector_t<N>;
template <int R, int C> using M_ = T::matrix_t<R, C>;
template <int N> using C_ = G::coordinates_t<N, G::CARTESIAN>;
using P2_ = G::coordinates_t<2, G::POLAR>;
using P3_ = G::coordinates_t<3, G::SPHERICAL>;

// the shape and number of components of a type
template <class X> struct Shape;
template <> struct Shape<double> { static constexpr int r = 1, c = 1, n = 1; };
template <> struct Shape<int> { static constexpr int r = 1, c = 1, n = 1; };
template <class X> requires(T::vector_c<X>) struct Shape<X> { static constexpr int r = X::size, c = 1, n = X::size; };
template <class X> requires(T::matrix_c<X>) struct Shape<X> { static constexpr int r = X::dims[0], c = X::dims[1], n = r * c; };
template <class X> requires(G::coordinates_c<X>) struct Shape<X> { static constexpr int r = X::dim, c = 1, n = X::dim; };

template <class X> X make(const std::vector<double> & v)
{
    if constexpr (std::is_same_v<X, double>)
        return v[0];
    else if constexpr (G::coordinates_c<X>) {
        if constexpr (X::dim == 1) return X({ v[0] });
        else if constexpr (X::dim == 2) return X({ v[0], v[1] });
        else return X({ v[0], v[1], v[2] });
    } else {
        X x;
        for (int i = 0; i < Shape<X>::n; ++i) x[i] = v[i];
        return x;
    }
}
template <class Y> double entry(const Y & y, int i, int j)
{
    if constexpr (std::is_arithmetic_v<Y>) return y;
    else if constexpr (T::matrix_c<Y>) return y[{ i, j }];
    else return y[i];
}
// flattened entry
template <class Y> double flat(const Y & y, int k)
{
    if constexpr (std::is_arithmetic_v<Y>) return y;
    else return entry(y, k / Shape<Y>::c, k % Shape<Y>::c);
}

// a functor with a state on the heap: x_i^2 + c
template <class X> auto stateful(int i, double c)
{
    struct square {
        std::vector<double> c;
        int i;
        auto operator()(const X & x) const -> double
        {
            if constexpr (std::is_arithmetic_v<X>) return x * x + c.at(2);
            else return x[i] * x[i] + c.at(2);
        }
    };
    return F::function(square { { 0.0, 0.0, c, 0.0 }, i });
}

inline std::vector<double> place(vm::Rng & r, int n)
{
    std::vector<double> v;
    int kind = r.pick(11); // 9: next to one, 10: far away
    for (int i = 0; i < n; ++i)
        v.push_back(kind == 0 ? (double) r.range(-2, 2) : kind == 1 ? r.real(-0.01, 0.01) : kind == 2 ? r.real(-8, 8) : kind == 9 ? (r.coin() ? -1 : 1) * (1 + (r.coin() ? -1 : 1) * std::pow(10.0, -r.real(0.5, 13))) : kind == 10 ? (r.coin() ? -1 : 1) * std::pow(10.0, r.real(3, 14)) : kind == 3 ? (r.coin() ? -1 : 1) * std::pow(10.0, r.real(-9, 5)) : r.real(-2, 2));
    return v;
}

inline Ten seed_at(const std::vector<double> & v, int r, int c, int order)
{
    nvars() = (int) v.size();
    jet::order() = order;
    Ten t(r, c);
    for (size_t i = 0; i < v.size(); ++i) t.x[i] = J::var(v[i], (int) i);
    return t;
}

inline Ten evaluate(const E & ref, const Ten & x)
{
    singular() = false;
    Ten t = ref(x);
    if (singular())
        for (auto & j : t.x) {
            j.v.e = INFINITY;
            for (auto & g : j.g) g.e = INFINITY;
            for (auto & h : j.h) h.e = INFINITY;
        }
    return t;
}

// the subscript of a function by flat (row-major) index where the storage is, else by multi-index
template <int I, int K, class Fn_> auto flatsub(const Fn_ & f)
{
    using Y = typename Fn_::output_type;
    if constexpr (Y::size == Shape<Y>::n) return f[I * Shape<Y>::c + K];
    else {
        // where in the packed storage this entry is, if it is stored
        Y probe;
        for (int k = 0; k < (int) Y::size; ++k) probe[k] = k + 1;
        int at = (int) entry(probe, I, K) - 1;
        // (an entry that is not stored is zero)
        return (at < 0 ? 0.0 : 1.0) * f[at < 0 ? 0 : at];
    }
}

// compare: true if the place is well conditioned (so the comparison was made)
inline bool agree(vm::Case & c, const char * rule, double got, Err want, const char * text, const std::vector<double> & at, const std::string & what = "")
{
    double tol = 256 * 2.3e-16 * want.e + 1e-300;
    if (!std::isfinite(want.v) || !std::isfinite(want.e) || tol > 1e-6 * (1 + std::fabs(want.v))) {
        c.count("ill-conditioned, skipped");
        return false;
    }
    c.check(rule, std::isfinite(got) && std::fabs(got - want.v) <= tol,
        [&] { return vm::str(text, " at ", vm::seq(at), " ", what, " observed ", got, " expected ", want.v, " tol ", tol); });
    return true;
}

template <class X, class Fn_>
void values(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    using input_t = typename Fn_::input_type;
    static_assert(std::is_same_v<input_t, X>);
    auto & r = c.rng;
    // copies of the expression, kept elsewhere
    auto copy = std::make_unique<Fn_>(f);
    auto second = std::make_unique<Fn_>(*copy);
    copy.reset();
    bool any = false;
    for (int k = 0; k < places; ++k) {
        auto v = place(r, Shape<X>::n);
        X x = make<X>(v);
        auto y = f(x);
        using Y = decltype(y);
        Ten t = evaluate(ref, seed_at(v, Shape<X>::r, Shape<X>::c, 0));
        c.check("shape", Shape<Y>::r == t.r && Shape<Y>::c == t.c, [&] { return vm::str(text, " shape ", Shape<Y>::r, "x", Shape<Y>::c, " expected ", t.r, "x", t.c); });
        for (int i = 0; i < t.r; ++i)
            for (int j = 0; j < t.c; ++j) {
                any |= agree(c, "value", entry(y, i, j), t.at(i, j).v, text, v);
                double a = entry(y, i, j), b = entry(f(x), i, j), d = entry((*second)(x), i, j);
                auto same = [](double p, double q) { return p == q || (std::isnan(p) && std::isnan(q)); };
                c.check("repeatable", same(a, b), [&] { return vm::str(text, " at ", vm::seq(v), ": ", a, " then ", b); });
                c.check("copy-evaluates-alike", same(a, d), [&] { return vm::str(text, " at ", vm::seq(v), ": ", a, " copy ", d); });
            }
        c.distinct(vm::hcomb(vm::hstr(text), vm::hseq(std::vector<uint64_t> { vm::hreal(v[0]), vm::hreal(v.back()) })));
    }
    if (!any) c.trivial();
    if (c.wants_sample()) c.sample(text);
}

template <class X, class Fn_>
void derivatives(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto & r = c.rng;
    std::vector<std::vector<double>> at;
    std::vector<Ten> want;
    for (int k = 0; k < places; ++k) {
        at.push_back(place(r, n));
        want.push_back(evaluate(ref, seed_at(at.back(), Shape<X>::r, Shape<X>::c, 1)));
    }
    // partial derivatives
    [&]<size_t... I>(std::index_sequence<I...>) {
        (([&] {
             auto d = F::derivative<(int) I>(f);
             for (int k = 0; k < places; ++k) {
                 auto y = d(make<X>(at[k]));
                 using Y = decltype(y);
                 auto & t = want[k];
                 if constexpr (Shape<Y>::n == 1) {
                     // identically vanishing derivatives may be represented by a zero scalar
                     if (t.r * t.c > 1) c.check("shape", entry(y, 0, 0) == 0, text);
                     for (int q = 0; q < t.r * t.c; ++q) agree(c, "partial-derivative", entry(y, 0, 0), t.x[q].g[I], text, at[k], vm::str("d", I));
                 } else {
                     c.check("shape", Shape<Y>::r == t.r && Shape<Y>::c == t.c, [&] { return vm::str(text, " d", I); });
                     for (int q = 0; q < t.r * t.c; ++q) agree(c, "partial-derivative", flat(y, q), t.x[q].g[I], text, at[k], vm::str("d", I, " entry ", q));
                 }
             }
         }()),
            ...);
    }(std::make_index_sequence<n>());
    for (auto & v : at) c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    if (c.wants_sample()) c.sample(text);
}

template <class X, class Fn_>
void jacobian(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto d = F::derivative(f);
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, Shape<X>::r, Shape<X>::c, 1));
        auto y = d(make<X>(v));
        using Y = decltype(y);
        using O = typename Fn_::output_type;
        // the row that goes with each output entry (symmetric and diagonal outputs have one row per stored entry)
        constexpr int stored = [] { if constexpr (std::is_arithmetic_v<O>) return 1; else return (int) O::size; }();
        c.check("shape", Shape<Y>::n == stored * n, [&] { return vm::str(text, " derivative"); });
        for (int q = 0; q < t.r * t.c; ++q) {
            int row = q;
            if constexpr (stored != Shape<O>::n) {
                O probe;
                for (int k = 0; k < stored; ++k) probe[k] = k + 1;
                row = (int) entry(probe, q / t.c, q % t.c) - 1;
                if (row < 0) continue;
            }
            for (int i = 0; i < n; ++i) agree(c, "derivative-matrix", flat(y, row * n + i), t.x[q].g[i], text, v, vm::str("row ", row, " column ", i));
        }
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
}

template <class X, int I, int K, class Fn_>
void second(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto d = F::derivative<K>(F::derivative<I>(f));
    auto d2 = F::derivative<I>(F::derivative<K>(f));
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, Shape<X>::r, Shape<X>::c, 2));
        auto y = d(make<X>(v));
        auto z = d2(make<X>(v));
        for (int q = 0; q < t.r * t.c; ++q) {
            agree(c, "second-derivative", flat(y, Shape<decltype(y)>::n == 1 ? 0 : q), t.x[q].h[I * n + K], text, v, vm::str("d", I, "d", K));
            agree(c, "mixed-derivatives-commute", flat(z, Shape<decltype(z)>::n == 1 ? 0 : q), t.x[q].h[I * n + K], text, v, vm::str("d", K, "d", I));
        }
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
}

// ---- calculus of fields in cartesian coordinates
template <class X, class Fn_>
void gradient_of(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto g = mito::fields::gradient(f);
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, n, 1, 1));
        X x = make<X>(v);
        auto y = g(x);
        using Y = decltype(y);
        c.check("shape", Shape<Y>::n == t.r * t.c * n, [&] { return vm::str(text, " gradient has ", Shape<Y>::n, " components"); });
        for (int q = 0; q < t.r * t.c; ++q)
            for (int i = 0; i < n; ++i) {
                if constexpr (T::matrix_c<Y>)
                    agree(c, "gradient", entry(y, q, i), t.x[q].g[i], text, v, vm::str("row ", q, " column ", i));
                else
                    agree(c, "gradient", entry(y, i, 0), t.x[q].g[i], text, v, vm::str("component ", i));
            }
        // contracted with a direction
        std::vector<double> w;
        for (int i = 0; i < n; ++i) w.push_back(c.rng.real(-1, 1));
        V_<n> dir;
        for (int i = 0; i < n; ++i) dir[i] = w[i];
        auto z = y * dir;
        for (int q = 0; q < t.r * t.c; ++q) {
            Err s;
            for (int i = 0; i < n; ++i) s = s + t.x[q].g[i] * Err(w[i]);
            agree(c, "directional-derivative", entry(z, q, 0), s, text, v, vm::str("component ", q));
        }
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
    if (c.wants_sample()) c.sample(text);
}

template <class X, class Fn_>
void divergence_of(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto g = mito::fields::divergence(f);
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, n, 1, 1));
        auto y = g(make<X>(v));
        using Y = decltype(y);
        // vectors: the trace of the gradient; tensors: row by row
        int rows = t.c == 1 ? 1 : t.r;
        c.check("shape", Shape<Y>::n == rows, [&] { return vm::str(text, " divergence has ", Shape<Y>::n, " components"); });
        for (int q = 0; q < rows; ++q) {
            Err s;
            for (int i = 0; i < n; ++i) s = s + (t.c == 1 ? t.x[i] : t.at(q, i)).g[i];
            agree(c, "divergence", flat(y, q), s, text, v, vm::str("component ", q));
        }
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
    if (c.wants_sample()) c.sample(text);
}

// f scalar: the divergence of the gradient is the trace of the Hessian
template <class X, class Fn_>
void laplacian_of(vm::Case & c, const Fn_ & f, const E & ref, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto g = mito::fields::divergence(mito::fields::gradient(f));
    auto h = mito::fields::gradient(mito::fields::gradient(f));
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, n, 1, 2));
        auto y = g(make<X>(v));
        auto z = h(make<X>(v));
        Err s;
        for (int i = 0; i < n; ++i) s = s + t.x[0].h[i * n + i];
        agree(c, "laplacian", flat(y, 0), s, text, v);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) agree(c, "hessian", entry(z, i, j), t.x[0].h[i * n + j], text, v, vm::str(i, ",", j));
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
}

// div(f v) = f div v + grad f . v, with each side evaluated by the library
template <class X, class A, class B>
void product_rule(vm::Case & c, const A & f, const B & w, const E & rf, const E & rw, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto l = mito::fields::divergence(f * w);
    auto r = f * mito::fields::divergence(w) + mito::fields::gradient(f) * w;
    E ref = rf * rw;
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        Ten t = evaluate(ref, seed_at(v, n, 1, 1));
        Err s;
        for (int i = 0; i < n; ++i) s = s + t.x[i].g[i];
        agree(c, "div-of-product", flat(l(make<X>(v)), 0), s, text, v, "left");
        agree(c, "div-of-product", flat(r(make<X>(v)), 0), s, text, v, "right");
    }
}

// fields of forms act pointwise
template <class X, class A, class B, class D>
void forms_of(vm::Case & c, const A & f, const B & g, const D & h, const E & rf, const E & rg, const E & rh, const char * text, int places)
{
    constexpr int n = Shape<X>::n;
    auto form = [](const auto & w) {
        return F::function([w](const X & x) { const V_<n> u = w(x); return T::one_form(u); });
    };
    const auto a = form(f), b = form(g), d = form(h);
    auto ab = mito::fields::wedge(a, b), abt = mito::fields::tensor(a, b);
    auto abd = mito::fields::wedge(a, b, d), abdt = mito::fields::tensor(a, b, d);
    for (int k = 0; k < places; ++k) {
        auto v = place(c.rng, n);
        X x = make<X>(v);
        Ten s = seed_at(v, n, 1, 0);
        Ten w[3] = { evaluate(rf, s), evaluate(rg, s), evaluate(rh, s) };
        V_<n> u[3];
        Err m[3][3];
        for (auto & p : u)
            for (int i = 0; i < n; ++i) p[i] = c.rng.real(-1, 1);
        for (int p = 0; p < 3; ++p)
            for (int q = 0; q < 3; ++q)
                for (int i = 0; i < n; ++i) m[p][q] = m[p][q] + w[p].x[i].v * Err(u[q][i]);
        auto pad = [](Err e, double s) { e.e += s; return e; };
        double big2 = std::fabs(m[0][0].v * m[1][1].v) + std::fabs(m[0][1].v * m[1][0].v);
        agree(c, "field-tensor-product", abt(x)(u[0], u[1]), m[0][0] * m[1][1], text, v);
        agree(c, "field-wedge", ab(x)(u[0], u[1]), pad(m[0][0] * m[1][1] - m[0][1] * m[1][0], big2), text, v);
        agree(c, "field-tensor-product", abdt(x)(u[0], u[1], u[2]), m[0][0] * m[1][1] * m[2][2], text, v);
        Err det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        agree(c, "field-wedge", abd(x)(u[0], u[1], u[2]), det, text, v);
        c.distinct(vm::hcomb(vm::hstr(text), vm::hreal(v[0])));
    }
}
