// A02: differential forms are multilinear and wedge products alternate
#include "vmon.h"
#include <mito/tensor.h>

namespace mt = mito::tensor;
using mt::_;

template <int D>
using V = mt::vector_t<D>;

template <int D>
static V<D> rvec(vm::Rng & r)
{
    V<D> v;
    double s = r.coin(0.1) ? 1e3 : 1;
    bool sparse = r.coin(0.2), integer = r.coin(0.2);
    for (int i = 0; i < D; ++i) v[i] = sparse && r.coin() ? 0.0 : integer ? (double) r.range(-5, 5) : s * r.real(-2, 2);
    return v;
}
template <int D>
struct Metric {
    double m[D][D];
};
template <int D>
static mt::symmetric_matrix_t<D> rsym(vm::Rng & r, Metric<D> & g)
{
    mt::symmetric_matrix_t<D> m;
    for (int i = 0; i < D; ++i) for (int j = i; j < D; ++j) { double x = r.real(-1, 1) + (i == j ? 2 : 0); m[{ i, j }] = x; g.m[i][j] = g.m[j][i] = x; }
    return m;
}
template <int D>
static mt::diagonal_matrix_t<D> rdiag(vm::Rng & r, Metric<D> & g)
{
    mt::diagonal_matrix_t<D> m;
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) g.m[i][j] = 0;
    for (int i = 0; i < D; ++i) { double x = r.real(0.2, 3); m[{ i, i }] = x; g.m[i][i] = x; }
    return m;
}
template <int D>
static double contract(const Metric<D> & g, const V<D> & a, const V<D> & b)
{
    double s = 0;
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) s += a[i] * g.m[i][j] * b[j];
    return s;
}
// scale-aware comparison: terms up to |..| large cancel
static void same(vm::Case & c, const char * rule, double got, double want, double scale, const std::string & what = "")
{
    c.near_abs(rule, got, want, 1e-12 * (scale + 1e-3), what);
}

// run the laws with three one-forms a, b, c that must equal the covectors A, B, C
template <int D, class FA, class FB, class FC>
static void laws(vm::Case & c, const FA & a, const FB & b, const FC & d, const std::array<std::function<double(const V<D> &)>, 3> & ref)
{
    auto & r = c.rng;
    auto x = rvec<D>(r), y = rvec<D>(r), z = rvec<D>(r);
    double k = r.real(-3, 3), l = r.real(-3, 3);
    auto A = ref[0], B = ref[1], C = ref[2];
    auto mag = [&](const V<D> & v) { return std::max({ std::fabs(A(v)), std::fabs(B(v)), std::fabs(C(v)) }) + 1; };
    double s1 = mag(x) + mag(y) + mag(z) + 10, s2 = s1 * s1, s3 = s2 * s1;
    double a0 = a(x);
    same(c, "one-form:evaluates-the-contraction", a(x), A(x), s1);
    same(c, "one-form:evaluates-the-contraction", b(y), B(y), s1);
    same(c, "one-form:evaluates-the-contraction", d(z), C(z), s1);
    V<D> comb = k * x + l * y;
    same(c, "one-form:linear", a(comb), k * A(x) + l * A(y), s1 * 10);
    same(c, "forms:scalar-multiple", (k * a)(x), k * A(x), s1 * 3);
    same(c, "forms:scalar-multiple", (a * k)(x), k * A(x), s1 * 3);
    same(c, "forms:sum", (a + b)(x), A(x) + B(x), s1);
    same(c, "forms:difference", (a - b)(x), A(x) - B(x), s1);
    same(c, "forms:negation", (-a)(x), -A(x), s1);
    same(c, "forms:linear-combination", (k * a + l * b - d)(x), k * A(x) + l * B(x) - C(x), s1 * 10);
    c.check("one-form:evaluation-repeatable", a(x) == a0);
    same(c, "one-form:dummy-slot-keeps-the-form", a(_)(x), A(x), s1);
    same(c, "wedge:of-one-form-is-itself", mt::wedge(a)(x), A(x), s1);

    // tensor products
    auto t2 = mt::tensor(a, b);
    auto t3 = mt::tensor(a, b, d);
    same(c, "tensor2:product", t2(x, y), A(x) * B(y), s2);
    same(c, "tensor2:operator", (a * b)(x, y), A(x) * B(y), s2);
    same(c, "tensor2:partial", t2(x, _)(y), A(x) * B(y), s2);
    same(c, "tensor2:partial", t2(_, y)(x), A(x) * B(y), s2);
    same(c, "tensor2:partial", t2(_, _)(x, y), A(x) * B(y), s2);
    double p3 = A(x) * B(y) * C(z);
    same(c, "tensor3:product", t3(x, y, z), p3, s3);
    same(c, "tensor3:partial", t3(x, _, _)(y, z), p3, s3);
    same(c, "tensor3:partial", t3(_, y, _)(x, z), p3, s3);
    same(c, "tensor3:partial", t3(_, _, z)(x, y), p3, s3);
    same(c, "tensor3:partial", t3(x, y, _)(z), p3, s3);
    same(c, "tensor3:partial", t3(x, _, z)(y), p3, s3);
    same(c, "tensor3:partial", t3(_, y, z)(x), p3, s3);
    same(c, "tensor3:partial-twice", t3(x, _, _)(y, _)(z), p3, s3);
    same(c, "forms:sum-of-two-forms", (t2 + mt::tensor(b, d))(x, y), A(x) * B(y) + B(x) * C(y), s2 * 2);
    same(c, "forms:combination-of-two-forms", (k * t2 - l * mt::tensor(d, b))(x, y), k * A(x) * B(y) - l * C(x) * B(y), s2 * 10);

    // wedge of two one-forms
    auto w2 = mt::wedge(a, b);
    double W2 = A(x) * B(y) - A(y) * B(x);
    same(c, "wedge2:alternating-sum", w2(x, y), W2, s2);
    same(c, "wedge2:antisymmetric-in-arguments", w2(y, x), -W2, s2);
    same(c, "wedge2:antisymmetric-in-factors", mt::wedge(b, a)(x, y), -W2, s2);
    same(c, "wedge2:vanishes-on-repeated-arguments", w2(x, x), 0, s2);
    same(c, "wedge2:vanishes-on-repeated-factors", mt::wedge(a, a)(x, y), 0, s2);
    same(c, "wedge2:partial", w2(x, _)(y), W2, s2);
    same(c, "wedge2:partial", w2(_, y)(x), W2, s2);
    same(c, "wedge2:partial", w2(_, _)(x, y), W2, s2);
    same(c, "wedge2:linear", w2(comb, z), k * (A(x) * B(z) - A(z) * B(x)) + l * (A(y) * B(z) - A(z) * B(y)), s2 * 10);
    same(c, "wedge2:bilinear-in-factors", mt::wedge(k * a + l * d, b)(x, y), k * W2 + l * (C(x) * B(y) - C(y) * B(x)), s2 * 10);

    // wedge with scalars
    same(c, "wedge:scalar-one-form", mt::wedge(k, a)(x), k * A(x), s1 * 3);
    same(c, "wedge:one-form-scalar", mt::wedge(a, k)(x), k * A(x), s1 * 3);
    same(c, "wedge:scalar-two-form", mt::wedge(k, w2)(x, y), k * W2, s2 * 3);
    same(c, "wedge:two-form-scalar", mt::wedge(w2, k)(x, y), k * W2, s2 * 3);

    // wedge of three one-forms
    auto w3 = mt::wedge(a, b, d);
    auto det = [&](const auto & f, const auto & g, const auto & h, const V<D> & u, const V<D> & v, const V<D> & w) {
        return f(u) * (g(v) * h(w) - g(w) * h(v)) - f(v) * (g(u) * h(w) - g(w) * h(u)) + f(w) * (g(u) * h(v) - g(v) * h(u));
    };
    double W3 = det(A, B, C, x, y, z);
    same(c, "wedge3:determinant", w3(x, y, z), W3, s3 * 6);
    same(c, "wedge3:alternating", w3(y, x, z), -W3, s3 * 6);
    same(c, "wedge3:alternating", w3(x, z, y), -W3, s3 * 6);
    same(c, "wedge3:alternating", w3(z, y, x), -W3, s3 * 6);
    same(c, "wedge3:cyclic", w3(y, z, x), W3, s3 * 6);
    same(c, "wedge3:vanishes-on-repeated-arguments", w3(x, x, z), 0, s3 * 6);
    same(c, "wedge3:vanishes-on-repeated-arguments", w3(x, y, y), 0, s3 * 6);
    same(c, "wedge3:vanishes-on-repeated-arguments", w3(x, y, x), 0, s3 * 6);
    same(c, "wedge3:vanishes-on-repeated-factors", mt::wedge(a, b, a)(x, y, z), 0, s3 * 6);
    same(c, "wedge3:antisymmetric-in-factors", mt::wedge(b, a, d)(x, y, z), -W3, s3 * 6);
    same(c, "wedge3:partial", w3(x, _, _)(y, z), W3, s3 * 6);
    same(c, "wedge3:partial", w3(x, y, _)(z), W3, s3 * 6);
    same(c, "wedge3:partial", w3(x, _, z)(y), W3, s3 * 6);
    same(c, "wedge3:partial", w3(_, y, z)(x), W3, s3 * 6);
    same(c, "wedge3:partial", w3(_, y, _)(x, z), W3, s3 * 6);
    same(c, "wedge3:partial", w3(_, _, z)(x, y), W3, s3 * 6);
    same(c, "wedge3:partial-twice", w3(x, _, _)(y, _)(z), W3, s3 * 6);
    same(c, "wedge3:scaled", (k * w3)(x, y, z), k * W3, s3 * 20);

    // wedge of a one-form and a two-form
    auto w12 = mt::wedge(a, mt::wedge(b, d));
    same(c, "wedge12:associative", w12(x, y, z), W3, s3 * 6);
    same(c, "wedge12:alternating", w12(y, x, z), -W3, s3 * 6);
    same(c, "wedge12:alternating", w12(x, z, y), -W3, s3 * 6);
    same(c, "wedge12:vanishes-on-repeated-arguments", w12(x, x, z), 0, s3 * 6);
    same(c, "wedge12:vanishes-on-repeated-arguments", w12(x, z, z), 0, s3 * 6);
    same(c, "wedge12:commutes-with-two-forms", mt::wedge(d, w2)(x, y, z), W3, s3 * 6);
    same(c, "wedge12:repeated-factor", mt::wedge(a, w2)(x, y, z), 0, s3 * 6);
    same(c, "wedge12:partial", w12(x, y, _)(z), W3, s3 * 6);
    // the two-form obtained by contracting the first slot of a three-form
    auto cw = w3(x, _, _);
    auto X = [&](const V<D> & u, const V<D> & v) { return det(A, B, C, x, u, v); };
    auto u = rvec<D>(r);
    double s4 = s3 * mag(u) * 6;
    same(c, "wedge12:with-contracted-form", mt::wedge(a, cw)(u, y, z), A(u) * X(y, z) - A(y) * X(u, z) + A(z) * X(u, y), s4 * 3);
    if (D == 2) same(c, "wedge3:vanishes-in-two-dimensions", w3(x, y, z), 0, s3 * 6);
    uint64_t h = 3;
    for (int i = 0; i < D; ++i) h = vm::hcomb(h, vm::hreal(x[i]) + vm::hreal(z[i]));
    c.distinct(h);
    if (c.wants_sample()) c.sample(vm::str("x=", vm::seq(x), " y=", vm::seq(y), " z=", vm::seq(z), " wedge3=", W3));
}

template <int D>
static void identity_forms(vm::Case & c)
{
    auto & r = c.rng;
    const auto p = rvec<D>(r), q = rvec<D>(r), s = rvec<D>(r);
    auto dot = [](V<D> a) { return std::function<double(const V<D> &)>([a](const V<D> & v) { double t = 0; for (int i = 0; i < D; ++i) t += a[i] * v[i]; return t; }); };
    laws<D>(c, mt::one_form(p), mt::one_form(q), mt::one_form(s), { dot(p), dot(q), dot(s) });
}
template <int D>
static void metric_forms(vm::Case & c)
{
    auto & r = c.rng;
    const auto p = rvec<D>(r), q = rvec<D>(r), s = rvec<D>(r);
    Metric<D> g, h;
    auto m = rsym<D>(r, g);
    auto n = rdiag<D>(r, h);
    auto dot = [](V<D> a, Metric<D> g) { return std::function<double(const V<D> &)>([a, g](const V<D> & v) { return contract<D>(g, a, v); }); };
    laws<D>(c, mt::one_form(p, m), mt::one_form(q, n), mt::one_form(s, m), { dot(p, g), dot(q, h), dot(s, g) });
}
template <int D>
static void functor_forms(vm::Case & c)
{
    auto & r = c.rng;
    const auto p = rvec<D>(r), q = rvec<D>(r), s = rvec<D>(r);
    auto lin = [](V<D> a) { return [a](const V<D> & v) { double t = 0; for (int i = D - 1; i >= 0; --i) t += v[i] * a[i]; return t; }; };
    auto a = mt::one_form(lin(p));
    auto b = 2.0 * mt::one_form(lin(q)) - a;
    V<D> bq = 2.0 * q - p;
    laws<D>(c, a, b, mt::one_form(lin(s)), { std::function<double(const V<D> &)>(lin(p)), lin(bq), lin(s) });
    // forms given by plain functions of two arguments
    auto two = mt::form<2>([p, q, lin](const V<D> & x, const V<D> & y) { return lin(p)(x) * lin(q)(y) - lin(p)(y) * lin(q)(x); });
    auto x = rvec<D>(r), y = rvec<D>(r), z = rvec<D>(r);
    auto A = lin(s), B = lin(p), C = lin(q);
    double want = A(x) * (B(y) * C(z) - B(z) * C(y)) - A(y) * (B(x) * C(z) - B(z) * C(x)) + A(z) * (B(x) * C(y) - B(y) * C(x));
    double sc = 1;
    for (auto & v : { x, y, z }) sc *= 3 + std::fabs(A(v)) + std::fabs(B(v)) + std::fabs(C(v));
    same(c, "wedge12:of-plain-two-form", mt::wedge(mt::one_form(lin(s)), two)(x, y, z), want, 6 * sc);
}

// the basis vectors and unit matrices that go by a name
template <int D>
static void named(vm::Case & c)
{
    auto a = rvec<D>(c.rng), v = rvec<D>(c.rng);
    auto basis = [&](const char * name, const V<D> & e, int i) {
        same(c, "named-units", mt::one_form(e, mt::identity<D>)(v), v[i], 3 + std::fabs(v[i]), name);
        same(c, "named-units", mt::one_form(a, mt::identity<D>)(e), a[i], 3 + std::fabs(a[i]), name);
    };
    auto unit = [&](const char * name, const mt::matrix_t<D> & m, int i, int j) {
        auto form = mt::one_form([m, a](const V<D> & x) -> double { return (m * a) * x; });
        same(c, "named-units", form(v), v[i] * a[j], 3 + std::fabs(v[i] * a[j]), name);
    };
    basis("e_0", mt::e_0<D>, 0);
    basis("e_1", mt::e_1<D>, 1);
    basis("e", mt::e<D - 1, D>, D - 1);
    unit("e_00", mt::e_00<D>, 0, 0);
    unit("e_01", mt::e_01<D>, 0, 1);
    unit("e_10", mt::e_10<D>, 1, 0);
    unit("e_11", mt::e_11<D>, 1, 1);
    if constexpr (D > 2) {
        basis("e_2", mt::e_2<D>, 2);
        unit("e_02", mt::e_02<D>, 0, 2);
        unit("e_20", mt::e_20<D>, 2, 0);
        unit("e_12", mt::e_12<D>, 1, 2);
        unit("e_21", mt::e_21<D>, 2, 1);
        unit("e_22", mt::e_22<D>, 2, 2);
    }
    auto I = mt::identity<D>;
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) c.check("named:identity", I[{ i, j }] == (i == j));
    c.distinct(vm::hreal(v[0] + 3 * a[0]));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("identity-2d", 400, 40000, identity_forms<2>);
    vm::section("identity-3d", 800, 80000, identity_forms<3>);
    vm::section("metric-2d", 400, 40000, metric_forms<2>);
    vm::section("metric-3d", 800, 80000, metric_forms<3>);
    vm::section("functors-3d", 800, 80000, functor_forms<3>);
    vm::section("functors-4d", 400, 40000, functor_forms<4>);
    vm::section("named-2d", 100, 1000, named<2>);
    vm::section("named-3d", 100, 1000, named<3>);
    vm::section("named-4d", 100, 1000, named<4>);
    return vm::finish();
}
