// C02: metric, basis and volume form of each coordinate system are compatible
#include "vmon.h"
#include <mito/geometry.h>

namespace mg = mito::geometry;
namespace mt = mito::tensor;
template <int D> using cart_t = mg::coordinates_t<D, mg::CARTESIAN>;
using polar_t = mg::coordinates_t<2, mg::POLAR>;
using sph_t = mg::coordinates_t<3, mg::SPHERICAL>;

// places anywhere: now and then of any size, many turns away, next to the poles
static double size_of(vm::Rng & r) { return std::pow(10.0, r.coin(0.3) ? r.range(-9, 9) : r.range(-1, 1)); }
static double turn(vm::Rng & r) { return r.coin(0.1) ? r.real(-60, 60) : r.real(-3.1, 3.1); }
static double polar_angle(vm::Rng & r)
{
    double t = r.coin(0.15) ? std::pow(10.0, -r.real(0, 3)) : r.real(0.15, 2.99);
    return r.coin(0.1) && t < 1 ? 3.14159265358979323846 - t : t;
}
template <class C> struct sys;
template <int D> struct sys<cart_t<D>> {
    static cart_t<D> make(vm::Rng & r) { mt::vector_t<D> v; double m = r.coin(0.3) ? size_of(r) : 5; for (int i = 0; i < D; ++i) v[i] = m * r.real(-1, 1); return cart_t<D>(v); }
    // Lame factors: lengths of the coordinate basis vectors
    static std::array<double, 3> lame(const cart_t<D> &) { return { 1, 1, 1 }; }
    static std::array<double, 3> cartesian(std::array<double, 3> x) { return x; }
};
template <> struct sys<polar_t> {
    static polar_t make(vm::Rng & r) { double m = size_of(r) * r.real(0.1, 1); return { m, turn(r) }; }
    static std::array<double, 3> lame(const polar_t & x) { return { 1, x[0], 0 }; }
    static std::array<double, 3> cartesian(std::array<double, 3> x) { return { x[0] * cos(x[1]), x[0] * sin(x[1]), 0 }; }
};
template <> struct sys<sph_t> {
    static sph_t make(vm::Rng & r) { double m = size_of(r) * r.real(0.1, 1), t = polar_angle(r); return { m, t, turn(r) }; }
    static std::array<double, 3> lame(const sph_t & x) { return { 1, x[0], x[0] * std::sin(x[1]) }; }
    static std::array<double, 3> cartesian(std::array<double, 3> x) { return { x[0] * sin(x[1]) * cos(x[2]), x[0] * sin(x[1]) * sin(x[2]), x[0] * cos(x[1]) }; }
};

template <int D>
static double det(const std::array<mt::vector_t<D>, D> & v)
{
    if constexpr (D == 1) return v[0][0];
    else if constexpr (D == 2) return v[0][0] * v[1][1] - v[0][1] * v[1][0];
    else return v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]);
}

template <class C>
static void space(vm::Case & c)
{
    static constexpr int D = C::dim;
    using ms = mg::metric_space<C>;
    auto & r = c.rng;
    const C x = sys<C>::make(r);
    auto h = sys<C>::lame(x);
    auto at = [&] { return vm::str("at (", x[0], D > 1 ? vm::str(", ", x[D > 1 ? 1 : 0]) : "", D > 2 ? vm::str(", ", x[D > 2 ? 2 : 0]) : "", ")"); };
    const auto g = ms::g(x);
    const auto gi = ms::g_inv(x);
    auto near = [&](const char * rule, double a, double b, double s) { c.check(rule, std::isfinite(a) && std::fabs(a - b) <= 1e-12 * (std::fabs(s) + 1e-9), [&] { return vm::str(a, " instead of ", b, " ", at()); }); };
    // coordinate basis vectors
    std::array<mt::vector_t<D>, D> e;
    [&]<int... I>(mt::integer_sequence<I...>) { ((e[I] = ms::template e<I>(x)), ...); }(mt::make_integer_sequence<D> {});
    // the Gram matrix of the coordinate basis as difference quotients of the Cartesian place
    double gram[D][D];
    {
        std::array<double, 3> X {}, col[3];
        for (int i = 0; i < D; ++i) X[i] = x[i];
        for (int i = 0; i < D; ++i) {
            double d = 1e-5 * std::max(1.0, i == 0 ? std::fabs(X[0]) : 1.0) * (i == 0 ? std::min(1.0, std::fabs(X[0]) + 0.01) : 1.0);
            auto P = X, M = X;
            P[i] += d; M[i] -= d;
            auto p = sys<C>::cartesian(P), m = sys<C>::cartesian(M);
            for (int k = 0; k < 3; ++k) col[i][k] = (p[k] - m[k]) / (P[i] - M[i]);
        }
        for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { gram[i][j] = 0; for (int k = 0; k < 3; ++k) gram[i][j] += col[i][k] * col[j][k]; }
    }
    for (int i = 0; i < D; ++i)
        for (int j = 0; j < D; ++j) {
            double ee = 0, sc = h[i] * h[j];
            for (int k = 0; k < D; ++k) ee += e[i][k] * e[j][k];
            near("metric:is-the-gram-matrix-of-the-basis", (g[{ i, j }]), ee, sc);
            near("metric:symmetric", (g[{ i, j }]), (g[{ j, i }]), sc);
            c.check("metric:is-the-gram-matrix-of-the-places", std::fabs(g[{ i, j }] - gram[i][j]) <= 1e-7 * sc, [&] { return vm::str(i, j, ": ", (g[{ i, j }]), " instead of ", gram[i][j], " ", at()); });
            double id = 0;
            for (int k = 0; k < D; ++k) id += gi[{ i, k }] * g[{ k, j }];
            near("metric:inverse-inverts", id, i == j, h[j] / h[i] + 1);
            near("basis:length", e[i][j], i == j ? h[i] : 0, h[i]);
        }
    for (int t = 0; t < 4; ++t) {
        mt::vector_t<D> v;
        for (int i = 0; i < D; ++i) v[i] = r.real(-1, 1);
        double q = 0, n = 0;
        for (int i = 0; i < D; ++i) { n += v[i] * v[i]; for (int j = 0; j < D; ++j) q += v[i] * g[{ i, j }] * v[j]; }
        c.check("metric:positive", n == 0 || q > 0);
    }
    // duality of one-forms and vectors, at this and at any vector
    [&]<int... I>(mt::integer_sequence<I...>) {
        auto row = [&]<int K>() {
            auto dx = ms::template dx<K>(x);
            for (int j = 0; j < D; ++j) near("basis:dual", dx(e[j]), K == j, 1 + h[j] / h[K]);
            mt::vector_t<D> v;
            for (int i = 0; i < D; ++i) v[i] = r.real(-1, 1);
            // v = sum_k dx_k(v) e_k, hence dx_K(v) is v's K-component over the basis length
            near("basis:one-form-extracts-the-component", dx(v), v[K] / h[K], 1 / h[K]);
        };
        (row.template operator()<I>(), ...);
    }(mt::make_integer_sequence<D> {});
    // volume form
    {
        auto w = ms::w(x);
        double dg = 1;
        {
            std::array<mt::vector_t<D>, D> m;
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) m[i][j] = g[{ i, j }];
            dg = det<D>(m);
        }
        double root = std::sqrt(dg), H = 1;
        for (int i = 0; i < D; ++i) H *= h[i];
        near("volume-form:on-basis-is-sqrt-det-g", 0, root - H, H);
        std::array<mt::vector_t<D>, D> v;
        for (auto & u : v) for (int i = 0; i < D; ++i) u[i] = r.real(-1, 1);
        auto eval = [&](const std::array<mt::vector_t<D>, D> & a) {
            if constexpr (D == 1) return w(a[0]);
            else if constexpr (D == 2) return w(a[0], a[1]);
            else return w(a[0], a[1], a[2]);
        };
        near("volume-form:on-basis-is-sqrt-det-g", eval(e), root, H);
        near("volume-form:is-the-oriented-volume", eval(v), det<D>(v), 10);
        if constexpr (D > 1) {
            auto p = r.perm(D);
            std::array<mt::vector_t<D>, D> u;
            for (int i = 0; i < D; ++i) u[i] = v[p[i]];
            near("volume-form:alternating", eval(u), vm::parity(p) * eval(v), 10);
            auto rep = v;
            rep[0] = rep[D - 1];
            near("volume-form:vanishes-on-repeated", eval(rep), 0, 10);
        }
    }
    // musical isomorphisms
    {
        mt::vector_t<D> a, b;
        for (int i = 0; i < D; ++i) { a[i] = r.real(-1, 1); b[i] = r.real(-1, 1); }
        auto field = mito::functions::function([a](const C & y) -> mt::vector_t<D> { return (1.0 + y[0]) * a; });
        auto flat = ms::metric_equivalent(field);
        auto sharp = ms::metric_equivalent(flat);
        const mt::vector_t<D> f = field(x);
        double s = 0, sc = 0;
        for (int i = 0; i < D; ++i) { s += f[i] * b[i]; sc += std::fabs(f[i]); }
        near("equivalent-form:is-the-scalar-product", flat(x)(b), s, sc + 1);
        auto back = sharp(x);
        for (int i = 0; i < D; ++i) near("equivalent:vector-form-vector", back[i], f[i], sc + 1);
        // a form with given values on the basis
        [&]<int... I>(mt::integer_sequence<I...>) {
            auto sumf = mito::functions::function([a](const C & y) { return mt::one_form([a, y](const mt::vector_t<D> & v) { double t = 0; ((t += a[I] * ms::template dx<I>(y)(v)), ...); return t; }); });
            auto vec = ms::metric_equivalent(sumf);
            auto again = ms::metric_equivalent(vec);
            double t1 = sumf(x)(b), t2 = again(x)(b), s3 = 0;
            for (int i = 0; i < D; ++i) s3 += 1 / h[i] + h[i];
            near("equivalent:form-vector-form", t2, t1, s3);
            // <sharp(alpha), v> = alpha(v)
            const mt::vector_t<D> u = vec(x);
            double dot = 0;
            for (int i = 0; i < D; ++i) dot += u[i] * b[i];
            near("equivalent-vector:represents-the-form", dot, t1, s3);
        }(mt::make_integer_sequence<D> {});
    }
    c.distinct(vm::hcomb(vm::hreal(x[0]), vm::hreal(x[D - 1])));
    if (c.wants_sample()) c.sample(at());
}

template <class F, class G, class C>
static void extract(vm::Case & c, const F & f, const G &, const C & x, int i, const char * what)
{
    c.check("extraction:named-coordinate", f(x) == x[i], [&] { return vm::str(what, " gave ", f(x), " instead of ", x[i]); });
}
static void extraction(vm::Case & c)
{
    auto & r = c.rng;
    const auto x1 = sys<cart_t<1>>::make(r);
    const auto x2 = sys<cart_t<2>>::make(r);
    const auto x3 = sys<cart_t<3>>::make(r);
    const auto p = sys<polar_t>::make(r);
    const auto s = sys<sph_t>::make(r);
    extract(c, mg::cartesian::x_0<1>, 0, x1, 0, "x_0<1>");
    extract(c, mg::cartesian::x_0<2>, 0, x2, 0, "x_0<2>");
    extract(c, mg::cartesian::x_1<2>, 0, x2, 1, "x_1<2>");
    extract(c, mg::cartesian::x_0<3>, 0, x3, 0, "x_0<3>");
    extract(c, mg::cartesian::x_1<3>, 0, x3, 1, "x_1<3>");
    extract(c, mg::cartesian::x_2<3>, 0, x3, 2, "x_2<3>");
    extract(c, mg::polar::r, 0, p, 0, "polar r");
    extract(c, mg::polar::theta, 0, p, 1, "polar theta");
    extract(c, mg::spherical::r, 0, s, 0, "spherical r");
    extract(c, mg::spherical::theta, 0, s, 1, "spherical theta");
    extract(c, mg::spherical::phi, 0, s, 2, "spherical phi");
    // named bases and metrics are those of the metric space
    auto same = [&](const char * rule, const auto & a, const auto & b) { c.check(rule, a == b); };
    same("named-basis", mg::cartesian::e_0<3>(x3), mg::metric_space<cart_t<3>>::e<0>(x3));
    same("named-basis", mg::cartesian::e_1<3>(x3), mg::metric_space<cart_t<3>>::e<1>(x3));
    same("named-basis", mg::cartesian::e_2<3>(x3), mg::metric_space<cart_t<3>>::e<2>(x3));
    same("named-basis", mg::polar::e_r(p), mg::metric_space<polar_t>::e<0>(p));
    same("named-basis", mg::polar::e_theta(p), mg::metric_space<polar_t>::e<1>(p));
    same("named-basis", mg::spherical::e_r(s), mg::metric_space<sph_t>::e<0>(s));
    same("named-basis", mg::spherical::e_theta(s), mg::metric_space<sph_t>::e<1>(s));
    same("named-basis", mg::spherical::e_phi(s), mg::metric_space<sph_t>::e<2>(s));
    same("named-metric", mg::polar::metric(p), mg::metric_space<polar_t>::g(p));
    same("named-metric", mg::spherical::metric(s), mg::metric_space<sph_t>::g(s));
    same("named-metric", mg::cartesian::metric<2>(x2), mg::metric_space<cart_t<2>>::g(x2));
    c.distinct(vm::hreal(x3[0]));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("cartesian-1d", 1000, 20000, space<cart_t<1>>);
    vm::section("cartesian-2d", 1000, 20000, space<cart_t<2>>);
    vm::section("cartesian-3d", 1000, 20000, space<cart_t<3>>);
    vm::section("polar", 6000, 60000, space<polar_t>);
    vm::section("spherical", 6000, 60000, space<sph_t>);
    vm::section("extraction", 200, 2000, extraction);
    return vm::finish();
}
