// C01: coordinate arithmetic and changes of coordinates
#include "vmon.h"
#include <mito/geometry.h>

namespace mg = mito::geometry;
template <int D> using cart_t = mg::coordinates_t<D, mg::CARTESIAN>;
using polar_t = mg::coordinates_t<2, mg::POLAR>;
using sph_t = mg::coordinates_t<3, mg::SPHERICAL>;
using P3 = std::array<double, 3>;

// the Cartesian place of coordinates, computed here
template <int D> static P3 place(const cart_t<D> & x) { P3 p {}; for (int i = 0; i < D; ++i) p[i] = x[i]; return p; }
static P3 place(const polar_t & x) { return { x[0] * std::cos(x[1]), x[0] * std::sin(x[1]), 0 }; }
static P3 place(const sph_t & x) { return { x[0] * std::sin(x[1]) * std::cos(x[2]), x[0] * std::sin(x[1]) * std::sin(x[2]), x[0] * std::cos(x[1]) }; }
// a displacement's Cartesian components, given the place it stems from (components refer to the normalized local basis)
template <int D> static P3 push(const cart_t<D> &, const mito::tensor::vector_t<D> & v) { P3 p {}; for (int i = 0; i < D; ++i) p[i] = v[i]; return p; }
static P3 push(const polar_t & x, const mito::tensor::vector_t<2> & v)
{
    double c = std::cos(x[1]), s = std::sin(x[1]);
    return { v[0] * c - v[1] * s, v[0] * s + v[1] * c, 0 };
}
static P3 push(const sph_t & x, const mito::tensor::vector_t<3> & v)
{
    double ct = std::cos(x[1]), st = std::sin(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
    return { v[0] * st * cp + v[1] * ct * cp - v[2] * sp, v[0] * st * sp + v[1] * ct * sp + v[2] * cp, v[0] * ct - v[1] * st };
}
static double dist(const P3 & a, const P3 & b) { return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static double size(const P3 & a) { return dist(a, {}); }

template <class C> struct gen;
template <int D> struct gen<cart_t<D>> {
    static cart_t<D> make(vm::Rng & r)
    {
        mito::tensor::vector_t<D> v;
        double s = std::pow(10.0, r.range(-2, 2));
        for (int i = 0; i < D; ++i) v[i] = r.coin(0.15) ? 0.0 : s * r.real(-1, 1);
        return cart_t<D>(v);
    }
};
// angles may be given on any turn
static double turn(vm::Rng & r) { return r.coin(0.2) ? r.range(-3, 3) * M_PI / 2 : r.coin(0.12) ? r.real(-20, 20) : r.real(-3.1, 3.1); }
static double radius(vm::Rng & r) { return std::pow(10.0, r.range(-1, 1)) * r.real(0.1, 1); }
template <> struct gen<polar_t> {
    static polar_t make(vm::Rng & r) { return { radius(r), turn(r) }; }
};
template <> struct gen<sph_t> {
    static sph_t make(vm::Rng & r) { double near_axis = std::pow(10.0, r.real(-3, -1));
        return { radius(r), r.coin(0.2) ? M_PI / 2 : r.coin(0.1) ? (r.coin() ? near_axis : M_PI - near_axis) : r.real(0.15, 2.99), turn(r) }; }
};

static void close(vm::Case & c, const char * rule, const P3 & a, const P3 & b, double scale, const std::string & w = "")
{
    double d = dist(a, b);
    c.check(rule, std::isfinite(d) && d <= 1e-11 * scale, [&] { return vm::str("(", a[0], ",", a[1], ",", a[2], ") instead of (", b[0], ",", b[1], ",", b[2], ") ", w); });
}

template <class C>
static void arithmetic(vm::Case & c)
{
    auto & r = c.rng;
    C A = gen<C>::make(r), B = gen<C>::make(r), E = gen<C>::make(r);
    if (r.coin(0.05)) B = A;
    auto a = place(A), b = place(B), e = place(E);
    double sc = size(a) + size(b) + size(e) + 1e-3;
    auto d = B - A;
    std::ostringstream w;
    w.precision(17);
    w << "A=" << A << " B=" << B;
    // displacement agrees with the Euclidean one, expressed in the local basis at A
    P3 ab = { b[0] - a[0], b[1] - a[1], b[2] - a[2] };
    close(c, "displacement:is-the-euclidean-one", push(A, d), ab, sc, w.str());
    close(c, "place-plus-displacement:is-the-other-place", place(A + d), b, sc * 10, w.str());
    auto A2 = A;
    A2 += d;
    close(c, "compound-addition:agrees", place(A2), place(A + d), sc);
    auto z = A - A;
    close(c, "displacement:to-itself-vanishes", push(A, z), {}, sc);
    close(c, "place-plus-zero:is-the-place", place(A + (0.0 * d)), a, sc);
    double t = r.real(-2, 3);
    P3 at = { a[0] + t * ab[0], a[1] + t * ab[1], a[2] + t * ab[2] };
    close(c, "place-plus-multiple:moves-along-the-line", place(A + t * d), at, sc * 10, w.str());
    // halving twice from either end meets in the middle
    close(c, "midpoint:symmetric", place(A + 0.5 * (B - A)), place(B + 0.5 * (A - B)), sc * 10);
    // distance is the Euclidean metric
    double AB = mg::distance(A, B), BA = mg::distance(B, A), AE = mg::distance(A, E), EB = mg::distance(E, B);
    c.near_abs("distance:is-euclidean", AB, dist(a, b), 1e-11 * sc, w.str());
    c.near_abs("distance:symmetric", AB, BA, 1e-11 * sc);
    c.check("distance:triangle-inequality", AB <= AE + EB + 1e-11 * sc);
    c.near_abs("distance:zero-on-itself", mg::distance(A, A), 0, 1e-11 * sc);
    c.check("distance:nonnegative", AB >= 0 && AE >= 0);
    c.check("equality:reflexive", A == A && B == B && (A == B) == (A[0] == B[0] && A[1 % C::dim] == B[1 % C::dim] && A[2 % C::dim] == B[2 % C::dim]));
    // places that differ in one coordinate only are different places
    for (int k = 0; k < C::dim; ++k) {
        double v[3] = { A[0], A[1 % C::dim], A[2 % C::dim] };
        v[k] += 1 + std::fabs(v[k]);
        auto other = [&]<int... I>(mito::tensor::integer_sequence<I...>) { return C({ v[I]... }); }(mito::tensor::make_integer_sequence<C::dim> {});
        c.check("equality:tells-coordinates-apart", !(A == other) && !(other == A) && A != other, [&] { return vm::str("coordinate ", k, " changed in ", w.str()); });
        c.check("order:tells-coordinates-apart", (A < other) != (other < A));
        // however close they are
        double w2[3] = { A[0], A[1 % C::dim], A[2 % C::dim] };
        w2[k] = r.coin() ? std::nextafter(w2[k], 100.0) : w2[k] + std::ldexp(1 + std::fabs(w2[k]), -r.range(20, 50));
        auto next = [&]<int... I>(mito::tensor::integer_sequence<I...>) { return C({ w2[I]... }); }(mito::tensor::make_integer_sequence<C::dim> {});
        c.check("equality:tells-neighbours-apart", !(A == next) && A != next && (A < next) != (next < A), [&] { return vm::str("coordinate ", k, " changed slightly in ", w.str()); });
    }
    c.check("order:strict", !(A < A) && (A == B || (A < B) != (B < A)));
    // coordinate systems place points where they are told
    auto & cloud = mg::point_cloud<C::dim>();
    auto cs = mg::coordinate_system<C>();
    auto pa = cloud.point(), pb = cloud.point(), pe = cloud.point();
    cs.place(pa, A);
    cs.place(pb, B);
    cs.place(pe, E);
    c.check("points:keep-their-coordinates", cs.coordinates(pa) == A && cs.coordinates(pb) == B && cs.coordinates(pe) == E);
    P3 mid = { (a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2 };
    close(c, "midpoint:of-two-points", place(cs.midpoint(pa, pb)), mid, sc * 10, w.str());
    close(c, "midpoint:of-a-point-with-itself", place(cs.midpoint(pa, pa)), a, sc * 10, w.str());
    c.near_abs("distance:of-points", mg::distance(pa, pb, cs), dist(a, b), 1e-11 * sc);
    c.check("origin", dist(place(cs.origin()), {}) == 0);
    int n = 0;
    for (const auto & [p, x] : cs) {
        c.check("iteration:pairs-points-with-their-places", (p == pa && x == A) || (p == pb && x == B) || (p == pe && x == E));
        ++n;
    }
    c.check("iteration:all-points", n == 3);
    c.distinct(vm::hcomb(vm::hreal(A[0]), vm::hreal(B[C::dim - 1])));
    if (c.wants_sample()) c.sample(w.str());
}

template <class C1, class C2>
static void conversion(vm::Case & c)
{
    auto & r = c.rng;
    C1 A = gen<C1>::make(r);
    auto a = place(A);
    if (size(a) < 1e-6) { c.trivial(); return; }
    double sc = size(a);
    auto B = mg::transform_coordinates<C2>(A);
    close(c, "conversion:same-place", place(B), a, sc, vm::str(A[0], " ", A[1]));
    auto A2 = mg::transform_coordinates<C1>(B);
    close(c, "conversion:round-trip", place(A2), a, sc);
    auto B2 = mg::transform_coordinates<C2>(A2);
    close(c, "conversion:round-trip-twice", place(B2), a, sc);
    // canonical ranges
    constexpr bool to_sph = std::is_same_v<C2, sph_t>;
    if constexpr (std::is_same_v<C2, polar_t>) c.check("conversion:canonical-range", B[0] >= 0 && std::fabs(B[1]) <= M_PI);
    if constexpr (to_sph) c.check("conversion:canonical-range", B[0] >= 0 && B[1] >= 0 && B[1] <= M_PI && std::fabs(B[2]) <= M_PI);
    // displacements agree with those of the converted places
    C1 A3 = gen<C1>::make(r);
    auto B3 = mg::transform_coordinates<C2>(A3);
    bool axis = size(place(A3)) < 1e-6;
    if constexpr (to_sph)
        for (auto q : { a, place(A3) }) axis |= std::hypot(q[0], q[1]) < 1e-2 * size(q);
    if (!axis) {
        double s2 = size(place(A3)) + sc;
        auto d1 = push(A, A3 - A), d2 = push(B, B3 - B);
        double loss = std::max(1.0, s2 / sc);
        close(c, "conversion:displacements-agree", d2, d1, 100 * s2 * loss);
        c.near_abs("conversion:distances-agree", mg::distance(A, A3), mg::distance(B, B3), 1e-9 * s2 * loss);
    }
    // a coordinate system built from another one
    auto & cloud = mg::point_cloud<C1::dim>();
    auto cs = mg::coordinate_system<C1>();
    int n = (int) r.range(0, 12);
    std::vector<mg::point_t<C1::dim>> pts;
    std::vector<C1> xs;
    for (int i = 0; i < n; ++i) {
        auto p = cloud.point();
        C1 x = gen<C1>::make(r);
        cs.place(p, x);
        pts.push_back(p);
        xs.push_back(x);
    }
    auto cs2 = mg::coordinate_system<C2>(cs);
    int m = 0;
    for (const auto & kv : cs2) { (void) kv; ++m; }
    c.check("converted-system:same-number-of-points", m == n, [&] { return vm::str(m, " instead of ", n); });
    for (int i = 0; i < n; ++i) {
        close(c, "converted-system:same-places", place(cs2.coordinates(pts[i])), place(xs[i]), size(place(xs[i])) + 1e-3);
        c.check("converted-system:source-untouched", cs.coordinates(pts[i]) == xs[i]);
    }
    c.distinct(vm::hcomb(vm::hreal(A[0]), vm::hreal(A[1])));
    if (c.wants_sample()) c.sample(vm::str(A[0], ",", A[1], " -> ", B[0], ",", B[1], "; ", n, " points converted"));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("cartesian-1d", 800, 40000, arithmetic<cart_t<1>>);
    vm::section("cartesian-2d", 800, 40000, arithmetic<cart_t<2>>);
    vm::section("cartesian-3d", 800, 40000, arithmetic<cart_t<3>>);
    vm::section("polar", 3000, 100000, arithmetic<polar_t>);
    vm::section("spherical", 3000, 100000, arithmetic<sph_t>);
    vm::section("cartesian-to-polar", 1500, 60000, conversion<cart_t<2>, polar_t>);
    vm::section("polar-to-cartesian", 1500, 60000, conversion<polar_t, cart_t<2>>);
    vm::section("cartesian-to-spherical", 1500, 60000, conversion<cart_t<3>, sph_t>);
    vm::section("spherical-to-cartesian", 1500, 60000, conversion<sph_t, cart_t<3>>);
    return vm::finish();
}
