// Q02: integrals over manifolds are additive, invariant and satisfy Stokes
#include "poly.h"
#include <mito/coordinates.h>
#include <mito/fields.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>

using mgen::P3;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;
namespace quad = mito::quadrature;
namespace geo = mito::geometry;

template <int D>
static auto constant(const P3 & n)
{
    mito::tensor::vector_t<D> v;
    for (int i = 0; i < D; ++i) v[i] = n[i];
    return mito::functions::function([v](const mgen::cart_t<D> &) { return v; });
}
template <int N>
static double extent(const mgen::Data<N> & d)
{
    double b = 0;
    for (auto & p : d.x) for (double a : p) b = std::max(b, std::fabs(a));
    return b;
}
// rounding of a volume: cells far from the origin lose digits in the differences
template <int N>
static double rough(const mgen::Data<N> & d) { return d.c.size() * std::pow(extent(d), N); }

// full-dimensional manifolds in Cartesian coordinates
template <int N, int R>
static void bulk(vm::Case & c)
{
    constexpr int D = N;
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(20));
    mgen::Opt o;
    o.max = N == 3 ? 2 : 3;
    // now and then more than a thousand cells
    int k = N == 1 ? (int) r.range(1000, 5000) : N == 2 ? (int) r.range(23, 40) : (int) r.range(6, 8);
    auto d = r.coin(0.04) ? mgen::grid<N>(r, { k, k, k }, 0.15 * r.unit()) : mgen::random<N>(r, o);
    mgen::embed(d, D, r, true);
    c.distinct(vm::hreal(d.x[0][0]));
    using L = mgen::Lib<N, D>;
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    double tol = 1e-13 * rough(d), big = extent(d);
    c.check("bulk:elements", manifold.nElements() == (int) d.c.size() && &manifold.mesh() == &mesh && &manifold.coordinate_system() == &lib.cs);

    // cell volumes and their sum
    double sum = 0;
    int e = 0;
    for (const auto & cell : manifold.elements()) {
        double v = manifold.volume(cell);
        c.near_abs("volume:of-cell", v, d.signed_volume(e), tol);
        sum += v;
        ++e;
    }
    c.near_abs("volume:sum-of-cells", manifold.volume(), sum, tol);
    c.near_abs("volume:exact", manifold.volume(), d.measure(), tol);
    for (int i : d.used()) c.check("coordinates:of-nodes", mgen::p3(manifold.coordinates(lib.nodes[i])) == d.x[i]);

    // linear in the integrand
    auto integrator = quad::integrator<quad::GAUSS, R>(manifold);
    auto p = poly::random(r, D, (int) r.range(0, R)), q = poly::random(r, D, (int) r.range(0, R));
    double a = r.real(-2, 2), b = r.real(-2, 2), m = d.measure();
    auto f = poly::field<D>(p), g = poly::field<D>(q);
    double If = integrator.integrate(f), Ig = integrator.integrate(g);
    double bf = 1e-12 * m * p.bound(big), bg = 1e-12 * m * q.bound(big);
    c.near_abs("integral:exact", If, poly::integral(d, p), bf);
    c.near_abs("integral:linear", integrator.integrate(a * f + b * g), a * If + b * Ig, 2 * (bf + bg));
    c.near_abs("integral:repeatable", integrator.integrate(f), If, 0);
    // any smooth integrand: additive over disjoint parts, also those cut off the mesh; the weighted sum does not depend on who computes it
    double w0 = r.real(0.5, 4), w1 = r.real(-3, 3);
    auto smooth = [w0, w1](const P3 & x) { return std::exp(w1 * std::sin(w0 * x[0] - x[1] + 0.3 * x[2])); };
    auto h = poly::field<D>(smooth);
    double Ih = integrator.integrate(h), bh = 1e-12 * m * std::exp(std::fabs(w1));
    int parts = (int) r.range(2, 4);
    std::vector<mgen::Data<N>> pd(parts);
    std::vector<int> owner(d.c.size());
    for (auto & x : pd) x.x = d.x;
    for (int i = 0; i < (int) d.c.size(); ++i) pd[owner[i] = r.pick(parts)].c.push_back(d.c[i]);
    double total = 0, vol = 0;
    for (auto & x : pd) {
        typename L::mesh_t pm = mito::mesh::mesh<typename L::cell_t>();
        lib.fill(pm, x);
        auto man = mito::manifolds::manifold(pm, lib.cs);
        auto in = quad::integrator<quad::GAUSS, R>(man);
        total += in.integrate(h);
        vol += man.volume();
    }
    c.near_abs("integral:additive-over-parts", total, Ih, bh);
    c.near_abs("volume:additive-over-parts", vol, m, tol);

    // rigid motions, and orientation
    {
        auto moved = d;
        P3 t { r.real(-3, 3), r.real(-3, 3), r.real(-3, 3) };
        auto Q = mgen::rotation(r);
        double al = r.real(0, 6.3), ca = std::cos(al), sa = std::sin(al);
        moved.map([&](const P3 & x) {
            if (D == 1) return P3 { x[0] + t[0], 0, 0 };
            if (D == 2) return P3 { ca * x[0] - sa * x[1] + t[0], sa * x[0] + ca * x[1] + t[1], 0 };
            return P3 { mgen::dot(Q[0], x), mgen::dot(Q[1], x), mgen::dot(Q[2], x) } + t;
        });
        typename L::cs_t cs2; // the same points placed elsewhere
        for (int i = 0; i < (int) d.x.size(); ++i) cs2.place(lib.nodes[i]->point(), mgen::coords<D>(moved.x[i]));
        auto man = mito::manifolds::manifold(mesh, cs2);
        c.near_abs("volume:invariant-under-rigid-motions", man.volume(), m, tol + 1e-13 * rough(moved));
        c.near_abs("volume:other-placement-does-not-matter", manifold.volume(), m, tol);
        // reversed cells
        typename L::mesh_t rm = mito::mesh::mesh<typename L::cell_t>();
        std::vector<bool> rev;
        double signed_total = 0;
        int i = 0;
        bool all = r.coin();
        for (const auto & cell : mesh.cells()) {
            rev.push_back(all || r.coin());
            if (rev.back()) rm.insert(geo::flip(cell));
            else rm.insert(cell.nodes());
            signed_total += (rev.back() ? -1 : 1) * d.signed_volume(i++);
        }
        auto rman = mito::manifolds::manifold(rm, lib.cs);
        i = 0;
        for (const auto & cell : rman.elements()) { c.near_abs("volume:sign-follows-orientation", rman.volume(cell), (rev[i] ? -1 : 1) * d.signed_volume(i), tol); ++i; }
        c.near_abs("volume:sign-follows-orientation", rman.volume(), signed_total, tol);
        auto rin = quad::integrator<quad::GAUSS, R>(rman);
        double want = 0;
        for (i = 0; i < (int) d.c.size(); ++i) want += (rev[i] ? -1 : 1) * poly::integral(d, i, p);
        c.near_abs("integral:sign-follows-orientation", rin.integrate(f), want, bf);
    }
    // the unit of length, and that of the integrand, are a matter of choice
    {
        double u = std::pow(10.0, r.real(-6, 6)), k = std::pow(10.0, r.real(-15, 15)) * (r.coin() ? -1 : 1);
        auto scaled = d;
        scaled.map([&](const P3 & x) { return u * x; });
        typename L::cs_t cs2;
        for (int i = 0; i < (int) d.x.size(); ++i) cs2.place(lib.nodes[i]->point(), mgen::coords<D>(scaled.x[i]));
        auto man = mito::manifolds::manifold(mesh, cs2);
        double un = std::pow(u, N);
        int i = 0;
        for (const auto & cell : man.elements()) c.near_abs("volume:scales-with-the-unit-of-length", man.volume(cell), un * d.signed_volume(i++), un * tol);
        c.near_abs("volume:scales-with-the-unit-of-length", man.volume(), un * m, un * tol);
        auto in = quad::integrator<quad::GAUSS, R>(man);
        auto fu = poly::field<D>([&](const P3 & x) { return k * p((1 / u) * x); });
        c.near_abs("integral:scales-with-the-units", in.integrate(fu), k * un * If, 2 * std::fabs(k) * un * bf);
    }
    // renumbering
    {
        auto s = d;
        s.scramble(r);
        L lib2;
        lib2.make_nodes(s.x);
        typename L::mesh_t m2 = mito::mesh::mesh<typename L::cell_t>();
        lib2.fill(m2, s);
        auto man = mito::manifolds::manifold(m2, lib2.cs);
        c.near_abs("volume:independent-of-numbering", man.volume(), m, tol);
        auto in = quad::integrator<quad::GAUSS, R>(man);
        c.near_abs("integral:independent-of-numbering", in.integrate(f), If, bf);
    }
    // refinement
    if (d.c.size() <= (N == 3 ? 30 : 60)) {
        auto fine = mito::mesh::tetra(mesh, lib.cs, N == 3 ? 1 : (int) r.range(1, 2));
        auto man = mito::manifolds::manifold(fine, lib.cs);
        c.near_abs("volume:unchanged-by-refinement", man.volume(), m, tol);
        auto in = quad::integrator<quad::GAUSS, R>(man);
        c.near_abs("integral:unchanged-by-refinement", in.integrate(f), If, bf);
        // a smooth integrand converges (both errors bounded by the oscillation over the coarse cells)
        auto s2 = [w0](const P3 & x) { return std::sin(w0 * (x[0] + 0.5 * x[1] - 0.7 * x[2])); };
        auto hf = poly::field<D>(s2);
        double exact = poly::integral(d, s2), e0 = std::fabs(integrator.integrate(hf) - exact), size = 0;
        for (auto & v : d.c) for (int i = 0; i <= N; ++i) for (int j = 0; j < i; ++j) size = std::max(size, mgen::norm(d.x[v[i]] - d.x[v[j]]));
        double k = w0 * 1.4 * size, bound = m * std::pow(k, R + 1) / 2 + 1e-11 * m;
        double e1 = std::fabs(in.integrate(hf) - exact);
        if (k < 3) { // the reference itself is accurate
            c.check("integral:error-bounded-by-order", e0 <= bound && e1 <= bound * std::pow(0.5, R + 1) + 1e-9 * m + 1e-7 * bound, [&] { return vm::str("errors ", e0, " ", e1, " bound ", bound); });
            c.count("smooth integrands");
        }
    }
    // a manifold follows its mesh
    if (d.c.size() > 1) {
        int k = r.pick((int) d.c.size()), i = 0;
        double gone = d.signed_volume(k), goneI = poly::integral(d, k, p);
        for (auto it = mesh.cells().begin(); it != mesh.cells().end(); ++it)
            if (i++ == k) { mesh.erase(*it); break; }
        c.near_abs("volume:follows-erasures", manifold.volume(), m - gone, tol);
        c.near_abs("integral:follows-erasures", integrator.integrate(f), If - goneI, bf);
        // the cell comes back inside out: as many cells as at the beginning
        auto inside_out = d.c[k];
        std::swap(inside_out[0], inside_out[1]);
        mesh.insert(lib.node_array(inside_out));
        c.near_abs("volume:follows-insertions", manifold.volume(), m - 2 * gone, 2 * tol);
        auto again = mito::manifolds::manifold(mesh, lib.cs);
        c.near_abs("volume:follows-insertions", again.volume(), m - 2 * gone, 2 * tol);
        auto in = quad::integrator<quad::GAUSS, R>(again);
        c.near_abs("integral:follows-insertions", in.integrate(f), If - 2 * goneI, 2 * bf);
    }
    // meshes that follow one another in the same place
    {
        std::optional<typename L::mesh_t> place;
        auto other = d;
        for (int t = 0; t < 3; ++t) {
            double u = t == 1 ? 2 : 0.5;
            if (t) other.map([&](const P3 & x) { return u * x; });
            L lib2;
            lib2.make_nodes(other.x);
            place.emplace(mito::mesh::mesh<typename L::cell_t>());
            lib2.fill(*place, other);
            auto man = mito::manifolds::manifold(*place, lib2.cs);
            double un = t == 1 ? std::pow(2.0, N) : 1;
            c.near_abs("volume:of-this-mesh", man.volume(), un * m, un * tol);
            auto in = quad::integrator<quad::GAUSS, R>(man);
            if (t == 2) c.near_abs("integral:of-this-mesh", in.integrate(f), If, bf);
        }
    }
    c.sample(vm::str(d.c.size(), " cells, volume ", m, ", integral of a polynomial of degree ", p.degree(), " ", If));
}

// the library lists the facets of segments and triangles outwards, those of tetrahedra inwards
template <int N>
constexpr int outwards = N == 3 ? -1 : 1;

// flux through the skin equals the integral of the divergence
template <int N, int R>
static void stokes(vm::Case & c)
{
    constexpr int D = N;
    auto & r = c.rng;
    mgen::Opt o;
    o.max = N == 3 ? 2 : 3;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, true);
    c.distinct(vm::hreal(d.x[0][0]));
    using L = mgen::Lib<N, D>;
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    double big = extent(d), m = d.measure();
    std::vector<poly::Poly> v;
    double bound = 0;
    for (int i = 0; i < D; ++i) { v.push_back(poly::random(r, D, R)); bound += v[i].bound(big); }
    poly::Poly div;
    for (int i = 0; i < D; ++i) div = div + v[i].derivative(i);
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    auto in = quad::integrator<quad::GAUSS, std::max(1, R - 1)>(manifold);
    double body = in.integrate(poly::field<D>(div));
    c.near("stokes:divergence-integral-exact", body, poly::integral(d, div), 1e-12, m * (1 + div.bound(big)));

    auto skin = mito::mesh::boundary(mesh);
    using face_t = typename decltype(skin)::cell_type;
    double flux = 0, area = 0, own_area = 0;
    int faces = 0;
    for (const auto & cell : skin.cells()) {
        P3 x[3] {};
        int k = 0;
        for (const auto & node : cell.nodes()) x[k++] = mgen::p3(lib.cs.coordinates(node->point()));
        // the normal for which (n, directors) is positively oriented
        P3 n;
        if constexpr (N == 2) { P3 t = x[1] - x[0]; n = { t[1], -t[0], 0 }; }
        else n = mgen::cross(x[1] - x[0], x[2] - x[0]);
        double a = mgen::norm(n);
        n = (1 / a) * n;
        own_area += N == 2 ? a : a / 2;
        auto face = mito::mesh::mesh<face_t>();
        face.insert(cell.nodes());
        auto side = mito::manifolds::submanifold(face, lib.cs, constant<D>(n));
        c.near("surface:cell-area", side.volume(), N == 2 ? a : a / 2, 1e-12, 1e-2 + a);
        auto fin = quad::integrator<quad::GAUSS, R>(side);
        auto vn = poly::field<D>([v, n](const P3 & x) { double s = 0; for (int i = 0; i < D; ++i) s += v[i](x) * n[i]; return s; });
        flux += fin.integrate(vn);
        area += side.volume();
        // the other side
        if (faces % 4 == 0) {
            auto back = mito::mesh::mesh<face_t>();
            back.insert(geo::flip(cell));
            auto bs = mito::manifolds::submanifold(back, lib.cs, constant<D>(n));
            c.near("surface:sign-follows-orientation", bs.volume(), -side.volume(), 1e-12, 1e-2 + a);
            auto bn = mito::manifolds::submanifold(face, lib.cs, constant<D>(-1.0 * n));
            c.near("surface:sign-follows-normal", bn.volume(), -side.volume(), 1e-12, 1e-2 + a);
        }
        ++faces;
    }
    c.near("stokes:flux-equals-divergence", outwards<N> * flux, body, 1e-11, (m + own_area) * (1 + bound), vm::str("degree ", R, ", ", faces, " faces, ", d.c.size(), " cells"));
    c.near("stokes:area-of-skin", area, own_area, 1e-12, 1 + own_area);
    c.count("faces", faces);
}

// curvilinear coordinates: the same straight cells
template <class coordT>
static P3 cartesian(const coordT & q)
{
    if constexpr (coordT::dim == 2) return { q[0] * std::cos(q[1]), q[0] * std::sin(q[1]), 0 };
    else return { q[0] * std::sin(q[1]) * std::cos(q[2]), q[0] * std::sin(q[1]) * std::sin(q[2]), q[0] * std::cos(q[1]) };
}
template <class coordT>
static coordT curved(const P3 & p)
{
    if constexpr (coordT::dim == 2) return coordT({ std::hypot(p[0], p[1]), std::atan2(p[1], p[0]) });
    else { double s = mgen::norm(p); return coordT({ s, std::acos(p[2] / s), std::atan2(p[1], p[0]) }); }
}
// components of a constant Cartesian vector in the local orthonormal basis
template <class coordT>
static auto constant_field(const P3 & n)
{
    return mito::functions::function([n](const coordT & x) {
        if constexpr (coordT::dim == 2) {
            double cs = std::cos(x[1]), sn = std::sin(x[1]);
            return mito::tensor::vector_t<2> { n[0] * cs + n[1] * sn, -n[0] * sn + n[1] * cs };
        } else {
            double ct = std::cos(x[1]), st = std::sin(x[1]), cp = std::cos(x[2]), sp = std::sin(x[2]);
            return mito::tensor::vector_t<3> { n[0] * st * cp + n[1] * st * sp + n[2] * ct, n[0] * ct * cp + n[1] * ct * sp - n[2] * st, -n[0] * sp + n[1] * cp };
        }
    });
}
template <int N, class coordT, int R>
static void curvilinear(vm::Case & c)
{
    constexpr int D = coordT::dim;
    auto & r = c.rng;
    mgen::Opt o;
    o.max = 2;
    auto d = mgen::random<N>(r, o);
    // flat, small, away from the singularities
    mgen::embed(d, D, r, true);
    P3 mean {};
    for (auto & p : d.x) mean = mean + (1.0 / d.x.size()) * p;
    double size = 0;
    for (auto & p : d.x) size = std::max(size, mgen::norm(p - mean));
    double th = D == 2 ? 0 : r.real(0.9, 2.2), ph = r.real(-3.1, 3.1);
    P3 center = D == 2 ? P3 { std::cos(ph), std::sin(ph), 0 } : P3 { std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th) };
    double s = r.real(0.05, 0.4) / size, scale = std::pow(10.0, r.real(-1, 1));
    d.map([&](const P3 & p) { return scale * (center + s * (p - mean)); });
    c.distinct(vm::hreal(d.x[0][0]));

    geo::coordinate_system_t<coordT> cs;
    std::vector<geo::node_t<D>> nodes;
    for (auto & p : d.x) nodes.push_back(geo::node(cs, curved<coordT>(p)));
    using cell_t = geo::geometric_simplex_t<N, D>;
    auto mesh = mito::mesh::mesh<cell_t>();
    for (auto & v : d.c) [&]<int... I>(mito::tensor::integer_sequence<I...>) { mesh.insert({ nodes[v[I]]... }); }(mito::tensor::make_integer_sequence<N + 1> {});
    auto examine = [&](const auto & manifold) {
        int e = 0;
        double m = d.measure(), unit = std::pow(scale, N);
        for (const auto & cell : manifold.elements()) { c.near("curvilinear:volume-of-cell", manifold.volume(cell), d.measure(e++), 1e-12, unit); }
        c.near("curvilinear:volume", manifold.volume(), m, 1e-11, unit);
        auto in = quad::integrator<quad::GAUSS, R>(manifold);
        auto p = poly::random(r, D, R);
        double big = extent(d);
        auto f = mito::functions::function([p](const coordT & x) { return p(cartesian(x)); });
        c.near("curvilinear:polynomials-as-in-cartesian", in.integrate(f), poly::integral(d, p), 1e-11, m * p.bound(big));
        c.sample(vm::str(d.c.size(), " cells, measure ", m, ", integral ", in.integrate(f)));
    };
    if constexpr (N == D) examine(mito::manifolds::manifold(mesh, cs));
    else {
        auto & v = d.c[0];
        P3 t = d.x[v[1]] - d.x[v[0]], n = D == 2 ? P3 { t[1], -t[0], 0 } : mgen::cross(t, d.x[v[N]] - d.x[v[0]]);
        examine(mito::manifolds::submanifold(mesh, cs, constant_field<coordT>((1 / mgen::norm(n)) * n)));
    }
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("bulk 1D", 60, 4000, bulk<1, 2>);
    vm::section("bulk 2D", 60, 4000, bulk<2, 3>);
    vm::section("bulk 3D", 25, 1500, bulk<3, 2>);
    vm::section("stokes 2D degree 1", 30, 2000, stokes<2, 1>);
    vm::section("stokes 2D degree 2", 30, 2000, stokes<2, 2>);
    vm::section("stokes 3D degree 2", 15, 800, stokes<3, 2>);
    vm::section("stokes 3D degree 3", 15, 800, stokes<3, 3>);
    using polar = geo::coordinates_t<2, geo::POLAR>;
    using spherical = geo::coordinates_t<3, geo::SPHERICAL>;
    vm::section("polar triangles", 40, 3000, curvilinear<2, polar, 4>);
    vm::section("polar segments", 40, 3000, curvilinear<1, polar, 2>);
    vm::section("spherical tetrahedra", 20, 1500, curvilinear<3, spherical, 2>);
    vm::section("spherical triangles", 20, 1500, curvilinear<2, spherical, 4>);
    return vm::finish();
}
