// G01: geometric cells agree with their nodes; points keep their coordinates
#include "meshgen.h"
#include <mito/coordinates.h>

using mgen::P3;
using tpm::Labels;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;
namespace geo = mito::geometry;

template <int N>
static std::array<double, N + 1> weights(vm::Rng & r, bool inside)
{
    std::array<double, N + 1> w;
    double s = 0;
    int kind = r.pick(4);
    if (inside && kind == 0) { w.fill(0); w[r.pick(N + 1)] = 1; return w; }
    for (auto & a : w) s += a = inside ? (kind == 1 && r.coin() ? 0 : r.real(0.01, 1)) : r.real(-2, 2);
    if (std::fabs(s) < 0.1) return weights<N>(r, inside);
    for (auto & a : w) a /= s;
    return w;
}
template <int N>
static auto reference(const std::array<double, N + 1> & w)
{
    mito::tensor::vector_t<N> v;
    for (int i = 0; i < N; ++i) v[i] = w[i];
    return geo::coordinates_t<N, geo::CARTESIAN>(v);
}
static int parity_of(const Labels & a, const Labels & b)
{
    std::vector<int> p;
    for (int x : a) {
        auto it = std::find(b.begin(), b.end(), x);
        if (it == b.end()) return 0;
        p.push_back((int) (it - b.begin()));
    }
    auto q = p;
    std::sort(q.begin(), q.end());
    for (int i = 0; i < (int) q.size(); ++i) if (q[i] != i) return 0;
    return vm::parity(p);
}

template <int N, int D>
static void cells(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(20));
    using L = mgen::Lib<N, D>;
    using cell_t = typename L::cell_t;
    L lib;
    double scale = std::pow(10.0, r.real(-3, 3));
    int n = N + 1 + r.pick(4);
    std::vector<P3> x;
    P3 shift {};
    for (int a = 0; a < D; ++a) shift[a] = scale * r.real(-3, 3);
    for (int i = 0; i < n; ++i) {
        P3 p {};
        for (int a = 0; a < D; ++a) p[a] = shift[a] + scale * r.real(-1, 1);
        if (r.coin(0.1)) p[r.pick(D)] = 0;
        x.push_back(p);
    }
    lib.make_nodes(x);
    auto big = [&] { double b = 0; for (auto & p : x) b = std::max(b, mgen::norm(p)); return b; }();
    // the nodes of the cell, in any order
    auto all = r.perm(n);
    std::array<int, N + 1> v;
    std::copy(all.begin(), all.begin() + N + 1, v.begin());
    Labels lv(v.begin(), v.end());
    c.distinct(vm::hcomb(vm::hseq(lv), vm::hreal(x[v[0]][0])));
    // a simplex on these vertices may exist already, either way around
    std::vector<mito::topology::simplex_t<N>> prior;
    for (int k = r.pick(3); k > 0; --k) {
        auto q = r.perm(N + 1);
        std::array<int, N + 1> u;
        for (int i = 0; i <= N; ++i) u[i] = v[q[i]];
        prior.push_back(mito::topology::topology().template simplex<N>(lib.vertex_array(u)));
    }
    auto make = [&]() -> cell_t {
        int kind = r.pick(3);
        if (kind == 0) return cell_t(lib.node_array(v));
        if (kind == 1) {
            // on a simplex given by another arrangement of the same class
            auto q = r.perm(N + 1);
            if (vm::parity(q) < 0) std::swap(q[0], q[1]);
            std::array<int, N + 1> u;
            for (int i = 0; i <= N; ++i) u[i] = v[q[i]];
            return cell_t(mito::topology::topology().template simplex<N>(lib.vertex_array(u)), lib.node_array(v));
        }
        if constexpr (N == 1) return geo::segment<D>(lib.node_array(v));
        else if constexpr (N == 2) return geo::triangle<D>(lib.node_array(v));
        else return geo::tetrahedron<D>(lib.node_array(v));
    };
    cell_t cell = make();

    // nodes and simplex
    c.check("cell:nodes-in-order", lib.labels(cell) == lv);
    auto sl = lib.simplex_labels(cell.simplex());
    c.check("cell:simplex-carries-the-vertices-of-the-nodes", parity_of(sl, lv) == 1, [&] { return vm::str("nodes ", vm::seq(lv), " simplex ", vm::seq(sl)); });
    // copies and moves designate the same
    {
        cell_t a(cell), b(cell_t(cell.nodes()));
        cell_t m(std::move(a));
        b = m;
        c.check("cell:copies", lib.labels(b) == lv && b.simplex() == cell.simplex() && m.simplex() == cell.simplex());
    }

    // parametrization
    {
        auto phi = cell.parametrization(lib.cs);
        double edge = 0;
        for (int i = 0; i <= N; ++i) for (int j = 0; j < i; ++j) edge = std::max(edge, mgen::norm(x[v[i]] - x[v[j]]));
        for (int i = 0; i <= N; ++i) {
            std::array<double, N + 1> w {};
            w[i] = 1;
            auto p = phi(reference<N>(w));
            for (int a = 0; a < D; ++a) c.near("parametrization:reference-vertices-go-to-the-nodes", p[a], x[v[i]][a], 1e-14, big);
        }
        for (int k = 0; k < 6; ++k) {
            auto w = weights<N>(r, r.coin(0.7));
            P3 q {};
            for (int i = 0; i <= N; ++i) q = q + w[i] * x[v[i]];
            auto p = phi(reference<N>(w));
            for (int a = 0; a < D; ++a) c.near("parametrization:affine", p[a], q[a], 1e-13, 10 * big);
        }
    }
    // barycenter and directors
    {
        P3 q {};
        for (int i : v) q = q + (1.0 / (N + 1)) * x[i];
        auto b = geo::barycenter(cell, lib.cs);
        for (int a = 0; a < D; ++a) c.near("barycenter:mean-of-nodes", b[a], q[a], 1e-14, big);
        auto [p0, d] = geo::directors(cell, lib.cs);
        c.check("directors:stem-from-first-node", mgen::p3(p0) == x[v[0]]);
        c.check("directors:number", d.size() == N);
        for (int j = 0; j < N; ++j)
            for (int a = 0; a < D; ++a) c.near("directors:edges-out-of-the-first-node", d[j][a], x[v[j + 1]][a] - x[v[0]][a], 1e-15, big);
    }
    // the same simplex with its nodes in another order of the same class, and the same cell in another
    // coordinate system: each answer belongs to the cell and the system it was asked for
    {
        auto q = r.perm(N + 1);
        if (vm::parity(q) < 0) std::swap(q[0], q[1]);
        std::array<int, N + 1> u;
        for (int i = 0; i <= N; ++i) u[i] = v[q[i]];
        auto turned = cell_t(cell.simplex(), lib.node_array(u));
        decltype(lib.cs) elsewhere;
        std::vector<P3> y;
        for (int i = 0; i < n; ++i) {
            P3 p {};
            for (int a = 0; a < D; ++a) p[a] = shift[a] + scale * r.real(-1, 1);
            y.push_back(p);
            elsewhere.place(lib.nodes[i]->point(), mgen::coords<D>(p));
        }
        double large = big;
        for (auto & p : y) large = std::max(large, mgen::norm(p));
        for (int k = 0; k < 6; ++k) {
            bool t = r.coin(), e = r.coin();
            const auto & s = t ? turned : cell;
            const auto & cs = e ? elsewhere : lib.cs;
            const auto & w = t ? u : v;
            const auto & z = e ? y : x;
            auto [p0, d] = geo::directors(s, cs);
            auto b = geo::barycenter(s, cs);
            auto phi = s.parametrization(cs);
            auto m = weights<N>(r, true);
            auto p = phi(reference<N>(m));
            P3 mean {}, at {};
            for (int i = 0; i <= N; ++i) { mean = mean + (1.0 / (N + 1)) * z[w[i]]; at = at + m[i] * z[w[i]]; }
            c.check("directors:of-this-cell-in-this-system", mgen::p3(p0) == z[w[0]]);
            for (int a = 0; a < D; ++a) {
                for (int j = 0; j < N; ++j) c.near("directors:of-this-cell-in-this-system", d[j][a], z[w[j + 1]][a] - z[w[0]][a], 1e-15, large);
                c.near("barycenter:of-this-cell-in-this-system", b[a], mean[a], 1e-14, large);
                c.near("parametrization:of-this-cell-in-this-system", p[a], at[a], 1e-13, 10 * large);
            }
        }
    }
    // flipping
    {
        auto f = geo::flip(cell);
        auto lf = lib.labels(f);
        c.check("flip:same-nodes-other-orientation", parity_of(lf, lv) == -1, [&] { return vm::str(vm::seq(lv), " -> ", vm::seq(lf)); });
        c.check("flip:simplex", f.simplex() == mito::topology::flip(cell.simplex()) && parity_of(lib.simplex_labels(f.simplex()), lf) == 1);
        if constexpr (N == D) {
            mgen::Data<N> d;
            d.x = x;
            std::array<int, N + 1> fl;
            std::copy(lf.begin(), lf.end(), fl.begin());
            d.c = { v, fl };
            c.near("flip:reverses-signed-volume", d.signed_volume(0), -d.signed_volume(1), 1e-12, std::pow(big, N));
        }
        auto g = geo::flip(f);
        c.check("flip:twice", g.simplex() == cell.simplex() && parity_of(lib.labels(g), lv) == 1);
        c.check("flip:original-untouched", lib.labels(cell) == lv);
    }
    // facets, from the nodes of the cell or of a bigger collection in any order
    {
        std::vector<typename L::node_t> pool;
        auto order = r.perm(n);
        for (int i : order) pool.push_back(lib.nodes[i]);
        for (const auto & facet : cell.simplex()->composition()) {
            if constexpr (N >= 2) {
                auto fl = lib.simplex_labels(facet);
                auto g1 = geo::geometric_simplex<D>(facet, cell.nodes());
                auto g2 = geo::geometric_simplex<D>(facet, pool);
                for (auto * g : { &g1, &g2 }) {
                    c.check("facet:nodes", parity_of(lib.labels(*g), fl) == 1, [&] { return vm::str("facet ", vm::seq(fl), " nodes ", vm::seq(lib.labels(*g))); });
                    c.check("facet:simplex", g->simplex() == facet);
                }
            } else {
                auto g = geo::geometric_simplex<D>(facet, cell.nodes());
                c.check("facet:node", lib.index(g) >= 0 && lib.nodes[lib.index(g)]->vertex() == facet->footprint() && std::count(lv.begin(), lv.end(), lib.index(g)) == 1);
            }
        }
        auto g = geo::geometric_simplex<D>(cell.simplex(), pool);
        c.check("pick-nodes:same-cell", g.simplex() == cell.simplex() && parity_of(lib.labels(g), lv) == 1);
    }
    c.sample(vm::str("cell of nodes ", vm::seq(lv), " on simplex ", vm::seq(sl), ", ", prior.size(), " prior simplices"));
}

// cells in curvilinear coordinates: the cell is the straight one
template <class coordT>
static P3 cartesian(const coordT & q)
{
    if constexpr (coordT::dim == 2) return { q[0] * std::cos(q[1]), q[0] * std::sin(q[1]), 0 };
    else return { q[0] * std::sin(q[1]) * std::cos(q[2]), q[0] * std::sin(q[1]) * std::sin(q[2]), q[0] * std::cos(q[1]) };
}
template <int N, class coordT>
static void curvilinear(vm::Case & c)
{
    constexpr int D = coordT::dim;
    auto & r = c.rng;
    geo::coordinate_system_t<coordT> cs;
    double scale = std::pow(10.0, r.real(-2, 2));
    // around a center well away from the singularities
    std::vector<P3> x;
    std::vector<geo::node_t<D>> nodes;
    double R = r.real(1, 3), th = D == 2 ? r.real(-3, 3) : r.real(0.9, 2.2), ph = r.real(-3, 3);
    for (int i = 0; i <= N; ++i) {
        if constexpr (D == 2) nodes.push_back(geo::node(cs, coordT({ scale * (R + r.real(-0.5, 0.5)), th + r.real(-0.5, 0.5) })));
        else nodes.push_back(geo::node(cs, coordT({ scale * (R + r.real(-0.5, 0.5)), th + r.real(-0.3, 0.3), ph + r.real(-0.5, 0.5) })));
        x.push_back(cartesian(cs.coordinates(nodes.back()->point())));
    }
    auto cell = [&]<int... I>(mito::tensor::integer_sequence<I...>) { return geo::geometric_simplex_t<N, D>({ nodes[I]... }); }(mito::tensor::make_integer_sequence<N + 1> {});
    double big = 4 * scale;
    c.distinct(vm::hreal(x[0][0]));
    auto same = [&](const char * rule, const coordT & p, const P3 & q) {
        P3 y = cartesian(p);
        c.check(rule, mgen::norm(y - q) <= 1e-12 * big, [&] { return vm::str("(", p[0], ", ", p[1], ", ...) is at ", vm::seq(y), ", not ", vm::seq(q)); });
    };
    P3 mean {};
    for (auto & p : x) mean = mean + (1.0 / (N + 1)) * p;
    same("curvilinear:barycenter", geo::barycenter(cell, cs), mean);
    auto phi = cell.parametrization(cs);
    for (int i = 0; i <= N; ++i) {
        std::array<double, N + 1> w {};
        w[i] = 1;
        same("curvilinear:reference-vertices-go-to-the-nodes", coordT(phi(reference<N>(w))), x[i]);
    }
    for (int k = 0; k < 4; ++k) {
        auto w = weights<N>(r, true);
        P3 q {};
        for (int i = 0; i <= N; ++i) q = q + w[i] * x[i];
        same("curvilinear:parametrization-affine", coordT(phi(reference<N>(w))), q);
    }
    auto [p0, d] = geo::directors(cell, cs);
    c.check("curvilinear:directors-stem-from-first-node", p0 == cs.coordinates(nodes[0]->point()));
    for (int j = 0; j < N; ++j) same("curvilinear:directors-lead-to-the-nodes", p0 + d[j], x[j + 1]);
    same("curvilinear:midpoint", cs.midpoint(nodes[0]->point(), nodes[1]->point()), 0.5 * (x[0] + x[1]));
}

// points and places
template <int D>
static void places(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(40));
    using coord_t = mgen::cart_t<D>;
    auto & cloud = geo::point_cloud<D>();
    c.check("cloud:one-instance", &cloud == &geo::point_cloud<D>());
    int before = cloud.size();
    std::set<uintptr_t> alive, known;
    for (const auto & p : cloud.points()) known.insert(p.id());
    c.check("cloud:size", (int) known.size() <= before);
    int made = 0;
    {
        geo::coordinate_system_t<coord_t> cs;
        std::vector<geo::point_t<D>> points;
        std::vector<P3> x;
        int n = r.coin(0.06) ? (int) r.range(4000, c.thorough() ? 80000 : 9000) : (int) r.range(1, 150);
        for (int i = 0; i < n; ++i) {
            P3 p {};
            for (int a = 0; a < D; ++a) p[a] = r.coin(0.2) ? (double) r.pick(3) : r.real(-1, 1) * std::pow(10.0, r.real(-8, 8));
            if (r.coin(0.5)) {
                points.push_back(cloud.point());
                cs.place(points.back(), mgen::coords<D>(p));
            } else {
                auto node = geo::node(cs, mgen::coords<D>(p));
                points.push_back(node->point());
            }
            x.push_back(p);
            ++made;
            c.check("cloud:new-point-is-new", alive.insert(points.back().id()).second && !known.count(points.back().id()));
            if (r.coin(0.1)) {
                // a throw-away point without a place
                auto q = cloud.point();
                ++made;
                c.check("cloud:new-point-is-new", !alive.contains(q.id()) && !known.count(q.id()));
            }
        }
        c.check("cloud:one-entry-per-point", cloud.size() == before + made, [&] { return vm::str(before, " + ", made, " points, cloud holds ", cloud.size()); });
        auto order = r.perm(n);
        for (int i : order) c.check("place:kept", mgen::p3(cs.coordinates(points[i])) == x[i]);
        std::set<uintptr_t> seen;
        int k = 0;
        for (const auto & p : cloud) { seen.insert(p.id()); ++k; }
        bool covers = std::includes(seen.begin(), seen.end(), alive.begin(), alive.end());
        c.check("cloud:enumerates-each-point-once", k == n + (int) known.size() && (int) seen.size() == k && covers);
        int m = 0;
        std::set<uintptr_t> placed;
        for (const auto & [p, q] : cs) { placed.insert(p.id()); ++m; }
        c.check("place:system-enumerates-its-points", m == n && placed == alive);
        for (int t = 0; t < 10; ++t) {
            int i = r.pick(n), j = r.pick(n);
            double s = mgen::norm(x[i]) + mgen::norm(x[j]);
            c.near("place:distance", geo::distance(points[i], points[j], cs), mgen::norm(x[i] - x[j]), 1e-13, s);
            auto mid = cs.midpoint(points[i], points[j]);
            for (int a = 0; a < D; ++a) c.near("place:midpoint", mid[a], (x[i][a] + x[j][a]) / 2, 1e-15, 2 * s);
        }
        // a second system on the same points does not disturb the first
        geo::coordinate_system_t<coord_t> other;
        for (int i : order) other.place(points[i], mgen::coords<D>(x[n - 1 - i]));
        for (int i = 0; i < n; ++i) c.check("place:systems-are-independent", mgen::p3(cs.coordinates(points[i])) == x[i] && mgen::p3(other.coordinates(points[i])) == x[n - 1 - i]);
        // change of coordinates there and back
        if constexpr (D >= 2) {
            constexpr auto curved = D == 2 ? geo::POLAR : geo::SPHERICAL;
            using curved_t = geo::coordinates_t<D, curved>;
            auto there = geo::coordinate_system<curved_t>(cs);
            auto back = geo::coordinate_system<coord_t>(there);
            for (int i = 0; i < n; ++i) {
                P3 q = cartesian(there.coordinates(points[i])), z = mgen::p3(back.coordinates(points[i]));
                c.check("place:change-of-coordinates", mgen::norm(q - x[i]) <= 1e-13 * (mgen::norm(x[i])), [&] { return vm::str(vm::seq(x[i]), " became ", vm::seq(q)); });
                c.check("place:change-of-coordinates-and-back", mgen::norm(z - x[i]) <= 1e-13 * (mgen::norm(x[i])));
            }
        }
        c.distinct(vm::hcomb(n, vm::hreal(x[0][0])));
    }
    // points nobody uses anymore are not enumerated
    for (const auto & p : cloud.points()) c.check("cloud:enumerates-points-in-use", known.count(p.id()) == 1);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segments in 1D", 150, 4000, cells<1, 1>);
    vm::section("segments in 2D", 150, 4000, cells<1, 2>);
    vm::section("segments in 3D", 150, 4000, cells<1, 3>);
    vm::section("triangles in 2D", 200, 6000, cells<2, 2>);
    vm::section("triangles in 3D", 200, 6000, cells<2, 3>);
    vm::section("tetrahedra in 3D", 250, 8000, cells<3, 3>);
    using polar = geo::coordinates_t<2, geo::POLAR>;
    using spherical = geo::coordinates_t<3, geo::SPHERICAL>;
    vm::section("polar segments", 100, 3000, curvilinear<1, polar>);
    vm::section("polar triangles", 100, 3000, curvilinear<2, polar>);
    vm::section("spherical segments", 100, 3000, curvilinear<1, spherical>);
    vm::section("spherical triangles", 100, 3000, curvilinear<2, spherical>);
    vm::section("spherical tetrahedra", 100, 3000, curvilinear<3, spherical>);
    vm::section("points in 1D", 40, 800, places<1>);
    vm::section("points in 2D", 40, 800, places<2>);
    vm::section("points in 3D", 40, 800, places<3>);
    return vm::finish();
}
