// T05: flipping a diagonal preserves the quadrilateral
#include "topo_model.h"
#include <mito/geometry.h>

using Tri = tpm::handle<2>;

static void examine_pair(vm::Case & c, tpm::World & w, const std::pair<Tri, Tri> & p, const tpm::Labels & q, const char * what)
{
    // q: the quadrilateral's cycle; the pair must be the triangles cut by the diagonal (q1, q3)
    auto k0 = tpm::key_of({ q[0], q[1], q[3] }), k1 = tpm::key_of({ q[1], q[2], q[3] });
    auto l0 = w.labels(p.first), l1 = w.labels(p.second);
    auto g0 = tpm::key_of(l0), g1 = tpm::key_of(l1);
    c.check("pair:covers-the-four-vertices-with-the-other-diagonal", (g0.first == k0.first && g1.first == k1.first) || (g0.first == k1.first && g1.first == k0.first),
            [&] { return vm::str(what, ": quad ", vm::seq(q), " gave ", vm::seq(l0), " ", vm::seq(l1)); });
    c.check("pair:keeps-orientation", (g0 == k0 && g1 == k1) || (g0 == k1 && g1 == k0), [&] { return vm::str(what, ": quad ", vm::seq(q), " gave ", vm::seq(l0), " ", vm::seq(l1)); });
    // outer edges keep their orientation, the new diagonal cancels
    tpm::Chain bd;
    std::set<uintptr_t> feet[2];
    for (int i = 0; i < 2; ++i) {
        auto & t = i ? p.second : p.first;
        for (const auto & e : t->composition()) {
            tpm::add(bd, tpm::key_of(w.labels(e)), t->orientation());
            feet[i].insert(e->footprint().id());
        }
    }
    tpm::Chain want;
    for (int i = 0; i < 4; ++i) tpm::add(want, tpm::key_of({ q[i], q[(i + 1) % 4] }), 1);
    c.check("pair:outer-edges-with-orientation", bd == want, [&] { return vm::str(what, ": quad ", vm::seq(q)); });
    int shared = 0;
    for (auto x : feet[0]) shared += feet[1].contains(x);
    c.check("pair:share-one-edge", shared == 1 && feet[0].size() == 3 && feet[1].size() == 3);
    c.check("pair:sanity", p.first->sanityCheck() && p.second->sanityCheck());
}

struct Setup {
    tpm::World w;
    tpm::Labels q;
    std::vector<Tri> keep;
    std::vector<tpm::handle<1>> keep1;
    Setup(vm::Case & c) : w(c)
    {
        auto & r = c.rng;
        vm::HeapNoise noise(r, r.pick(20));
        std::vector<int> pool;
        for (int i = 0; i < 4 + r.pick(3); ++i) pool.push_back(w.new_vertex());
        r.shuffle(pool);
        q = { pool[0], pool[1], pool[2], pool[3] };
        // history: edges, triangles and neighbours that may already exist, in any orientation
        int pre = r.pick(5);
        for (int i = 0; i < pre; ++i) {
            switch (r.pick(4)) {
                case 0: keep1.push_back(w.top.segment(w.vertex_array<1>(w.random_order(1, q)))); break;
                case 1: keep.push_back(w.top.triangle(w.vertex_array<2>(w.random_order(2, q)))); break;
                case 2: keep.push_back(w.top.triangle(w.vertex_array<2>(w.random_order(2, pool)))); break;
                case 3: {
                    auto t = w.top.triangle(w.vertex_array<2>(w.random_order(2, q)));
                    keep.push_back(w.top.flip(t));
                    break;
                }
            }
        }
        if (r.coin(0.3)) {
            for (auto & t : keep) if (r.coin()) w.top.erase(t);
        }
    }
    tpm::Labels rotated(tpm::Labels v)
    {
        std::rotate(v.begin(), v.begin() + w.r.pick((int) v.size()), v.end());
        return v;
    }
    Tri triangle(const tpm::Labels & v)
    {
        if (w.r.coin(0.3)) {
            // by facets
            auto l = rotated(v);
            return w.top.triangle({ w.top.segment(w.vertex_array<1>({ l[0], l[1] })), w.top.segment(w.vertex_array<1>({ l[1], l[2] })), w.top.segment(w.vertex_array<1>({ l[2], l[0] })) });
        }
        if (w.r.coin(0.2)) { // as the flip of the opposite
            auto l = rotated({ v[0], v[2], v[1] });
            return w.top.flip(w.top.triangle(w.vertex_array<2>(l)));
        }
        return w.top.triangle(w.vertex_array<2>(rotated(v)));
    }
};

static void bare(vm::Case & c)
{
    Setup s(c);
    auto & q = s.q;
    auto & r = c.rng;
    // the diagonal is q0-q2
    auto t0 = s.triangle({ q[0], q[1], q[2] }), t1 = s.triangle({ q[0], q[2], q[3] });
    auto k0 = tpm::key_of({ q[0], q[1], q[2] }), k1 = tpm::key_of({ q[0], q[2], q[3] });
    int o0 = t0->orientation(), o1 = t1->orientation();
    c.count(vm::str("orientations ", o0, " ", o1));
    bool swap = r.coin();
    if (swap) std::swap(t0, t1), std::swap(k0, k1);
    auto n = mito::topology::flip_diagonal({ t0, t1 });
    examine_pair(c, s.w, n, q, "flip");
    c.check("originals:untouched", tpm::key_of(s.w.labels(t0)) == k0 && tpm::key_of(s.w.labels(t1)) == k1);
    if (r.coin(0.4)) {
        // give the old pair back first: flipping back creates it anew
        s.w.top.erase(t0);
        s.w.top.erase(t1);
        examine_pair(c, s.w, n, q, "after erasing the old pair");
        auto b = mito::topology::flip_diagonal(n);
        examine_pair(c, s.w, b, { q[1], q[2], q[3], q[0] }, "flip back");
    } else {
        auto b = mito::topology::flip_diagonal(r.coin() ? n : std::make_pair(n.second, n.first));
        examine_pair(c, s.w, b, { q[1], q[2], q[3], q[0] }, "flip back");
        c.check("twice:restores-the-pair", (b.first == t0 && b.second == t1) || (b.first == t1 && b.second == t0));
    }
    c.distinct(vm::hcomb(vm::hcomb(vm::hseq(q), o0 * 3 + o1 + 10 * swap), s.keep.size() * 17 + s.keep1.size()));
    if (c.wants_sample()) c.sample(vm::str("quad ", vm::seq(q), " triangle orientations ", o0, " ", o1, ", ", s.keep.size(), " other triangles around"));
}

template <int D>
static void with_nodes(vm::Case & c)
{
    using coordinates_t = mito::geometry::coordinates_t<D, mito::geometry::CARTESIAN>;
    auto cs = mito::geometry::coordinate_system<coordinates_t>();
    auto & r = c.rng;
    // nodes of a convex quadrilateral in random position
    double x[4][3], a0 = r.real(0, 6);
    for (int i = 0; i < 4; ++i) {
        double a = a0 + i * M_PI / 2 + r.real(-0.5, 0.5), rad = 1;
        x[i][0] = rad * cos(a); x[i][1] = rad * sin(a); x[i][2] = r.real(-1, 1);
    }
    if (r.coin()) std::swap_ranges(x[1], x[1] + 3, x[3]);
    using node_t = mito::geometry::node_t<D>;
    std::vector<node_t> nodes;
    for (int i = 0; i < 4; ++i) {
        if constexpr (D == 2) nodes.push_back(mito::geometry::node(cs, { x[i][0], x[i][1] }));
        else nodes.push_back(mito::geometry::node(cs, { x[i][0], x[i][1], x[i][2] }));
    }
    std::vector<mito::topology::simplex_t<2>> others;
    auto idx = [&](std::array<int, 3> v) {
        std::rotate(v.begin(), v.begin() + r.pick(3), v.end());
        return v;
    };
    if (r.coin(0.6)) { // opposite or other simplices exist already
        for (int i = 0; i < 3; ++i) {
            auto p = r.perm(4);
            others.push_back(mito::topology::topology().triangle({ nodes[p[0]]->vertex(), nodes[p[1]]->vertex(), nodes[p[2]]->vertex() }));
        }
    }
    auto v0 = idx({ 0, 1, 2 }), v1 = idx({ 0, 2, 3 });
    mito::geometry::geometric_simplex_t<2, D> g0({ nodes[v0[0]], nodes[v0[1]], nodes[v0[2]] }), g1({ nodes[v1[0]], nodes[v1[1]], nodes[v1[2]] });
    auto n = mito::geometry::flip_diagonal<D>({ g0, g1 });
    // oriented area vector of a list of places
    auto area = [&](const auto & g) {
        std::array<std::array<double, 3>, 3> p {};
        int i = 0;
        for (const auto & nd : g.nodes()) {
            auto co = cs.coordinates(nd->point());
            for (int d = 0; d < D; ++d) p[i][d] = co[d];
            ++i;
        }
        std::array<double, 3> u, v;
        for (int d = 0; d < 3; ++d) u[d] = p[1][d] - p[0][d], v[d] = p[2][d] - p[0][d];
        return std::array<double, 3> { (u[1] * v[2] - u[2] * v[1]) / 2, (u[2] * v[0] - u[0] * v[2]) / 2, (u[0] * v[1] - u[1] * v[0]) / 2 };
    };
    auto index_of = [&](const node_t & nd) {
        for (int i = 0; i < 4; ++i) if (nodes[i] == nd) return i;
        return -1;
    };
    std::set<std::set<int>> got;
    for (auto g : { n.first, n.second }) {
        std::set<int> s;
        std::vector<int> order;
        int i = 0;
        auto vs = g.simplex()->vertices();
        std::vector<int> vorder;
        for (const auto & nd : g.nodes()) { s.insert(index_of(nd)); order.push_back(index_of(nd)); ++i; }
        for (const auto & v : vs) for (int j = 0; j < 4; ++j) if (nodes[j]->vertex() == v) vorder.push_back(j);
        c.check("nodes:match-the-simplex", tpm::key_of(order) == tpm::key_of(vorder));
        auto k = s.contains(0) ? tpm::key_of({ 0, 1, 3 }) : tpm::key_of({ 1, 2, 3 });
        c.check("nodes:keeps-orientation", tpm::key_of(order) == k, [&] { return vm::seq(order); });
        got.insert(s);
    }
    c.check("nodes:the-four-nodes-with-the-other-diagonal", got == std::set<std::set<int>> { { 0, 1, 3 }, { 1, 2, 3 } });
    // (the signed area vector of the quadrilateral depends on its edge cycle only)
    auto a = area(g0), b = area(g1), e = area(n.first), f = area(n.second);
    for (int d = 0; d < 3; ++d) c.near_abs("nodes:same-signed-area", e[d] + f[d], a[d] + b[d], 1e-12);
    c.distinct(vm::hcomb(vm::hreal(a0), v0[0] * 3 + v1[0]));
    c.count(vm::str("orientations ", g0.simplex()->orientation(), " ", g1.simplex()->orientation()));
    if (c.wants_sample()) c.sample(vm::str("first angle ", a0));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("bare", 1500, 30000, bare);
    vm::section("nodes-2d", 400, 8000, with_nodes<2>);
    vm::section("nodes-3d", 400, 8000, with_nodes<3>);
    return vm::finish();
}
