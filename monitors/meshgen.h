// Conforming simplicial meshes as plain data, and their translation into the library's objects
#pragma once
#include "topo_model.h"
#include <mito/geometry.h>
#include <mito/mesh.h>

namespace mgen {
    using P3 = std::array<double, 3>;
    inline P3 operator-(const P3 & a, const P3 & b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
    inline P3 operator+(const P3 & a, const P3 & b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
    inline P3 operator*(double s, const P3 & a) { return { s * a[0], s * a[1], s * a[2] }; }
    inline double dot(const P3 & a, const P3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    inline P3 cross(const P3 & a, const P3 & b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
    inline double norm(const P3 & a) { return std::sqrt(dot(a, a)); }

    template <int N>
    struct Data {
        std::vector<P3> x;
        std::vector<std::array<int, N + 1>> c;

        // signed when the dimension of space is N
        double signed_volume(int e) const
        {
            const auto & v = c[e];
            if constexpr (N == 1) return x[v[1]][0] - x[v[0]][0];
            else if constexpr (N == 2) return cross(x[v[1]] - x[v[0]], x[v[2]] - x[v[0]])[2] / 2;
            else return dot(x[v[1]] - x[v[0]], cross(x[v[2]] - x[v[0]], x[v[3]] - x[v[0]])) / 6;
        }
        // measure, in any space
        double measure(int e) const
        {
            const auto & v = c[e];
            if constexpr (N == 1) return norm(x[v[1]] - x[v[0]]);
            else if constexpr (N == 2) return norm(cross(x[v[1]] - x[v[0]], x[v[2]] - x[v[0]])) / 2;
            else return std::fabs(signed_volume(e));
        }
        double measure() const
        {
            double s = 0;
            for (int e = 0; e < (int) c.size(); ++e) s += measure(e);
            return s;
        }
        std::set<int> used() const
        {
            std::set<int> u;
            for (auto & v : c) u.insert(v.begin(), v.end());
            return u;
        }
        // the signed boundary: facets (sorted) with the coefficients they occur with
        std::map<tpm::Labels, std::array<int, 2>> facet_counts() const
        {
            std::map<tpm::Labels, std::array<int, 2>> m;
            for (auto & v : c)
                for (auto & [f, s] : tpm::boundary(tpm::key_of(tpm::Labels(v.begin(), v.end())))) m[f][s > 0]++;
            return m;
        }
        std::set<tpm::Labels> subcells(int I) const
        {
            std::set<tpm::Labels> s;
            for (auto & v : c)
                for (int mask = 0; mask < (1 << (N + 1)); ++mask)
                    if (__builtin_popcount(mask) == I + 1) {
                        tpm::Labels l;
                        for (int i = 0; i <= N; ++i) if (mask >> i & 1) l.push_back(v[i]);
                        std::sort(l.begin(), l.end());
                        s.insert(l);
                    }
            return s;
        }
        void orient_positively()
        {
            for (int e = 0; e < (int) c.size(); ++e) if (signed_volume(e) < 0) std::swap(c[e][0], c[e][1]);
        }
        // a new node in the interior of a cell
        void split_cell(vm::Rng & r)
        {
            int e = r.pick((int) c.size());
            auto v = c[e];
            double w[4], s = 0;
            for (int i = 0; i <= N; ++i) s += w[i] = r.real(0.5, 1.5);
            P3 p {};
            for (int i = 0; i <= N; ++i) p = p + (w[i] / s) * x[v[i]];
            int n = (int) x.size();
            x.push_back(p);
            for (int i = 0; i <= N; ++i) {
                auto u = v;
                u[i] = n;
                if (i == 0) c[e] = u;
                else c.push_back(u);
            }
        }
        // a new node on an edge: all cells around it are bisected
        void bisect_edge(vm::Rng & r)
        {
            int e = r.pick((int) c.size());
            int i = r.pick(N + 1), j = r.pick(N + 1);
            if (i == j) return;
            int a = c[e][i], b = c[e][j], n = (int) x.size();
            double t = r.real(0.3, 0.7);
            x.push_back((1 - t) * x[a] + t * x[b]);
            int m = (int) c.size();
            for (int k = 0; k < m; ++k) {
                auto u = c[k];
                auto ia = std::find(u.begin(), u.end(), a), ib = std::find(u.begin(), u.end(), b);
                if (ia == u.end() || ib == u.end()) continue;
                auto w = u;
                *ia = n;
                w[ib - u.begin()] = n;
                c[k] = u;
                c.push_back(w);
            }
        }
        void remove_cells(vm::Rng & r, int k)
        {
            for (int i = 0; i < k && c.size() > 1; ++i) c.erase(c.begin() + r.pick((int) c.size()));
        }
        // another numbering of nodes, order of cells and (even) order of nodes in the cells
        void scramble(vm::Rng & r)
        {
            auto p = r.perm((int) x.size());
            std::vector<P3> y(x.size());
            for (size_t i = 0; i < x.size(); ++i) y[p[i]] = x[i];
            x = y;
            for (auto & v : c) for (auto & i : v) i = p[i];
            r.shuffle(c);
            if constexpr (N > 1)
                for (auto & v : c) {
                    auto q = r.perm(N + 1);
                    if (vm::parity(q) < 0) std::swap(q[0], q[1]);
                    auto u = v;
                    for (int i = 0; i <= N; ++i) v[i] = u[q[i]];
                }
        }
        template <class F>
        void map(const F & f) { for (auto & p : x) p = f(p); }
    };

    // perturbed grid of n[0] x n[1] x n[2] boxes in [0,1]^N
    template <int N>
    Data<N> grid(vm::Rng & r, std::array<int, 3> n, double perturb)
    {
        Data<N> d;
        for (int i = N; i < 3; ++i) n[i] = 0;
        auto id = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (n[1] + 1) * k); };
        for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) {
            P3 p { (double) i / n[0], N > 1 ? (double) j / n[1] : 0, N > 2 ? (double) k / n[2] : 0 };
            int q[3] = { i, j, k };
            for (int a = 0; a < N; ++a) if (q[a] > 0 && q[a] < n[a]) p[a] += perturb * r.real(-1, 1) / n[a];
            d.x.push_back(p);
        }
        if constexpr (N == 1)
            for (int i = 0; i < n[0]; ++i) d.c.push_back({ id(i, 0, 0), id(i + 1, 0, 0) });
        else if constexpr (N == 2) {
            for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
                int a = id(i, j, 0), b = id(i + 1, j, 0), e = id(i + 1, j + 1, 0), f = id(i, j + 1, 0);
                if (r.coin()) { d.c.push_back({ a, b, e }); d.c.push_back({ a, e, f }); }
                else { d.c.push_back({ a, b, f }); d.c.push_back({ b, e, f }); }
            }
        } else {
            static const int perms[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
            for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i)
                for (auto & p : perms) {
                    int q[3] = { i, j, k };
                    std::array<int, 4> t;
                    t[0] = id(i, j, k);
                    for (int a = 0; a < 3; ++a) { q[p[a]]++; t[a + 1] = id(q[0], q[1], q[2]); }
                    d.c.push_back(t);
                }
        }
        d.orient_positively();
        return d;
    }
    struct Opt { int max = 4; bool holes = true; bool refine = true; double perturb = 0.15; double large = 0.02; bool huge = true; };
    // a random conforming, positively oriented mesh
    template <int N>
    Data<N> random(vm::Rng & r, Opt o = {})
    {
        // one case of every section has a few thousand cells
        static std::pair<std::string, long> last;
        long now = vm::state().mark->index;
        std::pair<std::string, long> at { vm::state().mark->section, now };
        bool first = at != last;
        last = at;
        if (o.huge && o.large > 0 && now == 5 && first) {
            int n = (int) r.range(N == 3 ? 9 : 33, N == 3 ? 10 : 36);
            auto d = grid<N>(r, { N == 1 ? 40 * n : n, n, n }, o.perturb * r.unit());
            if (o.holes && r.coin(0.4)) d.remove_cells(r, (int) d.c.size() / 30);
            d.scramble(r);
            return d;
        }
        // now and then a few hundred cells
        if (o.large > 0 && r.coin(o.large)) {
            int n = (int) r.range(N == 3 ? 3 : 7, N == 3 ? 4 : 12);
            auto d = grid<N>(r, { N == 1 ? 14 * n : n, n, n }, o.perturb * r.unit());
            if (o.holes && r.coin(0.4)) d.remove_cells(r, (int) d.c.size() / 10);
            d.scramble(r);
            return d;
        }
        int top = N == 3 ? std::max(1, o.max / 2) : o.max;
        auto d = grid<N>(r, { (int) r.range(1, N == 1 ? 3 * o.max : top), (int) r.range(1, top), (int) r.range(1, top) }, o.perturb * r.unit());
        if (o.refine) {
            int k = r.pick(4);
            for (int i = 0; i < k; ++i) { if (r.coin()) d.split_cell(r); else d.bisect_edge(r); }
        }
        if (o.holes && r.coin(0.4)) d.remove_cells(r, (int) r.range(1, std::max<int>(1, (int) d.c.size() / 3)));
        d.scramble(r);
        return d;
    }
    // scaling by 10^k, a rotation and a translation
    inline std::array<P3, 3> rotation(vm::Rng & r)
    {
        double q[4], n = 0;
        for (auto & a : q) { a = r.real(-1, 1); n += a * a; }
        n = std::sqrt(n + 1e-300);
        for (auto & a : q) a /= n;
        double w = q[0], x = q[1], y = q[2], z = q[3];
        return { P3 { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w) }, P3 { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w) },
                 P3 { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) } };
    }
    // put a mesh of N-cells into D-space: an orientation preserving affine map for N == D, a curved embedding otherwise
    template <int N>
    void embed(Data<N> & d, int D, vm::Rng & r, bool affine = true)
    {
        if (N == 1 && D == 1) { double s = r.real(0.5, 2), t = r.real(-1, 1); d.map([&](const P3 & p) { return P3 { s * p[0] + t, 0, 0 }; }); return; }
        P3 t { r.real(-1, 1), r.real(-1, 1), r.real(-1, 1) };
        double s = r.real(0.5, 2), sh = r.real(-0.4, 0.4);
        if (D == 2) {
            double a = r.real(0, 6.28), c = std::cos(a), z = std::sin(a), bend = N < D && !affine ? r.real(-1, 1) : 0;
            d.map([&](P3 p) { if (N < D) p[1] = bend * p[0] * p[0]; p[0] += sh * p[1]; return P3 { s * (c * p[0] - z * p[1]) + t[0], s * (z * p[0] + c * p[1]) + t[1], 0 }; });
        } else {
            auto R = rotation(r);
            double b1 = N < 3 && !affine ? r.real(-0.5, 0.5) : 0, b2 = N < 3 && !affine ? r.real(-0.5, 0.5) : 0;
            d.map([&](P3 p) {
                if (N < 3) p[2] = b1 * p[0] * p[0] + b2 * p[0] * p[1];
                if (N < 2) p[1] = b2 * p[0] * p[0];
                p[0] += sh * p[1];
                P3 q = s * P3 { dot(R[0], p), dot(R[1], p), dot(R[2], p) };
                return q + t;
            });
        }
    }

    template <int D>
    using cart_t = mito::geometry::coordinates_t<D, mito::geometry::CARTESIAN>;
    template <int D>
    cart_t<D> coords(const P3 & p)
    {
        mito::tensor::vector_t<D> v;
        for (int i = 0; i < D; ++i) v[i] = p[i];
        return cart_t<D>(v);
    }
    template <class C>
    P3 p3(const C & c)
    {
        P3 p {};
        for (int i = 0; i < C::dim; ++i) p[i] = c[i];
        return p;
    }

    // the library's objects for mesh data
    template <int N, int D>
    struct Lib {
        using cell_t = mito::geometry::geometric_simplex_t<N, D>;
        using node_t = mito::geometry::node_t<D>;
        using mesh_t = mito::mesh::mesh_t<cell_t>;
        using cs_t = mito::geometry::coordinate_system_t<cart_t<D>>;
        cs_t cs;
        std::vector<node_t> nodes;
        std::map<uintptr_t, int> vertex_label;
        std::vector<mito::topology::simplex_t<N>> pollution;

        void make_nodes(const std::vector<P3> & x)
        {
            for (auto & p : x) {
                nodes.push_back(mito::geometry::node(cs, coords<D>(p)));
                vertex_label[nodes.back()->vertex().id()] = (int) nodes.size() - 1;
            }
        }
        template <class V>
        typename cell_t::nodes_type node_array(const V & v)
        {
            return [&]<int... I>(mito::tensor::integer_sequence<I...>) { return typename cell_t::nodes_type { nodes[v[I]]... }; }(mito::tensor::make_integer_sequence<N + 1> {});
        }
        template <class V>
        auto vertex_array(const V & v)
        {
            mito::topology::vertex_simplex_composition_t<N> a;
            for (int i = 0; i <= N; ++i) a[i] = nodes[v[i]]->vertex();
            return a;
        }
        // some cells exist already with the opposite orientation
        void pollute(const Data<N> & d, vm::Rng & r, double p)
        {
            for (auto v : d.c)
                if (r.coin(p)) {
                    std::swap(v[0], v[1]);
                    pollution.push_back(mito::topology::topology().template simplex<N>(vertex_array(v)));
                }
        }
        void fill(mesh_t & m, const Data<N> & d)
        {
            for (auto & v : d.c) m.insert(node_array(v));
        }
        // index of a node
        int index(const node_t & n) const
        {
            auto it = vertex_label.find(n->vertex().id());
            if (it == vertex_label.end() || nodes[it->second] != n) return -1;
            return it->second;
        }
        template <class C>
        tpm::Labels labels(const C & cell) const
        {
            tpm::Labels l;
            for (const auto & n : cell.nodes()) l.push_back(index(n));
            return l;
        }
        template <class S>
        tpm::Labels simplex_labels(const S & s) const
        {
            tpm::Labels l;
            for (const auto & v : s->vertices()) { auto it = vertex_label.find(v.id()); l.push_back(it == vertex_label.end() ? -1 : it->second); }
            return l;
        }
    };
}
