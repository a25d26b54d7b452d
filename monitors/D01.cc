// D01: discrete fields map each entry to its own value
#include "poly.h"
#include <mito/fields.h>
#include <mito/discrete.h>

using mgen::P3;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;
namespace disc = mito::discrete;
namespace geo = mito::geometry;

// values of every type: made from, and turned back to, a few reals
template <class Y> struct Val;
template <> struct Val<double> {
    static double make(vm::Rng & r) { return r.real(-1e3, 1e3); }
    static bool same(double a, double b) { return a == b; }
    static bool zero(double a) { return a == 0; }
};
template <> struct Val<int> {
    static int make(vm::Rng & r) { return (int) r.range(-1000000, 1000000); }
    static bool same(int a, int b) { return a == b; }
    static bool zero(int a) { return a == 0; }
};
template <> struct Val<std::string> {
    static std::string make(vm::Rng & r) { return std::string(r.pick(60), 'a' + r.pick(26)); }
    static bool same(const std::string & a, const std::string & b) { return a == b; }
    static bool zero(const std::string & a) { return a.empty(); }
};
template <int D> struct Val<mito::tensor::vector_t<D>> {
    using Y = mito::tensor::vector_t<D>;
    static Y make(vm::Rng & r) { Y v; for (int i = 0; i < D; ++i) v[i] = r.real(-10, 10); return v; }
    static bool same(const Y & a, const Y & b) { for (int i = 0; i < D; ++i) if (a[i] != b[i]) return false; return true; }
    static bool zero(const Y & a) { for (int i = 0; i < D; ++i) if (a[i] != 0) return false; return true; }
};
template <int D> struct Val<mito::tensor::matrix_t<D>> {
    using Y = mito::tensor::matrix_t<D>;
    static Y make(vm::Rng & r) { Y v; for (int i = 0; i < D * D; ++i) v[i] = r.real(-10, 10); return v; }
    static bool same(const Y & a, const Y & b) { for (int i = 0; i < D * D; ++i) if (a[i] != b[i]) return false; return true; }
    static bool zero(const Y & a) { for (int i = 0; i < D * D; ++i) if (a[i] != 0) return false; return true; }
};
template <class T, size_t Q> struct Val<std::array<T, Q>> {
    using Y = std::array<T, Q>;
    static Y make(vm::Rng & r) { Y v; for (auto & x : v) x = Val<T>::make(r); return v; }
    static bool same(const Y & a, const Y & b) { for (size_t i = 0; i < Q; ++i) if (!Val<T>::same(a[i], b[i])) return false; return true; }
    static bool zero(const Y & a) { for (auto & x : a) if (!Val<T>::zero(x)) return false; return true; }
};

// a history of reads, writes, insertions and moves against a plain table
template <class F, class K, class Y>
static void history(vm::Case & c, F && first, std::vector<K> & keys, const std::vector<K> & extra, std::vector<Y> & table, const std::string & name, uint64_t trace)
{
    auto & r = c.rng;
    using V = Val<Y>;
    auto field = std::make_unique<std::remove_cvref_t<F>>(std::move(first));
    size_t next = 0;
    auto audit = [&] {
        const auto & f = *field;
        c.check("field:one-entry-per-key", f.size() == (int) keys.size(), [&] { return vm::str(f.size(), " entries for ", keys.size(), " keys"); });
        c.check("field:name", f.name() == name);
        for (size_t i = 0; i < keys.size(); ++i) c.check("field:each-key-its-last-value", V::same(f(keys[i]), table[i]), [&] { return vm::str("key ", i, " of ", keys.size()); });
        std::vector<int> seen(keys.size(), 0);
        std::map<uintptr_t, int> at;
        for (size_t i = 0; i < keys.size(); ++i) at[keys[i].id()] = (int) i;
        int n = 0;
        auto visit = [&](const auto & entry) {
            const auto & [key, value] = entry;
            auto it = at.find(key.id());
            c.check("field:enumerates-its-entries", it != at.end() && V::same(value, table[it->second]) && ++seen[it->second] == 1);
            ++n;
        };
        if (r.coin()) for (const auto & entry : f) visit(entry);
        else for (auto it = field->cbegin(); it != field->cend(); ++it) visit(*it);
        c.check("field:enumerates-its-entries", n == (int) keys.size());
        if (next < extra.size()) {
            bool thrown = false;
            try { (void) f(extra[next]); } catch (const std::out_of_range &) { thrown = true; }
            c.check("field:no-entry-for-a-foreign-key", thrown && f.size() == (int) keys.size());
        }
    };
    audit();
    int steps = (int) r.range(5, 60);
    for (int s = 0; s < steps; ++s) {
        int op = r.weighted({ 6, 3, 2, 1, 1, 2 });
        trace = vm::hcomb(trace, op);
        if (op == 0 && !keys.empty()) {
            int i = r.pick((int) keys.size());
            (*field)(keys[i]) = table[i] = V::make(r);
        } else if (op == 1 && !keys.empty()) {
            // through another handle
            int i = r.pick((int) keys.size());
            K copy = keys[i];
            c.check("field:each-key-its-last-value", V::same((*field)(copy), table[i]));
        } else if (op == 2 && next < extra.size()) {
            if (r.coin()) { field->insert(extra[next]); table.push_back(Y()); c.check("field:default-value", V::zero((*field)(extra[next]))); }
            else { table.push_back(V::make(r)); field->insert(extra[next], table.back()); }
            keys.push_back(extra[next++]);
        } else if (op == 3) {
            auto moved = std::make_unique<std::remove_cvref_t<F>>(std::move(*field));
            field = std::move(moved);
            audit();
        } else if (op == 4) {
            // write through the entries
            std::map<uintptr_t, int> at;
            for (size_t i = 0; i < keys.size(); ++i) at[keys[i].id()] = (int) i;
            for (auto & [key, value] : *field) if (r.coin(0.3)) value = table[at[key.id()]] = V::make(r);
        } else if (!keys.empty()) {
            // a reference stays good
            int i = r.pick((int) keys.size()), j = r.pick((int) keys.size());
            auto & ref = (*field)(keys[i]);
            (*field)(keys[j]) = table[j] = V::make(r);
            ref = table[i] = V::make(r);
        }
        if (r.coin(0.1)) audit();
    }
    audit();
    c.distinct(trace);
}

template <int N, int D, class Y>
static void on_mesh(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(40));
    using L = mgen::Lib<N, D>;
    using node_t = typename L::node_t;
    mgen::Opt o;
    o.max = N == 3 ? 2 : 4;
    auto d = mgen::random<N>(r, o);
    if (N == 1 && r.coin(0.05)) d = mgen::grid<N>(r, { (int) r.range(1000, 4000), 1, 1 }, 0.1);
    if (r.coin(0.3)) d.remove_cells(r, (int) d.c.size() / 2);
    mgen::embed(d, D, r, false);
    L lib;
    lib.make_nodes(d.x);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto used = d.used();
    std::vector<node_t> keys, extra;
    for (int i = 0; i < (int) d.x.size(); ++i) (used.count(i) ? keys : extra).push_back(lib.nodes[i]);
    for (int i = 0; i < 3; ++i) {
        // other nodes on vertices and points that are in use already
        int j = *used.begin();
        extra.push_back(node_t(lib.nodes[j]->vertex(), lib.nodes[j]->point()));
    }
    std::string name = "field " + std::to_string(r.pick(100));
    if (r.coin(0.3)) for (int i = (int) r.range(0, 200); i > 0; --i) name += (char) r.range(32, 126);
    auto field = disc::mesh_field<Y>(mesh, name);
    std::vector<Y> table(keys.size());
    c.check("field:one-entry-per-node", field.size() == (int) keys.size(), [&] { return vm::str(field.size(), " entries for ", keys.size(), " nodes"); });
    for (auto & k : keys) c.check("field:default-value", Val<Y>::zero(field(k)));
    auto other = disc::mesh_field<Y>(mesh, "other");
    // what happens to the mesh does not matter for its fields
    if (r.coin(0.3)) mesh.erase(*mesh.cells().begin());
    history(c, std::move(field), keys, extra, table, name, vm::hcomb(vm::hseq(d.c[0]), d.c.size()));
    for (auto & [key, value] : other) c.check("field:fields-are-independent", Val<Y>::zero(value));
    c.sample(vm::str(name, " on ", keys.size(), " nodes of ", d.c.size(), " cells"));
}

template <int N, int D, int Q, class Y>
static void on_cells(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(40));
    using L = mgen::Lib<N, D>;
    mgen::Opt o;
    o.max = N == 3 ? 2 : 4;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, false);
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto field = disc::quadrature_field<Y, Q>(mesh, "q");
    using V = std::array<Y, Q>;
    using key_t = typename L::cell_t::simplex_type;
    std::vector<key_t> keys, extra;
    for (const auto & cell : mesh.cells()) keys.push_back(cell.simplex());
    for (int i = 0; i < 2; ++i) {
        auto cell = *mesh.cells().begin();
        if (i == 0) { auto f = geo::flip(cell); extra.push_back(f.simplex()); }
    }
    c.check("field:one-entry-per-cell", field.size() == (int) keys.size());
    for (auto & k : keys) c.check("field:default-value", Val<V>::zero(field(k)));
    std::vector<V> table(keys.size());
    for (auto & v : table) v = V {};
    history(c, std::move(field), keys, extra, table, "q", vm::hcomb(vm::hseq(d.c[0]), d.c.size() * 10 + Q));
}

template <int D, class Y>
static void on_cloud(vm::Case & c)
{
    auto & r = c.rng;
    auto & cloud = geo::point_cloud<D>();
    std::vector<geo::point_t<D>> keys, extra;
    for (const auto & p : cloud.points()) keys.push_back(p); // other points in use
    int n = (int) (r.coin(0.05) ? r.range(1000, 5000) : r.range(0, 250));
    for (int i = 0; i < n; ++i) {
        auto p = cloud.point();
        if (!r.coin(0.2)) keys.push_back(p); // the others are given up
    }
    auto field = disc::point_field<Y>(cloud, "points");
    c.check("field:one-entry-per-point", field.size() == (int) keys.size(), [&] { return vm::str(field.size(), " entries for ", keys.size(), " points"); });
    for (auto & k : keys) c.check("field:default-value", Val<Y>::zero(field(k)));
    for (int i = 0; i < 5; ++i) extra.push_back(cloud.point());
    std::vector<Y> table(keys.size());
    history(c, std::move(field), keys, extra, table, "points", vm::hcomb(n, keys.size()));
}

// a field sampled from a continuous one
template <int N, int D>
static void sampled(vm::Case & c)
{
    auto & r = c.rng;
    using L = mgen::Lib<N, D>;
    auto d = mgen::random<N>(r);
    mgen::embed(d, D, r, false);
    L lib;
    lib.make_nodes(d.x);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto p = poly::random(r, D, 3), q = poly::random(r, D, 2);
    using coord_t = mgen::cart_t<D>;
    auto f = disc::mesh_field(mesh, lib.cs, poly::field<D>(p), "p");
    auto g = disc::mesh_field(mesh, lib.cs, mito::functions::function([p, q](const coord_t & x) { mito::tensor::vector_t<2> v; v[0] = p(mgen::p3(x)); v[1] = q(mgen::p3(x)); return v; }), "pq");
    auto h = disc::mesh_field(mesh, lib.cs, 2.0 * poly::field<D>(p) - poly::field<D>(q), "2p-q");
    auto used = d.used();
    c.check("sampled:one-entry-per-node", f.size() == (int) used.size() && g.size() == (int) used.size() && h.size() == (int) used.size());
    for (int i : used) {
        double a = p(d.x[i]), b = q(d.x[i]);
        const auto & n = lib.nodes[i];
        c.check("sampled:value-at-the-place-of-the-node", f(n) == a && g(n)[0] == a && g(n)[1] == b, [&] { return vm::str("node ", i, ": ", f(n), " expected ", a); });
        c.near("sampled:value-at-the-place-of-the-node", h(n), 2 * a - b, 1e-14, 3 * (std::fabs(a) + std::fabs(b)));
    }
    // in another placement of the same points
    typename L::cs_t cs2;
    auto y = d.x;
    for (int i = 0; i < (int) y.size(); ++i) { for (int a = 0; a < D; ++a) y[i][a] = r.real(-1, 1); cs2.place(lib.nodes[i]->point(), mgen::coords<D>(y[i])); }
    auto f2 = disc::mesh_field(mesh, cs2, poly::field<D>(p), "p");
    for (int i : used) c.check("sampled:value-in-the-given-coordinate-system", f2(lib.nodes[i]) == p(y[i]) && f(lib.nodes[i]) == p(d.x[i]));
    c.distinct(vm::hreal(d.x[0][0]));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("scalars on nodes of triangles", 100, 4000, on_mesh<2, 2, double>);
    vm::section("vectors on nodes of triangles in 3D", 60, 3000, on_mesh<2, 3, mito::tensor::vector_t<3>>);
    vm::section("matrices on nodes of tetrahedra", 60, 3000, on_mesh<3, 3, mito::tensor::matrix_t<3>>);
    vm::section("integers on nodes of segments", 60, 3000, on_mesh<1, 2, int>);
    vm::section("text on nodes of segments", 60, 3000, on_mesh<1, 1, std::string>);
    vm::section("scalars at quadrature points", 60, 3000, on_cells<2, 2, 3, double>);
    vm::section("vectors at quadrature points", 60, 3000, on_cells<3, 3, 4, mito::tensor::vector_t<3>>);
    vm::section("matrices at quadrature points", 60, 3000, on_cells<1, 3, 1, mito::tensor::matrix_t<2>>);
    vm::section("scalars on points", 60, 3000, on_cloud<2, double>);
    vm::section("vectors on points", 60, 3000, on_cloud<3, mito::tensor::vector_t<3>>);
    vm::section("sampled on segments", 40, 2000, sampled<1, 1>);
    vm::section("sampled on triangles", 40, 2000, sampled<2, 2>);
    vm::section("sampled on surfaces", 40, 2000, sampled<2, 3>);
    vm::section("sampled on tetrahedra", 40, 2000, sampled<3, 3>);
    return vm::finish();
}
