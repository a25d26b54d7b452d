// E03: discretization shares degrees of freedom exactly where cells meet
#include "femtools.h"
using namespace femt;

using Edge = std::array<int, 2>;
static Edge edge(int a, int b) { return a < b ? Edge { a, b } : Edge { b, a }; }

template <int N>
static auto zero_field()
{
    return mito::functions::zero<mgen::cart_t<N>>;
}
// check a function space against the mesh data; {con}: labels of the constrained facets
template <int N, int P, class L, class FS>
static void inspect(vm::Case & c, const L & lib, const mgen::Data<N> & d, const typename L::mesh_t & mesh, const FS & fs, const std::set<tpm::Labels> & con, std::set<mito::discrete::discretization_node_t> * all = nullptr)
{
    using E = element_t<N, P>;
    using dof_t = typename E::discretization_node_type;
    std::map<int, dof_t> corner;
    std::map<Edge, dof_t> mid;
    std::map<dof_t, int> seen; // how many different mesh entities a node represents
    std::set<dof_t> dofs;
    auto it = mesh.cells().begin();
    int n = 0;
    std::multiset<std::vector<int>> want, got;
    for (auto & v : d.c) want.insert(std::vector<int>(v.begin(), v.end()));
    for (const auto & e : fs.elements()) {
        if (it == mesh.cells().end()) { c.check("one-element-per-cell", false); break; }
        c.check("element:of-a-cell-of-the-mesh", &e.cell() == &*it);
        ++it;
        ++n;
        auto l = lib.labels(e.cell());
        got.insert(l);
        auto put = [&](auto & m, auto key, const dof_t & dof) {
            auto [p, fresh] = m.insert({ key, dof });
            if (fresh) c.check("nodes:not-shared-by-others", seen[dof]++ == 0, [&] { return vm::str("a discretization node stands for several mesh entities, element ", n); });
            else c.check("nodes:shared-where-cells-meet", p->second == dof, [&] { return vm::str("element ", n, " does not share its node"); });
            dofs.insert(dof);
        };
        const auto & k = e.connectivity();
        for (int i = 0; i <= N; ++i) put(corner, l[i], k[i]);
        if constexpr (P == 2) for (int i = 0; i < 3; ++i) put(mid, edge(l[i], l[(i + 1) % 3]), k[3 + i]);
    }
    c.check("one-element-per-cell", n == (int) d.c.size() && got == want);
    size_t edges = P == 2 ? d.subcells(1).size() : 0;
    c.check("number-of-nodes", dofs.size() == d.used().size() + edges, [&] { return vm::str(dofs.size(), " nodes for ", d.used().size(), " mesh nodes and ", edges, " edges"); });
    c.count("nodes", dofs.size());
    // the map from mesh nodes
    c.check("node-map:size", fs.node_map().size() == d.used().size());
    for (auto & [l, dof] : corner) {
        auto f = fs.node_map().find(lib.nodes[l]);
        c.check("node-map:entry", f != fs.node_map().end() && f->second == dof);
    }
    // constraints
    std::set<dof_t> cn;
    for (auto & f : con) {
        for (int l : f) if (corner.count(l)) cn.insert(corner.at(l));
        if constexpr (P == 2) if (mid.count(edge(f[0], f[1]))) cn.insert(mid.at(edge(f[0], f[1])));
    }
    c.check("constrained-nodes", fs.constrained_nodes() == cn, [&] { return vm::str(fs.constrained_nodes().size(), " constrained nodes instead of ", cn.size()); });
    c.count("constrained nodes", cn.size());
    // enumeration
    std::set<dof_t> e1;
    fem::get_discretization_nodes(fs, e1);
    c.check("get-discretization-nodes", e1 == dofs);
    // fields
    auto f = fs.template fem_field<double>("f");
    auto g = fs.template fem_field<double>("g");
    std::map<dof_t, double> vf, vg;
    auto & r = c.rng;
    for (auto & dof : dofs) { f(dof) = vf[dof] = r.real(-5, 5); g(dof) = vg[dof] = r.real(-5, 5); }
    auto same = [&](auto & field, auto & v) {
        size_t k = 0;
        bool ok = true;
        for (auto & [node, value] : field) { auto p = v.find(node); ok = ok && p != v.end() && p->second == value; ++k; }
        return ok && k == v.size();
    };
    const auto & fc = f;
    c.check("field:one-value-per-node", same(f, vf) && same(g, vg) && same(fc, vf));
    bool ok = f.nodal_values().name() == "f" && g.nodal_values().name() == "g";
    for (auto & dof : dofs) ok = ok && fc(dof) == vf[dof] && g(dof) == vg[dof] && f.nodal_values()(dof) == vf[dof];
    c.check("field:values", ok);
    auto h = std::move(f);
    c.check("field:moved", same(h, vf));
    if (all) for (auto & dof : dofs) c.check("nodes:of-one-space-only", all->insert(dof).second);
}

template <int N, int P>
static void space(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    mgen::Opt o;
    o.max = 4;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, N, r, true);
    if (r.coin(0.3)) for (auto & v : d.c) if (r.coin(0.3)) { if (N == 2) std::swap(v[0], v[1]); } // turned over
    c.distinct(vm::hreal(d.x[0][0]));
    using L = mgen::Lib<N, N>;
    using E = element_t<N, P>;
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    if (r.coin(0.3) && d.c.size() > 2) { // part of the mesh has been erased again
        int k = (int) r.range(1, (int) d.c.size() / 2);
        for (int i = 0; i < k; ++i) {
            int j = r.pick((int) d.c.size());
            auto it = mesh.cells().begin();
            for (; it != mesh.cells().end(); ++it) { auto l = lib.labels(*it); if (std::equal(l.begin(), l.end(), d.c[j].begin())) break; }
            mesh.erase(*it);
            d.c.erase(d.c.begin() + j);
        }
        c.count("meshes with erased cells");
    }
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    std::set<mito::discrete::discretization_node_t> all;
    auto zero = zero_field<N>();
    if constexpr (N == 1) {
        // the skin, any subset of nodes, nodes off the manifold
        using nodes_t = std::unordered_set<geo::node_t<1>, mito::utilities::hash_function<geo::node_t<1>>>;
        std::set<tpm::Labels> skin, some, more;
        nodes_t ns, nm;
        for (auto & [f, n] : d.facet_counts()) if (n[0] + n[1] == 1) skin.insert(f);
        for (int i = 0; i < (int) lib.nodes.size(); ++i) {
            if (d.used().count(i) && r.coin(0.3)) { some.insert({ i }); ns.insert(lib.nodes[i]); }
            if (r.coin(0.3)) { more.insert({ i }); nm.insert(lib.nodes[i]); }
        }
        auto boundary = mito::mesh::boundary(mesh);
        auto bc = mito::constraints::dirichlet_bc(boundary, zero);
        auto fs = fem::function_space<E>(manifold, bc);
        inspect<N, P>(c, lib, d, mesh, fs, skin, &all);
        auto bs = mito::constraints::dirichlet_bc(ns, zero);
        auto fs2 = fem::function_space<E>(manifold, bs);
        inspect<N, P>(c, lib, d, mesh, fs2, some, &all);
        c.check("constraints:reference", &fs2.constraints() == &bs && &bs.domain() == &ns);
        auto extra = geo::node(lib.cs, mgen::coords<1>({ 77, 0, 0 }));
        nm.insert(extra);
        auto bm = mito::constraints::dirichlet_bc(nm, zero);
        auto fs3 = fem::function_space<E>(manifold, bm);
        inspect<N, P>(c, lib, d, mesh, fs3, more, &all);
        inspect<N, P>(c, lib, d, mesh, fs, skin);
    } else {
        using edge_mesh_t = mito::mesh::mesh_t<geo::segment_t<2>>;
        std::set<tpm::Labels> skin, some, more;
        for (auto & [f, n] : d.facet_counts()) if (n[0] + n[1] == 1) skin.insert(f);
        edge_mesh_t ms = mito::mesh::mesh<geo::segment_t<2>>(), mm = mito::mesh::mesh<geo::segment_t<2>>();
        auto put = [&](edge_mesh_t & m, tpm::Labels l) {
            if (r.coin()) std::swap(l[0], l[1]);
            m.insert({ lib.nodes[l[0]], lib.nodes[l[1]] });
        };
        for (auto & l : d.subcells(1)) if (r.coin(0.3)) { some.insert(l); put(ms, l); }
        for (auto & l : d.subcells(1)) if (r.coin(0.2)) { more.insert(l); put(mm, l); }
        int k = (int) r.range(1, 5);
        for (int i = 0; i < k; ++i) { // edges which are not edges of the manifold
            int a = r.pick((int) lib.nodes.size()), b = r.pick((int) lib.nodes.size());
            if (a == b || more.count({ std::min(a, b), std::max(a, b) })) continue;
            tpm::Labels l { std::min(a, b), std::max(a, b) };
            more.insert(l);
            put(mm, l);
        }
        // the skin as the library takes it: of cells which are oriented alike
        bool alike = true;
        for (int e = 0; e < (int) d.c.size(); ++e) alike = alike && d.signed_volume(e) > 0;
        auto boundary = [&]() -> edge_mesh_t {
            if (alike) return mito::mesh::boundary(mesh);
            edge_mesh_t m = mito::mesh::mesh<geo::segment_t<2>>();
            for (auto & l : skin) put(m, l);
            return m;
        }();
        auto bc = mito::constraints::dirichlet_bc(boundary, zero);
        auto fs = fem::function_space<E>(manifold, bc);
        inspect<N, P>(c, lib, d, mesh, fs, skin, &all);
        auto bs = mito::constraints::dirichlet_bc(ms, zero);
        auto fs2 = fem::function_space<E>(manifold, bs);
        inspect<N, P>(c, lib, d, mesh, fs2, some, &all);
        c.check("constraints:reference", &fs2.constraints() == &bs && &bs.domain() == &ms);
        auto bm = mito::constraints::dirichlet_bc(mm, zero);
        auto fs3 = fem::function_space<E>(manifold, bm);
        inspect<N, P>(c, lib, d, mesh, fs3, more, &all);
        inspect<N, P>(c, lib, d, mesh, fs, skin);
    }
    c.sample(vm::str("degree ", P, ", ", d.c.size(), " cells, ", d.used().size(), " mesh nodes, ", all.size(), " discretization nodes in three spaces"));
}

// a manifold without elements has a space without nodes
template <int N, int P>
static void nothing(vm::Case & c)
{
    using L = mgen::Lib<N, N>;
    using E = element_t<N, P>;
    L lib;
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    auto zero = zero_field<N>();
    auto boundary = mito::mesh::boundary(mesh);
    auto bc = mito::constraints::dirichlet_bc(boundary, zero);
    auto fs = fem::function_space<E>(manifold, bc);
    mgen::Data<N> d;
    inspect<N, P>(c, lib, d, mesh, fs, {});
    c.distinct(c.index);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segment-p1", 120, 4000, space<1, 1>);
    vm::section("triangle-p1", 120, 4000, space<2, 1>);
    vm::section("triangle-p2", 120, 4000, space<2, 2>);
    vm::section("empty-segment-p1", 2, 2, nothing<1, 1>);
    vm::section("empty-triangle-p1", 2, 2, nothing<2, 1>);
    vm::section("empty-triangle-p2", 2, 2, nothing<2, 2>);
    return vm::finish();
}
