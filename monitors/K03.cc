// K03: uniform refinement subdivides a mesh without gaps, overlaps or cracks
#include "meshgen.h"

using mgen::P3;
using tpm::Labels;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;

// place of a node of the refined mesh in the lattice of a coarse cell: barycentric coordinates times 2^n
template <int N>
static bool barycentric(const std::array<P3, 4> & p, const P3 & q, double scale, std::array<int, 4> & k, double tol)
{
    // least squares in the plane of the cell
    double a[3][4] = {};
    for (int i = 0; i < N; ++i) {
        for (int j = 0; j < N; ++j) a[i][j] = mgen::dot(p[i + 1] - p[0], p[j + 1] - p[0]);
        a[i][N] = mgen::dot(p[i + 1] - p[0], q - p[0]);
    }
    for (int i = 0; i < N; ++i) {
        int b = i;
        for (int j = i; j < N; ++j) if (std::fabs(a[j][i]) > std::fabs(a[b][i])) b = j;
        for (int m = 0; m <= N; ++m) std::swap(a[i][m], a[b][m]);
        for (int j = 0; j < N; ++j) if (j != i) { double f = a[j][i] / a[i][i]; for (int m = i; m <= N; ++m) a[j][m] -= f * a[i][m]; }
    }
    double l[4] = { 1 };
    P3 back = p[0];
    for (int i = 0; i < N; ++i) { l[i + 1] = a[i][N] / a[i][i]; l[0] -= l[i + 1]; back = back + l[i + 1] * (p[i + 1] - p[0]); }
    double size = 0;
    for (int i = 0; i < N; ++i) size = std::max(size, mgen::norm(p[i + 1] - p[0]));
    if (mgen::norm(back - q) > tol * size) return false;
    int s = 0;
    for (int i = 0; i <= N; ++i) {
        double v = l[i] * scale;
        k[i] = (int) std::lround(v);
        if (std::fabs(v - k[i]) > tol * scale || k[i] < 0) return false;
        s += k[i];
    }
    return s == (int) scale;
}

template <int N, int D>
static void refine(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    mgen::Opt o;
    o.max = N == 3 ? 2 : 3, o.huge = false;
    o.large = 0.04;
    auto d = mgen::random<N>(r, o);
    if (r.coin(0.3)) d.scramble(r);
    // now and then few cells refined deeply
    bool deep = r.coin(c.thorough() ? 0.1 : 0.05);
    if (deep) d.c.resize(std::min((int) d.c.size(), 1 + r.pick(N == 3 ? 1 : 3)));
    mgen::embed(d, D, r, false);
    using L = mgen::Lib<N, D>;
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    bool dg = r.coin(0.15); // every cell its own nodes, on shared vertices and points
    if (dg)
        for (auto & v : d.c)
            [&]<int... I>(mito::tensor::integer_sequence<I...>) {
                mesh.insert({ typename L::node_t(lib.nodes[v[I]]->vertex(), lib.nodes[v[I]]->point())... });
            }(mito::tensor::make_integer_sequence<N + 1> {});
    else lib.fill(mesh, d);
    int cells = mesh.nCells();
    int top = N == 1 ? 5 : N == 2 ? (cells < 40 ? 3 : 2) : (cells < 20 ? 2 : 1);
    if (c.thorough() && N == 3 && cells <= 6) top = 3;
    int n = r.pick(top + 1);
    if (cells > 150 && r.coin(0.4)) n = 0;
    if (deep) while (((long) cells << (N * (n + 1))) <= 5000) ++n;
    c.count(vm::str("refined ", n, " times"));
    int children = 1 << (N * n), scale = 1 << n;
    // in one go or in steps
    std::unique_ptr<typename L::mesh_t> fine;
    bool steps = n >= 2 && r.coin(0.4);
    if (n == 1 && r.coin()) fine = std::make_unique<typename L::mesh_t>(mito::mesh::tetra(mesh, lib.cs));
    else if (steps) {
        int k = 1 + r.pick(n - 1);
        auto half = mito::mesh::tetra(mesh, lib.cs, k);
        fine = std::make_unique<typename L::mesh_t>(mito::mesh::tetra(half, lib.cs, n - k));
    } else fine = std::make_unique<typename L::mesh_t>(mito::mesh::tetra(mesh, lib.cs, n));

    c.check("refine:original-untouched", mesh.nCells() == cells);
    c.check("refine:number-of-cells", fine->nCells() == cells * children, [&] { return vm::str(n, " refinements of ", cells, " cells give ", fine->nCells()); });

    // nodes by label, numbered after the coarse ones; places of new nodes in the lattice of edges, faces, cells
    std::map<uintptr_t, int> label;
    std::vector<P3> x = d.x;
    for (int i = 0; i < (int) d.x.size(); ++i) label[lib.nodes[i]->vertex().id()] = i;
    auto point_of = [&](const auto & node) { return mgen::p3(lib.cs.coordinates(node->point())); };
    // lattice points: nonzero (coarse node, multiple) pairs
    using Site = std::vector<std::pair<int, int>>;
    std::map<Site, int> site_label;
    std::map<int, Site> label_site;
    std::map<uintptr_t, uintptr_t> vertex_point;
    std::map<std::pair<int, uintptr_t>, uintptr_t> vertex_node;
    mgen::Data<N> f;
    int index = 0;
    for (const auto & cell : fine->cells()) {
        int parent = index / children; // children follow the order of their parents
        std::array<P3, 4> p {};
        for (int i = 0; i <= N; ++i) p[i] = d.x[d.c[parent][i]];
        std::array<int, N + 1> fl;
        int j = 0;
        for (const auto & node : cell.nodes()) {
            P3 q = point_of(node);
            std::array<int, 4> k {};
            bool ok = barycentric<N>(p, q, scale, k, 1e-8);
            c.check("refine:nodes-in-the-lattice-of-the-parent", ok, [&] { return vm::str("cell ", index, " node ", j, " at ", q[0], " ", q[1], " ", q[2], ", ", n, " refinements"); });
            Site s;
            for (int i = 0; i <= N; ++i) if (k[i]) s.push_back({ d.c[parent][i], k[i] });
            std::sort(s.begin(), s.end());
            auto id = node->vertex().id();
            auto it = label.find(id);
            int l;
            if (it == label.end()) {
                l = label[id] = (int) x.size();
                x.push_back(q);
            } else l = it->second;
            if (s.size() == 1) c.check("refine:old-nodes-kept", l == s[0].first);
            // one vertex per site and one site per vertex: no cracks, no welding
            auto [a, fresh] = site_label.insert({ s, l });
            c.check("refine:shared-places-share-vertices", fresh || a->second == l, [&] { return vm::str(n, " refinements of ", cells, " cells: two vertices at the same place of the coarse mesh, new nodes so far ", x.size() - d.x.size()); });
            auto [b, fresh2] = label_site.insert({ l, s });
            c.check("refine:one-place-per-vertex", fresh2 || b->second == s);
            auto [v, fresh3] = vertex_point.insert({ id, node->point().id() });
            c.check("refine:one-point-per-vertex", fresh3 || v->second == node->point().id());
            // cells of a mesh whose nodes are shared share the new ones too; the children of a cell with nodes of its own share theirs
            auto [u, fresh4] = vertex_node.insert({ { dg ? parent : 0, id }, node.id() });
            c.check("refine:one-node-per-vertex", fresh4 || u->second == node.id(), [&] { return vm::str(n, " refinements of ", cells, " cells", dg ? " with nodes of their own" : "", ", new nodes so far ", x.size() - d.x.size()); });
            fl[j++] = l;
        }
        f.c.push_back(fl);
        Labels sl;
        for (const auto & v : cell.simplex()->vertices()) sl.push_back(label.at(v.id()));
        c.check("refine:simplex-matches-nodes", tpm::key_of(sl) == tpm::key_of(Labels(fl.begin(), fl.end())));
        ++index;
    }
    f.x = x;
    // volumes
    index = 0;
    for (int e = 0; e < cells; ++e) {
        double sum = 0;
        for (int k = 0; k < children; ++k, ++index) {
            double v = N == D ? f.signed_volume(index) : f.measure(index);
            c.check("refine:positive-orientation", v > 0, [&] { return vm::str("child ", k, " of cell ", e, " after ", n, " refinements has volume ", v); });
            if constexpr (N == 2 && D == 3) {
                // same side as the parent
                auto nrm = [](const mgen::Data<N> & m, int e) { return mgen::cross(m.x[m.c[e][1]] - m.x[m.c[e][0]], m.x[m.c[e][2]] - m.x[m.c[e][0]]); };
                c.check("refine:positive-orientation", mgen::dot(nrm(f, index), nrm(d, e)) > 0);
            }
            if constexpr (N == 1) c.check("refine:positive-orientation", mgen::dot(f.x[f.c[index][1]] - f.x[f.c[index][0]], d.x[d.c[e][1]] - d.x[d.c[e][0]]) > 0);
            // every child has the measure of the parent over their number: with the sum, no overlaps
            c.near_abs("refine:children-of-equal-measure", v, d.measure(e) / children, 1e-9 * d.measure(e));
            sum += v;
        }
        c.near_abs("refine:volume-conserved", sum, d.measure(e), 1e-11 * d.measure(e) + 1e-15);
    }
    // the refined boundary
    auto fc = f.facet_counts(), dc = d.facet_counts();
    auto open = [](const auto & m) { long k = 0; for (auto & [g, n] : m) k += (n[0] == 0) != (n[1] == 0) ? n[0] + n[1] : 0; return k; };
    long factor = 1L << ((N - 1) * n);
    c.check("refine:conforming", open(fc) == open(dc) * factor, [&] { return vm::str("free facets ", open(fc), " instead of ", open(dc) * factor, " after ", n, " refinements of ", cells, " cells"); });
    c.check("refine:boundary-size", mito::mesh::boundary_size(*fine) == mito::mesh::boundary_size(mesh) * factor,
        [&] { return vm::str(mito::mesh::boundary_size(*fine), " from ", mito::mesh::boundary_size(mesh)); });
    for (auto & [g, n] : fc) c.check("refine:at-most-two-cells-at-a-facet", n[0] <= 1 && n[1] <= 1);
    auto facet_measure = [](const std::vector<P3> & x, const Labels & g) {
        if (N == 1) return 1.0;
        if (N == 2) return mgen::norm(x[g[1]] - x[g[0]]);
        return mgen::norm(mgen::cross(x[g[1]] - x[g[0]], x[g[2]] - x[g[0]])) / 2;
    };
    double mf = 0, md = 0;
    for (auto & [g, n] : fc) if ((n[0] == 0) != (n[1] == 0)) mf += facet_measure(x, g);
    for (auto & [g, n] : dc) if ((n[0] == 0) != (n[1] == 0)) md += facet_measure(d.x, g);
    c.near("refine:boundary-measure", mf, md, 1e-11);
    if (n == 0) {
        int e = 0;
        bool same = true;
        for (const auto & cell : fine->cells()) {
            auto & v = d.c[e++];
            int j = 0;
            for (const auto & node : cell.nodes()) same = same && label.at(node->vertex().id()) == v[j++] && (dg || node == lib.nodes[v[j - 1]]);
        }
        c.check("refine:zero-refinements-reproduce-the-mesh", same);
    }
    c.count("refined cells", fine->nCells());
    c.count("new nodes", x.size() - d.x.size());
    if (n == 0) c.trivial();
    uint64_t h = vm::hcomb(n, dg);
    for (auto & v : d.c) h = vm::hcomb(h, vm::hseq(v));
    c.distinct(h);
    if (c.wants_sample()) c.sample(vm::str(N, "-cells in ", D, "D: ", cells, " cells refined ", n, " times: ", fine->nCells(), " cells, ", x.size(), " nodes"));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segments-1d", 100, 2000, refine<1, 1>);
    vm::section("segments-3d", 80, 2000, refine<1, 3>);
    vm::section("triangles-2d", 120, 3000, refine<2, 2>);
    vm::section("triangles-3d", 80, 2000, refine<2, 3>);
    vm::section("tetrahedra-3d", 100, 2000, refine<3, 3>);
    return vm::finish();
}
