// I01: a mesh written in summit format and read back is the same mesh
#include "meshgen.h"
#include <mito/io.h>
#include <fstream>
#include <optional>

using tpm::Labels;
namespace geo = mito::geometry;

static std::string slurp(const std::string & name)
{
    std::ifstream f(name, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

// what is observable of a mesh
template <int N, int D>
struct Picture {
    std::vector<std::array<std::array<double, D>, N + 1>> x;    // coordinates of the nodes of the cells
    std::vector<std::array<int, N + 1>> point, vertex, node;    // identities, numbered by first appearance
    std::vector<int> parity;                                     // of the simplex' vertices with respect to the nodes
    int boundary = 0;
};
template <int N, int D, class M, class CS>
static Picture<N, D> picture(vm::Case & c, const M & mesh, const CS & cs)
{
    Picture<N, D> p;
    std::map<uintptr_t, int> points, vertices;
    std::map<uintptr_t, int> nodes;
    for (const auto & cell : mesh.cells()) {
        auto & x = p.x.emplace_back();
        auto & pt = p.point.emplace_back();
        auto & vx = p.vertex.emplace_back();
        auto & nd = p.node.emplace_back();
        int i = 0;
        Labels order, actual;
        for (const auto & n : cell.nodes()) {
            const auto & q = cs.coordinates(n->point());
            for (int d = 0; d < D; ++d) x[i][d] = q[d];
            pt[i] = points.insert({ n->point().id(), (int) points.size() }).first->second;
            vx[i] = vertices.insert({ n->vertex().id(), (int) vertices.size() }).first->second;
            nd[i] = nodes.insert({ (uintptr_t) n.id(), (int) nodes.size() }).first->second;
            order.push_back(vx[i]);
            ++i;
        }
        for (const auto & v : cell.simplex()->vertices()) {
            auto it = vertices.find(v.id());
            actual.push_back(it == vertices.end() ? -1 : it->second);
        }
        p.parity.push_back(tpm::key_of(order) == tpm::key_of(actual));
    }
    p.boundary = mito::mesh::boundary_size(mesh);
    return p;
}

static bool printed_equal(double a, double b)
{
    return a == b || std::fabs(a - b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)) + 5e-324;
}

template <int N, int D>
static void same(vm::Case & c, const Picture<N, D> & a, const Picture<N, D> & b, bool shared_nodes)
{
    c.check("read-back:number-of-cells", a.x.size() == b.x.size(), [&] { return vm::str(b.x.size(), " cells read, ", a.x.size(), " written"); });
    for (size_t e = 0; e < a.x.size(); ++e) {
        for (int i = 0; i <= N; ++i)
            for (int d = 0; d < D; ++d)
                c.check("read-back:coordinates", printed_equal(b.x[e][i][d], a.x[e][i][d]), [&] { return vm::str("cell ", e, " node ", i, ": ", b.x[e][i][d], " instead of ", a.x[e][i][d]); });
        c.check("read-back:connectivity", a.point[e] == b.point[e] && a.vertex[e] == b.vertex[e],
                [&] { return vm::str("cell ", e, " joins points ", vm::seq(b.point[e]), " vertices ", vm::seq(b.vertex[e]), " instead of ", vm::seq(a.point[e]), " ", vm::seq(a.vertex[e])); });
        c.check("read-back:orientation", a.parity[e] && b.parity[e], [&] { return vm::str("cell ", e, " is oriented against its nodes: ", a.parity[e], " ", b.parity[e]); });
        if (shared_nodes) c.check("read-back:sharing-of-nodes", b.node[e] == b.point[e], [&] { return vm::str("cell ", e, " has nodes ", vm::seq(b.node[e]), " on points ", vm::seq(b.point[e])); });
        else
            for (int i = 0; i <= N; ++i) c.check("read-back:private-nodes", b.node[e][i] == (int) (e * (N + 1) + i), [&] { return vm::str("cell ", e, " shares nodes with another"); });
    }
    c.check("read-back:boundary", a.boundary == b.boundary, [&] { return vm::str("boundary of ", b.boundary, " facets instead of ", a.boundary); });
}

template <int N, int D, geo::CoordinateType T>
static void roundtrip(vm::Case & c)
{
    auto & r = c.rng;
    using coord_t = geo::coordinates_t<D, T>;
    using cell_t = geo::geometric_simplex_t<N, D>;
    using node_t = geo::node_t<D>;
    auto cs = geo::coordinate_system<coord_t>();
    // places: the mesh generator's, scaled, or any numbers at all (the format does not care)
    auto d = mgen::random<N>(r, { .max = c.thorough() ? 6 : 4 });
    mgen::embed<N>(d, D, r, false);
    int kind = r.pick(4);
    double scale = kind == 0 ? 1 : std::pow(10.0, (double) r.range(-300, 300));
    auto number = [&]() -> double {
        switch (r.pick(8)) {
        case 0: return (double) r.range(-1000000, 1000000);
        case 1: return r.coin() ? 0.0 : -0.0;
        case 2: return r.real(-1, 1) * std::pow(10.0, (double) r.range(-307, 307));
        case 3: return 1.0 + r.range(-4, 4) * 2.220446049250313e-16;
        case 4: return (double) r.range(-99999, 99999) * 1e-5;
        case 5: return r.real(-1, 1) * 1e15;
        case 6: return r.range(1, 1000) * 4.9406564584124654e-324;
        default: return r.real(-1, 1);
        }
    };
    std::vector<node_t> nodes;
    for (auto & p : d.x) {
        mito::tensor::vector_t<D> v;
        for (int i = 0; i < D; ++i) v[i] = kind == 3 ? number() : scale * p[i];
        nodes.push_back(geo::node(cs, coord_t(v)));
    }
    bool unshared = r.coin(0.3);
    auto mesh = mito::mesh::mesh<cell_t>();
    auto own = [&](int i) { return unshared && r.coin() ? node_t(nodes[i]->vertex(), nodes[i]->point()) : nodes[i]; };
    auto arr = [&](const std::array<int, N + 1> & v) {
        return [&]<int... I>(mito::tensor::integer_sequence<I...>) { return typename cell_t::nodes_type { own(v[I])... }; }(mito::tensor::make_integer_sequence<N + 1> {});
    };
    // opposite cells alive in the topology
    std::vector<cell_t> pollution;
    for (auto v : d.c)
        if (r.coin(0.2)) {
            std::swap(v[0], v[1]);
            pollution.push_back(cell_t(arr(v)));
        }
    bool empty = c.index % 23 == 22;
    if (!empty)
        for (auto & v : d.c) {
            if (r.coin(0.15)) mesh.insert(geo::flip(cell_t(arr(v)))), c.count("flipped cells");
            else mesh.insert(arr(v));
        }
    // some cells erased, some inserted again
    if (r.coin(0.4))
        for (int k = r.pick(1 + mesh.nCells() / 2); k > 0 && mesh.nCells() > 1; --k) {
            int i = r.pick(mesh.nCells());
            std::optional<typename cell_t::nodes_type> n;
            for (auto & cell : mesh.cells())
                if (i-- == 0) {
                    n = cell.nodes();
                    mesh.erase(cell);
                    break;
                }
            c.count("erased cells");
            if (r.coin(0.3)) mesh.insert(*n);
        }
    static const char * labels[] = { "", "CST", "T3", "1", "linear_tet", "two words", "Hex8-like", "7 8 9", "#" };
    std::string label = labels[r.pick(9)];
    std::string name = "i01";
    if (r.coin(0.3)) name += "_with.dots";
    c.note(vm::str("label '", label, "' cells ", mesh.nCells(), " kind ", kind, " unshared ", unshared));
    auto before = picture<N, D>(c, mesh, cs);
    if (r.coin(0.3)) { std::ofstream o(name + ".summit"); for (int i = 0; i < 4000; ++i) o << "stale contents "; }
    if (label.empty() && r.coin()) mito::io::summit::writer(name, mesh, cs);
    else mito::io::summit::writer(name, mesh, cs, label);
    std::string text = slurp(name + ".summit");
    // the file on its own
    {
        std::istringstream in(text);
        long dim = -1, nv = -1, nc = -1, nt = -1;
        in >> dim >> nv >> nc >> nt;
        int np = 0;
        for (auto & p : before.point) for (int i : p) np = std::max(np, i + 1);
        c.check("file:heading", in && dim == D && nv == np && nc == (long) before.x.size() && nt == 1, [&] { return vm::str("heading ", dim, " ", nv, " ", nc, " ", nt, "; the mesh has ", np, " points"); });
        std::vector<std::array<double, D>> x(nv);
        for (auto & p : x)
            for (auto & v : p) {
                std::string t;
                in >> t;
                char * end = nullptr;
                v = strtod(t.c_str(), &end);
                c.check("file:numbers", !t.empty() && *end == 0 && std::isfinite(v), [&] { return vm::str("coordinate '", t, "'"); });
            }
        std::map<long, int> id;
        std::string rest;
        std::getline(in, rest);
        for (size_t e = 0; e < before.x.size(); ++e) {
            std::getline(in, rest);
            std::istringstream line(rest);
            long type = -1;
            line >> type;
            c.check("file:cell-type", type == N + 1, [&] { return "line '" + rest + "'"; });
            for (int i = 0; i <= N; ++i) {
                long k = -1;
                line >> k;
                c.check("file:node-number", line && k >= 1 && k <= nv, [&] { return "line '" + rest + "'"; });
                auto [it, fresh] = id.insert({ k, before.point[e][i] });
                c.check("file:connectivity", it->second == before.point[e][i], [&] { return "line '" + rest + "'"; });
                for (int a = 0; a < D; ++a) c.check("file:coordinates", printed_equal(x[k - 1][a], before.x[e][i][a]), [&] { return vm::str(x[k - 1][a], " instead of ", before.x[e][i][a]); });
            }
            std::string material, l, tail;
            line >> material;
            std::getline(line, tail);
            size_t a = tail.find_first_not_of(' '), b = tail.find_last_not_of(' ');
            l = a == std::string::npos ? "" : tail.substr(a, b - a + 1);
            c.check("file:labels", material == "1" && l == label, [&] { return "line '" + rest + "'"; });
        }
        c.check("file:each-point-once", (int) id.size() == np);
        in >> rest;
        c.check("file:nothing-more", !in, [&] { return "'" + rest + "'"; });
    }
    auto again = [&]<mito::io::summit::GalerkinMeshType G>() {
        auto cs2 = geo::coordinate_system<coord_t>();
        std::ifstream in(name + ".summit");
        auto mesh2 = mito::io::summit::reader<cell_t, G>(in, cs2);
        same<N, D>(c, before, picture<N, D>(c, mesh2, cs2), G == mito::io::summit::CG);
        mito::io::summit::writer(name + "_2", mesh2, cs2, label);
        c.check("written-again:identical", slurp(name + "_2.summit") == text, "files differ");
        c.count("files read back");
    };
    again.template operator()<mito::io::summit::CG>();
    if (r.coin()) again.template operator()<mito::io::summit::DG>();
    // writing does not change the mesh
    auto after = picture<N, D>(c, mesh, cs);
    c.check("writing:mesh-unchanged", after.x == before.x && after.node == before.node && after.point == before.point && after.vertex == before.vertex);
    unlink((name + ".summit").c_str());
    unlink((name + "_2.summit").c_str());
    c.distinct(vm::hstr(text));
    if (c.wants_sample()) c.sample(text.substr(0, 160));
}

template <int N, int D, geo::CoordinateType T>
static void section(const char * what, long q, long t)
{
    vm::section(vm::str(what, " in ", D, "D"), q, t, [](vm::Case & c) { roundtrip<N, D, T>(c); });
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    journal::info_t("mito.summit.mesh_reader").deactivate();
    section<1, 1, geo::CARTESIAN>("segments", 80, 1500);
    section<1, 2, geo::CARTESIAN>("segments", 80, 1500);
    section<1, 3, geo::CARTESIAN>("segments", 80, 1500);
    section<2, 2, geo::CARTESIAN>("triangles", 120, 2500);
    section<2, 3, geo::CARTESIAN>("triangles", 120, 2500);
    section<3, 3, geo::CARTESIAN>("tetrahedra", 120, 2500);
    section<2, 2, geo::POLAR>("polar triangles", 80, 1500);
    section<3, 3, geo::SPHERICAL>("spherical tetrahedra", 60, 1000);
    section<2, 3, geo::SPHERICAL>("spherical triangles", 60, 1000);
    return vm::finish();
}
