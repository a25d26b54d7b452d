// K02: the boundary of a mesh is the closed skin of its cells; filters list sub-cells
#include "meshgen.h"
#include <mito/io.h>
#include <fstream>

using tpm::Labels;
using mgen::operator-;
using mgen::operator+;
using mgen::operator*;
using tpm::OKey;

// global sign of the library's facets with respect to the textbook boundary (tetrahedra list their facets inwards)
static const int convention[4] = { 0, 1, 1, -1 };

template <int N, int D, int I>
static void check_filter(vm::Case & c, mgen::Lib<N, D> & lib, const typename mgen::Lib<N, D>::mesh_t & mesh, const std::vector<Labels> & cells)
{
    auto f = mito::mesh::filter<I>(mesh);
    std::set<Labels> want, got;
    for (auto & l : cells)
        for (int mask = 0; mask < (1 << (N + 1)); ++mask)
            if (__builtin_popcount(mask) == I + 1) {
                Labels s;
                for (int i = 0; i <= N; ++i) if (mask >> i & 1) s.push_back(l[i]);
                std::sort(s.begin(), s.end());
                want.insert(s);
            }
    for (const auto & cell : f.cells()) {
        auto l = lib.labels(cell);
        c.check("filter:simplex-matches-nodes", tpm::key_of(lib.simplex_labels(cell.simplex())) == tpm::key_of(l));
        std::sort(l.begin(), l.end());
        got.insert(l);
    }
    c.check("filter:exactly-the-subcells", got == want, [&] { return vm::str("sub-cells of dimension ", I, ": ", got.size(), " instead of ", want.size()); });
    f.erase_topological_duplicates();
    c.check("filter:distinct-subcells", f.nCells() == (int) want.size(), [&] { return vm::str("dimension ", I, ": ", f.nCells(), " distinct instead of ", want.size()); });
    c.count("filtered meshes");
}

template <int N, int D>
static void skin(vm::Case & c, mgen::Lib<N, D> & lib, const typename mgen::Lib<N, D>::mesh_t & mesh, const std::vector<mgen::P3> & x, bool solid)
{
    std::vector<Labels> cells;
    std::map<Labels, std::array<int, 2>> facets;
    double volume = 0;
    for (const auto & cell : mesh.cells()) {
        cells.push_back(lib.labels(cell));
        for (auto & [f, s] : tpm::boundary(tpm::key_of(cells.back()))) facets[f][s > 0]++;
    }
    mgen::Data<N> now;
    now.x = x;
    for (auto & l : cells) { std::array<int, N + 1> a; std::copy(l.begin(), l.end(), a.begin()); now.c.push_back(a); }
    if (solid) for (int e = 0; e < (int) cells.size(); ++e) volume += now.signed_volume(e);
    std::multiset<OKey> want;
    for (auto & [f, n] : facets)
        if ((n[0] == 0) != (n[1] == 0)) for (int k = 0; k < n[0] + n[1]; ++k) want.insert({ f, n[1] ? 1 : -1 });
    int reported = mito::mesh::boundary_size(mesh);
    c.check("boundary:size-is-the-number-of-free-facets", reported == (int) want.size(), [&] { return vm::str("boundary_size ", reported, " of ", cells.size(), " cells, free facets ", want.size()); });
    auto bd = mito::mesh::boundary(mesh);
    if constexpr (N == 1) {
        std::set<Labels> got, wl;
        for (const auto & n : bd) got.insert({ lib.index(n) });
        for (auto & [f, s] : want) wl.insert(f);
        c.check("boundary:exactly-the-free-facets", got == wl && bd.size() == want.size());
    } else {
        c.check("boundary:size-agrees", bd.nCells() == reported, [&] { return vm::str("boundary has ", bd.nCells(), " cells, boundary_size ", reported); });
        std::multiset<OKey> got, plain_got, plain_want;
        for (const auto & cell : bd.cells()) {
            auto l = lib.labels(cell);
            c.check("boundary:nodes-of-the-mesh", std::find(l.begin(), l.end(), -1) == l.end());
            auto k = tpm::key_of(l);
            c.check("boundary:simplex-matches-nodes", tpm::key_of(lib.simplex_labels(cell.simplex())) == k);
            got.insert(k);
            plain_got.insert({ k.first, 1 });
        }
        for (auto & [f, s] : want) plain_want.insert({ f, 1 });
        c.check("boundary:exactly-the-free-facets", plain_got == plain_want, [&] { return vm::str(got.size(), " facets instead of ", want.size()); });
        std::multiset<OKey> oriented;
        for (auto & [f, s] : want) oriented.insert({ f, s * convention[N] });
        c.check("boundary:orientation-inherited-from-the-cell", got == oriented);
        c.check("boundary:of-boundary-is-empty", mito::mesh::boundary_size(bd) == 0, [&] { return vm::str("boundary of the boundary has ", mito::mesh::boundary_size(bd), " cells (", reported, " skin cells)"); });
        auto bb = mito::mesh::boundary(bd);
        if constexpr (N == 2) c.check("boundary:of-boundary-is-empty", bb.size() == 0);
        else c.check("boundary:of-boundary-is-empty", bb.nCells() == 0);
        if (solid) {
            // divergence theorem for x/N, about an arbitrary origin
            mgen::P3 o { c.rng.real(-1, 1), c.rng.real(-1, 1), N > 2 ? c.rng.real(-1, 1) : 0 };
            double flux = 0, size = 0;
            for (const auto & cell : bd.cells()) {
                mgen::P3 p[3];
                int i = 0;
                for (const auto & n : cell.nodes()) p[i++] = mgen::p3(lib.cs.coordinates(n->point())) - o;
                double t = N == 2 ? (p[0][0] * p[1][1] - p[0][1] * p[1][0]) / 2 : mgen::dot(p[0], mgen::cross(p[1], p[2])) / 6;
                flux += t;
                size += std::fabs(t);
            }
            c.near_abs("boundary:divergence-theorem-gives-the-volume", convention[N] * flux, volume, 1e-12 * (size + std::fabs(volume)) + 1e-14, vm::str(cells.size(), " cells"));
        }
        check_filter<N, D, N - 1>(c, lib, mesh, cells);
        if constexpr (N == 3) check_filter<N, D, 1>(c, lib, mesh, cells);
        // composition of boundary and filter
        if constexpr (N == 3) {
            auto w = mito::mesh::filter<1>(bd);
            std::set<Labels> wl, gl;
            for (auto & [f, s] : want) for (int k = 0; k < 3; ++k) { Labels e; for (int j = 0; j < 3; ++j) if (j != k) e.push_back(f[j]); wl.insert(e); }
            for (const auto & cell : w.cells()) { auto l = lib.labels(cell); std::sort(l.begin(), l.end()); gl.insert(l); }
            c.check("filter:wireframe-of-the-skin", wl == gl);
        }
    }
    c.count("boundary facets", want.size());
    c.count("interior facets", facets.size() - want.size());
}

template <int N, int D>
static void generated(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    mgen::Opt o;
    o.max = c.thorough() ? 7 : 4;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, false);
    mgen::Lib<N, D> lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    auto mesh = mito::mesh::mesh<typename mgen::Lib<N, D>::cell_t>();
    lib.fill(mesh, d);
    skin<N, D>(c, lib, mesh, d.x, N == D);
    uint64_t h = d.c.size();
    for (auto & v : d.c) h = vm::hcomb(h, vm::hseq(v));
    // erase some, put some back, add others with other arrangements
    if (r.coin(0.6)) {
        int rounds = 1 + r.pick(3);
        std::vector<Labels> out;
        for (int k = 0; k < rounds; ++k) {
            double p = r.unit() * 0.5;
            for (auto & cell : mesh.cells()) if (mesh.nCells() > 1 && r.coin(p)) { out.push_back(lib.labels(cell)); mesh.erase(cell); }
            while (!out.empty() && r.coin(0.4)) {
                int i = r.pick((int) out.size());
                mesh.insert(lib.node_array(out[i]));
                out.erase(out.begin() + i);
                c.count("reinserted cells");
            }
            skin<N, D>(c, lib, mesh, d.x, N == D);
            h = vm::hcomb(h, mesh.nCells());
        }
        c.count("erased cells", out.size());
    }
    c.distinct(h);
    if (c.wants_sample()) c.sample(vm::str(N, "-cells in ", D, "D: ", d.c.size(), " cells, ", mito::mesh::boundary_size(mesh), " free facets at the end"));
}

template <int N, int D>
static void from_file(vm::Case & c, const std::string & text)
{
    mgen::Lib<N, D> lib;
    { std::ofstream("k02.summit") << text; }
    std::ifstream in("k02.summit");
    auto mesh = mito::io::summit::reader<typename mgen::Lib<N, D>::cell_t>(in, lib.cs);
    std::vector<mgen::P3> x;
    for (const auto & cell : mesh.cells())
        for (const auto & n : cell.nodes())
            if (!lib.vertex_label.contains(n->vertex().id())) {
                lib.vertex_label[n->vertex().id()] = (int) lib.nodes.size();
                lib.nodes.push_back(n);
                x.push_back(mgen::p3(lib.cs.coordinates(n->point())));
            }
    skin<N, D>(c, lib, mesh, x, N == D);
    c.distinct(vm::hcomb(mesh.nCells(), x.size()));
    if (c.wants_sample()) c.sample(vm::str("file with ", mesh.nCells(), " cells and ", x.size(), " nodes"));
}

// the text of a mesh file of a random mesh, with the header of the reader's format
template <int N, int D>
static std::string summit(const mgen::Data<N> & d)
{
    std::ostringstream o;
    o.precision(17);
    o << D << "\n" << d.x.size() << " " << d.c.size() << " 1\n";
    for (auto & p : d.x) { for (int i = 0; i < D; ++i) o << p[i] << " "; o << "\n"; }
    for (auto & v : d.c) { o << N + 1; for (int i : v) o << " " << i + 1; o << " 1\n"; }
    return o.str();
}
template <int N, int D>
static void read_back(vm::Case & c)
{
    auto d = mgen::random<N>(c.rng);
    mgen::embed(d, D, c.rng, false);
    from_file<N, D>(c, summit<N, D>(d));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segments-1d", 60, 1500, generated<1, 1>);
    vm::section("segments-3d", 60, 1500, generated<1, 3>);
    vm::section("triangles-2d", 150, 4000, generated<2, 2>);
    vm::section("triangles-3d", 100, 3000, generated<2, 3>);
    vm::section("tetrahedra-3d", 100, 3000, generated<3, 3>);
    vm::section("read-triangles-2d", 20, 300, read_back<2, 2>);
    vm::section("read-tetrahedra-3d", 20, 300, read_back<3, 3>);
    return vm::finish();
}
