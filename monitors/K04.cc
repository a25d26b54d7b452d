// K04: mesh partitions cover the mesh exactly once, in every process
#include "meshgen.h"
#include <sys/wait.h>

using tpm::Labels;

// the parts as lists of the cells' labels
template <int N, int D>
static std::vector<std::vector<Labels>> parts_of(mgen::Lib<N, D> & lib, const typename mgen::Lib<N, D>::mesh_t & mesh, int n, const std::vector<int> & order, vm::Case * c)
{
    std::vector<std::vector<Labels>> parts(n);
    for (int rank : order) {
        auto p = mito::mesh::metis::partition(mesh, n, rank);
        for (const auto & cell : p.cells()) {
            parts[rank].push_back(lib.labels(cell));
            if (c) c->check("partition:simplex-matches-nodes", tpm::key_of(lib.simplex_labels(cell.simplex())) == tpm::key_of(parts[rank].back()));
        }
        if (c) c->check("partition:cell-count", p.nCells() == (int) parts[rank].size());
    }
    return parts;
}

static uint64_t digest(const std::vector<std::vector<Labels>> & parts)
{
    uint64_t h = parts.size();
    for (auto & p : parts) { h = vm::hcomb(h, p.size()); for (auto & l : p) h = vm::hcomb(h, vm::hseq(l)); }
    return h;
}

// the same mesh with the objects at other addresses
template <int N, int D>
struct Copy {
    using L = mgen::Lib<N, D>;
    vm::HeapNoise noise;
    L lib;
    std::vector<mito::topology::vertex_t> spare;
    std::unique_ptr<typename L::mesh_t> mesh;
    Copy(const mgen::Data<N> & d, vm::Rng & r, bool shuffle) : noise(r, r.pick(60))
    {
        std::map<int, typename L::node_t> made;
        std::vector<int> order = r.perm((int) d.x.size());
        if (!shuffle) std::sort(order.begin(), order.end());
        for (int i : order) {
            if (r.coin(0.2)) spare.push_back(mito::topology::vertex());
            made.emplace(i, mito::geometry::node(lib.cs, mgen::coords<D>(d.x[i])));
        }
        for (auto & [i, node] : made) {
            lib.nodes.push_back(node);
            lib.vertex_label[node->vertex().id()] = i;
        }
        lib.pollute(d, r, r.coin() ? 0.3 : 0);
        mesh = std::make_unique<typename L::mesh_t>(mito::mesh::mesh<typename L::cell_t>());
        // holes in the cells' storage
        if (r.coin(0.3)) {
            auto l = Labels(d.c[0].begin(), d.c[0].end());
            auto & cell = mesh->insert(lib.node_array(l));
            lib.fill(*mesh, d);
            mesh->erase(cell);
        } else lib.fill(*mesh, d);
    }
};

template <int N, int D>
static void cover(vm::Case & c)
{
    auto & r = c.rng;
    mgen::Opt o;
    o.max = c.thorough() ? 9 : 6;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, false);
    Copy<N, D> a(d, r, false);
    int cells = (int) d.c.size();
    std::vector<Labels> all;
    for (const auto & cell : a.mesh->cells()) all.push_back(a.lib.labels(cell));
    int n = 1 + r.pick(std::min(cells, r.coin(0.2) ? 40 : 9));
    if (r.coin(0.1)) n = 1;
    auto parts = parts_of<N, D>(a.lib, *a.mesh, n, r.perm(n), &c);
    // disjoint and complete, in the mesh's order
    std::multiset<Labels> got, want(all.begin(), all.end());
    for (auto & p : parts) {
        got.insert(p.begin(), p.end());
        size_t at = 0;
        for (auto & l : p) { while (at < all.size() && all[at] != l) ++at; ++at; }
        c.check("partition:keeps-the-order-and-orientation-of-cells", at <= all.size());
    }
    c.check("partition:every-cell-exactly-once", got == want, [&] { return vm::str(n, " parts of ", cells, " cells hold ", got.size(), " cells"); });
    if (n == 1) c.check("partition:single-part-is-the-mesh", parts[0] == all);
    c.check("partition:mesh-untouched", a.mesh->nCells() == cells);
    // asking again
    auto again = parts_of<N, D>(a.lib, *a.mesh, n, r.perm(n), nullptr);
    c.check("partition:repeatable", again == parts);
    // the facets between parts are the ones the parts' boundaries add
    std::map<Labels, std::array<int, 2>> facets;
    for (auto & l : all) for (auto & [f, s] : tpm::boundary(tpm::key_of(l))) facets[f][s > 0]++;
    // the same mesh elsewhere in memory
    Copy<N, D> b(d, r, true);
    std::vector<Labels> all_b;
    for (const auto & cell : b.mesh->cells()) all_b.push_back(b.lib.labels(cell));
    if (all_b == all) {
        auto other = parts_of<N, D>(b.lib, *b.mesh, n, r.perm(n), nullptr);
        c.check("partition:independent-of-memory-layout", other == parts, [&] { return vm::str(n, " parts of ", cells, " cells"); });
        c.count("layouts compared");
    }
    // the same mesh in another process
    if (r.coin(0.3)) {
        int fd[2];
        if (pipe(fd) == 0) {
            pid_t pid = fork();
            if (pid == 0) {
                vm::arm(0);
                uint64_t h = 0;
                {
                    vm::Rng q(r.next());
                    for (int i = 0; i < 50 + q.pick(200); ++i) a.spare.push_back(mito::topology::vertex());
                    Copy<N, D> child(d, q, true);
                    std::vector<Labels> all_c;
                    for (const auto & cell : child.mesh->cells()) all_c.push_back(child.lib.labels(cell));
                    h = all_c == all ? digest(parts_of<N, D>(child.lib, *child.mesh, n, q.perm(n), nullptr)) : 1;
                }
                (void) !write(fd[1], &h, sizeof h);
                _exit(0);
            }
            close(fd[1]);
            uint64_t h = 0;
            bool ok = read(fd[0], &h, sizeof h) == sizeof h;
            close(fd[0]);
            int status;
            waitpid(pid, &status, 0);
            c.check("partition:other-process-finishes", ok && WIFEXITED(status) && WEXITSTATUS(status) == 0);
            if (h != 1) { c.check("partition:independent-of-the-process", h == digest(parts)); c.count("processes compared"); }
        }
    }
    long empty = 0;
    for (auto & p : parts) empty += p.empty();
    c.count("empty parts", empty);
    c.count("parts", n);
    if (n == 1) c.trivial();
    c.distinct(vm::hcomb(digest(parts), n));
    if (c.wants_sample()) { std::vector<int> s; for (auto & p : parts) s.push_back((int) p.size()); c.sample(vm::str(cells, " cells in ", n, " parts of sizes ", vm::seq(s))); }
}

// more parts than cells, and meshes without cells
template <int N, int D>
static void degenerate(vm::Case & c)
{
    auto & r = c.rng;
    mgen::Opt o;
    o.max = 1, o.huge = false;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, false);
    mgen::Lib<N, D> lib;
    lib.make_nodes(d.x);
    auto mesh = mito::mesh::mesh<typename mgen::Lib<N, D>::cell_t>();
    bool none = r.coin(0.2);
    if (!none) lib.fill(mesh, d);
    int n = none ? 1 + r.pick(4) : mesh.nCells() + 1 + r.pick(5);
    std::multiset<Labels> want, got;
    for (const auto & cell : mesh.cells()) want.insert(lib.labels(cell));
    for (auto & p : parts_of<N, D>(lib, mesh, n, r.perm(n), &c)) got.insert(p.begin(), p.end());
    c.check("partition:every-cell-exactly-once", got == want, [&] { return vm::str(n, " parts of ", mesh.nCells(), " cells hold ", got.size(), " cells"); });
    c.distinct(vm::hcomb(n, mesh.nCells()));
    c.count(none ? "meshes without cells" : "more parts than cells");
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segments-1d", 40, 1000, cover<1, 1>);
    vm::section("triangles-2d", 80, 2500, cover<2, 2>);
    vm::section("triangles-3d", 60, 2000, cover<2, 3>);
    vm::section("tetrahedra-3d", 60, 2000, cover<3, 3>);
    vm::section("degenerate-triangles", 20, 300, degenerate<2, 2>);
    vm::section("degenerate-tetrahedra", 10, 200, degenerate<3, 3>);
    return vm::finish();
}
