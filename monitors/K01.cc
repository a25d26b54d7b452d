// K01: a mesh counts and classifies its cells under any insert/erase history
#include "meshgen.h"

template <int N, int D>
struct Run {
    using L = mgen::Lib<N, D>;
    vm::Case & c;
    vm::Rng & r;
    L lib;
    mgen::Data<N> pool;
    uint64_t trace = 5;
    struct Model {
        std::multiset<tpm::Labels> cells;
        std::map<tpm::Labels, std::array<int, 2>> facets;
        void change(const tpm::Labels & l, int by)
        {
            if (by > 0) cells.insert(l);
            else cells.erase(cells.find(l));
            for (auto & [f, s] : tpm::boundary(tpm::key_of(l))) facets[f][s > 0] += by;
        }
    } model;

    explicit Run(vm::Case & c) : c(c), r(c.rng) {}

    void verify(const typename L::mesh_t & m, const char * when)
    {
        c.check("size:number-of-present-cells", m.nCells() == (int) model.cells.size(), [&] { return vm::str(when, ": ", m.nCells(), " instead of ", model.cells.size()); });
        std::multiset<tpm::Labels> got;
        for (const auto & cell : m.cells()) {
            auto l = lib.labels(cell);
            got.insert(l);
            auto k = tpm::key_of(l);
            c.check("cells:simplex-matches-nodes", tpm::key_of(lib.simplex_labels(cell.simplex())) == k);
            auto bd = tpm::boundary(k);
            int nf = 0;
            for (const auto & f : cell.simplex()->composition()) {
                tpm::Labels fl;
                if constexpr (N == 1) fl = { lib.vertex_label.at(f->footprint().id()) };
                else fl = lib.simplex_labels(f);
                auto key = fl;
                std::sort(key.begin(), key.end());
                c.check("facets:belong-to-the-cell", bd.contains(key));
                int mine = bd[key];
                bool expected = model.facets[key][mine < 0] == 0;
                auto oriented = cell.simplex()->orientation() == 1 ? f : mito::topology::flip(f);
                c.check("facet:on-boundary-iff-no-opposite", m.isOnBoundary(oriented) == expected, [&] {
                    return vm::str(when, ": facet ", vm::seq(fl), " of cell ", vm::seq(l), " (occurs ", model.facets[key][0], "/", model.facets[key][1], " times) reported ", !expected);
                });
                c.check("facet:on-boundary-of-the-cell-iff-no-opposite", m.isOnBoundary(cell, f) == expected, [&] {
                    return vm::str(when, ": facet ", vm::seq(fl), " of cell ", vm::seq(l), " (occurs ", model.facets[key][0], "/", model.facets[key][1], " times) reported ", !expected);
                });
                ++nf;
                c.count(expected ? "boundary facets" : "interior facets");
            }
            c.check("facets:number", nf == N + 1);
        }
        c.check("cells:exactly-those-inserted-and-not-erased", got == model.cells, [&] {
            std::string s = vm::str(when, ": present");
            for (auto & l : got) s += vm::seq(l);
            s += " expected";
            for (auto & l : model.cells) s += vm::seq(l);
            return s.substr(0, 500);
        });
    }
    tpm::Labels random_cell()
    {
        auto & v = r.of(pool.c);
        tpm::Labels l(v.begin(), v.end());
        if (r.coin(0.2)) r.shuffle(l);
        return l;
    }
    std::vector<tpm::Labels> order(const typename L::mesh_t & m)
    {
        std::vector<tpm::Labels> o;
        for (const auto & cell : m.cells()) o.push_back(lib.labels(cell));
        return o;
    }
    void run()
    {
        vm::HeapNoise noise(r, r.pick(30));
        mgen::Opt o;
        o.max = 3;
        o.large = 0.06;
        pool = mgen::random<N>(r, o);
        mgen::embed(pool, D, r, false);
        lib.make_nodes(pool.x);
        lib.pollute(pool, r, r.coin(0.5) ? 0.3 : 0);
        using mesh_t = typename L::mesh_t;
        auto mesh = std::make_unique<mesh_t>(mito::mesh::mesh<typename L::cell_t>());
        int steps = (int) r.range(5, c.thorough() ? 150 : 60);
        bool full = r.coin(pool.c.size() > 60 ? 0.9 : 0.5);
        if (full) for (auto & v : pool.c) { tpm::Labels l(v.begin(), v.end()); mesh->insert(lib.node_array(l)); model.change(l, 1); }
        verify(*mesh, "start");
        for (int s = 0; s < steps; ++s) {
            int op = r.weighted({ 6, 3, 2, 6, 1, 1, 1, 1 });
            trace = vm::hcomb(trace, op);
            switch (op) {
                case 0: {
                    auto l = random_cell();
                    auto & cell = mesh->insert(lib.node_array(l));
                    model.change(l, 1);
                    c.check("insert:returns-the-cell", lib.labels(cell) == l);
                    trace = vm::hcomb(trace, vm::hseq(l));
                    break;
                }
                case 1: {
                    auto l = random_cell();
                    typename L::cell_t cell(lib.node_array(l));
                    auto & got = mesh->insert(cell);
                    model.change(l, 1);
                    c.check("insert:returns-the-cell", lib.labels(got) == l && &got != &cell);
                    break;
                }
                case 2: {
                    auto l = random_cell();
                    auto cell = mito::geometry::flip(typename L::cell_t(lib.node_array(l)));
                    auto f = lib.labels(cell);
                    c.check("flipped-cell:opposite-orientation", tpm::key_of(f) == tpm::flipped(tpm::key_of(l)));
                    mesh->insert(cell);
                    model.change(f, 1);
                    break;
                }
                case 3: { // erase a few
                    int k = r.coin(0.2) ? 1 + r.pick(6) : 1;
                    for (int i = 0; i < k && mesh->nCells() > 0; ++i) {
                        int at = r.pick(mesh->nCells()), j = 0;
                        for (auto & cell : mesh->cells())
                            if (j++ == at) {
                                auto l = lib.labels(cell);
                                mesh->erase(cell);
                                model.change(l, -1);
                                trace = vm::hcomb(trace, vm::hseq(l));
                                if (r.coin(0.2)) mesh->erase(cell); // erasing again changes nothing
                                break;
                            }
                    }
                    break;
                }
                case 4: { // erase while iterating
                    int mod = 2 + r.pick(3), j = 0;
                    for (auto & cell : mesh->cells())
                        if (j++ % mod == 0) { auto l = lib.labels(cell); mesh->erase(cell); model.change(l, -1); }
                    break;
                }
                case 5: {
                    auto before = order(*mesh);
                    mesh->erase_topological_duplicates();
                    std::set<tpm::Labels> seen;
                    std::vector<tpm::Labels> want;
                    for (auto & l : before) if (seen.insert(tpm::key_of(l).first).second) want.push_back(l); else model.change(l, -1);
                    c.check("duplicates:topological-keeps-the-first-of-each", order(*mesh) == want);
                    c.count("topological duplicates erased", before.size() - want.size());
                    break;
                }
                case 6: {
                    auto before = order(*mesh);
                    mesh->erase_geometrical_duplicates();
                    std::set<tpm::OKey> seen;
                    std::vector<tpm::Labels> want;
                    for (auto & l : before) if (seen.insert(tpm::key_of(l)).second) want.push_back(l); else model.change(l, -1);
                    c.check("duplicates:geometrical-keeps-the-first-of-each", order(*mesh) == want);
                    c.count("geometrical duplicates erased", before.size() - want.size());
                    break;
                }
                case 7: { // the mesh moves
                    auto other = std::make_unique<mesh_t>(std::move(*mesh));
                    mesh = std::move(other);
                    break;
                }
            }
            if (r.coin(mesh->nCells() > 100 ? 0.05 : 0.25) || s == steps - 1) verify(*mesh, vm::str("step ", s, " op ", op).c_str());
        }
        c.distinct(trace);
        if (c.wants_sample()) c.sample(vm::str(N, "-cells in ", D, "D, pool of ", pool.c.size(), " cells, ", steps, " steps, ", mesh->nCells(), " cells left, ", lib.pollution.size(), " opposite simplices alive"));
    }
};

template <int N, int D>
static void history(vm::Case & c) { Run<N, D>(c).run(); }

// a facet shared by a great many cells
template <int N>
static void hub(vm::Case & c)
{
    constexpr int D = N;
    auto & r = c.rng;
    using L = mgen::Lib<N, D>;
    L lib;
    static const int marks[] = { 127, 128, 255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537 };
    int top = marks[r.pick(c.thorough() || r.coin(0.15) ? 11 : 6)] + 1 + r.pick(3);
    std::vector<mgen::P3> x;
    auto place = [&] { mgen::P3 p {}; for (int a = 0; a < D; ++a) p[a] = r.real(-1, 1); return p; };
    for (int i = 0; i < N + top; ++i) x.push_back(place());
    lib.make_nodes(x);
    // a few cells on the other side, or none, come first or last
    auto mesh = mito::mesh::mesh<typename L::cell_t>();
    using cell_t = typename L::cell_t;
    std::array<long, 2> sides {};
    std::vector<std::pair<cell_t *, int>> there;
    // the shared facet, held on both ways around
    auto cell_of = [&](int i, bool other) {
        std::array<int, N + 1> v;
        for (int k = 0; k < N; ++k) v[k] = k;
        v[N] = N + i;
        if (other) std::swap(v[0], v[1]);
        return lib.node_array(v);
    };
    auto find_facet = [&](const cell_t & cell) {
        for (const auto & f : cell.simplex()->composition()) {
            tpm::Labels fl;
            if constexpr (N == 1) fl = { lib.vertex_label.at(f->footprint().id()) };
            else fl = lib.simplex_labels(f);
            std::sort(fl.begin(), fl.end());
            bool hub = true;
            for (int k = 0; k < N; ++k) hub &= fl[k] == k;
            if (hub) return cell.simplex()->orientation() == 1 ? f : mito::topology::flip(f);
        }
        throw std::runtime_error("no shared facet");
    };
    cell_t first(cell_of(0, false)), second(cell_of(0, true));
    auto plus = find_facet(first), minus = find_facet(second);
    c.check("hub:two-sides", !(plus == minus) && mito::topology::flip(plus) == minus);
    auto verify = [&](const char * when) {
        c.check("hub:number-of-cells", mesh.nCells() == (int) there.size(), [&] { return vm::str(when, ": ", mesh.nCells(), " instead of ", there.size()); });
        if (sides[0]) c.check("hub:on-boundary-iff-no-opposite", mesh.isOnBoundary(plus) == (sides[1] == 0), [&] { return vm::str(when, ": ", sides[0], " cells on one side, ", sides[1], " on the other"); });
        if (sides[1]) c.check("hub:on-boundary-iff-no-opposite", mesh.isOnBoundary(minus) == (sides[0] == 0), [&] { return vm::str(when, ": ", sides[0], " cells on one side, ", sides[1], " on the other"); });
        if (sides[0] && sides[1]) c.count("many-sided interior facets");
        else c.count("many-sided boundary facets");
    };
    auto put = [&](int i, bool other) {
        auto & cell = mesh.insert(cell_of(i, other));
        there.push_back({ &cell, other });
        ++sides[other];
    };
    bool major = r.coin();
    int opposite = r.coin(0.3) ? 0 : 1 + r.pick(3);
    bool early = r.coin();
    if (early) for (int k = 0; k < opposite; ++k) put(r.pick(top), !major);
    for (int i = 0; i < top; ++i) {
        put(i, major);
        for (int m : marks) if (i + 1 == m) verify("growing");
    }
    verify("grown");
    if (!early) for (int k = 0; k < opposite; ++k) put(r.pick(top), !major);
    verify("both sides");
    // and down again
    r.shuffle(there);
    int left = r.coin() ? 0 : r.pick(5);
    while ((int) there.size() > left) {
        auto [cell, other] = there.back();
        there.pop_back();
        mesh.erase(*cell);
        --sides[other];
        for (int m : marks) if (sides[major] == m) verify("shrinking");
        if (there.size() < 5) verify("nearly gone");
    }
    // a facet that all cells have left is like one that never had any
    put(r.pick(top), !major);
    verify("again");
    c.distinct(vm::hcomb(vm::hcomb(top, opposite), vm::hcomb(major, early)));
    if (c.wants_sample()) c.sample(vm::str(top, " cells on one facet, ", opposite, early ? " opposite ones before" : " opposite ones after"));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segments-1d", 150, 3000, history<1, 1>);
    vm::section("segments-3d", 150, 3000, history<1, 3>);
    vm::section("triangles-2d", 300, 6000, history<2, 2>);
    vm::section("triangles-3d", 200, 4000, history<2, 3>);
    vm::section("tetrahedra-3d", 200, 4000, history<3, 3>);
    vm::section("many segments on a vertex", 12, 120, hub<1>);
    vm::section("many triangles on an edge", 12, 120, hub<2>);
    vm::section("many tetrahedra on a face", 12, 120, hub<3>);
    return vm::finish();
}
