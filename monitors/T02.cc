// T02: existence and flip queries agree with the creation history and have no effect
#include "topo_model.h"

struct Q : tpm::World {
    using tpm::World::World;
    // exists(composition) for a vertex order, using facet handles that exist; -1 when a facet does not exist
    template <int N>
    void query_by_facets(const tpm::Labels & v)
    {
        auto fk = tpm::facets_of(v);
        mito::topology::simplex_composition_t<N> comp;
        auto p = r.perm(N + 1);
        if (N == 1) p = { 0, 1 };
        else if (vm::parity(p) < 0) std::swap(p[0], p[1]);
        for (int i = 0; i <= N; ++i) {
            auto & k = fk[p[i]];
            if (!oriented[N - 1].contains(k)) return;
            if constexpr (N == 1) comp[i] = top.simplex<0>(vert[k.first[0]], k.second);
            else comp[i] = existing<N - 1>(k);
            if (comp[i].is_nullptr()) return;
        }
        bool e = top.exists<N>(comp);
        c.check("exists-by-facets", e == oriented[N].contains(tpm::key_of(v)), [&] { return vm::str("dimension ", N, " order ", vm::seq(v), " library says ", e); });
        c.count(e ? "found" : "not found");
    }
    template <int N>
    tpm::handle<N> existing(const tpm::OKey & k)
    {
        auto & m = handles<N>();
        auto it = m.find(k);
        return it == m.end() || it->second.empty() ? tpm::handle<N>() : it->second.front();
    }
    template <int N>
    void query_flipped()
    {
        for (auto & [k, v] : handles<N>())
            if (!v.empty()) {
                bool e = top.exists_flipped(v.front());
                c.check("exists-flipped", e == oriented[N].contains(tpm::flipped(k)), [&] { return vm::str("dimension ", N, " ", tpm::name(k), " library says ", e); });
                c.count(e ? "flipped found" : "flipped not found");
            }
    }
    void query_all(const std::vector<int> & pool)
    {
        for (int a : pool)
            for (int b : pool)
                if (a != b && held[a] && held[b]) {
                    bool e = top.exists({ vert[a], vert[b] });
                    c.check("exists-segment-by-vertices", e == oriented[1].contains(tpm::key_of({ a, b })), [&] { return vm::str("segment ", a, "-", b, " library says ", e); });
                    if (r.coin(0.3)) query_by_facets<1>({ a, b });
                }
        for (int i = 0; i < 12; ++i) { query_by_facets<2>(random_order(2, pool)); query_by_facets<3>(random_order(3, pool)); }
        query_flipped<1>(); query_flipped<2>(); query_flipped<3>();
        check_counts("queries");
    }
};

static void history(vm::Case & c)
{
    Q w(c);
    auto & r = c.rng;
    int nv = (int) r.range(4, 6);
    std::vector<int> pool;
    for (int i = 0; i < nv; ++i) pool.push_back(w.new_vertex());
    w.query_all(pool);
    int steps = (int) r.range(5, 40);
    for (int s = 0; s < steps; ++s) {
        switch (r.weighted({ 3, 3, 2, 1, 1, 1, 3, 3, 2 })) {
            case 8: w.flip_tip(); break;
            case 0: w.request<1>(w.random_order(1, pool), true); break;
            case 1: w.request<2>(w.random_order(2, pool), true); break;
            case 2: w.request<3>(w.random_order(3, pool), r.coin()); break;
            case 3: w.request_by_facets<1>(w.random_order(1, pool), true); break;
            case 4: w.request_by_facets<2>(w.random_order(2, pool), true); break;
            case 5: w.request_by_facets<3>(w.random_order(3, pool), true); break;
            case 6: {
                int n = r.pick(3);
                if (n == 0 && !w.h1.empty()) { auto k = w.random_held<1>(); w.flip<1>(k, tpm::handle<1>(w.h1[k][0]), r.coin(), r.coin()); }
                if (n == 1 && !w.h2.empty()) { auto k = w.random_held<2>(); w.flip<2>(k, tpm::handle<2>(w.h2[k][0]), r.coin(), r.coin()); }
                if (n == 2 && !w.h3.empty()) { auto k = w.random_held<3>(); w.flip<3>(k, tpm::handle<3>(w.h3[k][0]), r.coin(), r.coin()); }
                break;
            }
            case 7: {
                for (int i = 0; i < 3; ++i) {
                    int n = r.pick(3);
                    if (n == 0 && !w.h1.empty()) w.erase<1>(w.random_held<1>());
                    if (n == 1 && !w.h2.empty()) w.erase<2>(w.random_held<2>());
                    if (n == 2 && !w.h3.empty()) w.erase<3>(w.random_held<3>());
                }
                break;
            }
        }
        w.query_all(pool);
    }
    w.check_held();
    c.distinct(w.trace);
    if (c.wants_sample()) c.sample(vm::str(nv, " vertices, ", steps, " steps, all segment pairs queried after each"));
    w.clear();
    // after everything has been erased nothing exists any more
    for (int a : pool)
        for (int b : pool)
            if (a != b) c.check("nothing-exists-after-erasure", w.top.exists({ w.vert[a], w.vert[b] }) == w.oriented[1].contains(tpm::key_of({ a, b })));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("histories", 500, 6000, history);
    return vm::finish();
}
