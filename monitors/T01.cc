// T01: one simplex object per oriented vertex set, over random create/flip/erase histories
#include "topo_model.h"

template <int N>
static void all_arrangements(vm::Case & c)
{
    tpm::World w(c);
    std::vector<int> pool;
    for (int i = 0; i <= N; ++i) pool.push_back(w.new_vertex());
    w.r.shuffle(pool);
    // all (N+1)! arrangements, in random order, by vertices and by facets
    std::vector<tpm::Labels> all;
    auto p = pool;
    std::sort(p.begin(), p.end());
    do all.push_back(p); while (std::next_permutation(p.begin(), p.end()));
    w.r.shuffle(all);
    for (auto & v : all) {
        if (w.r.coin()) { w.request<N>(v, w.r.coin()); w.request_by_facets<N>(v, w.r.coin()); }
        else { w.request_by_facets<N>(v, w.r.coin()); w.request<N>(v, w.r.coin()); }
        w.check_counts("request");
    }
    c.check("two-orientations", (int) w.oriented[N].size() == 2 && (int) w.foots[N].size() == 1);
    w.check_held();
    c.distinct(w.trace);
}

static void history(vm::Case & c)
{
    tpm::World w(c);
    auto & r = c.rng;
    // now and then a large complex
    bool large = r.coin(0.02);
    int nv = (int) (large ? r.range(15, 60) : r.range(4, 7));
    std::vector<int> pool;
    for (int i = 0; i < nv; ++i) pool.push_back(w.new_vertex());
    int steps = (int) (large ? r.range(200, 500) : r.range(5, 60));
    int we = r.pick(6);
    for (int s = 0; s < steps; ++s) {
        bool keep = r.coin(0.6);
        int op = r.weighted({ 3, 3, 3, 1, 2, 2, 2, we, 1, 1 });
        switch (op) {
            case 0: w.request<1>(w.random_order(1, pool), keep); break;
            case 1: w.request<2>(w.random_order(2, pool), keep); break;
            case 2: w.request<3>(w.random_order(3, pool), keep); break;
            case 3: w.request_by_facets<1>(w.random_order(1, pool), keep); break;
            case 4: w.request_by_facets<2>(w.random_order(2, pool), keep); break;
            case 5: w.request_by_facets<3>(w.random_order(3, pool), keep); break;
            case 6: {
                int n = r.pick(3);
                if (n == 0 && !w.h1.empty()) { auto k = w.random_held<1>(); w.flip<1>(k, tpm::handle<1>(w.h1[k][0]), keep, r.coin()); }
                if (n == 1 && !w.h2.empty()) { auto k = w.random_held<2>(); w.flip<2>(k, tpm::handle<2>(w.h2[k][0]), keep, r.coin()); }
                if (n == 2 && !w.h3.empty()) { auto k = w.random_held<3>(); w.flip<3>(k, tpm::handle<3>(w.h3[k][0]), keep, r.coin()); }
                break;
            }
            case 7: {
                int n = r.pick(3);
                if (n == 0 && !w.h1.empty()) w.erase<1>(w.random_held<1>());
                if (n == 1 && !w.h2.empty()) w.erase<2>(w.random_held<2>());
                if (n == 2 && !w.h3.empty()) w.erase<3>(w.random_held<3>());
                break;
            }
            case 9: w.flip_tip(); break;
            case 8: {
                // drop a handle without erasing
                if (!w.h2.empty()) { auto k = w.random_held<2>(); w.h2[k].pop_back(); if (w.h2[k].empty()) w.h2.erase(k); }
                break;
            }
        }
        w.check_counts("step");
        if (r.coin(large ? 0.02 : 0.2)) w.check_held();
    }
    w.check_held();
    // every live simplex is found again under a random arrangement of its class
    for (int n = 1; n <= 3; ++n) {
        auto copy = w.oriented[n];
        for (auto & [k, id] : copy) {
            auto o = tpm::order_of(k);
            auto p = r.perm(n + 1);
            if (vm::parity(p) < 0) std::swap(p[0], p[1]);
            tpm::Labels v;
            for (int i : p) v.push_back(o[i]);
            if (n == 1) w.request<1>(v, false);
            if (n == 2) w.request<2>(v, false);
            if (n == 3) w.request<3>(v, false);
        }
    }
    w.check_counts("end");
    c.distinct(w.trace);
    if (c.wants_sample()) c.sample(vm::str(nv, " vertices, ", steps, " steps: ", w.oriented[1].size(), " segments, ", w.oriented[2].size(), " triangles, ", w.oriented[3].size(), " tetrahedra alive"));
    w.clear();
    w.check_counts("clear");
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("arrangements-segment", 100, 1000, all_arrangements<1>);
    vm::section("arrangements-triangle", 300, 3000, all_arrangements<2>);
    vm::section("arrangements-tetrahedron", 200, 2000, all_arrangements<3>);
    vm::section("histories", 600, 8000, history);
    return vm::finish();
}
