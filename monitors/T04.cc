// T04: erasing a simplex reclaims exactly its unused closure; histories with vertices that come and go
#include "topo_model.h"

struct E : tpm::World {
    using tpm::World::World;
    // give a vertex back
    void drop_vertex(int l)
    {
        vert[l] = mito::topology::vertex_t();
        held[l] = 0;
        c.count("vertices given back");
    }
    bool complete(const tpm::OKey & k) { for (int l : k.first) if (!held[l]) return false; return true; }
    // all faces that the constructor by vertices would ask for exist already
    bool closed(const tpm::Labels & v)
    {
        int n = (int) v.size() - 1;
        if (!oriented[n].contains(tpm::key_of(v))) return false;
        if (n == 1) return oriented[0].contains({ { v[0] }, -1 }) && oriented[0].contains({ { v[1] }, 1 });
        for (auto & f : tpm::facet_orders(v)) if (!closed(f)) return false;
        return true;
    }
    void survivors()
    {
        // every survivor is found again, the same object as before, without anything being created
        int n1 = top.n_simplices<1>(), n2 = top.n_simplices<2>(), n3 = top.n_simplices<3>();
        auto again = [&]<int N>() {
            auto copy = oriented[N];
            for (auto & [k, id] : copy)
                if (complete(k)) { auto o = tpm::order_of(k); if (closed(o)) { request<N>(o, false); c.count("survivors revisited"); } }
        };
        again.operator()<1>(); again.operator()<2>(); again.operator()<3>();
        c.check("survivors:nothing-created", n1 == top.n_simplices<1>() && n2 == top.n_simplices<2>() && n3 == top.n_simplices<3>());
        for (int a = 0; a < (int) vert.size(); ++a)
            for (int b = 0; b < (int) vert.size(); ++b)
                if (a != b && held[a] && held[b])
                    c.check("survivors:segments-exist-iff-alive", top.exists({ vert[a], vert[b] }) == oriented[1].contains(tpm::key_of({ a, b })), [&] { return vm::str(a, "-", b); });
    }
};

static void history(vm::Case & c)
{
    E w(c);
    auto & r = c.rng;
    std::vector<int> pool;
    bool large = r.coin(0.02);    // now and then a large complex
    int nv = (int) (large ? r.range(10, 40) : r.range(4, 6));
    for (int i = 0; i < nv; ++i) pool.push_back(w.new_vertex());
    int steps = (int) (large ? r.range(150, 400) : r.range(10, 60));
    for (int s = 0; s < steps; ++s) {
        bool keep = r.coin(0.8);
        switch (r.weighted({ 1, 3, 3, 1, 1, 1, 8, 2, 1, 1 })) {
            case 0: w.request<1>(w.random_order(1, pool), keep); break;
            case 1: w.request<2>(w.random_order(2, pool), keep); break;
            case 2: w.request<3>(w.random_order(3, pool), keep); break;
            case 3: w.request_by_facets<2>(w.random_order(2, pool), keep); break;
            case 4: w.request_by_facets<3>(w.random_order(3, pool), keep); break;
            case 5: {
                int n = r.pick(2);
                if (n == 0 && !w.h2.empty()) { auto k = w.random_held<2>(); w.flip<2>(k, tpm::handle<2>(w.h2[k][0]), keep, r.coin()); }
                if (n == 1 && !w.h3.empty()) { auto k = w.random_held<3>(); w.flip<3>(k, tpm::handle<3>(w.h3[k][0]), keep, r.coin()); }
                break;
            }
            case 6: {
                int n = r.weighted({ 1, 3, 3 });
                if (n == 0 && !w.h1.empty()) w.erase<1>(w.random_held<1>());
                if (n == 1 && !w.h2.empty()) w.erase<2>(w.random_held<2>());
                if (n == 2 && !w.h3.empty()) w.erase<3>(w.random_held<3>());
                break;
            }
            case 7: {
                // erase through a handle fetched on the spot (the user holds nothing)
                int n = 2 + r.pick(2);
                if (w.oriented[n].empty()) break;
                auto it = w.oriented[n].begin();
                std::advance(it, r.pick((int) w.oriented[n].size()));
                auto k = it->first;
                if (!w.complete(k)) break;
                if (n == 2) { w.request<2>(tpm::order_of(k), true); w.erase<2>(k); }
                else { w.request<3>(tpm::order_of(k), true); w.erase<3>(k); }
                break;
            }
            case 8: {
                // replace a vertex of the pool by a new one (its address may be recycled once its simplices are gone)
                int i = r.pick((int) pool.size());
                w.drop_vertex(pool[i]);
                pool[i] = w.new_vertex();
                break;
            }
            case 9: {
                mito::topology::simplex_t<2> null;
                w.top.erase(null);
                break;
            }
        }
        w.check_counts("step");
        if (r.coin(0.2)) { w.check_held(); w.survivors(); }
    }
    w.check_held();
    w.survivors();
    // hand everything back, in random order: closures must go with their last user
    auto drain = [&]<int N>() {
        while (!w.handles<N>().empty()) w.erase<N>(w.random_held<N>());
    };
    if (r.coin()) { drain.operator()<3>(); drain.operator()<2>(); drain.operator()<1>(); }
    else { drain.operator()<1>(); drain.operator()<2>(); drain.operator()<3>(); }
    w.check_counts("drain");
    w.survivors();
    c.distinct(w.trace);
    if (c.wants_sample()) c.sample(vm::str(steps, " steps, ", w.vert.size(), " vertices over time, left: ", w.oriented[3].size(), " tetrahedra ", w.oriented[2].size(), " triangles ", w.oriented[1].size(), " segments"));
    w.clear();
    w.check_counts("clear");
}

// a patch of triangles or tetrahedra around shared edges, erased in random order, leaves nothing behind
template <int N>
static void patches(vm::Case & c)
{
    E w(c);
    auto & r = c.rng;
    std::vector<int> pool;
    int nv = (int) r.range(N + 1, 7);
    for (int i = 0; i < nv; ++i) pool.push_back(w.new_vertex());
    int cells = (int) r.range(1, 10);
    std::vector<tpm::OKey> keys;
    for (int i = 0; i < cells; ++i) {
        auto v = w.random_order(N, pool);
        w.request<N>(v, true);
        keys.push_back(tpm::key_of(v));
    }
    if (r.coin()) for (auto & l : pool) w.drop_vertex(l);
    r.shuffle(keys);
    for (auto & k : keys) {
        w.erase<N>(k);
        w.check_counts("patch erasure");
    }
    c.check("patch:no-cell-left", w.oriented[N].empty() && w.foots[N].empty());
    w.survivors();
    c.distinct(w.trace);
    w.clear();
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("histories", 600, 8000, history);
    vm::section("patches-triangles", 400, 4000, patches<2>);
    vm::section("patches-tetrahedra", 300, 3000, patches<3>);
    return vm::finish();
}
