// T03: the boundary of a simplex is a closed, consistently oriented cycle
#include "topo_model.h"

struct B : tpm::World {
    using tpm::World::World;
    // the chain of a facet as the library reports it
    template <int M>
    tpm::OKey facet_key(const tpm::handle<M> & f)
    {
        if constexpr (M == 0) return { { label(f->footprint()) }, f->orientation() };
        else return tpm::key_of(labels(f));
    }
    template <int N>
    void examine(const tpm::OKey & k, const tpm::handle<N> & s)
    {
        static int convention = 0;
        auto v = labels(s);
        std::set<int> vs(v.begin(), v.end());
        c.check("vertices:are-the-simplex-vertices", tpm::Labels(vs.begin(), vs.end()) == k.first && v.size() == N + 1);
        c.check("vertices:in-orientation-class", tpm::key_of(v) == k, [&] { return tpm::name(k) + " reported " + vm::seq(v); });
        // other ways of asking for the vertices
        std::set<mito::topology::vertex_t> set;
        s->vertices(set);
        tpm::Labels fromset;
        for (auto & x : set) fromset.push_back(label(x));
        std::sort(fromset.begin(), fromset.end());
        c.check("vertices:set", fromset == k.first);
        if constexpr (N > 0) {
            std::vector<mito::topology::vertex_t> vec;
            s->vertices(vec);
            tpm::Labels fv;
            for (auto & x : vec) fv.push_back(label(x));
            c.check("vertices:vector", tpm::key_of(fv) == k);
            fromset.clear();
            for (auto & x : s->footprint()->vertices()) fromset.push_back(label(x));
            std::sort(fromset.begin(), fromset.end());
            c.check("vertices:footprint", fromset == k.first);
        }
        c.check("sanity-check", s->sanityCheck());
        // facets
        auto comp = s->composition();
        std::set<tpm::Labels> spanned;
        tpm::Chain bd;
        for (auto & f : comp) {
            auto fk = facet_key<N - 1>(f);
            c.check("facets:omit-one-vertex", fk.first.size() == N && std::includes(k.first.begin(), k.first.end(), fk.first.begin(), fk.first.end()));
            spanned.insert(fk.first);
            tpm::add(bd, fk, s->orientation());
        }
        c.check("facets:all-distinct", spanned.size() == N + 1);
        auto want = N == 1 ? tpm::Chain { { { v[0] }, -1 }, { { v[1] }, 1 } } : tpm::boundary(k);
        auto neg = want;
        for (auto & [l, x] : neg) x = -x;
        int sign = bd == want ? 1 : bd == neg ? -1 : 0;
        c.check("boundary:oriented-coherently", sign != 0, [&] { return tpm::name(k); });
        if (convention == 0) convention = sign;
        c.check("boundary:same-convention-for-all", sign == convention, [&] { return tpm::name(k); });
        // the boundary of the boundary vanishes
        if constexpr (N > 1) {
            std::map<uintptr_t, int> bb;
            tpm::Chain bbc;
            for (auto & f : comp)
                for (auto & e : f->composition()) {
                    bb[e->footprint().id()] += s->orientation() * f->orientation() * e->orientation();
                    // and on the level of vertices: f is an oriented simplex, its boundary counts with its own orientation
                    tpm::add(bbc, facet_key<N - 2>(e), s->orientation() * f->orientation());
                }
            for (auto & [id, x] : bb) c.check("boundary-of-boundary:cancels", x == 0);
            c.check("boundary-of-boundary:number-of-subfacets", (int) bb.size() == (N + 1) * N / 2);
            c.check("boundary-of-boundary:cancels-on-vertices", bbc.empty(), [&] { return tpm::name(k); });
            // edges
            std::set<mito::topology::segment_t> edges;
            s->edges(edges);
            std::set<tpm::Labels> es;
            for (auto & e : edges) es.insert(tpm::key_of(labels(e)).first);
            bool in = true;
            for (auto & e : es) in &= std::includes(k.first.begin(), k.first.end(), e.begin(), e.end());
            c.check("edges:exactly-those-spanned", in && (int) es.size() == (N + 1) * N / 2);
            c.check("valid-composition", mito::topology::isValid<N>(comp));
        } else {
            c.check("tail-and-head", label(mito::topology::tail(s)) == v[0] && label(mito::topology::head(s)) == v[1], [&] { return tpm::name(k) + vm::str(" orientation ", s->orientation()); });
            c.check("valid-composition", mito::topology::isValid<1>(comp));
            auto twice = comp;
            twice[1] = twice[0];
            c.check("valid-composition:refuses-one-vertex-twice", !mito::topology::isValid<1>(twice));
            // both ends oriented alike
            for (auto & [a, b] : std::vector<std::pair<int, int>> { { 0, 1 }, { 1, 0 } }) {
                auto alike = comp;
                bool had = top.exists_flipped(comp[a]);
                alike[a] = top.flip(comp[a]);
                c.check("valid-composition:refuses-ends-oriented-alike", !mito::topology::isValid<1>(alike));
                auto t = alike[a];
                alike = comp;
                if (!had) top.erase(t);
                else oriented[0].emplace(tpm::flipped(facet_key<0>(comp[a])), 0);
                (void) b;
            }
        }
        // the composition leads back to the simplex
        {
            auto again = top.simplex<N>(comp);
            c.check("composition:leads-back", again == s && again.id() == s.id(), [&] { return vm::str("dimension ", N, " ", tpm::name(k), " orientation ", s->orientation()); });
        }
        if constexpr (N > 1) {
            // coherent in any order, and turned around altogether; not with some of the facets turned around
            auto p = c.rng.perm(N + 1);
            int turned = (int) c.rng.pick(1 << (N + 1));
            mito::topology::simplex_composition_t<N> other;
            for (int i = 0; i <= N; ++i) {
                other[i] = comp[p[i]];
                if (turned >> i & 1) {
                    other[i] = top.flip(comp[p[i]]);
                    oriented[N - 1].emplace(tpm::flipped(facet_key<N - 1>(comp[p[i]])), 0);
                }
            }
            bool coherent = turned == 0 || turned == (1 << (N + 1)) - 1;
            c.check("valid-composition:coherent-facets-only", mito::topology::isValid<N>(other) == coherent, [&] { return vm::str("dimension ", N, " ", tpm::name(k), " turned ", turned); });
            c.count(coherent ? "coherent arrangements" : "incoherent arrangements");
        }
        // flip
        auto f = top.flip(s);
        oriented[N].emplace(tpm::flipped(k), 0);
        tpm::Chain fb;
        for (auto & x : f->composition()) tpm::add(fb, facet_key<N - 1>(x), f->orientation());
        auto nb = bd;
        for (auto & [l, x] : nb) x = -x;
        c.check("flip:reverses-the-boundary", fb == nb, [&] { return tpm::name(k); });
        c.check("flip:vertices-in-opposite-class", tpm::key_of(labels(f)) == tpm::flipped(k));
        c.count(vm::str("dimension ", N, s->orientation() > 0 ? " as footprint" : " against footprint"));
    }
};

static void history(vm::Case & c)
{
    B w(c);
    auto & r = c.rng;
    int nv = (int) r.range(4, 7);
    std::vector<int> pool;
    for (int i = 0; i < nv; ++i) pool.push_back(w.new_vertex());
    int steps = (int) r.range(4, 25);
    for (int s = 0; s < steps; ++s) {
        switch (r.weighted({ 2, 3, 3, 1, 2, 2, 2, 2 })) {
            case 0: w.request<1>(w.random_order(1, pool), true); break;
            case 1: w.request<2>(w.random_order(2, pool), true); break;
            case 2: w.request<3>(w.random_order(3, pool), true); break;
            case 3: w.request_by_facets<1>(w.random_order(1, pool), true); break;
            case 4: w.request_by_facets<2>(w.random_order(2, pool), true); break;
            case 5: w.request_by_facets<3>(w.random_order(3, pool), true); break;
            case 6: {
                int n = r.pick(3);
                if (n == 0 && !w.h1.empty()) w.erase<1>(w.random_held<1>());
                if (n == 1 && !w.h2.empty()) w.erase<2>(w.random_held<2>());
                if (n == 2 && !w.h3.empty()) w.erase<3>(w.random_held<3>());
                break;
            }
            case 7: w.flip_tip(); break;
        }
        if (r.coin(0.3) || s == steps - 1) {
            for (auto & [k, v] : w.h1) w.examine<1>(k, v[0]);
            for (auto & [k, v] : w.h2) w.examine<2>(k, v[0]);
            for (auto & [k, v] : w.h3) w.examine<3>(k, v[0]);
        }
    }
    c.distinct(w.trace);
    if (c.wants_sample()) c.sample(vm::str(nv, " vertices, ", steps, " steps; examined ", w.h1.size(), " segments ", w.h2.size(), " triangles ", w.h3.size(), " tetrahedra"));
    w.clear();
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("histories", 500, 6000, history);
    return vm::finish();
}
