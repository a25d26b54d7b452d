// Reference model of the topology: oriented simplices keyed by (sorted vertex labels, permutation sign)
#pragma once
#include "vmon.h"
#include <mito/topology.h>

namespace tpm {
    using Labels = std::vector<int>;
    using OKey = std::pair<Labels, int>;

    inline OKey key_of(const Labels & order)
    {
        if (order.size() == 1) return { order, 1 };
        std::vector<int> idx(order.size());
        std::iota(idx.begin(), idx.end(), 0);
        std::sort(idx.begin(), idx.end(), [&](int a, int b) { return order[a] < order[b]; });
        Labels s;
        for (int i : idx) s.push_back(order[i]);
        return { s, vm::parity(idx) };
    }
    inline OKey flipped(OKey k) { k.second = -k.second; return k; }
    // a vertex order that belongs to an oriented simplex
    inline Labels order_of(const OKey & k)
    {
        Labels o = k.first;
        if (k.second < 0) std::swap(o[0], o[1]);
        return o;
    }
    // the oriented facets of a simplex with given vertex order, in a coherent arrangement
    inline std::vector<OKey> facets_of(const Labels & v)
    {
        if (v.size() == 2) return { { { v[0] }, -1 }, { { v[1] }, +1 } };
        if (v.size() == 3) return { key_of({ v[0], v[1] }), key_of({ v[1], v[2] }), key_of({ v[2], v[0] }) };
        return { key_of({ v[0], v[1], v[2] }), key_of({ v[1], v[3], v[2] }), key_of({ v[3], v[1], v[0] }), key_of({ v[3], v[0], v[2] }) };
    }
    inline std::vector<Labels> facet_orders(const Labels & v)
    {
        if (v.size() == 3) return { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[0] } };
        return { { v[0], v[1], v[2] }, { v[1], v[3], v[2] }, { v[3], v[1], v[0] }, { v[3], v[0], v[2] } };
    }
    inline std::string name(const OKey & k) { return (k.second > 0 ? "+" : "-") + vm::seq(k.first); }

    // chains of unoriented simplices with integer coefficients
    using Chain = std::map<Labels, int>;
    inline void add(Chain & c, const OKey & k, int coef)
    {
        c[k.first] += coef * k.second;
        if (c[k.first] == 0) c.erase(k.first);
    }
    inline Chain boundary(const OKey & k)
    {
        Chain c;
        for (size_t i = 0; i < k.first.size(); ++i) {
            Labels f = k.first;
            f.erase(f.begin() + i);
            add(c, { f, 1 }, (i % 2 ? -1 : 1) * k.second);
        }
        return c;
    }

    template <int N>
    using handle = mito::topology::simplex_t<N>;

    struct World {
        vm::Case & c;
        vm::Rng & r;
        mito::topology::topology_t & top;
        int base[4];
        // vertices by label; null handle when the user gave it back
        std::vector<mito::topology::vertex_t> vert;
        std::vector<char> held;
        std::map<mito::utilities::index_t<int>, int> label_of;    // current meaning of a vertex id

        struct Foot { std::vector<OKey> facets; uintptr_t id = 0; };
        std::map<Labels, Foot> foots[4];
        std::map<OKey, uintptr_t> oriented[4];
        std::map<OKey, std::vector<handle<1>>> h1;
        std::map<OKey, std::vector<handle<2>>> h2;
        std::map<OKey, std::vector<handle<3>>> h3;
        uint64_t trace = 1;

        World(vm::Case & c) : c(c), r(c.rng), top(mito::topology::topology())
        {
            base[0] = top.n_simplices<0>(); base[1] = top.n_simplices<1>(); base[2] = top.n_simplices<2>(); base[3] = top.n_simplices<3>();
        }
        template <int N>
        auto & handles()
        {
            if constexpr (N == 1) return h1;
            else if constexpr (N == 2) return h2;
            else return h3;
        }
        int new_vertex()
        {
            int l = (int) vert.size();
            vert.push_back(mito::topology::vertex());
            held.push_back(1);
            c.check("vertex:is-new", !vert.back().is_nullptr() && (!label_of.contains(vert.back().id()) || !alive(label_of[vert.back().id()])),
                    [&] { return vm::str("vertex ", l, " shares its identity with the live vertex ", label_of[vert.back().id()]); });
            label_of[vert.back().id()] = l;
            return l;
        }
        // a vertex exists as long as someone holds it or an oriented tip rides on it
        bool alive(int l) const { return held[l] || oriented[0].contains({ { l }, 1 }) || oriented[0].contains({ { l }, -1 }); }
        template <int N>
        auto vertex_array(const Labels & v)
        {
            mito::topology::vertex_simplex_composition_t<N> a;
            for (int i = 0; i <= N; ++i) a[i] = vert[v[i]];
            return a;
        }
        int label(const mito::topology::vertex_t & v)
        {
            auto it = label_of.find(v.id());
            c.check("vertex:known", it != label_of.end());
            return it->second;
        }
        template <class H>
        Labels labels(const H & s)
        {
            Labels o;
            for (const auto & v : s->vertices()) o.push_back(label(v));
            return o;
        }

        // ---- model transitions
        void model_request(const Labels & v)
        {
            int n = (int) v.size() - 1;
            if (n >= 2) for (auto & f : facet_orders(v)) model_request(f);
            if (n == 1) { oriented[0].emplace(OKey { { v[0] }, -1 }, 0); oriented[0].emplace(OKey { { v[1] }, +1 }, 0); }
            auto k = key_of(v);
            foots[n].emplace(k.first, Foot { facets_of(v) });
            oriented[n].emplace(k, 0);
        }
        int facet_uses(const OKey & k)
        {
            int n = (int) k.first.size() - 1, u = 0;
            if (n == 3) return 0;
            for (auto & [l, f] : foots[n + 1]) for (auto & g : f.facets) if (g == k) ++u;
            return u;
        }
        int user_handles(const OKey & k)
        {
            int n = (int) k.first.size() - 1;
            if (n == 1) return h1.contains(k) ? (int) h1[k].size() : 0;
            if (n == 2) return h2.contains(k) ? (int) h2[k].size() : 0;
            if (n == 3) return h3.contains(k) ? (int) h3[k].size() : 0;
            return 0;
        }
        // erase through a handle that has already been taken out of the user's handles
        void model_erase(const OKey & k)
        {
            int n = (int) k.first.size() - 1;
            if (facet_uses(k) > 0 || user_handles(k) > 0) return;
            oriented[n].erase(k);
            if (n == 0) return;
            if (oriented[n].contains(flipped(k))) return;
            auto facets = foots[n][k.first].facets;
            foots[n].erase(k.first);
            for (auto & f : facets) model_erase(f);
        }

        // ---- operations: library and model in lockstep
        template <int N>
        void keep(const OKey & k, const handle<N> & s) { handles<N>()[k].push_back(s); }

        template <int N>
        void check_identity(const OKey & k, const handle<N> & s)
        {
            auto & id = oriented[N][k];
            c.check("simplex:not-null", !s.is_nullptr());
            if (id == 0) {
                // first time we see it: it must be nobody else's
                for (auto & [o, i] : oriented[N]) c.check("simplex:distinct-objects", i != s.id() || o == k, [&] { return name(o) + " and " + name(k) + " are the same object"; });
                id = s.id();
            }
            c.check("simplex:same-object-for-class", id == s.id(), [&] { return vm::str("dimension ", N, " ", name(k)); });
            auto & f = foots[N][k.first];
            if (f.id == 0) {
                for (auto & [l, g] : foots[N]) c.check("footprint:distinct-objects", g.id != s->footprint().id(), [&] { return vm::seq(l) + " and " + vm::seq(k.first) + " share a footprint"; });
                f.id = s->footprint().id();
            }
            c.check("footprint:same-object-for-vertex-set", f.id == s->footprint().id(), [&] { return name(k); });
            auto v = labels(s);
            c.check("simplex:vertices-in-class", key_of(v) == k, [&] { return vm::str("asked for ", name(k), " got vertices ", vm::seq(v)); });
            c.check("simplex:orientation-unit", s->orientation() == 1 || s->orientation() == -1);
            if (oriented[N].contains(flipped(k)) && oriented[N][flipped(k)] != 0)
                c.check("simplex:flip-is-another-object", oriented[N][flipped(k)] != s.id());
        }
        // the ways of asking for a simplex
        template <int N, class A>
        handle<N> ask(const A & a)
        {
            int way = r.pick(4);
            if (way >= 2) return top.simplex<N>(a);
            if constexpr (N == 1) return way ? top.segment(a) : mito::topology::segment(a);
            else if constexpr (N == 2) return way ? top.triangle(a) : mito::topology::triangle(a);
            else return way ? top.tetrahedron(a) : mito::topology::tetrahedron(a);
        }
        template <int N>
        handle<N> request(const Labels & v, bool keep_it)
        {
            auto s = ask<N>(vertex_array<N>(v));
            model_request(v);
            check_identity<N>(key_of(v), s);
            trace = vm::hcomb(trace, vm::hseq(v));
            if (keep_it) keep<N>(key_of(v), s);
            return s;
        }
        // request by the facets, listed coherently for the given vertex order, in a random even arrangement
        template <int N>
        handle<N> request_by_facets(const Labels & v, bool keep_it)
        {
            auto p = r.perm(N + 1);
            if (N == 1) { p = { 0, 1 }; }
            else if (vm::parity(p) < 0) std::swap(p[0], p[1]);
            mito::topology::simplex_composition_t<N> comp;
            if constexpr (N == 1) {
                comp[0] = top.simplex<0>(vert[v[0]], -1);
                comp[1] = top.simplex<0>(vert[v[1]], +1);
                oriented[0].emplace(OKey { { v[0] }, -1 }, 0);
                oriented[0].emplace(OKey { { v[1] }, +1 }, 0);
            } else {
                auto fo = facet_orders(v);
                std::vector<handle<N - 1>> fs;
                for (auto & f : fo) fs.push_back(request<N - 1>(f, false));
                for (int i = 0; i <= N; ++i) comp[i] = fs[p[i]];
            }
            auto s = ask<N>(comp);
            auto fk = facets_of(v);
            std::vector<OKey> pk;
            for (int i = 0; i <= N; ++i) pk.push_back(fk[p[i]]);
            auto k = key_of(v);
            foots[N].emplace(k.first, Foot { pk });
            oriented[N].emplace(k, 0);
            check_identity<N>(k, s);
            trace = vm::hcomb(trace, 7 + vm::hseq(v));
            if (keep_it) keep<N>(k, s);
            return s;
        }
        template <int N>
        void flip(const OKey & k, const handle<N> & s, bool keep_it, bool free_function)
        {
            auto f = free_function ? mito::topology::flip(s) : top.flip(s);
            oriented[N].emplace(flipped(k), 0);
            check_identity<N>(flipped(k), f);
            c.check("flip:keeps-footprint", f->footprint().id() == s->footprint().id());
            c.check("flip:negates-orientation", f->orientation() == -s->orientation());
            auto g = top.flip(f);
            c.check("flip:involution", g == s && g.id() == s.id());
            trace = vm::hcomb(trace, 11 + vm::hseq(k.first));
            if (keep_it) keep<N>(flipped(k), f);
        }
        // turn the end of a segment around, and give it back if nobody had it before
        void flip_tip()
        {
            std::vector<OKey> ks;
            for (auto & [k, id] : oriented[0]) if (held[k.first[0]]) ks.push_back(k);
            if (ks.empty()) return;
            auto k = ks[r.pick((int) ks.size())];
            auto & v = vert[k.first[0]];
            auto s = top.simplex<0>(v, k.second);
            c.check("tip:orientation", s->orientation() == k.second && s->footprint() == v);
            bool other = oriented[0].contains(flipped(k));
            c.check("tip:exists-flipped", top.exists_flipped(s) == other, [&] { return vm::str("end ", k.second, " of ", k.first[0], ", expected ", other); });
            auto f = r.coin() ? top.flip(s) : mito::topology::flip(s);
            c.check("tip:flip", f->orientation() == -k.second && f->footprint() == v && f.id() != s.id(), [&] { return vm::str("end ", k.second, " of ", k.first[0], " flipped is ", f->orientation()); });
            c.check("tip:exists-flipped", top.exists_flipped(s) && top.exists_flipped(f));
            auto g = top.flip(f);
            c.check("tip:flip-involution", g == s && g.id() == s.id());
            c.check("tip:one-object", top.simplex<0>(v, -k.second).id() == f.id());
            if (!other) { top.erase(f); c.check("tip:given-back", f.is_nullptr() && !top.exists_flipped(s)); }
            c.count("tips flipped");
            trace = vm::hcomb(trace, 17);
        }
        template <int N>
        void erase(const OKey & k)
        {
            auto & hs = handles<N>()[k];
            auto h = std::move(hs.back());
            hs.pop_back();
            bool gone = facet_uses(k) == 0 && hs.empty();
            uintptr_t id = h.id();
            top.erase(h);
            model_erase(k);
            if (hs.empty()) handles<N>().erase(k);
            if (gone) c.check("erase:takes-the-handle", h.is_nullptr());
            else {
                c.check("erase:refused-while-used", !h.is_nullptr() && h.id() == id);
                c.check("erase:refused-keeps-vertices", key_of(labels(h)) == k);
            }
            trace = vm::hcomb(trace, 13 + vm::hseq(k.first) + k.second);
            c.count(gone ? "erased" : "refused erasures");
        }
        template <int N>
        OKey random_held()
        {
            auto & m = handles<N>();
            auto it = m.begin();
            std::advance(it, r.pick((int) m.size()));
            return it->first;
        }
        Labels random_order(int n, const std::vector<int> & pool)
        {
            auto p = pool;
            r.shuffle(p);
            p.resize(n + 1);
            return p;
        }
        void check_counts(const char * when)
        {
            int n[4] = { top.n_simplices<0>(), top.n_simplices<1>(), top.n_simplices<2>(), top.n_simplices<3>() };
            for (int d = 0; d < 4; ++d)
                c.check("counts", n[d] - base[d] == (int) oriented[d].size(), [&] {
                    return vm::str("after ", when, ": ", n[d] - base[d], " simplices of dimension ", d, ", expected ", oriented[d].size());
                });
        }
        // everything held is intact
        void check_held()
        {
            for (auto & [k, v] : h1) for (auto & s : v) check_identity<1>(k, s);
            for (auto & [k, v] : h2) for (auto & s : v) check_identity<2>(k, s);
            for (auto & [k, v] : h3) for (auto & s : v) check_identity<3>(k, s);
        }
        // ids of erased simplices are forgotten
        // erase all that is left through the library, dimension by dimension
        void clear()
        {
            h3.clear(); h2.clear(); h1.clear();
            for (int round = 0; round < 3; ++round) {
                sweep<3>(); sweep<2>(); sweep<1>();
            }
        }
        template <int N>
        void sweep()
        {
            std::vector<OKey> ks;
            for (auto & [k, id] : oriented[N]) ks.push_back(k);
            for (auto & k : ks) {
                if (!oriented[N].contains(k) || facet_uses(k) > 0) continue;
                bool ok = true;
                for (int l : k.first) if (!held[l]) ok = false;
                if (!ok) continue;
                request<N>(order_of(k), true);
                erase<N>(k);
            }
        }
    };
}
