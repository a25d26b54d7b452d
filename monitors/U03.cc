// U03: every element stored in a segmented vector or in a repository is destroyed exactly once
#include "vmon.h"
#include <mito/utilities.h>

struct Ledger {
    std::map<const void *, long> alive;
    long constructed = 0, destroyed = 0, used = 0;
    std::string error;
    void born(const void * p, long v)
    {
        ++constructed;
        if (!alive.emplace(p, v).second && error.empty()) error = vm::str("element ", v, " constructed over the live element ", alive[p]);
    }
    void died(const void * p, long v)
    {
        ++destroyed;
        auto it = alive.find(p);
        if (it == alive.end()) { if (error.empty()) error = vm::str("destruction of something that is not alive (claims to be ", v, ")"); }
        else {
            if (it->second != v && error.empty()) error = vm::str("element ", it->second, " destroyed as ", v);
            alive.erase(it);
        }
    }
};
static Ledger * ledger = nullptr;

template <class BASE, int KIND>
struct Elem : public BASE {
    explicit Elem(long v) : value(v), owned(KIND == 0 ? "" : std::string(30 + v % 50, 'a' + v % 26)), other(KIND == 2 ? std::make_shared<long>(v) : nullptr)
    {
        ledger->born(this, v);
    }
    ~Elem() { ledger->died(this, value); }
    Elem(const Elem &) = delete;
    long value;
    std::string owned;
    std::shared_ptr<long> other;
    bool intact(long v) const { return value == v && (KIND == 0 || owned == std::string(30 + v % 50, 'a' + v % 26)) && (KIND != 2 || *other == v); }
};

template <int KIND>
static void vector_history(vm::Case & c)
{
    using E = Elem<mito::utilities::Invalidatable, KIND>;
    using V = mito::utilities::segmented_vector_t<E>;
    auto & r = c.rng;
    Ledger l;
    ledger = &l;
    uint64_t trace = 1;
    {
        int seg = (int) (r.coin(0.9) ? r.range(1, 12) : r.range(13, 300));
        auto v = std::make_unique<V>(seg);
        std::map<E *, long> live;
        long next = 0;
        // now and then a large population
        bool large = r.coin(0.02);
        int steps = large ? (int) r.range(400, 1500) : (int) r.range(5, 150);
        double pins = large ? r.real(0.55, 0.95) : r.real(0.2, 0.9);
        for (int s = 0; s < steps; ++s) {
            int what = r.coin(pins) ? 0 : (r.coin(0.05) ? 2 : 1);
            trace = vm::hcomb(trace, what);
            if (what == 0) { E & e = v->emplace(next); live[&e] = next++; }
            else if (what == 1 && !live.empty()) {
                auto it = live.begin();
                std::advance(it, r.pick((int) live.size()));
                c.check("erase", v->erase(*it->first));
                live.erase(it);
            }
            else if (what == 2) { auto w = std::make_unique<V>(std::move(*v)); if (r.coin()) v = std::move(w); else { v.reset(); v = std::move(w); } c.count("container moves"); }
            c.check("lifetimes", l.error.empty(), l.error);
            if (!large || r.coin(0.05)) for (auto & [p, val] : live) c.check("live-element-is-alive", l.alive.contains(p) && l.alive[p] == val && p->intact(val));
            c.check("no-element-lost", l.constructed == next);
        }
        if (r.coin(0.2)) for (auto & [p, val] : live) v->erase(*p);
        if (c.wants_sample()) c.sample(vm::str("segment ", seg, ": ", l.constructed, " constructed, ", l.destroyed, " destroyed before the end"));
    }
    c.check("lifetimes", l.error.empty(), l.error);
    c.check("all-destroyed-with-container", l.alive.empty() && l.constructed == l.destroyed, [&] { return vm::str(l.constructed, " constructed ", l.destroyed, " destroyed ", l.alive.size(), " leaked"); });
    c.distinct(trace);
    c.count("constructed", l.constructed);
}

template <int KIND>
static void repository_history(vm::Case & c)
{
    using E = Elem<mito::utilities::Shareable, KIND>;
    using H = mito::utilities::shared_ptr<E>;
    auto & r = c.rng;
    Ledger l;
    ledger = &l;
    uint64_t trace = 1;
    {
        int seg = (int) (r.coin(0.9) ? r.range(1, 12) : r.range(13, 300));
        mito::utilities::repository_t<H> rep(seg);
        std::vector<std::pair<H, long>> live;
        long next = 0, dropped = 0;
        // now and then a large population
        bool large = r.coin(0.02);
        int steps = large ? (int) r.range(400, 1500) : (int) r.range(5, 150);
        double pins = large ? r.real(0.55, 0.95) : r.real(0.2, 0.9);
        for (int s = 0; s < steps; ++s) {
            int what = r.coin(pins) ? 0 : (r.coin(0.15) ? 2 : 1);
            trace = vm::hcomb(trace, what);
            if (what == 0) { live.emplace_back(rep.emplace(next), next); ++next; }
            else if (what == 1 && !live.empty()) {
                int i = r.pick((int) live.size());
                c.check("erase", rep.erase(live[i].first));
                c.check("erase-nulls-the-handle", live[i].first.is_nullptr());
                live.erase(live.begin() + i);
                c.count("erased");
            }
            else if (what == 2 && !live.empty()) {
                // drop a handle without erasing: the resource stays in the repository until it dies
                int i = r.pick((int) live.size());
                live.erase(live.begin() + i);
                ++dropped;
                c.count("dropped");
            }
            c.check("lifetimes", l.error.empty(), l.error);
            if (!large || r.coin(0.05)) for (auto & [h, val] : live) c.check("live-element-is-alive", l.alive.contains(h.operator->()) && h->intact(val));
            c.check("alive-count", (long) l.alive.size() == (long) live.size() + dropped, [&] { return vm::str(l.alive.size(), " alive, expected ", live.size() + dropped); });
        }
        if (c.wants_sample()) c.sample(vm::str("repository, segment ", seg, ": ", l.constructed, " constructed, ", l.destroyed, " destroyed before the end"));
        // the handles go first, then the repository
        live.clear();
    }
    c.check("lifetimes", l.error.empty(), l.error);
    c.check("all-destroyed-with-repository", l.alive.empty() && l.constructed == l.destroyed, [&] { return vm::str(l.constructed, " constructed ", l.destroyed, " destroyed ", l.alive.size(), " leaked"); });
    c.distinct(trace);
    c.count("constructed", l.constructed);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("vector-plain", 800, 12000, vector_history<0>);
    vm::section("vector-owning", 800, 12000, vector_history<1>);
    vm::section("vector-sharing", 400, 6000, vector_history<2>);
    vm::section("repository-plain", 800, 12000, repository_history<0>);
    vm::section("repository-owning", 800, 12000, repository_history<1>);
    vm::section("repository-sharing", 400, 6000, repository_history<2>);
    return vm::finish();
}
