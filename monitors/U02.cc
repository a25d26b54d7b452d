// U02: segmented containers are stable-address bags of live elements
#include "vmon.h"
#include <mito/utilities.h>

template <int PAD>
struct Elem : public mito::utilities::Invalidatable {
    explicit Elem(long v) : value(v) { for (auto & p : pad) p = v; }
    long value;
    std::array<long, PAD> pad;
    bool intact(long v) const { for (auto & p : pad) if (p != v) return false; return value == v; }
};
struct Tiny : public mito::utilities::Invalidatable {
    explicit Tiny(long v) : value((unsigned char) v) {}
    unsigned char value;
    bool intact(long v) const { return value == (unsigned char) v; }
};

template <class E>
struct Bag {
    vm::Case & c;
    int seg;
    mito::utilities::segmented_vector_t<E> v;
    std::vector<E *> slot;              // slot -> address
    std::map<E *, int> index;           // address -> slot
    std::map<int, long> live;           // slot -> value
    std::set<int> freed;
    long next = 0;
    uint64_t trace = 3;

    Bag(vm::Case & c, int seg) : c(c), seg(seg), v(seg) {}

    void insert()
    {
        int cap = v.capacity();
        E & e = v.emplace(next);
        auto it = index.find(&e);
        if (!freed.empty()) {
            c.check("freed-location-reused-first", it != index.end() && freed.contains(it->second), [&] { return vm::str("with ", freed.size(), " freed slots a new one was used"); });
            c.check("no-growth-while-freed", v.capacity() == cap);
        }
        int s;
        if (it == index.end()) { s = (int) slot.size(); slot.push_back(&e); index[&e] = s; c.count("fresh"); }
        else { s = it->second; c.check("does-not-overwrite-live-element", !live.contains(s)); freed.erase(s); c.count("reused"); }
        live[s] = next;
        c.check("content-after-insert", e.intact(next) && e.is_valid());
        ++next;
        trace = vm::hcomb(trace, 1);
    }
    void erase(int s)
    {
        E & e = *slot[s];
        bool was = live.contains(s);
        int cap = v.capacity();
        bool r = v.erase(e);
        c.check("erase-succeeds-exactly-once", r == was);
        c.check("erase-keeps-capacity", v.capacity() == cap);
        if (was) { live.erase(s); freed.insert(s); }
        trace = vm::hcomb(trace, 100 + s);
    }
    void verify(bool full)
    {
        c.check("size", (int) std::size(v) == (int) live.size(), [&] { return vm::str("size ", std::size(v), " live ", live.size()); });
        int segs = ((int) slot.size() + seg - 1) / seg;
        c.check("capacity-grows-by-segments", v.capacity() == segs * seg, [&] { return vm::str("capacity ", v.capacity(), " slots ", slot.size(), " segment ", seg); });
        if (!full) return;
        std::vector<E *> seen, want;
        for (auto & [s, val] : live) want.push_back(slot[s]);
        for (auto & e : v) { seen.push_back(&e); if (seen.size() > want.size() + 5) break; }
        c.check("range-for-visits-live-in-order", seen == want, [&] { return vm::str("visited ", seen.size(), " expected ", want.size(), " slots ", slot.size(), " segment ", seg); });
        seen.clear();
        for (auto it = v.begin(); it != v.end(); ++it) { seen.push_back(&*it); c.check("arrow", it.operator->() == &*it); if (seen.size() > want.size() + 5) break; }
        c.check("pre-increment-visits-live-in-order", seen == want);
        seen.clear();
        for (auto it = v.begin(); it != v.end();) {
            auto old = it++;
            seen.push_back(&*old);
            if (seen.size() > want.size() + 5) break;
        }
        c.check("post-increment-visits-live-in-order", seen == want, [&] { return vm::str("visited ", seen.size(), " expected ", want.size()); });
        for (auto & [s, val] : live) c.check("content-stable", slot[s]->intact(val) && slot[s]->is_valid(), [&] { return vm::str("slot ", s); });
        for (int i = 0; i < (int) slot.size(); ++i) c.check("random-access", &v[i] == slot[i] && &std::as_const(v)[i] == slot[i], [&] { return vm::str("slot ", i, " of ", slot.size()); });
        c.eval();
    }
};

template <class E>
static void history(vm::Case & c)
{
    auto & r = c.rng;
    int seg = (int) (r.coin(0.6) ? r.range(1, 6) : r.range(7, 70));
    Bag<E> b(c, seg);
    b.verify(true);
    // now and then a large population
    bool large = r.coin(0.02);
    int steps = large ? (int) r.range(400, 1500) : (int) r.range(10, 120);
    double pins = large ? r.real(0.55, 0.95) : r.real(0.3, 0.8);
    for (int s = 0; s < steps; ++s) {
        if (r.coin(pins)) { b.insert(); }
        else if (!b.slot.empty()) {
            int mode = r.pick(5);
            int n = (int) b.slot.size();
            if (mode == 0) b.erase(0);
            else if (mode == 1) b.erase(n - 1);
            else if (mode == 2) b.erase((n - 1) / seg * seg);    // first of the last segment
            else b.erase(r.pick(n));
        }
        if (r.coin(0.03)) pins = r.real(0.1, 0.9);
        if (r.coin(0.02)) { while (!b.live.empty()) b.erase(b.live.begin()->first); c.count("emptied"); }
        if (!large || r.coin(0.03)) b.verify(r.coin(0.25));
    }
    b.verify(true);
    c.distinct(b.trace);
    if (c.wants_sample()) c.sample(vm::str("segment ", seg, ", ", steps, " steps, ", b.next, " inserted, ", b.live.size(), " live in ", b.slot.size(), " slots"));
}

// moving a container moves its elements without moving them in memory
static void moves(vm::Case & c)
{
    using E = Elem<2>;
    auto & r = c.rng;
    int seg = (int) r.range(1, 9);
    mito::utilities::segmented_vector_t<E> v(seg);
    std::vector<E *> live;
    int n = (int) r.range(0, 40);
    std::vector<E *> all;
    for (int i = 0; i < n; ++i) all.push_back(&v.emplace(i));
    std::vector<char> dead(n, 0);
    for (int i = 0; i < n; ++i) if (r.coin(0.3)) { v.erase(*all[i]); dead[i] = 1; }
    int cap = v.capacity();
    auto w(std::move(v));
    c.check("moved:capacity", w.capacity() == cap);
    c.check("moved:source-empty", std::size(v) == 0);
    int cnt = 0;
    for (auto & e : v) { (void) e; ++cnt; }
    c.check("moved:source-iterates-nothing", cnt == 0);
    std::vector<E *> want, seen;
    for (int i = 0; i < n; ++i) if (!dead[i]) want.push_back(all[i]);
    for (auto & e : w) seen.push_back(&e);
    c.check("moved:elements-kept-in-place", seen == want && (int) std::size(w) == (int) want.size());
    for (int i = 0; i < n; ++i) if (!dead[i]) c.check("moved:content", all[i]->intact(i));
    // and the history goes on in the new container
    std::set<E *> freed;
    for (int i = 0; i < n; ++i) if (dead[i]) freed.insert(all[i]);
    while (!freed.empty()) {
        E & e = w.emplace(1000);
        c.check("moved:freed-location-reused-first", freed.erase(&e) == 1);
    }
    c.check("moved:capacity-unchanged-by-reuse", w.capacity() == cap);
    for (int i = 0; i < 2 * seg + 1; ++i) w.emplace(2000 + i);
    int total = n + 2 * seg + 1;
    c.check("moved:growth", w.capacity() == (total + seg - 1) / seg * seg && (int) std::size(w) == total);
    cnt = 0;
    for (auto & e : w) { (void) e; ++cnt; }
    c.check("moved:iterates-all", cnt == total);
    // the container that was moved from is an empty container of its own
    int refill = r.coin() ? (int) r.range(1, 30) : 0;
    std::vector<E *> again, mine;
    for (auto & e : w) mine.push_back(&e);
    for (int i = 0; i < refill; ++i) {
        E & e = v.emplace(5000 + i);
        c.check("refilled:apart-from-the-new-container", std::ranges::find(mine, &e) == mine.end());
        again.push_back(&e);
        if (r.coin(0.2)) { c.check("refilled:erase", v.erase(*again.back())); again.pop_back(); }
    }
    c.check("refilled:size", (int) std::size(v) == (int) again.size());
    for (size_t i = 0; i < again.size(); ++i) c.check("refilled:alive", again[i]->is_valid() && again[i]->intact(again[i]->value));
    std::vector<E *> still;
    for (auto & e : w) still.push_back(&e);
    c.check("refilled:new-container-untouched", still == mine && (int) std::size(w) == total);
    c.distinct(vm::hcomb(seg * 1000 + n, vm::hseq(dead)));
}

// long runs of erased elements must be skipped whatever their length
static void long_gaps(vm::Case & c)
{
    using E = Elem<0>;
    auto & r = c.rng;
    int n = (int) (c.index == 0 ? 1500000 : r.range(60000, 120000)), seg = (int) (c.index == 0 ? r.range(40000, 90000) : r.range(500, 3000));
    mito::utilities::segmented_vector_t<E> v(seg);
    std::vector<E *> all;
    for (int i = 0; i < n; ++i) all.push_back(&v.emplace(i));
    int keep = r.pick(3), kept = 0;
    for (int i = 0; i < n; ++i) {
        bool k = keep == 0 ? false : keep == 1 ? (i == n - 1) : (i == 0 || i == n - 1);
        if (k) ++kept; else v.erase(*all[i]);
    }
    int seen = 0;
    for (auto & e : v) { (void) e; ++seen; }
    c.check("gap:all-live-visited", seen == kept, [&] { return vm::str(seen, " of ", kept); });
    c.check("gap:size", (int) std::size(v) == kept);
    c.distinct(vm::hcomb(n, seg * 3 + keep));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("histories-24B", 1000, 20000, history<Elem<0>>);
    vm::section("histories-tiny", 800, 15000, history<Tiny>);
    vm::section("histories-large", 400, 8000, history<Elem<9>>);
    vm::section("moves", 500, 6000, moves);
    vm::section("long-gaps", 4, 20, long_gaps);
    return vm::finish();
}
