// U04: a repository retires a resource only when its last handle is given back
#include "vmon.h"
#include <mito/utilities.h>

template <bool VIRTUAL_LOAD>
struct Res : public mito::utilities::Shareable {
    Res(long v) : value(v), text(VIRTUAL_LOAD ? std::string(40, 'a' + v % 26) : "") {}
    long value;
    std::string text;
    bool intact(long v) const { return value == v && (!VIRTUAL_LOAD || text == std::string(40, 'a' + v % 26)); }
};
struct Bare : public mito::utilities::Shareable {
    Bare(long v) : value(v) {}
    long value;
    bool intact(long v) const { return value == v; }
};

template <class E>
static void history(vm::Case & c)
{
    using H = mito::utilities::shared_ptr<E>;
    auto & r = c.rng;
    int seg = (int) (r.coin(0.7) ? r.range(1, 6) : r.range(7, 50));
    mito::utilities::repository_t<H> rep(seg);
    struct M { long value; E * addr; std::vector<H> handles; };
    std::map<long, M> live;    // by value
    std::map<E *, int> slot;   // address -> creation order of the slot
    std::set<E *> freed;
    long next = 0;
    uint64_t trace = 1;
    bool refused = false;
    auto pick = [&](bool held) -> M * {
        std::vector<M *> v;
        for (auto & [k, m] : live) if (!held || !m.handles.empty()) v.push_back(&m);
        return v.empty() ? nullptr : v[r.pick((int) v.size())];
    };
    auto verify = [&](bool full) {
        c.check("size", (int) std::size(rep) == (int) live.size(), [&] { return vm::str(std::size(rep), " expected ", live.size()); });
        c.check("capacity", rep.capacity() == ((int) slot.size() + seg - 1) / seg * seg);
        for (auto & [k, m] : live)
            for (auto & h : m.handles) {
                c.check("resource-stays-put", h.operator->() == m.addr && h->intact(m.value), [&] { return vm::str("resource ", k); });
                c.check("use-count", h.references() == (int) m.handles.size());
            }
        if (!full) return;
        std::vector<std::pair<int, long>> want;
        for (auto & [k, m] : live) if (!m.handles.empty()) want.emplace_back(slot[m.addr], k);
        std::sort(want.begin(), want.end());
        std::vector<long> w, seen;
        for (auto & [s, k] : want) w.push_back(k);
        for (const auto & h : rep) { seen.push_back(h->value); if (seen.size() > w.size() + 3) break; }
        c.check("iteration-visits-resources-in-use", seen == w, [&] { return vm::str("visited ", vm::seq(seen), " expected ", vm::seq(w)); });
        seen.clear();
        for (auto it = rep.begin(); it != rep.end();) { auto o = it++; seen.push_back((*o)->value); if (seen.size() > w.size() + 3) break; }
        c.check("post-increment-visits-resources-in-use", seen == w, [&] { return vm::str("visited ", vm::seq(seen), " expected ", vm::seq(w)); });
    };
    verify(true);
    // now and then a large population
    bool large = r.coin(0.02);
    int steps = large ? (int) r.range(400, 1500) : (int) r.range(10, 120);
    int wi = (int) (large ? r.range(10, 20) : r.range(2, 8)), we = (int) r.range(1, 6);
    for (int s = 0; s < steps; ++s) {
        int op = r.weighted({ wi, we, 3, 3, 1, 1 });
        trace = vm::hcomb(trace, op);
        if (op == 0) {
            int cap = rep.capacity();
            H h = rep.emplace(next);
            E * a = h.operator->();
            if (!freed.empty()) c.check("freed-location-reused-first", freed.erase(a) == 1 && rep.capacity() == cap);
            else { c.check("fresh-location", !slot.contains(a)); int k = (int) slot.size(); slot[a] = k; }
            for (auto & [k, m] : live) c.check("new-resource-does-not-overwrite", m.addr != a);
            auto & m = live[next];
            m.value = next; m.addr = a; m.handles.push_back(std::move(h));
            ++next;
        } else if (op == 1) {
            if (M * m = pick(true)) {
                H & h = m->handles.back();
                bool only = m->handles.size() == 1;
                bool done = rep.erase(h);
                c.check("erase-iff-last-handle", done == only, [&] { return vm::str("erase with ", m->handles.size(), " handles returned ", done); });
                if (done) {
                    c.check("erase-takes-the-handle", h.is_nullptr());
                    freed.insert(m->addr);
                    live.erase(m->value);
                } else { refused = true; c.check("refused-erase-keeps-the-handle", !h.is_nullptr() && h.operator->() == m->addr); }
            }
        } else if (op == 2) { if (M * m = pick(true)) m->handles.push_back(H(m->handles[0])); }
        else if (op == 3) { if (M * m = pick(true)) { if (m->handles.size() > 1 || r.coin(0.2)) m->handles.erase(m->handles.begin() + r.pick((int) m->handles.size())); } }
        else if (op == 4) { H null; c.check("erasing-null-is-refused", !rep.erase(null) && null.is_nullptr()); }
        else if (op == 5) {
            // recover a handle from the id
            if (M * m = pick(false)) {
                auto id = reinterpret_cast<mito::utilities::index_t<E>>(m->addr);
                H h = mito::utilities::repository_t<H>::resource(id);
                c.check("handle-from-id", h.operator->() == m->addr && h.id() == id && h->intact(m->value));
                m->handles.push_back(h);
            }
        }
        if (!large || r.coin(0.03)) verify(r.coin(0.3));
    }
    verify(true);
    c.distinct(trace);
    if (refused) c.count("histories with refused erasures");
    if (c.wants_sample()) c.sample(vm::str("segment ", seg, ": ", next, " created, ", live.size(), " left, ", slot.size(), " slots"));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("bare", 900, 15000, history<Bare>);
    vm::section("owning", 900, 15000, history<Res<true>>);
    vm::section("string-empty", 400, 6000, history<Res<false>>);
    return vm::finish();
}
