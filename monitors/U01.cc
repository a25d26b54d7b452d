// U01: shared handles conserve reference counts under random programs over handles
#include "vmon.h"
#include <mito/utilities.h>

struct Resource : public mito::utilities::Shareable {
    explicit Resource(int v) : value(v) {}
    int value;
};
struct Owned { static inline long alive = 0; int value; std::string pad; explicit Owned(int v) : value(v), pad(40, 'x') { ++alive; } ~Owned() { --alive; } };
using handle = mito::utilities::shared_ptr<Resource>;
using shandle = mito::utilities::std_shared_ptr<Owned>;

static void program(vm::Case & c)
{
    auto & r = c.rng;
    int nr = (int) r.range(1, 4), nh = (int) r.range(2, 8);
    std::vector<std::unique_ptr<Resource>> res;
    for (int i = 0; i < nr; ++i) res.emplace_back(new Resource(100 + i));
    {
        // slots of handles that may or may not exist, and the resource the model says they designate (-1: null)
        std::vector<std::unique_ptr<handle>> h(nh);
        std::vector<int> m(nh, -2);    // -2: no handle
        auto count = [&](int k) { return (int) std::count(m.begin(), m.end(), k); };
        uint64_t trace = 0;
        bool aliased = false, nulls = false;
        auto verify = [&](const char * op) {
            for (int i = 0; i < nh; ++i) {
                if (m[i] == -2) continue;
                c.check("nullness", h[i]->is_nullptr() == (m[i] == -1), [&] { return vm::str("after ", op, " handle ", i); });
                if (m[i] >= 0) {
                    c.check("count", h[i]->references() == count(m[i]), [&] { return vm::str("after ", op, ": handle ", i, " reports ", h[i]->references(), " live handles ", count(m[i])); });
                    c.check("designation", h[i]->operator->() == res[m[i]].get() && (*h[i])->value == 100 + m[i], op);
                    c.check("validity", res[m[i]]->is_valid(), op);
                }
                for (int j = 0; j < nh; ++j) {
                    if (m[j] == -2) continue;
                    c.check("equality-follows-identity", (*h[i] == *h[j]) == (m[i] == m[j]), op);
                    auto a = m[i] < 0 ? nullptr : res[m[i]].get(), b = m[j] < 0 ? nullptr : res[m[j]].get();
                    c.check("order-follows-identity", (*h[i] < *h[j]) == std::less<Resource *>()(a, b) && (*h[i] > *h[j]) == std::less<Resource *>()(b, a), op);
                    c.check("hash-follows-identity", m[i] != m[j] || mito::utilities::hash_function<handle>()(*h[i]) == mito::utilities::hash_function<handle>()(*h[j]), op);
                }
            }
            for (int k = 0; k < nr; ++k) if (count(k) == 0) c.check("unused-resource-is-invalid", !res[k]->is_valid(), op);
        };
        int steps = (int) r.range(5, 60);
        for (int s = 0; s < steps; ++s) {
            int i = r.pick(nh), j = r.pick(nh), op = r.pick(8);
            trace = vm::hcomb(trace, op * 64 + i * 8 + j);
            bool ei = m[i] != -2, ej = m[j] != -2;
            switch (op) {
                case 0: if (!ei) { int k = r.pick(nr); h[i] = std::make_unique<handle>(res[k].get()); m[i] = k; verify("construct"); } break;
                case 1: if (!ei) { h[i] = std::make_unique<handle>(); m[i] = -1; nulls = true; verify("default construct"); } break;
                case 2: if (!ei && ej && i != j) { h[i] = std::make_unique<handle>(*h[j]); m[i] = m[j]; nulls |= m[j] == -1; verify("copy construct"); } break;
                case 3: if (!ei && ej && i != j) { h[i] = std::make_unique<handle>(std::move(*h[j])); m[i] = m[j]; m[j] = -1; verify("move construct"); } break;
                case 4: if (ei && ej) { aliased |= m[i] == m[j] && m[i] >= 0; auto & x = *h[j]; *h[i] = x; m[i] = m[j]; verify(i == j ? "self copy-assign" : "copy assign"); } break;
                case 5: if (ei && ej) {
                        aliased |= m[i] == m[j] && m[i] >= 0;
                        auto & x = *h[j];
                        *h[i] = std::move(x);
                        if (i != j) { m[i] = m[j]; m[j] = -1; verify("move assign"); }
                        else {
                            // a self-moved handle is either unchanged or null, but never leaks a reference
                            if (h[i]->is_nullptr()) m[i] = -1;
                            verify("self move-assign");
                        }
                    } break;
                case 6: if (ei && r.coin(0.5)) { h[i].reset(); m[i] = -2; verify("drop"); } break;
                case 7: if (ei && ej && i != j) { std::swap(*h[i], *h[j]); std::swap(m[i], m[j]); verify("swap"); } break;
            }
        }
        // pass by value and back, containers of handles
        for (int i = 0; i < nh; ++i)
            if (m[i] >= 0) {
                std::vector<handle> v(3, *h[i]);
                v.push_back(*h[i]);
                v.insert(v.begin(), handle(*h[i]));
                c.check("count-in-containers", h[i]->references() == count(m[i]) + 5);
                v.erase(v.begin() + 1);
                c.check("count-in-containers", h[i]->references() == count(m[i]) + 4);
                v.clear();
                c.check("count-in-containers", h[i]->references() == count(m[i]));
                auto f = [](handle x) { return x; };
                handle y = f(*h[i]);
                c.check("count-through-calls", y.references() == count(m[i]) + 1);
            }
        c.distinct(vm::hcomb(trace, (aliased ? 2 : 0) + (nulls ? 1 : 0)));
        if (aliased) c.count("programs with aliased assignment");
        if (nulls) c.count("programs with null handles");
        if (c.wants_sample()) c.sample(vm::str(nr, " resources, ", nh, " handles, ", steps, " steps, final designations ", vm::seq(m)));
    }
    for (auto & x : res) c.check("all-released-at-the-end", !x->is_valid());
}

static void std_program(vm::Case & c)
{
    auto & r = c.rng;
    long base = Owned::alive;
    {
        std::vector<shandle> v;
        std::vector<int> m;
        uint64_t trace = 5;
        for (int s = 0; s < 40; ++s) {
            int op = r.pick(6);
            trace = vm::hcomb(trace, op);
            int n = (int) v.size();
            if (op <= 1 || n == 0) { v.emplace_back(s); m.push_back(s); }
            else if (op == 2) { int i = r.pick(n); v.push_back(shandle(v[i])); m.push_back(m[i]); }
            else if (op == 3) { int i = r.pick(n), j = r.pick(n); v[i] = v[j]; m[i] = m[j]; }
            else if (op == 4) { int i = r.pick(n); v.erase(v.begin() + i); m.erase(m.begin() + i); }
            else { int i = r.pick(n); shandle t(std::move(v[i])); v[i] = std::move(t); }
            std::set<int> live(m.begin(), m.end());
            c.check("std:alive", Owned::alive - base == (long) live.size(), [&] { return vm::str(Owned::alive - base, " alive, ", live.size(), " designated"); });
            for (size_t i = 0; i < v.size(); ++i) {
                c.check("std:content", v[i]->value == m[i]);
                for (size_t j = 0; j < v.size(); ++j) c.check("std:equality-follows-identity", (v[i] == v[j]) == (m[i] == m[j]) && ((v[i] <=> v[j]) == 0) == (m[i] == m[j]));
            }
        }
        c.distinct(trace);
    }
    c.check("std:all-destroyed", Owned::alive == base);
}

// crowds: as many handles as a large mesh has on one of its vertices or points, given back in any order
static void crowd(vm::Case & c)
{
    auto & r = c.rng;
    static const int around[] = { 126, 254, 1000, 32766, 65534 };
    int n = around[c.index % 5] + (int) r.range(0, 6);
    Resource one(100), two(101);
    handle keep(&one), other(&two);
    std::vector<handle> v;
    auto look = [&](const char * op) {
        int want = 1;
        for (auto & x : v) want += x == keep;
        c.check("crowd:count", keep.references() == want, [&] { return vm::str("after ", op, ": ", keep.references(), " reported, ", want, " handles"); });
        c.check("crowd:other-count", other.references() == 1 + (int) v.size() - (want - 1), op);
        c.check("crowd:valid", one.is_valid() && two.is_valid(), op);
    };
    for (int i = 0; i < n; ++i) v.push_back(keep);
    look("copies");
    r.shuffle(v);
    int turn = (int) r.range(1, n);
    for (int i = 0; i < turn; ++i) v[i] = other;
    look("assignments");
    for (int i = 0; i < turn; ++i) if (i % 3 == 0) { v[i] = std::move(v[n - 1 - i]); v[n - 1 - i] = keep; }
    look("moves");
    r.shuffle(v);
    v.erase(v.begin() + (int) r.range(0, n), v.end());
    look("drops");
    v.clear();
    look("clear");
    keep = handle();
    c.check("crowd:released", !one.is_valid() && two.is_valid());
    c.distinct(vm::hcomb(n, turn));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("crowds", 15, 200, crowd);
    vm::section("handle-programs", 4000, 60000, program);
    vm::section("std-handle-programs", 600, 6000, std_program);
    return vm::finish();
}
