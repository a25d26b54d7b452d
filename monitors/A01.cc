// A01: permutation signs form the sign homomorphism
#include "vmon.h"
#include <mito/math.h>
#include <list>
#include <deque>

using mito::math::permutation_sign;

// reference: number of inversions with respect to positions in the reference arrangement (quadratic, no swapping)
template <class T>
static int inversions_sign(const T & d, const T & ref)
{
    std::vector<int> p;
    for (const auto & x : d) {
        int i = 0;
        for (const auto & y : ref) { if (x == y) break; ++i; }
        p.push_back(i);
    }
    int s = 1;
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = i + 1; j < p.size(); ++j) if (p[i] > p[j]) s = -s;
    return s;
}

template <class T>
static T arrange(const T & base, const std::vector<int> & p)
{
    T o = base;
    for (size_t i = 0; i < p.size(); ++i) o[i] = base[p[i]];
    return o;
}

template <class T>
static void laws(vm::Case & c, const T & base)
{
    auto & r = c.rng;
    int n = (int) std::size(base);
    auto pa = r.perm(n), pb = r.perm(n), pc = r.perm(n);
    auto A = arrange(base, pa), B = arrange(base, pb), C = arrange(base, pc);
    auto A0 = A, B0 = B;
    int ab = permutation_sign(A, B);
    c.check("sign:is-the-inversion-parity", ab == inversions_sign(A, B), [&] { return vm::str(n, " elements: ", vm::seq(pa), " against ", vm::seq(pb), " gave ", ab); });
    c.check("sign:arguments-untouched", A == A0 && B == B0);
    c.check("sign:symmetric", permutation_sign(B, A) == ab);
    c.check("sign:identity", permutation_sign(A, A) == 1 && permutation_sign(base, base) == 1);
    c.check("sign:multiplicative", permutation_sign(A, B) * permutation_sign(B, C) == permutation_sign(A, C));
    if (n > 1) {
        auto D = A;
        int i = r.pick(n), j = r.pick(n);
        while (j == i) j = r.pick(n);
        std::swap(D[i], D[j]);
        c.check("sign:transposition-in-data", permutation_sign(D, B) == -ab, [&] { return vm::str(n, " elements, exchange ", i, " ", j); });
        c.check("sign:transposition-in-reference", permutation_sign(B, D) == -ab);
        // relabelling does not matter: the same arrangements of other elements
        auto other = base;
        r.shuffle(other);
        c.check("sign:independent-of-labels", permutation_sign(arrange(other, pa), arrange(other, pb)) == ab);
    }
    c.distinct(vm::hcomb(vm::hseq(pa), vm::hseq(pb)));
    c.count(vm::str("length ", n > 8 ? 9 : n));
}

template <int N>
static void arrays(vm::Case & c)
{
    auto & r = c.rng;
    std::array<int, N> a;
    std::set<int> used;
    for (auto & x : a) { do x = (int) r.range(-2000000000, 2000000000); while (!used.insert(x).second); }
    laws(c, a);
    std::array<double, N> d;
    std::set<double> ud;
    for (auto & x : d) { do x = r.real(-1, 1); while (!ud.insert(x).second); }
    laws(c, d);
    if (c.wants_sample()) c.sample(vm::seq(a));
}

template <int N>
static void exhaustive(vm::Case & c)
{
    std::array<int, N> ref, a;
    std::iota(ref.begin(), ref.end(), 0);
    long k = 0, target = c.index;
    // every arrangement against one reference per case
    for (long i = 0; i < target; ++i) std::next_permutation(ref.begin(), ref.end());
    std::iota(a.begin(), a.end(), 0);
    do {
        c.check("sign:all-pairs", permutation_sign(a, ref) == inversions_sign(a, ref), [&] { return vm::seq(a) + " against " + vm::seq(ref); });
        ++k;
    } while (std::next_permutation(a.begin(), a.end()));
    c.distinct(vm::hseq(ref));
    c.count("pairs", k);
}

static void vectors(vm::Case & c)
{
    auto & r = c.rng;
    int n = (int) r.range(1, c.thorough() ? 200 : 60);
    std::vector<std::string> s;
    std::vector<uint64_t> u;
    std::vector<void *> p;
    std::deque<int> q;
    for (int i = 0; i < n; ++i) { s.push_back(vm::str("k", r.next())); u.push_back(r.next()); p.push_back((void *) (r.next() & ~7ull)); q.push_back(i * 7 - 100); }
    laws(c, s);
    laws(c, u);
    laws(c, p);
    laws(c, q);
    if (c.wants_sample()) c.sample(vm::str("length ", n));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("arrays-1", 20, 20, arrays<1>);
    vm::section("arrays-2", 100, 100, arrays<2>);
    vm::section("arrays-3", 500, 5000, arrays<3>);
    vm::section("arrays-4", 1000, 20000, arrays<4>);
    vm::section("arrays-7", 1000, 50000, arrays<7>);
    vm::section("arrays-20", 1000, 50000, arrays<20>);
    vm::section("vectors", 500, 20000, vectors);
    vm::section("all-pairs-3", 6, 6, exhaustive<3>);
    vm::section("all-pairs-4", 24, 24, exhaustive<4>);
    vm::section("all-pairs-5", 120, 120, exhaustive<5>);
    vm::section("all-pairs-6", 60, 720, exhaustive<6>);
    // at compile time too
    static_assert(permutation_sign(std::array { 4, 1, 3, 2, 0 }, std::array { 0, 1, 2, 3, 4 }) == 1);
    static_assert(permutation_sign(std::array { 4, 1, 2, 3, 0 }, std::array { 0, 1, 2, 3, 4 }) == -1);
    return vm::finish();
}
