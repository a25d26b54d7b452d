// E02: elementary blocks are the exact weak-form integrals
#include "femtools.h"
using namespace femt;

// leave rubbish on the stack
static void __attribute__((noinline)) dirty_stack(vm::Rng & r)
{
    volatile double a[2000];
    double v = r.coin() ? std::nan("") : r.real(-1e6, 1e6);
    for (auto & x : a) x = v;
}
// average over the cell of a function of barycentric coordinates
template <int N, class F>
static double average(const F & f)
{
    P3 b[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
    return poly::average(N, b, [&](const P3 & p) {
        std::array<double, N + 1> l;
        for (int i = 0; i <= N; ++i) l[i] = p[i];
        return f(l);
    });
}
template <int N, int P>
struct Oracle {
    static constexpr int n = N == 1 ? P + 1 : (P + 1) * (P + 2) / 2;
    Cell<N> k;
    double stiffness(int a, int b) const { return k.volume() * average<N>([&](auto & l) { return mgen::dot(k.template grad<P>(a, l), k.template grad<P>(b, l)); }); }
    double mass(int a, int b) const { return k.volume() * average<N>([&](auto & l) { return basis<N, P>(a, l) * basis<N, P>(b, l); }); }
    double source(int a, const poly::Poly & f) const { return k.volume() * average<N>([&](auto & l) { return basis<N, P>(a, l) * f(k.at(l)); }); }
};

template <int N, int P, int RS, int RM, int RF>
static void blocks(vm::Case & c)
{
    auto & r = c.rng;
    auto k = random_cell<N>(r);
    c.distinct(vm::hreal(k.x[0][0] + 3 * k.x[1][0]));
    using F = Fixture<N, P>;
    using E = typename F::E;
    constexpr int n = E::n_nodes;
    F f(k);
    Oracle<N, P> o { k };
    using rs = rule<N, RS>;
    using rm = rule<N, RM>;
    using rf = rule<N, RF>;
    double V = std::fabs(k.volume()), ssize = N == 1 ? 1 / V : k.size() * k.size() / V;
    double ts = 200 * k.rough() * ssize * (P == 2 ? 20 : 1), tm = 1e-13 * V + 1e-14 * (k.extent() + k.size()) * (N == 2 ? k.size() : 1);
    auto stiff = fem::blocks::grad_grad_block<E, rs>();
    auto massb = fem::blocks::mass_block<E, rm>();
    dirty_stack(r);
    auto K = stiff.compute(f.element);
    dirty_stack(r);
    auto M = massb.compute(f.element);
    double sumM = 0;
    for (int a = 0; a < n; ++a) {
        double row = 0;
        for (int b = 0; b < n; ++b) {
            c.near_abs("stiffness", (K[{ a, b }]), o.stiffness(a, b), ts);
            c.near_abs("mass", (M[{ a, b }]), o.mass(a, b), tm);
            c.near_abs("stiffness:symmetric", (K[{ a, b }]), (K[{ b, a }]), 0.01 * ts);
            c.near_abs("mass:symmetric", (M[{ a, b }]), (M[{ b, a }]), 0.1 * tm);
            row += K[{ a, b }];
            sumM += M[{ a, b }];
        }
        c.near_abs("stiffness:annihilates-constants", row, 0, n * ts);
    }
    c.near_abs("mass:sums-to-volume", sumM, k.volume(), n * tm);
    c.near_abs("mass:sums-to-the-manifold's-volume", sumM, [&] {
        auto mesh = mito::mesh::mesh<typename F::cell_t>();
        mesh.insert(f.nodes);
        auto manifold = mito::manifolds::manifold(mesh, f.cs);
        return manifold.volume();
    }(), 2 * n * tm);
    // positive (semi)definite, in the sense of the orientation
    for (int t = 0; t < 3; ++t) {
        double u[n], qk = 0, qm = 0, un = 0;
        for (auto & x : u) { x = r.real(-1, 1); un += x * x; }
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { qk += u[a] * u[b] * K[{ a, b }]; qm += u[a] * u[b] * M[{ a, b }]; }
        double sg = k.volume() > 0 ? 1 : -1;
        c.check("stiffness:semidefinite", sg * qk >= -n * ts, [&] { return vm::str(qk); });
        c.check("mass:definite", sg * qm > 0, [&] { return vm::str(qm); });
    }
    // sources: polynomials for which the rule suffices
    double big = std::max(1.0, k.extent());
    auto s1 = poly::random(r, N, RF - P), s2 = poly::random(r, N, RF - P);
    auto f1 = poly::field<N>(s1), f2 = poly::field<N>(s2);
    auto src1 = fem::blocks::source_term_block<E, rf>(f1);
    auto src2 = fem::blocks::source_term_block<E, rf>(f2);
    double b1 = s1.bound(big), b2 = s2.bound(big);
    dirty_stack(r);
    auto v1 = src1.compute(f.element);
    auto v2 = src2.compute(f.element);
    double total = 0;
    for (int a = 0; a < n; ++a) {
        c.near_abs("source", v1[a], o.source(a, s1), 20 * tm * b1);
        c.near_abs("source", v2[a], o.source(a, s2), 20 * tm * b2);
        total += v1[a];
    }
    c.near_abs("source:sums-to-integral", total, k.volume() * average<N>([&](auto & l) { return s1(k.at(l)); }), 20 * n * tm * b1);
    // a block does not need the function it was made of to be kept alive
    {
        auto gone1 = std::make_unique<std::remove_cvref_t<decltype(f1)>>(f1), gone2 = std::make_unique<std::remove_cvref_t<decltype(f1)>>(f1);
        auto src3 = fem::blocks::source_term_block<E, rf>(*gone1);
        auto src4 = fem::blocks::source_term_block<E, rf>(2.0 * (*gone2) - f2);
        auto l2a = fem::blocks::l2_norm_block<E, rm>(f.element.template shape<0>() - f.element.template shape<n - 1>());
        auto l2b = fem::blocks::l2_norm_block<E, rm>(f.element.template shape<1>());
        gone1.reset();
        gone2.reset();
        dirty_stack(r);
        auto v3 = src3.compute(f.element);
        auto v4 = src4.compute(f.element);
        for (int a = 0; a < n; ++a) {
            c.near_abs("source:of-a-function-that-is-gone", v3[a], v1[a], 0);
            c.near_abs("source:of-a-temporary", v4[a], 2 * v1[a] - v2[a], 20 * tm * (2 * b1 + b2));
        }
        c.near_abs("norm:of-a-temporary", l2a.compute(f.element), o.mass(0, 0) - 2 * o.mass(0, n - 1) + o.mass(n - 1, n - 1), 8 * tm);
        c.near_abs("norm:of-a-temporary", l2b.compute(f.element), o.mass(1, 1), 2 * tm);
    }
    // a block may be used many times
    {
        dirty_stack(r);
        auto K2 = stiff.compute(f.element);
        auto M2 = massb.compute(f.element);
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
            c.near_abs("repeatable", (K2[{ a, b }]), (K[{ a, b }]), 0);
            c.near_abs("repeatable", (M2[{ a, b }]), (M[{ a, b }]), 0);
        }
    }
    // renumbering the nodes of the cell
    {
        auto q = r.perm(N + 1);
        Cell<N> k2;
        for (int i = 0; i <= N; ++i) k2.x[i] = k.x[q[i]];
        double sg = vm::parity(q);
        // position of the mid-edge nodes
        std::array<int, n> p;
        for (int i = 0; i <= N; ++i) p[i] = q[i];
        if constexpr (P == 2)
            for (int e = 0; e < 3; ++e) {
                int missing = q[(e + 2) % 3]; // edge (e, e+1) is opposite to corner e+2
                p[3 + e] = 3 + (missing + 1) % 3;
            }
        F g(k2);
        auto K2 = stiff.compute(g.element);
        auto M2 = massb.compute(g.element);
        auto w = src1.compute(g.element);
        for (int a = 0; a < n; ++a) {
            c.near_abs("source:renumbering", w[a], sg * v1[p[a]], 20 * tm * b1);
            for (int b = 0; b < n; ++b) {
                c.near_abs("stiffness:renumbering", (K2[{ a, b }]), sg * (K[{ p[a], p[b] }]), ts);
                c.near_abs("mass:renumbering", (M2[{ a, b }]), sg * (M[{ p[a], p[b] }]), tm);
            }
        }
    }
    // rigid motions and scaling
    {
        double s = r.real(0.3, 3), al = N == 2 ? r.real(0, 6.3) : 0, ca = std::cos(al), sa = std::sin(al);
        P3 t { r.real(-1, 1) * k.size(), N == 2 ? r.real(-1, 1) * k.size() : 0, 0 };
        Cell<N> k2;
        for (int i = 0; i <= N; ++i) { P3 x = k.x[i]; k2.x[i] = s * P3 { ca * x[0] - sa * x[1], N == 2 ? sa * x[0] + ca * x[1] : 0, 0 } + t; }
        F g(k2);
        auto K2 = stiff.compute(g.element);
        auto M2 = massb.compute(g.element);
        double fk = N == 1 ? 1 / s : 1, fm = N == 1 ? s : s * s;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
            c.near_abs("stiffness:similarity", (K2[{ a, b }]), fk * (K[{ a, b }]), 4 * std::max(1.0, fk) * (ts + 200 * k2.rough() * ssize * (P == 2 ? 20 : 1)));
            c.near_abs("mass:similarity", (M2[{ a, b }]), fm * (M[{ a, b }]), 4 * std::max(1.0, fm) * (tm + 1e-14 * (k2.extent() + k2.size()) * (N == 2 ? k2.size() : 1)));
        }
    }
    // the same cell in another coordinate system, asked in turns; and sources in other units
    {
        auto k2 = random_cell<N>(r);
        Oracle<N, P> o2 { k2 };
        decltype(f.cs) elsewhere;
        for (int i = 0; i <= N; ++i) elsewhere.place(f.nodes[i]->point(), mgen::coords<N>(k2.x[i]));
        E there(f.cell, elsewhere, f.dofs);
        double V2 = std::fabs(k2.volume()), ss2 = N == 1 ? 1 / V2 : k2.size() * k2.size() / V2;
        double ts2 = 200 * k2.rough() * ss2 * (P == 2 ? 20 : 1), tm2 = 1e-13 * V2 + 1e-14 * (k2.extent() + k2.size()) * (N == 2 ? k2.size() : 1);
        double bb = s1.bound(std::max(1.0, k2.extent())), unit = std::pow(10.0, r.real(-15, 15));
        auto fk = poly::field<N>([&](const P3 & x) { return unit * s1(x); });
        auto srck = fem::blocks::source_term_block<E, rf>(fk);
        for (int t = 0; t < 4; ++t) {
            bool away = r.coin();
            const E & e = away ? there : f.element;
            const auto & q = away ? o2 : o;
            double a_ts = away ? ts2 : ts, a_tm = away ? tm2 : tm, a_b = away ? bb : b1;
            auto K2 = stiff.compute(e);
            auto M2 = massb.compute(e);
            auto w = srck.compute(e);
            for (int a = 0; a < n; ++a) {
                c.near_abs("source:of-this-cell-in-this-system", w[a], unit * q.source(a, s1), 20 * unit * a_tm * a_b);
                for (int b = 0; b < n; ++b) {
                    c.near_abs("stiffness:of-this-cell-in-this-system", (K2[{ a, b }]), q.stiffness(a, b), a_ts);
                    c.near_abs("mass:of-this-cell-in-this-system", (M2[{ a, b }]), q.mass(a, b), a_tm);
                }
            }
        }
    }
    // weak forms
    {
        auto wf = fem::weakform<E>();
        int nk = 0, nm = 0, n1 = 0, n2 = 0, blocks = r.pick(6);
        for (int i = 0; i < blocks; ++i) switch (r.pick(4)) {
            case 0: wf.add_block(stiff); ++nk; break;
            case 1: wf.add_block(massb); ++nm; break;
            case 2: wf.add_block(src1); ++n1; break;
            default: wf.add_block(src2); ++n2; break;
        }
        auto k3 = random_cell<N>(r);
        F g(k3);
        auto wk = fem::weakform<E>(); // nothing on the left, another load on the right
        wk.add_block(src2);
        const E * es[2] = { &f.element, &g.element };
        for (int t = 0; t < 3; ++t) {
            const E & e = *es[t % 2];
            dirty_stack(r);
            auto [A, b] = wf.compute_blocks(e);
            auto ke = stiff.compute(e);
            auto me = massb.compute(e);
            auto se = src1.compute(e), te = src2.compute(e);
            const auto & kc = t % 2 ? k3 : k;
            double Ve = std::fabs(kc.volume()), sse = N == 1 ? 1 / Ve : kc.size() * kc.size() / Ve, be = std::max(1.0, kc.extent());
            double tse = 200 * kc.rough() * sse * (P == 2 ? 20 : 1), tme = 1e-13 * Ve + 1e-14 * (kc.extent() + kc.size()) * (N == 2 ? kc.size() : 1);
            for (int i = 0; i < n; ++i) {
                c.near_abs("weakform:rhs", b[i], n1 * se[i] + n2 * te[i], 20 * tme * (n1 * s1.bound(be) + n2 * s2.bound(be)));
                for (int j = 0; j < n; ++j) c.near_abs("weakform:matrix", (A[{ i, j }]), nk * (ke[{ i, j }]) + nm * (me[{ i, j }]), nk * tse + nm * tme);
            }
            if (r.coin()) {
                auto [A0, b0] = wk.compute_blocks(e);
                for (int i = 0; i < n; ++i) {
                    c.near_abs("weakform:without-a-left-hand-side", b0[i], te[i], 20 * tme * s2.bound(be));
                    for (int j = 0; j < n; ++j) c.near_abs("weakform:without-a-left-hand-side", (A0[{ i, j }]), 0, 0);
                }
            }
        }
        c.count(vm::str("weak forms of ", blocks, " blocks"));
    }
    c.sample(vm::str("degree ", P, " in ", N, "D, rules ", RS, RM, RF, ": volume ", k.volume(), " K00 ", (K[{ 0, 0 }]), " M00 ", (M[{ 0, 0 }])));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segment-p1", 300, 20000, blocks<1, 1, 1, 2, 2>);
    vm::section("segment-p1-more", 300, 20000, blocks<1, 1, 2, 2, 1>);
    vm::section("triangle-p1", 200, 8000, blocks<2, 1, 1, 2, 4>);
    vm::section("triangle-p1-more", 200, 8000, blocks<2, 1, 4, 3, 3>);
    vm::section("triangle-p2", 100, 4000, blocks<2, 2, 2, 4, 4>);
    vm::section("triangle-p2-more", 100, 4000, blocks<2, 2, 3, 4, 3>);
    return vm::finish();
}
