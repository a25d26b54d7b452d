// H03: the material consistency check tells consistent materials from inconsistent ones
#include <mito/materials.h>
#include "vmon.h"
#include "material.h"
#include <memory>
#include <optional>

using matrix = mito::tensor::matrix_t<3>;
using fourth = mito::tensor::fourth_order_tensor_t<3>;

// a material that departs from another in chosen components
template <class M>
struct Bent {
    using deformation_gradient_type = matrix;
    using stress_type = matrix;
    using tangents_type = fourth;
    M base;
    std::array<int, 2> s { 0, 0 };
    std::array<int, 4> t { 0, 0, 0, 0 };
    double ds = 0, dt = 0;
    auto energy(const matrix & F) const { return base.energy(F); }
    auto stress(const matrix & F) const -> stress_type
    {
        stress_type P;
        auto Q = base.stress(F);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[{ i, j }] = Q[{ i, j }];
        P[{ s[0], s[1] }] += ds;
        return P;
    }
    auto tangents(const matrix & F) const -> tangents_type
    {
        auto C = base.tangents(F);
        C[{ t[0], t[1], t[2], t[3] }] += dt;
        return C;
    }
};

// W = B:H + H:C:H / 2 + (a:H)^3 / 6 with H = F - I: everything is known, and centered differences err by the cubic term alone
struct Cubic {
    using deformation_gradient_type = matrix;
    using stress_type = matrix;
    using tangents_type = fourth;
    std::array<double, 9> B {}, a {};
    std::array<std::array<double, 9>, 9> C {};
    std::array<double, 9> H(const matrix & F) const
    {
        std::array<double, 9> h;
        for (int i = 0; i < 9; ++i) h[i] = F[{ i / 3, i % 3 }] - (i / 3 == i % 3);
        return h;
    }
    double energy(const matrix & F) const
    {
        auto h = H(F);
        double w = 0, q = 0;
        for (int i = 0; i < 9; ++i) { w += B[i] * h[i]; q += a[i] * h[i]; for (int j = 0; j < 9; ++j) w += 0.5 * h[i] * C[i][j] * h[j]; }
        return w + q * q * q / 6;
    }
    matrix stress(const matrix & F) const
    {
        auto h = H(F);
        double q = 0;
        for (int i = 0; i < 9; ++i) q += a[i] * h[i];
        matrix P;
        for (int i = 0; i < 9; ++i) {
            double s = B[i] + q * q / 2 * a[i];
            for (int j = 0; j < 9; ++j) s += 0.5 * (C[i][j] + C[j][i]) * h[j];
            P[{ i / 3, i % 3 }] = s;
        }
        return P;
    }
    fourth tangents(const matrix & F) const
    {
        auto h = H(F);
        double q = 0;
        for (int i = 0; i < 9; ++i) q += a[i] * h[i];
        fourth T = fourth();
        for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) T[{ i / 3, i % 3, j / 3, j % 3 }] = 0.5 * (C[i][j] + C[j][i]) + q * a[i] * a[j];
        return T;
    }
};

struct Mismatch { double r, band; };
// the mismatch over all components, and the rounding it may carry
template <class M>
static Mismatch stress_mismatch(const M & m, const mat::F3 & F, double eps, double modulus)
{
    auto P = m.stress(mat::lib(F));
    double s = 0, size = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        auto G = F, K = F;
        G[i][j] += eps;
        K[i][j] -= eps;
        double a = m.energy(mat::lib(G)), b = m.energy(mat::lib(K)), p = P[{ i, j }];
        s += (a - b - 2 * eps * p) * (a - b - 2 * eps * p);
        size += std::fabs(a) + std::fabs(b) + (2 * std::fabs(eps) + 1) * std::fabs(p);
    }
    return { std::sqrt(s), 2e-15 * (size + 9 * modulus) };
}
template <class M>
static Mismatch tangents_mismatch(const M & m, const mat::F3 & F, double eps, double modulus)
{
    auto C = m.tangents(mat::lib(F));
    double s = 0, size = 0;
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) {
        auto G = F, K = F;
        G[k][l] += eps;
        K[k][l] -= eps;
        auto A = m.stress(mat::lib(G)), B = m.stress(mat::lib(K));
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            double a = A[{ i, j }], b = B[{ i, j }], p = C[{ i, j, k, l }];
            s += (a - b - 2 * eps * p) * (a - b - 2 * eps * p);
            size += std::fabs(a) + std::fabs(b) + (2 * std::fabs(eps) + 1) * std::fabs(p);
        }
    }
    return { std::sqrt(s), 2e-15 * (size + 9 * modulus) };
}

// leave other numbers where the arguments of earlier calls were
__attribute__((noinline)) static double trample(double x)
{
    volatile double a[256];
    for (int i = 0; i < 256; ++i) a[i] = x;
    return a[17];
}

template <class M>
struct Checker {
    std::function<bool(const matrix &)> stress, tangents;
};
// the many ways to make the check
template <class M>
static Checker<M> make(vm::Case & c, const M & m, double eps, double tol, int how)
{
    using namespace mito::materials;
    using test_t = material_consistency_test_t<M>;
    std::shared_ptr<test_t> t;
    switch (how) {
    case 0: {    // everything in place, and staying there
        auto a = std::make_shared<std::tuple<M, double, double>>(m, eps, tol);
        t = std::make_shared<test_t>(consistency_test(std::get<0>(*a), std::get<1>(*a), std::get<2>(*a)));
        return { [a, t](const matrix & F) { return t->test_stress(F); }, [a, t](const matrix & F) { return t->test_tangents(F); } };
    }
    case 1: t = std::make_shared<test_t>(consistency_test(M(m), eps * 1.0, tol * 1.0)); break;    // temporaries
    case 2: {                                                                                        // variables that change afterwards
        M m2 = m;
        double e = eps, l = tol;
        t = std::make_shared<test_t>(consistency_test(m2, e, l));
        e = 1e3 * eps;
        l = 1e9 * tol;
        trample(e + l);
        break;
    }
    case 3: {    // on the heap and gone
        auto a = new M(m);
        auto e = new double(eps), l = new double(tol);
        t = std::make_shared<test_t>(consistency_test(*a, *e, *l));
        delete a; delete e; delete l;
        break;
    }
    default: {    // a copy of a check
        auto first = std::make_unique<test_t>(consistency_test(M(m), eps + 0.0, tol + 0.0));
        t = std::make_shared<test_t>(*first);
        break;
    }
    }
    trample(tol * 1e7);
    return { [t](const matrix & F) { return t->test_stress(F); }, [t](const matrix & F) { return t->test_tangents(F); } };
}

template <class M>
static void verdicts(vm::Case & c, const M & m, const mat::F3 & F, double eps, double modulus, const char * what)
{
    auto & r = c.rng;
    auto S = stress_mismatch(m, F, eps, modulus), T = tangents_mismatch(m, F, eps, modulus);
    static const double factors[] = { 1e-6, 0.1, 0.5, 0.9, 0.99, 1.01, 1.1, 2, 10, 1e6 };
    int how = r.pick(5);
    double f = factors[r.pick(10)];
    auto one = [&](const Mismatch & x, bool tangents) {
        double tol = f * x.r;
        if (!std::isfinite(x.r)) { tol = std::pow(10.0, r.real(-6, 6)); c.count("results that are no numbers"); }     // never consistent
        else if (x.r <= 4 * x.band) tol = f > 1 ? 1e3 * x.band : 0;     // consistent to rounding: a tolerance above that, or none at all
        if (std::fabs(tol - x.r) <= 2 * x.band && tol != 0) { c.count("too close to tell"); return; }
        bool expected = std::isfinite(x.r) && x.r < tol;
        if (tol == 0) expected = false;
        auto k = make(c, m, eps, tol, how);
        trample(1e30);
        bool got = tangents ? k.tangents(mat::lib(F)) : k.stress(mat::lib(F));
        c.check(tangents ? (expected ? "tangents:consistent-accepted" : "tangents:inconsistent-rejected") : (expected ? "stress:consistent-accepted" : "stress:inconsistent-rejected"), got == expected,
                [&] { return vm::str(what, " made in way ", how, ": mismatch ", x.r, " tolerance ", tol, " perturbation ", eps, " verdict ", got, " at F = ", mat::show(F)); });
        bool again = tangents ? k.tangents(mat::lib(F)) : k.stress(mat::lib(F));
        c.check("verdict:repeatable", got == again);
        c.count(expected ? "to accept" : "to reject");
    };
    one(S, false);
    one(T, true);
}

template <class M>
static void bent(vm::Case & c, const M & base, const mat::F3 & F, double size, double modulus)
{
    auto & r = c.rng;
    static const double steps[] = { 1e-2, 1e-3, 1e-4, 1e-5, 1e-6 };
    double eps = steps[r.pick(5)];
    if (r.coin(0.15)) { verdicts(c, base, F, eps, modulus, "right"); }
    Bent<M> m { base };
    for (auto & i : m.s) i = r.pick(3);
    for (auto & i : m.t) i = r.pick(3);
    if (r.coin(0.6)) m.ds = (r.coin() ? 1 : -1) * size * std::pow(10.0, r.real(-6, 0));
    if (r.coin(0.6)) m.dt = (r.coin() ? 1 : -1) * size * std::pow(10.0, r.real(-6, 0));
    if (r.coin(0.04)) {    // a material that yields no number
        (r.coin() ? m.ds : m.dt) = r.coin(0.7) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
        c.note(vm::str("bent ", m.s[0], m.s[1], " by ", m.ds, " ", m.t[0], m.t[1], m.t[2], m.t[3], " by ", m.dt, " F ", mat::show(F), " eps ", eps));
        verdicts(c, m, F, eps, modulus, "no number");
        return;
    }
    c.note(vm::str("bent ", m.s[0], m.s[1], " by ", m.ds, " ", m.t[0], m.t[1], m.t[2], m.t[3], " by ", m.dt, " F ", mat::show(F), " eps ", eps));
    verdicts(c, m, F, eps, modulus, "bent");
    // the tolerance that separates the right material from the bent one
    auto S0 = stress_mismatch(base, F, eps, modulus), S1 = stress_mismatch(m, F, eps, modulus), T0 = tangents_mismatch(base, F, eps, modulus), T1 = tangents_mismatch(m, F, eps, modulus);
    if (S1.r > 4 * (S0.r + S0.band + S1.band)) {
        double tol = std::sqrt(S1.r * (S0.r + S0.band));
        c.check("stress:tells-right-from-wrong", make(c, base, eps, tol, r.pick(5)).stress(mat::lib(F)) && !make(c, m, eps, tol, r.pick(5)).stress(mat::lib(F)),
                [&] { return vm::str("deviation ", m.ds, " in component ", m.s[0], m.s[1], " tolerance ", tol, " mismatches ", S0.r, " ", S1.r); });
        c.count("stress told apart");
    }
    if (T1.r > 4 * (T0.r + T0.band + T1.band)) {
        double tol = std::sqrt(T1.r * (T0.r + T0.band));
        c.check("tangents:tells-right-from-wrong", make(c, base, eps, tol, r.pick(5)).tangents(mat::lib(F)) && !make(c, m, eps, tol, r.pick(5)).tangents(mat::lib(F)),
                [&] { return vm::str("deviation ", m.dt, " in component ", m.t[0], m.t[1], m.t[2], m.t[3], " tolerance ", tol, " mismatches ", T0.r, " ", T1.r); });
        c.count("tangents told apart");
    }
    c.distinct(vm::hcomb(vm::hreal(F[0][0]), vm::hreal(m.ds + 3 * m.dt)));
    if (c.wants_sample()) c.sample(vm::str("deviations ", m.ds, " ", m.dt, " mismatches right ", S0.r, " ", T0.r, " bent ", S1.r, " ", T1.r));
}

static void gent(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::gent_parameters(r);
    auto F = mat::gent_deformation(r, p, 0.9 * r.of(mat::amplitudes()));
    double J = mat::det(F), room = 1 - (mat::trC(F) - 3) / p.Jm, A = 1 + std::fabs(0.5 * (J * J - 1) - std::log(J));
    double modulus = (p.mu * (p.Jm + 3) / (room * room) + p.kappa * A * A * A * (1 + J * J)) * (1 + mat::trC(F)) * (1 + 1 / J);
    bent(c, mito::materials::gent(p.rho, p.kappa, p.mu, p.Jm), F, p.mu + p.kappa, modulus);
}
static void linear(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::elastic_parameters(r);
    auto m = mito::materials::linear_elastic(p.rho, p.E, p.nu);
    auto F = mat::any_deformation(r, r.of(mat::amplitudes()));
    double modulus = (std::fabs(p.E * p.nu / ((1 + p.nu) * (1 - 2 * p.nu))) + p.E / (1 + p.nu)) * (3 + mat::trC(F));
    verdicts(c, m, F, std::pow(10.0, r.real(-6, -1)), modulus, "linear");
    bent(c, m, F, p.E, modulus);
}
static void cubic(vm::Case & c)
{
    auto & r = c.rng;
    Cubic m;
    for (auto & x : m.B) x = r.real(-1, 1);
    for (auto & x : m.a) x = r.coin(0.3) ? r.real(-1, 1) : 0;
    for (auto & row : m.C) for (auto & x : row) x = r.real(-1, 1);
    if (r.coin(0.3)) {    // one component at a time
        for (auto & row : m.C) row.fill(0);
        m.C[r.pick(9)][r.pick(9)] = 1;
        m.B.fill(0);
        m.a.fill(0);
        m.a[r.pick(9)] = 1;
    }
    auto F = mat::any_deformation(r, r.of(mat::amplitudes()));
    double modulus = 30 * (3 + mat::trC(F));
    double eps = (r.coin(0.1) ? -1 : 1) * std::pow(10.0, r.real(-4, 0));
    c.note(vm::str("cubic, F ", mat::show(F), " eps ", eps));
    // known: the mismatch of the stress is eps^3 |a_i^3| / 3 componentwise, that of the tangents is nothing for the cubic term's odd part
    double s = 0;
    for (double x : m.a) s += std::pow(eps * eps * eps * x * x * x / 3, 2);
    auto S = stress_mismatch(m, F, eps, modulus);
    c.near_abs("harness:cubic-mismatch", S.r, std::sqrt(s), 1e-12 + 20 * S.band);
    verdicts(c, m, F, eps, modulus, "cubic");
    bent(c, m, F, 1, modulus);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    journal::info_t("tests.stress_consistency_test").deactivate();
    journal::info_t("tests.tangents_consistency_test").deactivate();
    vm::section("gent", 2500, 120000, gent);
    vm::section("linear elastic", 2500, 120000, linear);
    vm::section("polynomial materials", 4000, 200000, cubic);
    return vm::finish();
}
