// H01: stresses and tangents of the hyperelastic materials are the derivatives of the energy
#include <mito/materials.h>
#include "vmon.h"
#include "material.h"

// derivative of a function of one variable by central differences of order eight, with an estimate of its error
template <class F>
static std::pair<double, double> slope(const F & f, double h)
{
    // two step sizes tell how good the result is
    auto d = [&](double s) {
        static const double w[4] = { 4.0 / 5, -1.0 / 5, 4.0 / 105, -1.0 / 280 };
        double r = 0;
        for (int k = 4; k >= 1; --k) r += w[k - 1] * (f(k * s) - f(-k * s));
        return r / s;
    };
    double a = d(h), b = d(h / 2);
    return { b, std::fabs(a - b) };
}

template <class M>
static void derivatives(vm::Case & c, const M & material, const mat::F3 & F, double h, double size)
{
    auto P = material.stress(mat::lib(F));
    auto C = material.tangents(mat::lib(F));
    double pn = size, cn = size;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        pn = std::max(pn, std::fabs((double) P[{ i, j }]));
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) cn = std::max(cn, std::fabs((double) C[{ i, j, k, l }]));
    }
    double W0 = std::fabs((double) material.energy(mat::lib(F)));
    double worst = 0;
    int skipped = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        auto [d, e] = slope([&](double t) { auto G = F; G[i][j] += t; return (double) material.energy(mat::lib(G)); }, h);
        // rounding of the energy differences
        double tol = 1e-8 * pn + 1e-13 * (W0 + size) / h + 8 * e;
        if (e > 1e-6 * pn) { ++skipped; continue; }
        worst = std::max(worst, tol / pn);
        c.check("stress:derivative-of-energy", std::fabs(d - (double) P[{ i, j }]) <= tol, [&] { return vm::str("component ", i, j, ": stress ", (double) P[{ i, j }], ", slope of the energy ", d, " tol ", tol, " at F = ", mat::show(F)); });
    }
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            auto [d, e] = slope([&](double t) { auto G = F; G[k][l] += t; auto S = material.stress(mat::lib(G)); return (double) S[{ i, j }]; }, h);
            double tol = 1e-8 * cn + 1e-13 * (pn + size) / h + 8 * e;
            if (e > 1e-6 * cn) { ++skipped; continue; }
            double a = C[{ i, j, k, l }];
            c.check("tangents:derivative-of-stress", std::fabs(d - a) <= tol, [&] { return vm::str("component ", i, j, k, l, ": tangent ", a, ", slope of the stress ", d, " tol ", tol, " at F = ", mat::show(F)); });
            double b = C[{ k, l, i, j }];
            c.check("tangents:major-symmetry", std::fabs(a - b) <= 1e-11 * cn, [&] { return vm::str("components ", i, j, k, l, " ", a, " ", b, " at F = ", mat::show(F)); });
        }
    c.count("skipped slopes", skipped);
    c.count("slopes", 90 - skipped);
}

// nothing but the arguments matters
template <class M>
static void pure(vm::Case & c, const M & m, const mat::F3 & F)
{
    auto copy = m;
    auto G = mat::lib(F);
    bool same = m.energy(G) == copy.energy(G);
    auto P = m.stress(G), Q = copy.stress(G);
    (void) m.tangents(G);
    auto R = m.stress(mat::lib(F));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) same = same && P[{ i, j }] == Q[{ i, j }] && P[{ i, j }] == R[{ i, j }] && G[{ i, j }] == F[i][j];
    c.check("evaluation:no-side-effects", same);
}

static void gent(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::gent_parameters(r);
    auto material = mito::materials::gent(p.rho, p.kappa, p.mu, p.Jm);
    double amp = r.of(mat::amplitudes());
    bool locking = r.coin(0.15);
    auto F = locking ? mat::gent_near_locking(r, p) : mat::gent_deformation(r, p, amp);
    if (locking) c.count("deformations close to locking");
    c.note(vm::str("gent ", p.kappa, " ", p.mu, " ", p.Jm, " F ", mat::show(F)));
    double room = p.Jm - (mat::trC(F) - 3);
    double h = 2e-3 * std::min({ 1.0, std::fabs(mat::det(F)), room / (1 + mat::trC(F)) });
    derivatives(c, material, F, h, 1e-3 * (p.mu + p.kappa));
    pure(c, material, F);
    // the undeformed state
    auto P = material.stress(mat::lib(mat::identity()));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check("undeformed:no-stress", std::fabs(P[{ i, j }]) <= 1e-13 * (p.mu + p.kappa), [&] { return vm::str(P[{ i, j }]); });
    double W = material.energy(mat::lib(F)), W1 = material.energy(mat::lib(mat::identity()));
    c.check("undeformed:minimum", W >= W1 - 1e-13 * (p.mu * (1 + p.Jm) + p.kappa), [&] { return vm::str("energy ", W, " below that of the undeformed state ", W1, " at ", mat::show(F)); });
    c.near_abs("undeformed:zero-energy", W1, 0, 1e-13 * (p.mu * (1 + p.Jm) + p.kappa));
    // the tangents at rest: shear modulus mu
    auto C = material.tangents(mat::lib(mat::identity()));
    c.near("undeformed:shear-modulus", C[{ 0, 1, 0, 1 }], p.mu, 1e-12, p.mu + p.kappa);
    c.near("undeformed:shear-modulus", C[{ 1, 0, 0, 1 }], p.mu, 1e-12, p.mu + p.kappa);
    c.distinct(vm::hcomb(vm::hreal(F[0][0]), vm::hreal(p.mu)));
    if (c.wants_sample()) c.sample(vm::str("kappa ", p.kappa, " mu ", p.mu, " Jm ", p.Jm, " F ", mat::show(F), " energy ", W));
}

static void linear(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::elastic_parameters(r);
    auto material = mito::materials::linear_elastic(p.rho, p.E, p.nu);
    auto F = mat::any_deformation(r, r.of(mat::amplitudes()));
    c.note(vm::str("linear ", p.E, " ", p.nu, " F ", mat::show(F)));
    double lam = p.E * p.nu / ((1 + p.nu) * (1 - 2 * p.nu)), mu = p.E / (2 * (1 + p.nu)), size = std::fabs(lam) + mu;
    derivatives(c, material, F, 1e-2, 1e-3 * size);
    pure(c, material, F);
    auto I = mat::lib(mat::identity());
    auto P = material.stress(I);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check("undeformed:no-stress", std::fabs(P[{ i, j }]) <= 1e-14 * size);
    c.near_abs("undeformed:zero-energy", material.energy(I), 0, 1e-14 * size);
    double W = material.energy(mat::lib(F)), d = mat::distance(F);
    c.check("undeformed:minimum", W >= -1e-13 * size * (1 + d * d), [&] { return vm::str("energy ", W, " at ", mat::show(F)); });
    // a bar pulled along a direction: Young's modulus and Poisson's ratio
    int a = r.pick(3);
    double e = r.real(-0.1, 0.1);
    auto B = mat::identity();
    for (int i = 0; i < 3; ++i) B[i][i] += i == a ? e : -p.nu * e;
    auto S = material.stress(mat::lib(B));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        c.near_abs("linear:young-and-poisson", S[{ i, j }], i == a && j == a ? p.E * e : 0, 1e-13 * size, vm::str("component ", i, j, " E ", p.E, " nu ", p.nu));
    c.distinct(vm::hcomb(vm::hreal(F[0][0]), vm::hreal(p.E)));
    if (c.wants_sample()) c.sample(vm::str("E ", p.E, " nu ", p.nu, " F ", mat::show(F), " energy ", W));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("gent", 20000, 1000000, gent);
    vm::section("linear elastic", 15000, 600000, linear);
    return vm::finish();
}
