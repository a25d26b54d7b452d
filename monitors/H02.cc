// H02: the response of the hyperelastic materials is frame indifferent and isotropic
#include <mito/materials.h>
#include "vmon.h"
#include "material.h"
using mat::operator*;

static void gent(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::gent_parameters(r);
    auto m = mito::materials::gent(p.rho, p.kappa, p.mu, p.Jm);
    auto F = mat::gent_deformation(r, p, r.of(mat::amplitudes()));
    auto Q = mat::rotation(r), R = mat::rotation(r);
    c.note(vm::str("gent ", p.kappa, " ", p.mu, " ", p.Jm, " F ", mat::show(F), " Q ", mat::show(Q)));
    auto W = [&](const mat::F3 & f) { return (double) m.energy(mat::lib(f)); };
    auto P = [&](const mat::F3 & f) { return mat::plain(m.stress(mat::lib(f))); };
    double J = mat::det(F), room = 1 - (mat::trC(F) - 3) / p.Jm;
    double A = 0.5 * (J * J - 1) - std::log(J);
    // how rounding of F spreads: the size of the terms and of their slopes
    double es = p.mu * (p.Jm + mat::trC(F) / room + 2 + std::fabs(std::log(J))) + p.kappa * (1 + J * J) * (1 + std::fabs(A * A * A)) * 10;
    double ps = p.mu * (mat::norm(F) / room / room + 3 / J * mat::norm(F) * mat::norm(F)) * (1 + mat::trC(F) / p.Jm) + p.kappa * 40 * (1 + J * J) * (1 + A * A) * (1 + std::fabs(A)) * mat::norm(F) * mat::norm(F) * (1 + 1 / J);
    double w = W(F);
    c.near("gent:energy-is-frame-indifferent", W(Q * F), w, 1e-13, es);
    c.near("gent:energy-is-isotropic", W(F * R), w, 1e-13, es);
    auto S = P(F), S1 = P(Q * F), S2 = Q * S, S3 = P(F * R), S4 = S * R;
    auto tau = S * mat::T(F);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        c.near("gent:stress-rotates-along", S1[i][j], S2[i][j], 1e-12, ps, "stress after a rotation");
        c.near("gent:stress-is-isotropic", S3[i][j], S4[i][j], 1e-12, ps, "stress of a body rotated beforehand");
        c.near("gent:cauchy-stress-symmetric", tau[i][j], tau[j][i], 1e-12, ps * mat::norm(F));
    }
    // tangents rotate along as well: C_iJkL(QFR) = Q_ia Q_kb C_aJ'bL' R_J'J R_L'L
    if (r.coin(0.3)) {
        auto C = m.tangents(mat::lib(F)), D = m.tangents(mat::lib(Q * F * R));
        double cs = 0;
        std::array<std::array<std::array<std::array<double, 3>, 3>, 3>, 3> a, b;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) { a[i][j][k][l] = C[{ i, j, k, l }]; cs = std::max(cs, std::fabs(a[i][j][k][l])); }
        auto rotate = [&](int slot, const mat::F3 & M) {    // index `slot` contracted with the first index of M transposed
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) {
                double s = 0;
                for (int q = 0; q < 3; ++q) {
                    int ix[4] = { i, j, k, l };
                    int o = ix[slot];
                    ix[slot] = q;
                    s += M[o][q] * a[ix[0]][ix[1]][ix[2]][ix[3]];
                }
                b[i][j][k][l] = s;
            }
            a = b;
        };
        rotate(0, Q); rotate(2, Q); rotate(1, mat::T(R)); rotate(3, mat::T(R));
        double ts = cs + ps * (1 + 1 / J + 1 / room) * 4;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
            c.near("gent:tangents-rotate-along", D[{ i, j, k, l }], a[i][j][k][l], 1e-12, ts, vm::str("component ", i, j, k, l));
        c.count("rotated tangents");
    }
    // energy and stress scale with the moduli; the density plays no role in them
    double s = r.real(0.1, 10);
    auto m2 = mito::materials::gent(p.rho * 3 + 1, s * p.kappa, s * p.mu, p.Jm);
    c.near("gent:linear-in-moduli", (double) m2.energy(mat::lib(F)), s * w, 1e-13, s * es);
    auto S5 = mat::plain(m2.stress(mat::lib(F)));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.near("gent:linear-in-moduli", S5[i][j], s * S[i][j], 1e-12, s * ps);
    c.distinct(vm::hcomb(vm::hreal(F[0][0]), vm::hreal(Q[0][0])));
    if (c.wants_sample()) c.sample(vm::str("F ", mat::show(F), " Q ", mat::show(Q), " energy ", w, " rotated ", W(Q * F)));
}

static void linear(vm::Case & c)
{
    auto & r = c.rng;
    auto p = mat::elastic_parameters(r);
    auto m = mito::materials::linear_elastic(p.rho, p.E, p.nu);
    double lam = p.E * p.nu / ((1 + p.nu) * (1 - 2 * p.nu)), mu = p.E / (2 * (1 + p.nu)), size = std::fabs(lam) + mu;
    auto F = mat::any_deformation(r, r.of(mat::amplitudes())), G = mat::any_deformation(r, r.of(mat::amplitudes()));
    c.note(vm::str("linear ", p.E, " ", p.nu, " F ", mat::show(F)));
    auto W = [&](const mat::F3 & f) { return (double) m.energy(mat::lib(f)); };
    auto P = [&](const mat::F3 & f) { return mat::plain(m.stress(mat::lib(f))); };
    double d = mat::distance(F), g = mat::distance(G);
    double w = W(F);
    auto S = P(F), SG = P(G);
    // superposed infinitesimal rotation
    double o[3];
    for (auto & x : o) x = r.real(-1, 1) * r.of(mat::amplitudes());
    auto F2 = F;
    F2[0][1] -= o[2]; F2[1][0] += o[2];
    F2[0][2] += o[1]; F2[2][0] -= o[1];
    F2[1][2] -= o[0]; F2[2][1] += o[0];
    double t = d + 2;
    c.near("linear:energy-ignores-spin", W(F2), w, 1e-13, size * t * t);
    auto S2 = P(F2);
    // combination of displacement gradients
    double a = r.real(-2, 2), b = r.real(-2, 2);
    mat::F3 H;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H[i][j] = (i == j) + a * (F[i][j] - (i == j)) + b * (G[i][j] - (i == j));
    auto SH = P(H);
    // the whole body seen in another frame
    auto Q = mat::rotation(r);
    auto FQ = Q * F * mat::T(Q);
    auto SQ = P(FQ), QS = Q * S * mat::T(Q);
    c.near("linear:energy-is-isotropic", W(FQ), w, 1e-13, size * t * t);
    // energy of combinations: W is quadratic
    mat::F3 F3;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F3[i][j] = (i == j) + a * (F[i][j] - (i == j));
    c.near("linear:energy-is-quadratic", W(F3), a * a * w, 1e-13, size * (1 + 4) * t * t);
    double work = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) work += 0.5 * S[i][j] * (F[i][j] - (i == j));
    c.near("linear:energy-is-half-the-work", w, work, 1e-12, size * t * t);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        c.near("linear:stress-ignores-spin", S2[i][j], S[i][j], 1e-13, size * t);
        c.near("linear:stress-symmetric", S[i][j], S[j][i], 1e-14, size * t);
        c.near("linear:stress-linear", SH[i][j], a * S[i][j] + b * SG[i][j], 1e-13, size * (1 + std::fabs(a) * (1 + d) + std::fabs(b) * (1 + g)) * 4);
        c.near("linear:stress-is-isotropic", SQ[i][j], QS[i][j], 1e-13, size * t * 4);
    }
    // the same tangents everywhere, consistent with the stress, with the minor symmetries
    auto C = m.tangents(mat::lib(F)), C2 = m.tangents(mat::lib(G));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
        double s = 0;
        for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) {
            double x = C[{ i, j, k, l }];
            c.check("linear:constant-tangents", x == C2[{ i, j, k, l }]);
            c.near("linear:minor-symmetries", x, C[{ j, i, k, l }], 1e-14, size);
            c.near("linear:minor-symmetries", x, C[{ i, j, l, k }], 1e-14, size);
            s += x * (F[k][l] - (k == l));
        }
        c.near("linear:tangents-give-the-stress", s, S[i][j], 1e-12, size * t * 4);
    }
    c.distinct(vm::hcomb(vm::hreal(F[0][0]), vm::hreal(Q[0][0])));
    if (c.wants_sample()) c.sample(vm::str("E ", p.E, " nu ", p.nu, " F ", mat::show(F), " energy ", w));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("gent", 30000, 1500000, gent);
    vm::section("linear elastic", 20000, 800000, linear);
    return vm::finish();
}
