// plain matrices, deformations and admissible parameters for the material monitors
#pragma once
#include <array>
namespace mat {
    using F3 = std::array<std::array<double, 3>, 3>;
    inline F3 identity() { return { { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } }; }
    inline mito::tensor::matrix_t<3> lib(const F3 & f)
    {
        mito::tensor::matrix_t<3> m;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[{ i, j }] = f[i][j];
        return m;
    }
    template <class M>
    F3 plain(const M & m)
    {
        F3 f;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f[i][j] = m[{ i, j }];
        return f;
    }
    inline F3 operator*(const F3 & a, const F3 & b)
    {
        F3 r {};
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
        return r;
    }
    inline F3 T(const F3 & a)
    {
        F3 r;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
        return r;
    }
    inline double det(const F3 & f)
    {
        return f[0][0] * (f[1][1] * f[2][2] - f[1][2] * f[2][1]) - f[0][1] * (f[1][0] * f[2][2] - f[1][2] * f[2][0]) + f[0][2] * (f[1][0] * f[2][1] - f[1][1] * f[2][0]);
    }
    inline double trC(const F3 & f)
    {
        double s = 0;
        for (auto & r : f) for (double x : r) s += x * x;
        return s;
    }
    inline double norm(const F3 & f) { return std::sqrt(trC(f)); }
    inline double distance(const F3 & f)
    {
        double s = 0;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s += (f[i][j] - (i == j)) * (f[i][j] - (i == j));
        return std::sqrt(s);
    }
    inline std::string show(const F3 & f) { return vm::seq(f[0]) + vm::seq(f[1]) + vm::seq(f[2]); }
    inline const std::vector<double> & amplitudes()
    {
        static const std::vector<double> a { 0, 1e-3, 0.05, 0.1, 0.3, 0.6, 1.0 };
        return a;
    }
    inline F3 rotation(vm::Rng & r)
    {
        double q[4], n = 0;
        for (auto & a : q) { a = r.real(-1, 1); n += a * a; }
        n = std::sqrt(n + 1e-300);
        for (auto & a : q) a /= n;
        double w = q[0], x = q[1], y = q[2], z = q[3];
        F3 R { { { 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w) }, { 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w) },
                 { 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y) } } };
        if (r.coin(0.2)) {    // a rotation about an axis of the frame, possibly by a right angle
            int a = r.pick(3), b = (a + 1) % 3, k = (a + 2) % 3;
            double t = r.coin() ? 1.5707963267948966 * (double) r.range(1, 3) : r.real(-3.1, 3.1);
            R = identity();
            R[b][b] = R[k][k] = std::cos(t);
            R[b][k] = -std::sin(t);
            R[k][b] = std::sin(t);
        }
        return R;
    }
    inline F3 any_deformation(vm::Rng & r, double amp)
    {
        F3 f = identity();
        for (auto & row : f) for (auto & x : row) x += amp * r.real(-1, 1);
        switch (r.pick(6)) {
        case 0: for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) f[i][j] = 0; break;                               // stretches
        case 1: { double s = f[0][1]; f = identity(); f[r.pick(3)][r.pick(3)] += s; break; }                                            // a single component
        case 2: f = f * rotation(r); break;
        default: break;
        }
        return f;
    }
    struct Gent { double rho, kappa, mu, Jm; };
    inline Gent gent_parameters(vm::Rng & r)
    {
        auto mag = [&] { return r.real(0.5, 2) * std::pow(10.0, (double) r.range(-2, 3)); };
        return { mag(), mag(), mag(), r.coin(0.3) ? r.real(0.5, 3) : r.coin() ? r.real(3, 30) : r.real(30, 200) };
    }
    // a deformation with positive determinant within the locking limit
    inline F3 gent_deformation(vm::Rng & r, const Gent & p, double amp)
    {
        for (int tries = 0;; ++tries) {
            auto f = any_deformation(r, amp * std::pow(0.8, tries / 5));
            double d = det(f), x = (trC(f) - 3) / p.Jm;
            if (d > 0.1 && x < 0.9) return f;
        }
    }
    // one close to the limit
    inline F3 gent_near_locking(vm::Rng & r, const Gent & p)
    {
        for (;;) {
            auto f = any_deformation(r, 0.3);
            if (det(f) <= 0.3) continue;
            int i = r.pick(3);
            double row = 0;
            for (double x : f[i]) row += x * x;
            double s2 = (r.real(0.88, 0.999) * p.Jm + 3 - (trC(f) - row)) / row;
            if (s2 <= 0) continue;
            for (double & x : f[i]) x *= std::sqrt(s2);
            if (det(f) > 0.1 && (trC(f) - 3) / p.Jm < 0.9995) return f;
        }
    }
    struct Elastic { double rho, E, nu; };
    inline Elastic elastic_parameters(vm::Rng & r)
    {
        double nu = r.coin(0.2) ? r.real(0.45, 0.499) : r.coin(0.2) ? 0 : r.real(-0.9, 0.49);
        return { r.real(0.1, 10), r.real(0.5, 2) * std::pow(10.0, (double) r.range(-3, 6)), nu };
    }
}
