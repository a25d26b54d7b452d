// E01: shape functions are a nodal partition of unity
#include "femtools.h"
#include "vmon.h"
using namespace femt;

template <int N, int P>
static void element(vm::Case & c)
{
    auto & r = c.rng;
    auto k = random_cell<N>(r);
    c.distinct(vm::hreal(k.x[0][0] + 3 * k.x[1][0]));
    Fixture<N, P> f(k);
    using E = typename Fixture<N, P>::E;
    const E & e = f.element;
    constexpr int n = E::n_nodes;
    c.check("element:nodes", n == (int) element_nodes<N, P>().size() && E::degree == P && E::dim == N);
    c.check("element:connectivity", e.connectivity() == f.dofs && &e.cell() == &f.cell);
    auto en = element_nodes<N, P>();
    double rough = k.rough(), inv = k.size() / std::fabs(k.volume()) * (N == 2 ? 1 : 1 / k.size()) ; // size of gradients
    if (N == 1) inv = 1 / std::fabs(k.volume());
    // delta at the nodes
    auto at_node = [&](int b) {
        std::array<double, N> xi;
        if constexpr (N == 1) xi = { en[b][1] };
        else xi = { en[b][0], en[b][1] };
        return xi;
    };
    mito::tensor::constexpr_for_1<n>([&]<int a>() {
        for (int b = 0; b < n; ++b)
            c.near("delta", e.template shape<a>()(parametric<E, N>(at_node(b))), a == b ? 1.0 : 0.0, 1e-14);
    });
    auto p = poly::random(r, N, P);
    double big = k.extent(), pb = p.bound(std::max(1.0, big));
    for (int t = 0; t < 12; ++t) {
        auto xi = random_xi<N>(r);
        auto l = barycentric<N>(xi);
        auto q = parametric<E, N>(xi);
        P3 x = k.at(l);
        // the map to the cell
        auto y = e.parametrization()(q);
        P3 yy {};
        for (int i = 0; i < N; ++i) yy[i] = y[i];
        for (int i = 0; i < N; ++i) c.near_abs("parametrization", yy[i], x[i], 1e-14 * (big + k.size()));
        // jacobian: columns are differences of corners
        auto J = e.jacobian()(q);
        P3 col[2];
        if constexpr (N == 1) col[0] = k.x[1] - k.x[0];
        else { col[0] = k.x[0] - k.x[2]; col[1] = k.x[1] - k.x[2]; }
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.near_abs("jacobian", (J[{ i, j }]), col[j][i], 4e-14 * (big + k.size()));
        c.near_abs("jacobian:determinant", mito::tensor::determinant(J), (N == 2 ? 2 : 1) * k.volume(), 1e-13 * (big + k.size()) * (N == 2 ? k.size() : 1));
        double sum = 0, rep = 0, gscale = 0;
        P3 gs {}, grep {};
        std::array<double, N> ds {};
        mito::tensor::constexpr_for_1<n>([&]<int a>() {
            double v = e.template shape<a>()(q);
            c.near("value", v, basis<N, P>(a, l), 1e-14);
            sum += v;
            double pa = p(k.at(en[a]));
            rep += pa * v;
            // parametric derivatives, and central differences (exact for quadratics)
            auto d = E::shape_functions.template dshape<a>()(q);
            auto db = dbasis<N, P>(a, l);
            for (int i = 0; i < N; ++i) {
                double want;
                if constexpr (N == 1) want = db[1] - db[0];
                else want = db[i] - db[2];
                c.near("derivative", entry(d, i), want, 1e-13);
                auto up = xi, dn = xi;
                up[i] += 0.25;
                dn[i] -= 0.25;
                c.near("derivative:of-the-values", entry(d, i), (e.template shape<a>()(parametric<E, N>(up)) - e.template shape<a>()(parametric<E, N>(dn))) / 0.5, 1e-13);
                ds[i] += entry(d, i);
            }
            auto g = e.template gradient<a>()(q);
            P3 want = k.template grad<P>(a, l);
            for (int i = 0; i < N; ++i) {
                c.near_abs("gradient", g[i], want[i], 100 * rough * inv);
                gs[i] += g[i];
                grep[i] += pa * g[i];
            }
            gscale += std::fabs(pa);
        });
        c.near("partition-of-unity", sum, 1, 1e-13);
        for (int i = 0; i < N; ++i) {
            c.near_abs("derivatives-sum-to-zero", ds[i], 0, 1e-13);
            c.near_abs("gradients-sum-to-zero", gs[i], 0, 1000 * rough * inv);
            c.near_abs("gradient:of-polynomials", grep[i], p.derivative(i)(x), 1000 * rough * inv * (gscale + pb));
        }
        c.near_abs("reproduction", rep, p(x), 1e-12 * pb);
    }
    c.sample(vm::str("degree ", P, " in ", N, "D: volume ", k.volume(), " size ", k.size()));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("segment-p1", 400, 20000, element<1, 1>);
    vm::section("triangle-p1", 400, 20000, element<2, 1>);
    vm::section("triangle-p2", 400, 20000, element<2, 2>);
    return vm::finish();
}
