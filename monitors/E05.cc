// E05: discrete norms are the true norms of the represented functions
#include "femtools.h"
using namespace femt;

// polynomials of degree two as expressions of the library
template <int N>
static auto expression(const std::array<double, 6> & a)
{
    constexpr auto x = mito::functions::component<mgen::cart_t<N>, 0>;
    if constexpr (N == 1) return a[0] + a[1] * x + a[2] * (x * x);
    else {
        constexpr auto y = mito::functions::component<mgen::cart_t<N>, 1>;
        return a[0] + a[1] * x + a[2] * y + a[3] * (x * x) + a[4] * (x * y) + a[5] * (y * y);
    }
}
template <int N>
static poly::Poly polynomial(const std::array<double, 6> & a)
{
    if constexpr (N == 1) return { { { a[0], { 0, 0, 0 } }, { a[1], { 1, 0, 0 } }, { a[2], { 2, 0, 0 } } } };
    else return { { { a[0], { 0, 0, 0 } }, { a[1], { 1, 0, 0 } }, { a[2], { 0, 1, 0 } }, { a[3], { 2, 0, 0 } }, { a[4], { 1, 1, 0 } }, { a[5], { 0, 2, 0 } } } };
}

// a function on the mesh: values at the element nodes of each cell
template <int N, int P>
struct Nodal {
    static constexpr int n = N == 1 ? P + 1 : (P + 1) * (P + 2) / 2;
    std::vector<std::array<double, n>> v;
};
template <int N, int P>
struct Domain {
    static constexpr int n = Nodal<N, P>::n;
    const mgen::Data<N> & d;
    Cell<N> cell(int e) const
    {
        Cell<N> c;
        for (int i = 0; i <= N; ++i) c.x[i] = d.x[d.c[e][i]];
        return c;
    }
    // squared norms of a difference f - g, each given by value and gradient in (e, l)
    template <class V, class G>
    std::pair<double, double> squares(const V & v, const G & g) const
    {
        double s0 = 0, s1 = 0;
        P3 b[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
        for (int e = 0; e < (int) d.c.size(); ++e) {
            auto k = cell(e);
            auto at = [&](const P3 & p) { std::array<double, N + 1> l; for (int i = 0; i <= N; ++i) l[i] = p[i]; return l; };
            s0 += d.measure(e) * poly::average(N, b, [&](const P3 & p) { double x = v(e, k, at(p)); return x * x; });
            s1 += d.measure(e) * poly::average(N, b, [&](const P3 & p) { P3 x = g(e, k, at(p)); return mgen::dot(x, x); });
        }
        return { s0, s1 };
    }
};

template <int N, int P, int R>
static void norms(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(20));
    mgen::Opt o;
    o.max = 3, o.huge = P == 1;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, N, r, true);
    c.distinct(vm::hreal(d.x[0][0]));
    using L = mgen::Lib<N, N>;
    using E = element_t<N, P>;
    using rule_t = rule<N, R>;
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    auto boundary = mito::mesh::boundary(mesh);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto bc = mito::constraints::dirichlet_bc(boundary, zero);
    auto fs = fem::function_space<E>(manifold, bc);
    using node_t = typename E::discretization_node_type;
    constexpr int n = E::n_nodes;
    Domain<N, P> dom { d };
    double m = d.measure();

    // random nodal values, an interpolated polynomial, and polynomials
    auto random_field = [&](const std::string & name, Nodal<N, P> & v, double scale, const poly::Poly * p) {
        auto f = fs.template fem_field<double>(name);
        std::map<node_t, double> value;
        auto en = element_nodes<N, P>();
        int e = 0;
        for (const auto & el : fs.elements()) {
            v.v.push_back({});
            auto k = dom.cell(e++);
            for (int a = 0; a < n; ++a) {
                auto dof = el.connectivity()[a];
                if (!value.count(dof)) value[dof] = p ? (*p)(k.at(en[a])) : scale * r.real(-1, 1);
                v.v.back()[a] = f(dof) = value[dof];
            }
        }
        return f;
    };
    std::array<double, 6> ca, cb;
    for (auto & x : ca) x = r.real(-2, 2);
    for (auto & x : cb) x = r.real(-2, 2);
    if (2 * 2 > R || P == 1 || r.coin(0.3)) for (int i = N + 1; i < 6; ++i) ca[i] = cb[i] = 0; // what the rule integrates exactly
    auto pa = polynomial<N>(ca), pb = polynomial<N>(cb);
    auto ea = expression<N>(ca), eb = expression<N>(cb);
    Nodal<N, P> v1, v2, v3;
    auto u1 = random_field("u1", v1, 3, nullptr), u2 = random_field("u2", v2, 3, nullptr), ui = random_field("ui", v3, 1, &pa);

    // fields carry the name they were asked for
    {
        std::string name;
        for (int i = r.coin() ? (int) r.range(0, 300) : r.pick(20); i > 0; --i) name += (char) r.range(32, 126);
        auto f = fs.template fem_field<double>(name);
        c.check("field:name", f.nodal_values().name() == name, [&] { return vm::str("'", f.nodal_values().name(), "' instead of '", name, "'"); });
        c.check("field:starts-at-zero", std::all_of(f.begin(), f.end(), [](const auto & kv) { return kv.second == 0; }));
    }
    // localization
    {
        int e = 0;
        auto en = element_nodes<N, P>();
        for (const auto & el : fs.elements()) {
            auto k = dom.cell(e);
            auto l1 = fem::localize(u1, el);
            auto l1b = u1.localize(el);
            for (int a = 0; a < n; ++a) {
                std::array<double, N> xi;
                if constexpr (N == 1) xi = { en[a][1] };
                else xi = { en[a][0], en[a][1] };
                c.near("localize:value-at-nodes", l1(parametric<E, N>(xi)), v1.v[e][a], 1e-13);
            }
            auto la = fem::localize(ea, el);
            for (int t = 0; t < 2; ++t) {
                auto xi = random_xi<N>(r);
                auto l = barycentric<N>(xi);
                auto q = parametric<E, N>(xi);
                double want = 0;
                for (int a = 0; a < n; ++a) want += v1.v[e][a] * basis<N, P>(a, l);
                c.near("localize:fem-field", l1(q), want, 1e-12);
                c.near("localize:fem-field", l1b(q), want, 1e-12);
                c.near("localize:field", la(q), pa(k.at(l)), 1e-12, 1 + pa.bound(std::max(1.0, k.extent())));
            }
            ++e;
        }
    }
    // the norms
    using V = std::function<double(int, const Cell<N> &, const std::array<double, N + 1> &)>;
    using G = std::function<P3(int, const Cell<N> &, const std::array<double, N + 1> &)>;
    auto value_n = [](const Nodal<N, P> & v) -> V { return [&v](int e, const Cell<N> &, const auto & l) { double s = 0; for (int a = 0; a < n; ++a) s += v.v[e][a] * basis<N, P>(a, l); return s; }; };
    auto grad_n = [](const Nodal<N, P> & v) -> G { return [&v](int e, const Cell<N> & k, const auto & l) { P3 s {}; for (int a = 0; a < n; ++a) s = s + v.v[e][a] * k.template grad<P>(a, l); return s; }; };
    auto value_p = [](const poly::Poly & p) -> V { return [p](int, const Cell<N> & k, const auto & l) { return p(k.at(l)); }; };
    auto grad_p = [](const poly::Poly & p) -> G { return [p](int, const Cell<N> & k, const auto & l) { P3 x = k.at(l); return P3 { p.derivative(0)(x), N > 1 ? p.derivative(1)(x) : 0, 0 }; }; };
    double rough = 0; // of gradients
    for (int e = 0; e < (int) d.c.size(); ++e) rough = std::max(rough, dom.cell(e).rough() / dom.cell(e).size());
    auto l2 = [&](const auto & f, const auto & g) { return fem::compute_l2_norm<rule_t>(fs, f, g); };
    auto h1 = [&](const auto & f, const auto & g) { return fem::compute_h1_norm<rule_t>(fs, f, g); };
    auto expect = [&](const std::string & what, const auto & f, const auto & g, const V & vf, const V & vg, const G & gf, const G & gg) {
        auto [s0, s1] = dom.squares([&](int e, const auto & k, const auto & l) { return vf(e, k, l) - vg(e, k, l); }, [&](int e, const auto & k, const auto & l) { return gf(e, k, l) - gg(e, k, l); });
        double n0 = l2(f, g), n1 = h1(f, g);
        double size = 20 * std::sqrt(m) + std::sqrt(s0) + std::sqrt(s1); // values are within a few units
        c.near_abs(("l2:" + what).c_str(), n0, std::sqrt(s0), 1e-10 * size);
        c.near_abs(("h1:" + what).c_str(), n1, std::sqrt(s0 + s1), (1e-10 + 1000 * rough) * size);
        c.near_abs("l2:symmetric", l2(g, f), n0, 1e-12 * size);
        c.near_abs("h1:symmetric", h1(g, f), n1, 1e-11 * size);
        return std::pair { n0, n1 };
    };
    auto z = mito::functions::zero<mgen::cart_t<N>>;
    V vz = [](int, const Cell<N> &, const auto &) { return 0.0; };
    G gz = [](int, const Cell<N> &, const auto &) { return P3 {}; };
    auto d12 = expect("fem-fem", u1, u2, value_n(v1), value_n(v2), grad_n(v1), grad_n(v2));
    auto d1a = expect("fem-field", u1, ea, value_n(v1), value_p(pa), grad_n(v1), grad_p(pa));
    auto da2 = expect("field-fem", ea, u2, value_p(pa), value_n(v2), grad_p(pa), grad_n(v2));
    auto dab = expect("field-field", ea, eb, value_p(pa), value_p(pb), grad_p(pa), grad_p(pb));
    expect("fem-zero", u1, z, value_n(v1), vz, grad_n(v1), gz);
    expect("interpolant", ui, ea, value_n(v3), value_p(pa), grad_n(v3), grad_p(pa));
    // equal fields
    c.near_abs("l2:zero-for-equal-fields", l2(u1, u1), 0, 0);
    c.near_abs("h1:zero-for-equal-fields", h1(u1, u1), 0, 0);
    c.near_abs("l2:zero-for-equal-fields", l2(ea, ea), 0, 0);
    c.near_abs("h1:zero-for-equal-fields", h1(ea, ea), 0, 0);
    auto copy = fs.template fem_field<double>("copy");
    for (auto & [node, value] : u1) copy(node) = value;
    c.near_abs("l2:zero-for-equal-fields", l2(u1, copy), 0, 0);
    double size = 1 + d12.first + d12.second;
    // and only for them: one node
    {
        std::vector<node_t> nodes;
        for (auto & [node, value] : copy) nodes.push_back(node);
        auto node = r.of(nodes);
        double dv = r.coin() ? -2 : std::pow(10.0, r.real(-10, 1));
        copy(node) += dv;
        double h = l2(u1, copy);
        c.check("l2:positive-for-different-fields", h > 1e-3 * std::fabs(dv) * std::sqrt(m / d.c.size()) * 1e-3 && h <= std::fabs(dv) * std::sqrt(m) * 1.0001, [&] { return vm::str(h); });
    }
    // triangle inequality u1 - u2 = (u1 - a) + (a - u2); homogeneity
    c.check("l2:triangle-inequality", d12.first <= d1a.first + da2.first + 1e-10 * size);
    c.check("h1:triangle-inequality", d12.second <= d1a.second + da2.second + 1e-9 * size);
    c.check("h1:at-least-l2", d12.second >= d12.first * (1 - 1e-12) && dab.second >= dab.first * (1 - 1e-12));
    {
        double s = r.coin() ? r.real(-5, 5) : std::pow(10.0, r.real(-15, 15)), as = std::fabs(s); // in any unit
        auto w1 = fs.template fem_field<double>("w1"), w2 = fs.template fem_field<double>("w2");
        for (auto & [node, value] : u1) w1(node) = s * value;
        for (auto & [node, value] : u2) w2(node) = s * value;
        c.near_abs("l2:homogeneous", l2(w1, w2), as * d12.first, 1e-11 * size * as);
        c.near_abs("h1:homogeneous", h1(w1, w2), as * d12.second, 1e-11 * size * as);
        auto sa = s * ea, sb = s * eb;
        c.near_abs("l2:homogeneous", l2(sa, sb), as * dab.first, 1e-11 * (1 + dab.first) * as);
        c.near_abs("h1:homogeneous", h1(sa, sb), as * dab.second, 1e-10 * (1 + dab.second) * as);
    }
    c.sample(vm::str("degree ", P, ", ", d.c.size(), " cells: |u1-u2| ", d12.first, " ", d12.second, " |u1-a| ", d1a.first, " ", d1a.second));
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    vm::section("triangle-p1", 60, 3000, norms<2, 1, 2>);
    vm::section("triangle-p1-deg4", 40, 2000, norms<2, 1, 4>);
    vm::section("triangle-p2", 40, 2000, norms<2, 2, 4>);
    vm::section("segment-p1", 60, 3000, norms<1, 1, 2>);
    return vm::finish();
}
