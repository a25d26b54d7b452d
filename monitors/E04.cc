// E04: assembled systems and solutions satisfy the discrete weak problem
#include "femtools.h"
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
using namespace femt;

// a linear system that keeps what it is given; its solution is the (one-based) number of each equation
struct Recorder {
    static inline Recorder * last = nullptr;
    std::string name;
    int n = -1, created = 0;
    std::map<std::pair<int, int>, double> a;
    std::map<int, double> b;
    bool outside = false;
    double scale = 1, shift = 0;
    explicit Recorder(const std::string & l) : name(l) { last = this; }
    void create(int size) { n = size; ++created; }
    void destroy() {}
    auto label() const { return name; }
    void assemble() {}
    void zero() { a.clear(); b.clear(); }
    void in(int i, int j) { outside = outside || i < 0 || j < 0 || i >= n || j >= n; }
    void insert_matrix_value(int i, int j, const double & v) { in(i, j); a[{ i, j }] = v; }
    void add_matrix_value(int i, int j, const double & v) { in(i, j); a[{ i, j }] += v; }
    void insert_rhs_value(int i, const double & v) { in(i, i); b[i] = v; }
    void add_rhs_value(int i, const double & v) { in(i, i); b[i] += v; }
    int n_equations() const { return n; }
    template <class S> void get_solution(S & s) const { for (int i = 0; i < n; ++i) s[i] = scale * (i + 1) + shift; }
    void print() const {}
};

// the discrete problem as computed here
template <int N, int P>
struct Problem {
    static constexpr int n = N == 1 ? P + 1 : (P + 1) * (P + 2) / 2;
    using Key = std::array<int, 2>;    // corner {i,i} or edge {i,j}
    std::map<Key, int> id;
    std::vector<Key> keys;
    std::vector<std::array<int, n>> el;
    std::vector<Cell<N>> cells;
    std::vector<char> fixed;
    std::vector<double> k, m, f, zk, zm, zf;    // matrices, right-hand side, and the sums of the sizes of the terms
    int size() const { return (int) keys.size(); }
    static Key key(int a, int b) { return { std::min(a, b), std::max(a, b) }; }
    int of(Key q)
    {
        auto [it, fresh] = id.insert({ q, (int) keys.size() });
        if (fresh) keys.push_back(q);
        return it->second;
    }
    template <class D>
    explicit Problem(const D & d)
    {
        for (auto & v : d.c) {
            std::array<int, n> e;
            for (int i = 0; i <= N; ++i) e[i] = of(key(v[i], v[i]));
            if constexpr (P == 2) for (int i = 0; i < 3; ++i) e[3 + i] = of(key(v[i], v[(i + 1) % 3]));
            el.push_back(e);
            Cell<N> c;
            for (int i = 0; i <= N; ++i) c.x[i] = d.x[v[i]];
            cells.push_back(c);
        }
        fixed.assign(size(), 0);
    }
    P3 place(int q, const std::vector<P3> & x) const { return 0.5 * (x[keys[q][0]] + x[keys[q][1]]); }
    template <class F>
    static double average(const F & g)
    {
        P3 b[3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
        return poly::average(N, b, [&](const P3 & p) {
            std::array<double, N + 1> l;
            for (int i = 0; i <= N; ++i) l[i] = p[i];
            return g(l);
        });
    }
    // what the blocks of the user contribute
    void add(const std::vector<double> & matrix, const std::vector<double> & vector, double times)
    {
        int s = size();
        for (auto & e : el)
            for (int a : e) {
                f[a] += times * vector[a], zf[a] += std::fabs(times * vector[a]);
                for (int b : e) k[a * s + b] += times * matrix[a * s + b], zk[a * s + b] += std::fabs(times * matrix[a * s + b]);
            }
    }
    void integrate(double ck, double cm, const std::vector<std::function<double(const P3 &)>> & sources)
    {
        int s = size();
        k.assign(s * s, 0), zk = k, f.assign(s, 0), zf = f;
        for (size_t e = 0; e < el.size(); ++e) {
            auto & c = cells[e];
            double vol = c.volume();
            for (int a = 0; a < n; ++a) {
                for (int b = 0; b < n; ++b) {
                    double x = 0, z = 0;
                    if (ck != 0) {
                        double y = ck * vol * average([&](auto & l) { return mgen::dot(c.template grad<P>(a, l), c.template grad<P>(b, l)); });
                        x += y;
                        z += std::fabs(ck * vol) * average([&](auto & l) { return mgen::norm(c.template grad<P>(a, l)) * mgen::norm(c.template grad<P>(b, l)); });
                    }
                    if (cm != 0) {
                        double y = cm * vol * average([&](auto & l) { return basis<N, P>(a, l) * basis<N, P>(b, l); });
                        x += y;
                        z += std::fabs(cm * vol);
                    }
                    k[el[e][a] * s + el[e][b]] += x;
                    zk[el[e][a] * s + el[e][b]] += z;
                }
                for (auto & g : sources) {
                    f[el[e][a]] += vol * average([&](auto & l) { return basis<N, P>(a, l) * g(c.at(l)); });
                    zf[el[e][a]] += std::fabs(vol) * average([&](auto & l) { return std::fabs(g(c.at(l))); });
                }
            }
        }
    }
};

// polynomials of degree two as expressions of the library
template <int N>
static auto expression(const std::array<double, 6> & a)
{
    constexpr auto x = mito::functions::component<mgen::cart_t<N>, 0>;
    if constexpr (N == 1) return a[0] + a[1] * x + a[2] * (x * x);
    else {
        constexpr auto y = mito::functions::component<mgen::cart_t<N>, 1>;
        return a[0] + a[1] * x + a[2] * y + a[3] * (x * x) + a[4] * (x * y) + a[5] * (y * y);
    }
}
template <int N>
static double value(const std::array<double, 6> & a, const P3 & p)
{
    double x = p[0], y = p[1];
    return N == 1 ? a[0] + a[1] * x + a[2] * x * x : a[0] + a[1] * x + a[2] * y + a[3] * x * x + a[4] * x * y + a[5] * y * y;
}

template <int N, int P>
struct Setup {
    using L = mgen::Lib<N, N>;
    using E = element_t<N, P>;
    using dof_t = typename E::discretization_node_type;
    mgen::Data<N> & d;
    Problem<N, P> p;
    L lib;
    typename L::mesh_t mesh;
    std::vector<tpm::Labels> fixed;
    std::map<int, dof_t> dof;    // of the problem's nodes
    std::map<dof_t, int> number;

    explicit Setup(mgen::Data<N> & d, vm::Rng & r) : d(d), p(d), mesh(mito::mesh::mesh<typename L::cell_t>())
    {
        lib.make_nodes(d.x);
        lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
        lib.fill(mesh, d);
    }
    auto constraint_domain(vm::Rng & r)
    {
        for (auto & l : fixed) {
            for (int a : l) if (auto it = p.id.find(p.key(a, a)); it != p.id.end()) p.fixed[it->second] = 1;
            if constexpr (P == 2) if (auto it = p.id.find(p.key(l[0], l[1])); it != p.id.end()) p.fixed[it->second] = 1;
        }
        if constexpr (N == 1) {
            std::unordered_set<geo::node_t<1>, mito::utilities::hash_function<geo::node_t<1>>> s;
            for (auto & l : fixed) s.insert(lib.nodes[l[0]]);
            return s;
        } else {
            auto m = mito::mesh::mesh<geo::segment_t<2>>();
            for (auto l : fixed) {
                if (r.coin()) std::swap(l[0], l[1]);
                m.insert({ lib.nodes[l[0]], lib.nodes[l[1]] });
            }
            return m;
        }
    }
    template <class FS>
    void connect(vm::Case & c, const FS & fs)
    {
        int seen = 0;
        for (const auto & e : fs.elements()) {
            auto l = lib.labels(e.cell());
            ++seen;
            for (int i = 0; i <= N; ++i) dof.insert({ p.id.at(p.key(l[i], l[i])), e.connectivity()[i] });
            if constexpr (P == 2) for (int i = 0; i < 3; ++i) dof.insert({ p.id.at(p.key(l[i], l[(i + 1) % 3])), e.connectivity()[3 + i] });
        }
        for (auto & [q, x] : dof) number[x] = q;
        c.check("elements", seen == (int) d.c.size() && (int) dof.size() == p.size());
    }
    std::vector<double> nodal(const auto & field) const
    {
        std::vector<double> u(p.size());
        for (auto & [q, x] : dof) u[q] = field(x);
        return u;
    }
};

static int system_counter = 0;

// blocks of a user: contributions looked up in a table, which need not be symmetric and may change
template <class E>
struct UserMatrix : public fem::blocks::assembly_block_t<E, mito::tensor::matrix_t<E::n_nodes>> {
    using dof_t = typename E::discretization_node_type;
    const std::map<dof_t, int> * at;
    const std::vector<double> * table;    // S x S
    int S;
    mutable int calls = 0;
    UserMatrix(const std::map<dof_t, int> & at, const std::vector<double> & table, int S) : at(&at), table(&table), S(S) {}
    auto compute(const E & e) const -> mito::tensor::matrix_t<E::n_nodes> override
    {
        ++calls;
        mito::tensor::matrix_t<E::n_nodes> m {};
        int q[E::n_nodes], i = 0;
        for (const auto & node : e.connectivity()) q[i++] = at->at(node);
        for (int a = 0; a < E::n_nodes; ++a) for (int b = 0; b < E::n_nodes; ++b) m[{ a, b }] = (*table)[q[a] * S + q[b]];
        return m;
    }
};
template <class E>
struct UserVector : public fem::blocks::assembly_block_t<E, mito::tensor::vector_t<E::n_nodes>> {
    using dof_t = typename E::discretization_node_type;
    const std::map<dof_t, int> * at;
    const std::vector<double> * table;
    UserVector(const std::map<dof_t, int> & at, const std::vector<double> & table) : at(&at), table(&table) {}
    auto compute(const E & e) const -> mito::tensor::vector_t<E::n_nodes> override
    {
        mito::tensor::vector_t<E::n_nodes> v {};
        int i = 0;
        for (const auto & node : e.connectivity()) v[{ i++ }] = (*table)[at->at(node)];
        return v;
    }
};

// weak forms of random sums of blocks; the assembled system, and its solutions
template <int N, int P, int RS, int RM, int RF, int SD>
static void systems(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(20));
    mgen::Opt o;
    o.max = P == 2 ? 3 : 4, o.huge = P == 1;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, N, r, true);
    c.distinct(vm::hreal(d.x[0][0]));
    Setup<N, P> s(d, r);
    using E = typename Setup<N, P>::E;
    auto & p = s.p;
    // constraints: the skin, some facets, none, all
    std::set<tpm::Labels> skin, all;
    for (auto & [f, n] : d.facet_counts()) { all.insert(f); if (n[0] + n[1] == 1) skin.insert(f); }
    int kind = r.weighted({ 5, 4, 2, 1 });
    for (auto & f : all) if (kind == 3 || (kind == 1 && r.coin(0.3)) || (kind == 0 && skin.count(f))) s.fixed.push_back(f);
    r.shuffle(s.fixed);
    auto domain = s.constraint_domain(r);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto bc = mito::constraints::dirichlet_bc(domain, zero);
    auto manifold = mito::manifolds::manifold(s.mesh, s.lib.cs);
    auto fs = fem::function_space<E>(manifold, bc);
    s.connect(c, fs);
    // the weak form
    int nk = r.pick(3), nm = r.pick(3);
    if (kind != 0 && kind != 3 && nm == 0) nm = 1;
    if (nk + nm == 0) nk = 1;
    std::array<double, 6> ca, cb;
    for (auto & x : ca) x = r.real(-2, 2);
    for (auto & x : cb) x = r.real(-2, 2);
    for (int i = 0; i < 6; ++i) {
        int deg = i == 0 ? 0 : N == 1 ? i : i < 3 ? 1 : 2;
        if (deg > SD) ca[i] = cb[i] = 0;
    }
    auto ea = expression<N>(ca), eb = expression<N>(cb);
    int ns = r.pick(3);
    auto kb = fem::blocks::grad_grad_block<E, rule<N, RS>>();
    auto mb = fem::blocks::mass_block<E, rule<N, RM>>();
    auto fa = fem::blocks::source_term_block<E, rule<N, RF>>(ea);
    auto fb = fem::blocks::source_term_block<E, rule<N, RF>>(eb);
    auto wf = fem::weakform<E>();
    std::vector<int> blocks;
    for (int i = 0; i < nk; ++i) blocks.push_back(0);
    for (int i = 0; i < nm; ++i) blocks.push_back(1);
    if (ns > 0) blocks.push_back(2);
    if (ns > 1) blocks.push_back(3);
    // blocks of the user: convection (skew), absorption, loads
    int S = p.size();
    bool user = r.coin(0.4);
    std::vector<double> um(S * S, 0), uv(S, 0);
    UserMatrix<E> ub(s.number, um, S);
    UserVector<E> uf(s.number, uv);
    if (user) blocks.push_back(4), blocks.push_back(5);
    r.shuffle(blocks);
    for (int b : blocks) {
        if (b == 4) wf.add_block(ub);
        else if (b == 5) wf.add_block(uf);
        else if (b == 0) wf.add_block(kb);
        else if (b == 1) wf.add_block(mb);
        else if (b == 2) wf.add_block(fa);
        else wf.add_block(fb);
    }
    std::vector<std::function<double(const P3 &)>> src;
    if (ns > 0) src.push_back([&](const P3 & x) { return value<N>(ca, x); });
    if (ns > 1) src.push_back([&](const P3 & x) { return value<N>(cb, x); });
    p.integrate(nk, nm, src);
    double typical = 0;
    for (double x : p.k) typical = std::max(typical, std::fabs(x));
    auto fill = [&] {
        double w = typical * r.real(0.02, 0.5), g = r.real(0.1, 3);
        for (int i = 0; i < S; ++i) {
            uv[i] = r.coin(0.2) ? 0 : g * r.real(-1, 1);
            um[i * S + i] = w * r.unit();
            for (int j = 0; j < i; ++j) um[i * S + j] = w * r.real(-1, 1), um[j * S + i] = -um[i * S + j];
        }
    };
    if (user) fill(), p.add(um, uv, 1);
    int free = 0;
    for (int q = 0; q < S; ++q) free += !p.fixed[q];
    double rough = 0;
    for (auto & k : p.cells) rough = std::max(rough, 200 * k.rough());
    // ---- the system that is assembled
    {
        auto ds = fem::discrete_system<Recorder>("recorded", fs, wf);
        auto & rec = ds.linear_system();
        c.check("equations", ds.n_equations() == free && rec.n == free && rec.created == 1, [&] { return vm::str(ds.n_equations(), " equations for ", free, " free nodes of ", S); });
        ds.assemble();
        ds.read_solution();
        c.check("entries-inside", !rec.outside);
        auto num = s.nodal(ds.solution());
        std::set<int> used;
        std::vector<int> eq(S, -1);
        bool ok = true;
        for (int q = 0; q < S; ++q) {
            if (p.fixed[q]) ok = ok && num[q] == 0;
            else {
                eq[q] = (int) num[q] - 1;
                ok = ok && eq[q] >= 0 && eq[q] < free && used.insert(eq[q]).second;
            }
        }
        c.check("one-equation-per-free-node", ok && (int) used.size() == free, [&] { return vm::seq(num); });
        size_t matched = 0;
        for (int i = 0; i < S; ++i) {
            if (eq[i] < 0) continue;
            auto b = rec.b.find(eq[i]);
            c.near_abs("assembled:rhs", b == rec.b.end() ? 0 : b->second, p.f[i], (1e-11 + rough) * (p.zf[i] + 1e-300));
            for (int j = 0; j < S; ++j) {
                if (eq[j] < 0) continue;
                auto a = rec.a.find({ eq[i], eq[j] });
                matched += a != rec.a.end();
                c.near_abs("assembled:matrix", a == rec.a.end() ? 0 : a->second, p.k[i * S + j], (1e-11 + rough) * p.zk[i * S + j] + 0.0, vm::str("entry of nodes ", i, " ", j));
            }
        }
        c.check("assembled:nothing-else", matched == rec.a.size());
        c.count("equations", free);
        // a solution that is read again replaces the one before
        for (int again = r.pick(3); again > 0; --again) {
            rec.scale = r.real(-2, 2), rec.shift = r.coin(0.3) ? 0 : r.real(-50, 50);
            if (r.coin(0.1)) rec.scale = rec.shift = 0;
            ds.read_solution();
            auto u = s.nodal(ds.solution());
            bool same = true;
            for (int q = 0; q < S; ++q) same = same && u[q] == (p.fixed[q] ? 0 : rec.scale * (eq[q] + 1) + rec.shift);
            c.check("solution:read-again", same, [&] { return vm::str(rec.scale, " (number + 1) + ", rec.shift, " read as ", vm::seq(u)); });
        }
    }
    // ---- the solution
    std::string label = "sys" + std::to_string(system_counter++);
    using linear_t = mito::matrix_solvers::petsc::linear_system_t;
    using ksp_t = mito::matrix_solvers::petsc::ksp_t;
    auto ds = fem::discrete_system<linear_t>(label, fs, wf);
    auto solver = mito::solvers::linear_solver<ksp_t>(ds);
    c.check("equations", ds.n_equations() == free && ds.linear_system().n_equations() == free);
    static const char * opts[] = { "-ksp_type preonly -pc_type lu", "-ksp_type preonly -pc_type cholesky", "-ksp_type cg -pc_type jacobi -ksp_rtol 1e-13 -ksp_atol 1e-300 -ksp_max_it 5000",
                                   "-ksp_rtol 1e-13 -ksp_atol 1e-300 -ksp_gmres_restart 500", "" };
    int method = r.pick(5);
    while (user && (method == 1 || method == 2)) method = r.pick(5);    // not for systems that are not symmetric
    if (method < 4) solver.set_options(opts[method]);
    double tol = method < 2 ? 1e-10 : method < 4 ? 1e-8 : 1e-3;
    double fn = 0;
    for (int q = 0; q < S; ++q) if (!p.fixed[q]) fn = std::max(fn, std::fabs(p.f[q]));
    auto inspect = [&](const std::vector<double> & u) {
        double un = 0;
        for (int i = 0; i < S; ++i) {
            if (p.fixed[i]) c.check("solution:zero-where-constrained", u[i] == 0, [&] { return vm::str(u[i]); });
            un = std::max(un, std::fabs(u[i]));
        }
        for (int i = 0; i < S; ++i) {
            if (p.fixed[i]) continue;
            double y = 0, z = 0;
            for (int j = 0; j < S; ++j) if (!p.fixed[j]) y += p.k[i * S + j] * u[j], z += p.zk[i * S + j] * std::fabs(u[j]);
            c.near_abs("solution:satisfies-equation", y, p.f[i], (1e-10 + rough) * (z + p.zf[i]) + tol * std::sqrt(S) * 10 * fn + (method < 2 ? 0 : tol * z) + 1e-300, vm::str("equation of node ", i, " method ", method));
        }
    };
    solver.solve();
    auto u1 = s.nodal(ds.solution());
    inspect(u1);
    int again = r.pick(3);
    // another system on the same space is solved in between
    if (r.coin(0.3)) {
        auto wf2 = fem::weakform<E>();
        wf2.add_block(mb);
        wf2.add_block(fa);
        auto ds2 = fem::discrete_system<linear_t>("other" + label, fs, wf2);
        auto solver2 = mito::solvers::linear_solver<ksp_t>(ds2);
        solver2.set_options("-ksp_type preonly -pc_type lu");
        solver2.solve();
        solver2.destroy();
        c.check("solution:not-changed-by-others", s.nodal(ds.solution()) == u1);
    }
    for (int k = 0; k < again; ++k) {
        solver.solve();
        auto u2 = s.nodal(ds.solution());
        inspect(u2);
        double un = 0, diff = 0;
        for (int i = 0; i < S; ++i) un = std::max(un, std::fabs(u1[i])), diff = std::max(diff, std::fabs(u1[i] - u2[i]));
        c.check("solution:again", diff <= (method < 2 ? 1e-9 : method < 4 ? 1e-6 : 0.05) * un, [&] { return vm::str("differs by ", diff, " of ", un); });
    }
    // the same system with other data
    if (user) for (int k = 1 + r.pick(2); k > 0; --k) {
        p.add(um, uv, -1);
        auto old = um;
        fill();
        if (r.coin()) um = old;    // only the loads change
        p.add(um, uv, 1);
        fn = 0;
        for (int q = 0; q < S; ++q) if (!p.fixed[q]) fn = std::max(fn, std::fabs(p.f[q]));
        solver.solve();
        inspect(s.nodal(ds.solution()));
        c.count("solves with other data");
    }
    solver.destroy();
    c.count(vm::str("solves by method ", method), 1 + again);
    if (c.wants_sample()) c.sample(vm::str("degree ", P, ", ", d.c.size(), " cells, ", free, " equations of ", S, " nodes, ", nk, " stiffness ", nm, " mass ", ns, " source blocks"));
}

template <class E, class W, class FS>
static auto solve_directly(const FS & fs, const W & wf, const auto & use)
{
    using linear_t = mito::matrix_solvers::petsc::linear_system_t;
    using ksp_t = mito::matrix_solvers::petsc::ksp_t;
    auto ds = fem::discrete_system<linear_t>("direct" + std::to_string(system_counter++), fs, wf);
    auto solver = mito::solvers::linear_solver<ksp_t>(ds);
    solver.set_options("-ksp_type preonly -pc_type lu");
    solver.solve();
    use(ds.solution());
    solver.destroy();
}

// projections of functions of the discrete space are these functions
template <int N, int P, int RM, int RF>
static void projection(vm::Case & c)
{
    auto & r = c.rng;
    mgen::Opt o;
    o.max = 3, o.huge = P == 1;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, N, r, true);
    c.distinct(vm::hreal(d.x[0][0]));
    Setup<N, P> s(d, r);
    using E = typename Setup<N, P>::E;
    auto domain = s.constraint_domain(r);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto bc = mito::constraints::dirichlet_bc(domain, zero);
    auto manifold = mito::manifolds::manifold(s.mesh, s.lib.cs);
    auto fs = fem::function_space<E>(manifold, bc);
    s.connect(c, fs);
    std::array<double, 6> ca {};
    for (int i = 0; i < 6; ++i) if (i == 0 || (N == 1 ? i : i < 3 ? 1 : 2) <= P) ca[i] = r.real(-2, 2);
    auto ea = expression<N>(ca);
    auto mb = fem::blocks::mass_block<E, rule<N, RM>>();
    auto fa = fem::blocks::source_term_block<E, rule<N, RF>>(ea);
    auto wf = fem::weakform<E>();
    wf.add_block(mb);
    wf.add_block(fa);
    solve_directly<E>(fs, wf, [&](const auto & u) {
        auto v = s.nodal(u);
        for (int q = 0; q < s.p.size(); ++q) c.near_abs("projection:exact", v[q], value<N>(ca, s.p.place(q, d.x)), 1e-8);
    });
    // constants solve u - laplace u = constant with natural boundaries
    double k = r.real(-3, 3);
    auto kb = fem::blocks::grad_grad_block<E, rule<N, 2>>();
    auto ks = k + 0.0 * mito::functions::component<mgen::cart_t<N>, 0>;
    auto fk = fem::blocks::source_term_block<E, rule<N, RF>>(ks);
    auto wg = fem::weakform<E>();
    wg.add_block(kb);
    wg.add_block(fk);
    wg.add_block(mb);
    solve_directly<E>(fs, wg, [&](const auto & u) {
        for (double x : s.nodal(u)) c.near_abs("constants:exact", x, k, 1e-8);
    });
}

// -u'' = 2/h^2 in one direction with zero values at both ends and natural sides: u is quadratic
template <int N, int P>
static void quadratic(vm::Case & c)
{
    auto & r = c.rng;
    auto d = mgen::grid<N>(r, { 1 + r.pick(N == 1 ? 9 : 4), 1 + r.pick(3), 1 }, 0.2 * r.unit());
    int more = r.pick(4);
    for (int i = 0; i < more; ++i) { if (r.coin()) d.split_cell(r); else d.bisect_edge(r); }
    std::vector<char> end;
    d.scramble(r);
    auto flat = d.x;
    double len = r.real(0.5, 3), a = r.real(0, 6.28), tx = r.real(-1, 1), ty = r.real(-1, 1);
    if (N == 1) d.map([&](const P3 & p) { return P3 { len * p[0] + tx, 0, 0 }; });
    else d.map([&](const P3 & p) { return P3 { len * (std::cos(a) * p[0] - std::sin(a) * p[1]) + tx, len * (std::sin(a) * p[0] + std::cos(a) * p[1]) + ty, 0 }; });
    c.distinct(vm::hreal(d.x[0][0]));
    Setup<N, P> s(d, r);
    using E = typename Setup<N, P>::E;
    for (auto & [f, n] : d.facet_counts()) {
        bool at0 = true, at1 = true;
        for (int i : f) at0 = at0 && flat[i][0] < 1e-12, at1 = at1 && flat[i][0] > 1 - 1e-12;
        if (at0 || at1) s.fixed.push_back(f);
    }
    auto domain = s.constraint_domain(r);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto bc = mito::constraints::dirichlet_bc(domain, zero);
    auto manifold = mito::manifolds::manifold(s.mesh, s.lib.cs);
    auto fs = fem::function_space<E>(manifold, bc);
    s.connect(c, fs);
    double amp = r.real(0.2, 3);
    auto src = 2 * amp / (len * len) + 0.0 * mito::functions::component<mgen::cart_t<N>, 0>;
    auto kb = fem::blocks::grad_grad_block<E, rule<N, 2>>();
    auto fb = fem::blocks::source_term_block<E, rule<N, 2>>(src);
    auto wf = fem::weakform<E>();
    wf.add_block(fb);
    wf.add_block(kb);
    solve_directly<E>(fs, wf, [&](const auto & u) {
        auto v = s.nodal(u);
        for (int q = 0; q < s.p.size(); ++q) {
            double x = s.p.place(q, flat)[0];
            c.near_abs("quadratic:exact", v[q], amp * x * (1 - x), 1e-8 * amp);
        }
    });
}

// errors against a smooth solution fall at the order of the element
template <int N, int P, int R>
static void convergence(vm::Case & c)
{
    auto & r = c.rng;
    double e0[3], e1[3], h[3];
    double warp = r.real(-0.1, 0.1), pi = M_PI;
    int base = N == 1 ? 6 : P == 1 ? 4 : 3;
    base += r.pick(2);
    int mx = 1 + r.pick(2), my = 1;
    for (int level = 0; level < 3; ++level) {
        int n = base << level;
        vm::Rng q(c.index + 17);
        auto d = mgen::grid<N>(q, { n, n, 1 }, 0);
        d.map([&](P3 p) { double s = warp * std::sin(pi * p[0]) * (N == 1 ? 1 : std::sin(pi * p[1])); return P3 { p[0] + s, N == 1 ? 0 : p[1] - s, 0 }; });
        d.scramble(r);
        h[level] = 1.0 / n;
        Setup<N, P> s(d, r);
        using E = typename Setup<N, P>::E;
        for (auto & [f, k] : d.facet_counts()) if (k[0] + k[1] == 1) s.fixed.push_back(f);
        auto domain = s.constraint_domain(r);
        auto zero = mito::functions::zero<mgen::cart_t<N>>;
        auto bc = mito::constraints::dirichlet_bc(domain, zero);
        auto manifold = mito::manifolds::manifold(s.mesh, s.lib.cs);
        auto fs = fem::function_space<E>(manifold, bc);
        s.connect(c, fs);
        constexpr auto x = mito::functions::component<mgen::cart_t<N>, 0>;
        auto kb = fem::blocks::grad_grad_block<E, rule<N, 2>>();
        auto wf = fem::weakform<E>();
        wf.add_block(kb);
        auto judge = [&](const auto & u) {
            auto v = s.nodal(u);
            double s0 = 0, s1 = 0;
            for (size_t e = 0; e < s.p.el.size(); ++e) {
                auto & k = s.p.cells[e];
                s0 += k.volume() * s.p.average([&](auto & l) {
                    P3 y = k.at(l);
                    double w = std::sin(mx * pi * y[0]) * (N == 1 ? 1 : std::sin(my * pi * y[1]));
                    for (int a = 0; a < s.p.n; ++a) w -= v[s.p.el[e][a]] * basis<N, P>(a, l);
                    return w * w;
                });
                s1 += k.volume() * s.p.average([&](auto & l) {
                    P3 y = k.at(l);
                    P3 g { mx * pi * std::cos(mx * pi * y[0]) * (N == 1 ? 1 : std::sin(my * pi * y[1])), N == 1 ? 0 : my * pi * std::sin(mx * pi * y[0]) * std::cos(my * pi * y[1]), 0 };
                    for (int a = 0; a < s.p.n; ++a) g = g - v[s.p.el[e][a]] * k.template grad<P>(a, l);
                    return mgen::dot(g, g);
                });
            }
            e0[level] = std::sqrt(s0), e1[level] = std::sqrt(s1);
        };
        if constexpr (N == 1) {
            auto f = (mx * mx * pi * pi) * mito::functions::sin((mx * pi) * x);
            auto fb = fem::blocks::source_term_block<E, rule<N, R>>(f);
            wf.add_block(fb);
            solve_directly<E>(fs, wf, judge);
        } else {
            constexpr auto y = mito::functions::component<mgen::cart_t<N>, 1>;
            auto f = ((mx * mx + my * my) * pi * pi) * mito::functions::sin((mx * pi) * x) * mito::functions::sin((my * pi) * y);
            auto fb = fem::blocks::source_term_block<E, rule<N, R>>(f);
            wf.add_block(fb);
            solve_directly<E>(fs, wf, judge);
        }
    }
    double o0 = std::log(e0[1] / e0[2]) / std::log(2.0), o1 = std::log(e1[1] / e1[2]) / std::log(2.0);
    auto text = [&] { return vm::str("degree ", P, " L2 errors ", e0[0], " ", e0[1], " ", e0[2], " order ", o0, "; H1 errors ", e1[0], " ", e1[1], " ", e1[2], " order ", o1); };
    c.check("convergence:L2", o0 > P + 1 - 0.3 && e0[2] < 0.1, text);
    c.check("convergence:H1", o1 > P - 0.3, text);
    c.distinct(vm::hreal(warp));
    c.sample(text());
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    mito::petsc::initialize();
    journal::info_t("discretization.discrete_system").deactivate();
    vm::section("systems-triangle-p1", 400, 3000, systems<2, 1, 2, 2, 3, 2>);
    vm::section("systems-triangle-p2", 250, 2000, systems<2, 2, 2, 4, 4, 2>);
    vm::section("systems-segment-p1", 400, 4000, systems<1, 1, 2, 2, 2, 2>);
    vm::section("projection-triangle-p1", 120, 1000, projection<2, 1, 2, 2>);
    vm::section("projection-triangle-p2", 120, 1000, projection<2, 2, 4, 4>);
    vm::section("projection-segment-p1", 120, 1000, projection<1, 1, 2, 2>);
    vm::section("quadratic-triangle-p2", 150, 1500, quadratic<2, 2>);
    vm::section("quadratic-segment-p1", 150, 1500, quadratic<1, 1>);
    vm::section("convergence-segment-p1", 5, 24, convergence<1, 1, 2>);
    vm::section("convergence-triangle-p1", 5, 24, convergence<2, 1, 4>);
    vm::section("convergence-triangle-p2", 5, 24, convergence<2, 2, 4>);
    mito::petsc::finalize();
    return vm::finish();
}
