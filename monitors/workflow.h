// Random workflows through the whole library: meshes are built, read, refined, partitioned, cut, glued, flipped; manifolds,
// fields, discrete fields, finite element problems live on them; everything observable goes to a log
#pragma once
#include "femtools.h"
#include <mito/io.h>
#ifndef WF_DENSE
#include <mito/matrix_solvers.h>
#include <mito/solvers.h>
#endif
#include <fstream>
#include <unistd.h>

namespace wf {
    using mgen::P3;
    using mgen::operator-;
    using mgen::operator+;
    using mgen::operator*;
    using namespace femt;
    using tpm::Labels;

    // whole numbers must agree, reals up to rounding of a quantity of the given size
    struct Log {
        std::vector<std::string> whole;
        struct Real { std::string what; double value, size; };
        std::vector<Real> real;
        std::vector<std::string> order;
        FILE * file = nullptr;
        long wholes = 0, reals = 0;
        template <class V>
        requires requires(const V & v) { v.begin(); }
        void e(const std::string & what, const V & v)
        {
            ++wholes;
            if (!file) return;
            fprintf(file, "E %s", what.c_str());
            for (auto x : v) fprintf(file, " %ld", (long) x);
            fprintf(file, "\n");
        }
        void e(const std::string & what, long v) { e(what, std::vector<long> { v }); }
        void f(const std::string & what, double v, double size)
        {
            ++reals;
            if (file) fprintf(file, "F %s %.17g %.3g\n", what.c_str(), v, size);
        }
    };

    struct Stats { std::map<std::string, long> ops; };

    inline int serial = 0;

#ifdef WF_DENSE
    // a linear system for builds without the solver libraries
    struct linear_t {
        std::string name;
        int n = 0;
        std::vector<double> a, b, x;
        explicit linear_t(const std::string & l) : name(l) {}
        void create(int size) { n = size; a.assign(n * n, 0); b.assign(n, 0); }
        void destroy() {}
        auto label() const { return name; }
        void assemble() {}
        void zero() { a.assign(n * n, 0); b.assign(n, 0); }
        void insert_matrix_value(int i, int j, const double & v) { a.at(i * n + j) = v; }
        void add_matrix_value(int i, int j, const double & v) { a.at(i * n + j) += v; }
        void insert_rhs_value(int i, const double & v) { b.at(i) = v; }
        void add_rhs_value(int i, const double & v) { b.at(i) += v; }
        int n_equations() const { return n; }
        template <class S>
        void get_solution(S & s) const
        {
            auto m = a;
            auto y = b;
            for (int k = 0; k < n; ++k) { // (positive definite)
                for (int i = k + 1; i < n; ++i) {
                    double f = m[i * n + k] / m[k * n + k];
                    for (int j = k; j < n; ++j) m[i * n + j] -= f * m[k * n + j];
                    y[i] -= f * y[k];
                }
            }
            for (int k = n - 1; k >= 0; --k) {
                for (int j = k + 1; j < n; ++j) y[k] -= m[k * n + j] * y[j];
                s[k] = y[k] /= m[k * n + k];
            }
        }
        void print() const {}
    };
#else
    using linear_t = mito::matrix_solvers::petsc::linear_system_t;
#endif

    template <int N, int D>
    struct World {
        using L = mgen::Lib<N, D>;
        using mesh_t = typename L::mesh_t;
        using cell_t = typename L::cell_t;
        using node_t = typename L::node_t;
        using nodes_t = typename cell_t::nodes_type;
        vm::Rng & r;
        Log & log;
        Stats & stats;
        mgen::Data<N> d;
        L lib;
        std::unique_ptr<mesh_t> mesh;
        std::vector<std::unique_ptr<mesh_t>> others;
        std::vector<nodes_t> erased;
        std::vector<mito::topology::simplex_t<N>> simplices;
        double extent = 1;
        static constexpr int maximum = N == 1 ? 60 : N == 2 ? 90 : 110;

        World(vm::Rng & r, Log & log, Stats & stats, int max) : r(r), log(log), stats(stats)
        {
            mgen::Opt o;
            o.max = max, o.huge = false;
            d = mgen::random<N>(r, o);
            mgen::embed(d, D, r, N == D);
            for (auto & p : d.x) extent = std::max(extent, mgen::norm(p));
            mesh = std::make_unique<mesh_t>(mito::mesh::mesh<cell_t>());
            int how = r.pick(3);
            if (how == 2) {
                from_text();
                stats.ops["built from a file"]++;
                return;
            }
            lib.make_nodes(d.x);
            lib.pollute(d, r, r.coin() ? 0.4 : 0);
            for (auto & v : d.c) {
                auto a = lib.node_array(v);
                if (how == 0) mesh->insert(a);
                else mesh->insert(cell_t(a));
            }
            stats.ops[how ? "built from cells" : "built from nodes"]++;
        }
        void from_text()
        {
            std::ostringstream s;
            s.precision(17);
            s << D << "\n" << d.x.size() << " " << d.c.size() << " 1\n";
            for (auto & p : d.x) { for (int i = 0; i < D; ++i) s << p[i] << " "; s << "\n"; }
            for (auto & v : d.c) { s << N + 1 << " "; for (int i : v) s << i + 1 << " "; s << "\n"; }
            text = s.str();
            std::string name = "wf" + std::to_string(getpid()) + "_" + std::to_string(serial++) + ".summit";
            { std::ofstream f(name); f << text; }
            std::ifstream in(name);
            mesh = std::make_unique<mesh_t>(mito::io::summit::reader<cell_t>(in, lib.cs));
            unlink(name.c_str());
        }
        std::string text;

        // ---- what there is to see of a mesh
        template <class M>
        void look(const std::string & tag, const M & m)
        {
            constexpr int I = M::order;
            std::map<uintptr_t, int> num;
            auto number = [&](const node_t & n) {
                auto [it, fresh] = num.insert({ (uintptr_t) n.id(), (int) num.size() });
                if (fresh) {
                    auto p = mgen::p3(lib.cs.coordinates(n->point()));
                    for (int i = 0; i < D; ++i) log.f(tag + ".x", p[i], extent);
                }
                return it->second;
            };
            std::vector<long> all { m.nCells() };
            std::set<uintptr_t> vertices, points;
            std::map<uintptr_t, int> vnum;
            for (const auto & cell : m.cells()) {
                Labels l, s;
                for (const auto & n : cell.nodes()) {
                    l.push_back(number(n));
                    vnum[n->vertex().id()] = l.back();
                    vertices.insert(n->vertex().id());
                    points.insert(n->point().id());
                }
                for (const auto & v : cell.simplex()->vertices()) s.push_back(vnum.count(v.id()) ? vnum[v.id()] : -1);
                all.insert(all.end(), l.begin(), l.end());
                if constexpr (I > 0) all.push_back(tpm::key_of(l) == tpm::key_of(s));
            }
            log.e(tag + ".cells", all);
            log.e(tag + ".nodes", std::vector<long> { (long) num.size(), (long) vertices.size(), (long) points.size() });
            if constexpr (I == N) {
                // the skin, as oriented facets of numbered nodes
                std::multiset<std::pair<Labels, int>> skin;
                auto b = mito::mesh::boundary(m);
                if constexpr (N == 1) for (const auto & n : b) skin.insert({ { number(n) }, 1 });
                else
                    for (const auto & cell : b.cells()) {
                        Labels l;
                        for (const auto & n : cell.nodes()) l.push_back(number(n));
                        auto k = tpm::key_of(l);
                        skin.insert({ k.first, (int) k.second });
                    }
                std::vector<long> v { mito::mesh::boundary_size(m), (long) skin.size() };
                for (auto & [l, s] : skin) { v.insert(v.end(), l.begin(), l.end()); v.push_back(s); }
                log.e(tag + ".skin", v);
                std::multiset<std::pair<Labels, int>> on;
                for (const auto & cell : m.cells())
                    if constexpr (N > 1)
                        for (const auto & f : cell.simplex()->composition()) {
                            Labels l;
                            for (const auto & x : f->vertices()) l.push_back(vnum[x.id()]);
                            on.insert({ tpm::key_of(l).first, m.isOnBoundary(f) });
                        }
                std::vector<long> w;
                for (auto & [l, s] : on) w.push_back(s);
                log.e(tag + ".on-skin", w);
            }
        }
        template <int I>
        void look_filtered(const std::string & tag)
        {
            auto f = mito::mesh::filter<I>(*mesh);
            std::map<uintptr_t, int> num;
            int k = 0;
            for (const auto & cell : mesh->cells()) for (const auto & n : cell.nodes()) num.insert({ (uintptr_t) n.id(), (int) num.size() });
            std::multiset<Labels> all;
            for (const auto & cell : f.cells()) {
                Labels l;
                if constexpr (I == 0) l.push_back(num[(uintptr_t) cell.nodes()[0].id()]);
                else for (const auto & n : cell.nodes()) l.push_back(num[(uintptr_t) n.id()]);
                std::sort(l.begin(), l.end());
                all.insert(l);
                ++k;
            }
            std::vector<long> v { k };
            for (auto & l : all) v.insert(v.end(), l.begin(), l.end());
            log.e(tag, v);
        }
        // ---- changes
        void erase_some()
        {
            int k = 1 + r.pick(std::max(1, mesh->nCells() / 3));
            for (int i = 0; i < k && mesh->nCells() > 1; ++i) {
                int at = r.pick(mesh->nCells()), j = 0;
                for (auto & cell : mesh->cells())
                    if (j++ == at) {
                        erased.push_back(cell.nodes());
                        if (r.coin(0.2)) simplices.push_back(cell.simplex());
                        mesh->erase(cell);
                        break;
                    }
            }
        }
        void put_back()
        {
            for (int i = 0; i < 3 && !erased.empty(); ++i) {
                int k = r.pick((int) erased.size());
                if (r.coin()) mesh->insert(erased[k]);
                else mesh->insert(cell_t(erased[k]));
                erased.erase(erased.begin() + k);
            }
        }
        void refine()
        {
            int n = 1;
            if (N < 3 && mesh->nCells() * (1 << (2 * N)) <= maximum && r.coin(0.3)) n = 2;
            if (mesh->nCells() * (1 << N) > maximum) return;
            auto fine = std::make_unique<mesh_t>(mito::mesh::tetra(*mesh, lib.cs, n));
            if (r.coin(0.4)) others.push_back(std::move(mesh));
            mesh = std::move(fine);
            if (r.coin(0.6)) erased.clear();
            else if (!erased.empty()) erased.clear();
        }
        void partition()
        {
            if (mesh->nCells() < 2) return;
            int n = 1 + r.pick(std::min(4, mesh->nCells()));
            auto whole = std::make_unique<mesh_t>(mito::mesh::mesh<cell_t>());
            std::vector<long> sizes;
            int skip = r.coin(0.3) ? r.pick(n) : -1;
            for (int i : r.perm(n)) {
                auto part = mito::mesh::metis::partition(*mesh, n, i);
                sizes.push_back(part.nCells());
                if (i == skip && mesh->nCells() > part.nCells()) continue;
                for (const auto & cell : part.cells()) whole->insert(cell);
                look("part", part);
            }
            log.e("partition", sizes);
            if (whole->nCells() == 0) return;
            if (r.coin()) others.push_back(std::move(mesh));
            mesh = std::move(whole);
        }
        void duplicates()
        {
            std::vector<nodes_t> twice;
            for (const auto & cell : mesh->cells()) if (r.coin(0.3)) twice.push_back(cell.nodes());
            int before = mesh->nCells();
            for (auto & a : twice) mesh->insert(a);
            if (r.coin()) mesh->erase_topological_duplicates();
            else mesh->erase_geometrical_duplicates();
            log.e("duplicates", std::vector<long> { before, (long) twice.size(), mesh->nCells() });
        }
        double area2(const std::array<node_t, 3> & n)
        {
            P3 p[3];
            for (int i = 0; i < 3; ++i) p[i] = mgen::p3(lib.cs.coordinates(n[i]->point()));
            return mgen::cross(p[1] - p[0], p[2] - p[0])[2];
        }
        static int at(const cell_t & c, const node_t & n)
        {
            for (int i = 0; i <= N; ++i) if (c.nodes()[i] == n) return i;
            return -1;
        }
        static bool opposed(const cell_t & a, const cell_t & b)
        {
            for (int i = 0; i < 3; ++i) {
                int p = at(b, a.nodes()[i]), q = at(b, a.nodes()[(i + 1) % 3]);
                if (p >= 0 && q >= 0) return p == (q + 1) % 3;
            }
            return false;
        }
        static bool joined(const std::vector<cell_t *> & cells, const cell_t & a, const cell_t & b)
        {
            int i = 0, j = 0;
            while (at(b, a.nodes()[i]) >= 0) ++i;
            while (at(a, b.nodes()[j]) >= 0) ++j;
            for (auto c : cells) if (at(*c, a.nodes()[i]) >= 0 && at(*c, b.nodes()[j]) >= 0) return true;
            return false;
        }
        void flip()
        {
            if constexpr (N == 2) {
                // pairs of cells with a common edge
                std::vector<std::pair<cell_t *, cell_t *>> pairs;
                std::vector<cell_t *> cells;
                for (auto & cell : mesh->cells()) cells.push_back(&cell);
                for (size_t a = 0; a < cells.size(); ++a)
                    for (size_t b = a + 1; b < cells.size(); ++b) {
                        int common = 0;
                        for (auto & m : cells[a]->nodes()) for (auto & n : cells[b]->nodes()) common += m == n;
                        // that runs against each other, with no cell on the other diagonal yet
                        if (common == 2 && opposed(*cells[a], *cells[b]) && !joined(cells, *cells[a], *cells[b])) pairs.push_back({ cells[a], cells[b] });
                    }
                if (pairs.empty()) return;
                auto [a, b] = r.of(pairs);
                auto pair = geo::flip_diagonal<D>({ *a, *b });
                if constexpr (D == 2)
                    if (area2(pair.first.nodes()) < 1e-3 || area2(pair.second.nodes()) < 1e-3) { log.e("flip", 0); return; }
                mesh->erase(*a);
                mesh->erase(*b);
                mesh->insert(pair.first);
                mesh->insert(pair.second);
                log.e("flip", 1);
            }
        }
        void rewrite()
        {
            std::string name = "wf" + std::to_string(getpid()) + "_" + std::to_string(serial++);
            mito::io::summit::writer(name, *mesh, lib.cs);
            {
                std::ifstream in(name + ".summit");
                std::string t((std::istreambuf_iterator<char>(in)), {});
                log.e("file", (long) std::count(t.begin(), t.end(), '\n'));
                // what the file says: the coordinates of the points, and the cells by the numbers of their points
                std::istringstream words(t);
                long d = 0, points = 0, cells = 0, materials = 0;
                words >> d >> points >> cells >> materials;
                for (long i = 0; i < d * points; ++i) {
                    double x = 0;
                    words >> x;
                    log.f("file:coordinate", x, extent);
                }
                uint64_t h = 0;
                for (std::string word; words >> word;) h = vm::hcomb(h, vm::hstr(word));
                log.e("file:cells", (long) (h >> 16));
            }
            std::ifstream in(name + ".summit");
            auto copy = std::make_unique<mesh_t>(mito::io::summit::reader<cell_t>(in, lib.cs));
            unlink((name + ".summit").c_str());
            if (r.coin()) others.push_back(std::move(mesh));
            mesh = std::move(copy);
            erased.clear();
        }
        // ---- uses
        auto smooth()
        {
            double a = r.real(0.5, 2), b = r.real(-1, 1), s = 1 / extent;
            return mito::functions::function([a, b, s](const mgen::cart_t<D> & x) {
                double t = b;
                for (int i = 0; i < D; ++i) t += (i + 1) * s * x[i];
                return a * std::exp(std::sin(t));
            });
        }
        void integrate()
        {
            double unit = std::pow(extent, N) * mesh->nCells();
            auto use = [&](const auto & manifold) {
                log.f("volume", manifold.volume(), unit);
                auto in = quad::integrator<quad::GAUSS, 2>(manifold);
                log.f("integral", in.integrate(smooth()), 20 * unit);
                log.e("elements", manifold.nElements());
            };
            if constexpr (N == D) {
                auto manifold = mito::manifolds::manifold(*mesh, lib.cs);
                use(manifold);
                auto f = smooth(), g = smooth();
                auto in = quad::integrator<quad::GAUSS, 1>(manifold);
                log.f("integral of product", in.integrate(f * g + 2.0 * f), 400 * unit);
            } else if constexpr (D - N == 1) {
                P3 n {};
                n[D - 1] = 1;
                mito::tensor::vector_t<D> v;
                for (int i = 0; i < D; ++i) v[i] = n[i];
                auto field = mito::functions::function([v](const mgen::cart_t<D> &) { return v; });
                use(mito::manifolds::submanifold(*mesh, lib.cs, field));
            }
        }
        void discretize()
        {
            namespace disc = mito::discrete;
            auto f = smooth();
            auto m = disc::mesh_field(*mesh, lib.cs, f, "f");
            auto v = disc::mesh_field<mito::tensor::vector_t<D>>(*mesh, "v");
            auto q = disc::quadrature_field<double, 3>(*mesh, "q");
            double s = 0;
            for (auto & [n, x] : m) { s += x; for (int i = 0; i < D; ++i) v(n)[i] = x * (i + 1); }
            int k = 0;
            for (auto & [c, x] : q) { x[k++ % 3] = 1; }
            log.e("fields", std::vector<long> { (long) m.size(), (long) v.size(), (long) q.size() });
            log.f("nodal sum", s, 10.0 * m.size());
            for (const auto & cell : mesh->cells()) log.f("nodal", v(cell.nodes()[0])[D - 1], 10 * D);
            auto moved = std::move(m);
            log.e("moved", (long) moved.size());
        }
        void cells()
        {
            for (const auto & cell : mesh->cells()) {
                auto b = mgen::p3(geo::barycenter(cell, lib.cs));
                for (int i = 0; i < D; ++i) log.f("barycenter", b[i], extent);
                auto dir = geo::directors(cell, lib.cs);
                for (auto & v : dir.second) for (int i = 0; i < D; ++i) log.f("director", v[i], 2 * extent);
                auto t = geo::flip(cell);
                if constexpr (N > 0) log.e("flipped", (long) (t.simplex()->orientation() == -cell.simplex()->orientation()));
            }
        }
        void curvilinear()
        {
            auto use = [&]<class coordT>(std::type_identity<coordT>) {
                auto cs2 = geo::coordinate_system<coordT>(lib.cs);
                for (const auto & cell : mesh->cells()) {
                    auto x = cs2.coordinates(cell.nodes()[N]->point());
                    log.f("radius", x[0], extent);
                }
                auto manifold = mito::manifolds::manifold(*mesh, cs2);
                log.f("curvilinear volume", manifold.volume(), 100 * std::pow(extent, N) * mesh->nCells());
            };
            if constexpr (N == 2 && D == 2) use(std::type_identity<geo::coordinates_t<2, geo::POLAR>> {});
            if constexpr (N == 3 && D == 3) use(std::type_identity<geo::coordinates_t<3, geo::SPHERICAL>> {});
        }
        template <int P>
        void solve()
        {
            if constexpr (N == D && N < 3) {
                using E = element_t<N, P>;
                constexpr int R = P == 1 ? 2 : N == 1 ? 2 : 4;
                auto manifold = mito::manifolds::manifold(*mesh, lib.cs);
                auto skin = mito::mesh::boundary(*mesh);
                auto zero = mito::functions::zero<mgen::cart_t<N>>;
                auto bc = mito::constraints::dirichlet_bc(skin, zero);
                auto fs = fem::function_space<E>(manifold, bc);
                auto k = fem::blocks::grad_grad_block<E, rule<N, R>>();
                auto m = fem::blocks::mass_block<E, rule<N, R>>();
                auto f = smooth();
                auto s = fem::blocks::source_term_block<E, rule<N, R>>(f);
                auto w = fem::weakform<E>();
                w.add_block(k);
                w.add_block(m);
                w.add_block(s);
                auto ds = fem::discrete_system<linear_t>("wf" + std::to_string(serial++), fs, w);
                log.e("equations", ds.n_equations());
                if (ds.n_equations() == 0) return;
#ifdef WF_DENSE
                ds.assemble();
                ds.read_solution();
#else
                auto solver = mito::solvers::linear_solver<mito::matrix_solvers::petsc::ksp_t>(ds);
                solver.set_options("-ksp_type preonly -pc_type lu");
                int times = 1 + r.pick(2);
                for (int i = 0; i < times; ++i) solver.solve();
                if (r.coin()) solver.destroy();
#endif
                const auto & u = ds.solution();
                for (const auto & e : fs.elements())
                    for (int a = 0; a < E::n_nodes; ++a) log.f("solution", u(e.connectivity()[a]), 1e4 * (1 + extent * extent));
                auto g = 0.5 * mito::functions::component<mgen::cart_t<N>, 0>;
                log.f("l2", fem::compute_l2_norm<rule<N, R>>(fs, u, g), 1e4 * (1 + extent * extent));
                log.f("h1", fem::compute_h1_norm<rule<N, R>>(fs, u, g), 1e6 * (1 + extent * extent));
            }
        }
        void cloud()
        {
            auto & c = geo::point_cloud<D>();
            long n = 0;
            for (const auto & p : c.points()) n += p.is_nullptr() ? 0 : 1;
            log.e("cloud", (long) (n >= (long) 1));
        }
        // ---- one step
        void step()
        {
            switch (r.weighted({ 4, 3, 3, 3, 2, 3, 2, 3, 2, 2, 1, 2, 3, 1, 2, 2 })) {
            case 0: refine(); look("refined", *mesh); stats.ops["refine"]++; break;
            case 1: partition(); look("merged", *mesh); stats.ops["partition"]++; break;
            case 2: erase_some(); look("erased", *mesh); stats.ops["erase"]++; break;
            case 3: put_back(); look("put back", *mesh); stats.ops["put back"]++; break;
            case 4: duplicates(); look("deduplicated", *mesh); stats.ops["duplicates"]++; break;
            case 5: flip(); look("flipped", *mesh); stats.ops["flip"]++; break;
            case 6: rewrite(); look("read", *mesh); stats.ops["write and read"]++; break;
            case 7: integrate(); stats.ops["integrate"]++; break;
            case 8: discretize(); stats.ops["discretize"]++; break;
            case 9: cells(); stats.ops["geometry"]++; break;
            case 10: curvilinear(); stats.ops["curvilinear"]++; break;
            case 11:
                if constexpr (N > 1) look_filtered<N - 1>("facets");
                if constexpr (N == 3) look_filtered<1>("edges");
                stats.ops["filter"]++;
                break;
            case 12: {
                int p = N == 2 ? 1 + r.pick(2) : 1;
                if (mesh->nCells() > 150) break;
                if (p == 1) solve<1>();
                else if constexpr (N == 2) solve<2>();
                stats.ops["solve"]++;
                break;
            }
            case 13: cloud(); stats.ops["cloud"]++; break;
            case 14: { // somewhere else
                auto moved = std::make_unique<mesh_t>(std::move(*mesh));
                mesh = std::move(moved);
                look("moved", *mesh);
                stats.ops["move"]++;
                break;
            }
            default: // let something go
                if (!others.empty()) {
                    int k = r.pick((int) others.size());
                    look("other", *others[k]);
                    others.erase(others.begin() + k);
                }
                simplices.clear();
                stats.ops["drop"]++;
            }
        }
        void run(int steps)
        {
            look("start", *mesh);
            for (int i = 0; i < steps; ++i) step();
            look("end", *mesh);
        }
    };
}
