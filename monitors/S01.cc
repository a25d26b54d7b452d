// S01: the linear-system layer stores and solves exactly what was put in
// serial: any process; parallel (--parallel): under mpirun, every rank draws the same history and performs its share of it
#include <mito/matrix_solvers.h>
#include "vmon.h"
#include <mpi.h>
#include <memory>

using system_t = mito::matrix_solvers::petsc::PETScLinearSystem;
using solver_t = mito::matrix_solvers::petsc::PETScKrylovSolver;

static int rank_ = 0, size_ = 1;

// complaints of PETSc
static std::string complaint;
static PetscErrorCode handler(MPI_Comm, int, const char * fun, const char *, PetscErrorCode n, PetscErrorType p, const char * mess, void *)
{
    if (p == PETSC_ERROR_INITIAL) fprintf(stderr, "PETSC-ERROR [%d] %s: %s\n", rank_, fun, mess);
    if (p == PETSC_ERROR_INITIAL) complaint += std::string(fun ? fun : "?") + ": " + (mess ? mess : "?") + " ";
    return n;
}

// a rule that all ranks agree on
template <class F>
static void agree(vm::Case & c, const char * rule, bool ok, F && msg)
{
    int a = ok, b = 1;
    if (size_ > 1) MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
    else b = a;
    c.check(rule, b, [&] { return ok ? std::string("(observed on another rank)") : std::string(msg()); });
}

// the system as a plain dense table
struct Model {
    int n;
    std::vector<double> a, b;
    std::vector<double> za, zb;    // size of the terms that were summed
    explicit Model(int n) : n(n), a(n * n, 0), b(n, 0), za(n * n, 0), zb(n, 0) {}
    double & A(int i, int j) { return a[i * n + j]; }
    double A(int i, int j) const { return a[i * n + j]; }
    std::vector<double> times(const std::vector<double> & x) const
    {
        std::vector<double> y(n, 0);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] += A(i, j) * x[j];
        return y;
    }
};

struct System {
    std::string label;
    Model m;
    std::unique_ptr<system_t> s;
    std::unique_ptr<solver_t> k;
    bool spd = false;
    bool configured = false;
    int solves = 0;
    std::string log;
    std::set<std::pair<int, int>> seen;    // entries set since the last assembly
    std::set<int> seenb;
};

// how the solution is supposed to come out
enum Kind { DIRECT, JACOBI, NONE, RICHARDSON, TIGHT, DEFAULT };
struct Method {
    Kind kind = DEFAULT;
    double scale = 1, tol = 1e-4;
    int iterations = 0;
    std::vector<std::pair<std::string, std::string>> options;
};

static int label_counter = 0;
static std::string make_label(vm::Rng & r, const std::vector<std::unique_ptr<System>> & others)
{
    static const char * al = "abcdefghijkxyzABXY0123456789_.";
    std::string s;
    int k = r.pick(4);
    if (k == 0 && !others.empty()) s = others[r.pick((int) others.size())]->label;    // extend the name of another system
    int n = 1 + r.pick(6);
    for (int i = 0; i < n; ++i) s += al[r.pick(30)];
    if (!std::isalpha((unsigned char) s[0])) s = "q" + s;
    s += std::to_string(label_counter++);
    if (r.coin(0.2)) s += "_";
    return s;
}

// operations on the system and its model; in parallel, added entries come from any rank, entries of other ranks' rows are set at most
// once between assemblies (their order is not defined otherwise), and all ranks take part in every change from setting to adding
struct Ops {
    vm::Rng & r;
    System & s;
    int n = s.m.n;
    int someone() { return (int) (r.next() % (uint64_t) size_); }
    // the rank a row belongs to, and the first row of a rank
    int first(int q) const { return q * (n / size_) + std::min(q, n % size_); }
    int row_owner(int i) const
    {
        int q = 0;
        while (i >= first(q + 1)) ++q;
        return q;
    }
    bool is_first(int i) const { return first(row_owner(i)) == i; }
    void add(int i, int j, double v)
    {
        if (someone() == rank_) s.s->add_matrix_value(i, j, v);
        s.m.A(i, j) += v, s.m.za[i * n + j] += std::fabs(v);
    }
    void set(int i, int j, double v)
    {
        int who = someone();
        if (size_ > 1 && who != row_owner(i)) {
            if (i == j) who = row_owner(i);
            else if (!s.seen.insert({ i, j }).second) return;
        } else if (size_ > 1 && i != j && s.seen.count({ i, j })) return;
        if (who == rank_) s.s->insert_matrix_value(i, j, v);
        s.m.A(i, j) = v, s.m.za[i * n + j] = std::fabs(v);
    }
    void addb(int i, double v)
    {
        if (someone() == rank_) s.s->add_rhs_value(i, v);
        s.m.b[i] += v, s.m.zb[i] += std::fabs(v);
    }
    void setb(int i, double v)
    {
        int who = someone();
        if (size_ > 1 && who != row_owner(i)) {
            if (is_first(i)) who = row_owner(i);
            else if (!s.seenb.insert(i).second) return;
        } else if (size_ > 1 && s.seenb.count(i)) return;
        if (who == rank_) s.s->insert_rhs_value(i, v);
        s.m.b[i] = v, s.m.zb[i] = std::fabs(v);
    }
    // can this system be set, or do some ranks have nothing to set?
    bool settable() const { return n >= size_; }
    void join(bool adding)
    {
        if (size_ == 1 || n == 0) return;
        if (adding) s.seen.clear();
        int i = adding ? rank_ % n : first(rank_);
        if (adding) s.s->add_matrix_value(i, 0, 0.0);
        else s.s->insert_matrix_value(i, i, s.m.A(i, i));
    }
    void joinb(bool adding)
    {
        if (size_ == 1 || n == 0) return;
        if (adding) s.seenb.clear();
        int i = adding ? rank_ % n : first(rank_);
        if (adding) s.s->add_rhs_value(i, 0.0);
        else s.s->insert_rhs_value(i, s.m.b[i]);
    }
};

// random entries
static void fill(vm::Case & c, System & sys, bool first)
{
    auto & r = c.rng;
    int n = sys.m.n;
    if (n == 0) return;
    Ops o { r, sys };
    // (either side may be of any size: units are the caller's business)
    double mag = first ? std::pow(10.0, r.range(-3, 3)) : 1, magb = r.coin(0.3) ? std::pow(10.0, r.range(-16, 12)) : mag;
    int ops = first ? r.pick(4 * n + 1) : 1 + r.pick(2 * n);
    int mode = r.pick(4);    // mostly set, mostly add, runs, anything
    bool last = r.coin(), lastb = r.coin();
    o.join(last = last || !o.settable()), o.joinb(lastb = lastb || !o.settable());
    int calls = 0;
    for (int k = 0; k < ops; ++k) {
        bool adding = mode == 0 ? r.coin(0.05) : mode == 1 ? !r.coin(0.05) : mode == 2 ? (r.coin(0.1) ? !last : last) : r.coin();
        if (size_ > 1 && r.coin(0.8)) adding = last;
        if (!o.settable()) adding = true;
        int i = r.pick(n), j = r.coin(0.3) ? i : r.pick(n);
        bool vec = r.coin(0.3);
        double unit = vec ? magb : mag, v = r.weighted({ 8, 1, 1 }) == 1 ? 0.0 : r.real(-1, 1) * unit;
        int rep = r.coin(0.1) ? 3 : 1;    // the same entry again
        if (vec) { if (adding != lastb) o.joinb(adding); lastb = adding; }
        else { if (adding != last) o.join(adding); last = adding; }
        for (int q = 0; q < rep; ++q) {
            if (vec) { if (adding) o.addb(i, v + q * unit); else o.setb(i, v + q * unit); }
            else { if (adding) o.add(i, j, v + q); else o.set(i, j, v + q); }
            ++calls;
        }
    }
    c.count("entries", calls);
}

// make the system safely solvable: the diagonal dominates
static void dominate(vm::Case & c, System & sys)
{
    auto & r = c.rng;
    auto & m = sys.m;
    int n = m.n;
    if (n == 0) return;
    Ops o { r, sys };
    bool adding = r.coin() || !o.settable();
    if (!adding) o.join(true);
    o.join(adding);
    if (sys.spd)
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) {
            if (m.A(i, j) == m.A(j, i)) continue;
            double v = m.A(i, j);
            if (!adding) o.set(j, i, v);
            else o.add(j, i, v - m.A(j, i)), m.A(j, i) = v;
        }
    for (int i = 0; i < n; ++i) {
        double off = 0;
        for (int j = 0; j < n; ++j) if (j != i) off += std::fabs(m.A(i, j));
        double want = (off + 0.1 + r.unit()) * r.real(1.5, 3) * (sys.spd || r.coin(0.8) ? 1 : -1);
        if (adding) o.add(i, i, want - m.A(i, i));
        else o.set(i, i, want);
    }
}

static std::string num(vm::Rng & r, double v)
{
    char b[64];
    switch (r.pick(4)) {
        case 0: snprintf(b, 64, "%.17g", v); break;
        case 1: {    // no digit before the point
            snprintf(b, 64, "%.17f", v);
            std::string t = b;
            if (auto k = t.find("0."); k <= 1 && std::fabs(v) < 1) t.erase(k, 1);
            return t;
        }
        case 2: snprintf(b, 64, "%.17e", v); break;
        default: snprintf(b, 64, "%+.17g", v);
    }
    return b;
}

static Method choose(vm::Rng & r, const System & s)
{
    Method m;
    switch (r.weighted({ 4, 3, 2, 4, 4, 2 })) {
        case 0:
            m.kind = DIRECT;
            m.tol = 1e-11;
            m.options = { { "-ksp_type", "preonly" }, { "-pc_type", size_ > 1 ? "redundant" : s.spd && r.coin() ? "cholesky" : "lu" } };
            break;
        case 1: m.kind = JACOBI; m.options = { { "-ksp_type", "preonly" }, { "-pc_type", "jacobi" } }; break;
        case 2: m.kind = NONE; m.options = { { "-ksp_type", "preonly" }, { "-pc_type", "none" } }; break;
        case 3:
            m.kind = RICHARDSON;
            m.scale = r.real(0.05, 0.9) * (r.coin() ? -1 : 1);
            m.iterations = 1 + r.pick(4);
            m.options = { { "-ksp_type", "richardson" }, { "-pc_type", "none" }, { "-ksp_rtol", "0" }, { "-ksp_atol", "0" }, { "-ksp_divtol", "1e300" }, { "-ksp_max_it", std::to_string(m.iterations) },
                          { "-ksp_richardson_scale", num(r, m.scale) } };
            break;
        case 4:
            m.kind = TIGHT;
            m.tol = 1e-7;
            m.options = { { "-ksp_type", s.spd && r.coin() ? "cg" : "gmres" }, { "-pc_type", r.coin() ? "jacobi" : "none" }, { "-ksp_rtol", r.coin() ? "1e-13" : "1.e-13" },
                          { "-ksp_atol", "1e-200" }, { "-ksp_max_it", "2000" } };
            if (m.options[0].second == "gmres") m.options.push_back({ "-ksp_gmres_restart", "200" });
            break;
        default: m.kind = DEFAULT; m.tol = 2e-3; break;
    }
    return m;
}

// give the options to the solver in some order, spacing and number of calls
static void configure(vm::Case & c, System & s, Method m, bool decoys)
{
    auto & r = c.rng;
    if (m.kind == DEFAULT) {
        if (s.configured) m.options = { { "-ksp_type", "gmres" }, { "-pc_type", size_ > 1 ? "bjacobi" : "ilu" }, { "-ksp_rtol", "1e-5" }, { "-ksp_atol", "1e-50" }, { "-ksp_max_it", "10000" } };
        else {
            if (r.coin(0.3)) { s.k->set_options(r.coin() ? "" : "   "); s.log += "{} "; }
            return;
        }
    }
    s.configured = true;
    r.shuffle(m.options);
    auto space = [&] {
        static const char * sp[] = { " ", " ", " ", "  ", "    ", "\t", "\n", " \t " };
        return std::string(sp[r.pick(8)]);
    };
    std::string text;
    auto flush = [&] {
        if (r.coin(0.2)) text = space() + text;
        if (r.coin(0.2)) text += space();
        s.k->set_options(text);
        s.log += "{" + text + "} ";
        text.clear();
        c.count("set_options calls");
    };
    for (auto & [k, v] : m.options) {
        // something that is overridden right after
        if (decoys && r.coin(0.15)) {
            std::string w = k == "-ksp_type" ? "bicg" : k == "-pc_type" ? "sor" : k == "-ksp_richardson_scale" ? "-0.125" : k == "-ksp_max_it" ? "7" : "";
            if (!w.empty()) {
                text += (text.empty() ? "" : space()) + k + space() + w;
                if (r.coin(0.4)) flush();
                c.count("overridden options");
            }
        }
        text += (text.empty() ? "" : space()) + k + space() + v;
        if (r.coin(0.25)) flush();
    }
    if (!text.empty()) flush();
}

static std::vector<double> read(vm::Case & c, System & s)
{
    std::vector<double> x(s.m.n, c.rng.real(-9, 9)), y(s.m.n, 7.5);
    s.s->get_solution(x);
    s.s->get_solution(y);
    agree(c, "read-twice", x == y, [&] { return "first " + vm::seq(x) + " then " + vm::seq(y); });
    return x;
}

static void judge(vm::Case & c, System & s, const Method & m, const std::vector<double> & x)
{
    int n = s.m.n;
    bool finite = true;
    for (double v : x) finite &= std::isfinite(v);
    auto where = [&] { return vm::str("system ", s.label, " n=", n, " solve ", s.solves, " options ", s.log); };
    agree(c, "finite", finite, [&] { return vm::seq(x) + where(); });
    std::vector<double> want(n), size(n, 0);
    bool exact = true;
    const char * rule = "";
    if (m.kind == JACOBI) {
        rule = "solution:jacobi";
        for (int i = 0; i < n; ++i) want[i] = s.m.b[i] / s.m.A(i, i), size[i] = (s.m.zb[i] + std::fabs(want[i]) * s.m.za[i * n + i]) / std::fabs(s.m.A(i, i));
    } else if (m.kind == NONE) {
        rule = "solution:rhs";
        want = s.m.b;
        size = s.m.zb;
    } else if (m.kind == RICHARDSON) {
        rule = "solution:richardson";
        std::vector<double> u(n, 0), z(n, 0);
        for (int k = 0; k < m.iterations; ++k) {
            auto Au = s.m.times(u);
            std::vector<double> az(n, 0);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) az[i] += s.m.za[i * n + j] * z[j];
            for (int i = 0; i < n; ++i) u[i] += m.scale * (s.m.b[i] - Au[i]), z[i] += std::fabs(m.scale) * (s.m.zb[i] + az[i]);
        }
        want = u, size = z;
    } else exact = false;
    if (exact) {
        int bad = -1;
        for (int i = 0; i < n; ++i) if (!(std::fabs(x[i] - want[i]) <= 1e-12 * (1 + n) * (size[i] + 1e-300)) && bad < 0) bad = i;
        agree(c, rule, bad < 0, [&] { return vm::str("entry ", bad, " observed ", x[bad], " expected ", want[bad], " ", where()); });
    } else {
        // residual of every equation relative to the largest quantities
        auto y = s.m.times(x);
        double worst = 0;
        int at = 0;
        // rows of very different size: scale each by its diagonal (it dominates), as the solution is that accurate
        double xn = 0, slack = 0;
        for (int i = 0; i < n; ++i) {
            xn = std::max(xn, std::fabs(s.m.b[i] / s.m.A(i, i)));
            double t = s.m.zb[i];
            for (int j = 0; j < n; ++j) t += s.m.za[i * n + j] * std::fabs(x[j]);
            slack = std::max(slack, 1e-13 * t / std::fabs(s.m.A(i, i)));
        }
        for (int i = 0; i < n; ++i) {
            double e = std::fabs(y[i] - s.m.b[i]) / std::fabs(s.m.A(i, i));
            if (e > worst) worst = e, at = i;
        }
        double spread = 1;
        if (m.kind != DIRECT) {
            double lo = 1e300, hi = 0;
            for (int i = 0; i < n; ++i) lo = std::min(lo, std::fabs(s.m.A(i, i))), hi = std::max(hi, std::fabs(s.m.A(i, i)));
            if (n) spread = std::sqrt((double) n) * (m.kind == TIGHT ? std::min(hi / lo, 1e5) : 1);
        }
        agree(c, m.kind == DIRECT ? "residual:direct" : m.kind == TIGHT ? "residual:iterative" : "residual:default", worst <= m.tol * spread * xn + slack + 1e-300,
              [&] { return vm::str("equation ", at, " scaled residual ", worst, " allowed ", m.tol * spread * xn, " ", where()); });
    }
    c.count(vm::str("solves:", (int) m.kind));
}

static void history(vm::Case & c)
{
    auto & r = c.rng;
    complaint.clear();
    std::vector<std::unique_ptr<System>> live;
    int total = 1 + r.pick(c.thorough() ? 6 : 4), made = 0, steps = 4 + r.pick(14);
    uint64_t h = 1;
    auto create = [&] {
        int n = r.weighted({ 1, 12, 4 });
        n = n == 0 ? 0 : n == 1 ? 1 + r.pick(9) : 10 + r.pick(c.thorough() ? 60 : 25);
        auto s = std::unique_ptr<System>(new System { make_label(r, live), Model(n), nullptr, nullptr });
        s->spd = r.coin(0.3);
        s->s = std::make_unique<system_t>(s->label);
        s->s->create(n);
        agree(c, "label", s->s->label() == s->label, [&] { return s->s->label(); });
        agree(c, "n_equations", s->s->n_equations() == n, [&] { return vm::str(s->s->n_equations()); });
        s->k = std::make_unique<solver_t>(*s->s);
        s->k->create();
        live.push_back(std::move(s));
        ++made;
        h = vm::hcomb(h, n);
    };
    create();
    auto finish = [&](int k) {
        live[k]->k->destroy();
        live.erase(live.begin() + k);
    };
    while (steps-- > 0 || made < total) {
        int op = live.empty() ? 0 : r.weighted({ made < total ? 6 : 0, 8, 10, made == total && live.size() > 1 ? 2 : 0, 1, 1 });
        if (op == 0) { if (made >= total) break; create(); continue; }
        int k = r.pick((int) live.size());
        System & s = *live[k];
        h = vm::hcomb(h, op * 8 + k);
        if (op == 1) fill(c, s, s.solves == 0);
        else if (op == 2) {
            if (s.m.n && (s.solves == 0 || r.coin(0.5))) {
                if (r.coin(0.8)) fill(c, s, s.solves == 0);
                dominate(c, s);
            } else {
                // only the right-hand side changes, or nothing
                if (s.m.n && r.coin()) {
                    Ops o { r, s };
                    bool adding = r.coin() || !o.settable();
                    o.joinb(adding);
                    int i = r.pick(s.m.n);
                    if (adding) o.addb(i, r.real(-1, 1));
                    else o.setb(i, r.real(-1, 1));
                }
                dominate(c, s);
            }
            auto m = choose(r, s);
            // options may be given before or after the entries, and long before the solve
            configure(c, s, m, true);
            // another system is worked on in between
            if (live.size() > 1 && r.coin(0.5)) {
                int q = r.pick((int) live.size());
                if (q != k && live[q]->m.n) {
                    if (r.coin()) fill(c, *live[q], live[q]->solves == 0);
                    configure(c, *live[q], choose(r, *live[q]), false);
                }
            }
            c.note(s.label + " " + s.log);
            int rep = 1 + (r.coin(0.3) ? 1 : 0);
            std::vector<double> before;
            for (int q = 0; q < rep; ++q) {
                s.k->solve();
                s.solves++;
                agree(c, "no-petsc-error", complaint.empty(), [&] { return complaint + s.log; });
                auto x = read(c, s);
                judge(c, s, m, x);
                if (q && m.kind <= RICHARDSON && m.kind != DIRECT) agree(c, "solve-again", x == before, [&] { return vm::seq(x) + " before " + vm::seq(before); });
                before = x;
            }
            // solving one system leaves the other solutions alone
            if (live.size() > 1 && r.coin(0.3)) read(c, *live[(k + 1) % live.size()]);
            s.log = "(" + std::to_string(s.solves) + " solves) ";
            h = vm::hcomb(h, m.kind);
        } else if (op == 4) {    // all entries start over
            s.s->zero();
            s.m = Model(s.m.n);
            s.seen.clear(), s.seenb.clear();
            c.count("systems reset");
        } else if (op == 5) {    // the same system and solver again, with another number of equations
            int n = r.coin(0.3) ? s.m.n : r.pick(14);
            s.k->destroy();
            s.s->create(n);
            s.k->create();
            s.m = Model(n);
            s.seen.clear(), s.seenb.clear();
            s.solves = 0;
            agree(c, "n_equations", s.s->n_equations() == n, [&] { return vm::str(s.s->n_equations(), " equations in a system created again with ", n); });
            agree(c, "label", s.s->label() == s.label, [&] { return s.s->label(); });
            c.count("systems created again");
        } else finish(k);
        if (c.wants_sample()) c.sample(vm::str(s.label, " n=", s.m.n, " ", s.log));
    }
    while (!live.empty()) finish(r.pick((int) live.size()));
    agree(c, "no-petsc-error", complaint.empty(), [&] { return complaint; });
    PetscOptionsClear(nullptr);
    c.distinct(h);
}

// systems of a sparse pattern kept as a list of entries: large ones, and ones that need the rows exchanged
struct Sparse {
    int n;
    std::map<std::pair<int, int>, double> a;
    std::vector<double> b;
};
static void solve_sparse(vm::Case & c, const Sparse & m, const std::vector<std::string> & options, double tol, const std::string & what)
{
    auto & r = c.rng;
    complaint.clear();
    system_t s("sparse" + std::to_string(label_counter++));
    s.create(m.n);
    solver_t k(s);
    k.create();
    bool add = r.coin();
    std::vector<std::pair<std::pair<int, int>, double>> entries(m.a.begin(), m.a.end());
    r.shuffle(entries);
    for (auto & [p, v] : entries) {
        if (!add) s.insert_matrix_value(p.first, p.second, v);
        else {
            double part = r.coin(0.3) ? 0.5 * v : 0;
            s.add_matrix_value(p.first, p.second, v - part);
            if (part != 0) s.add_matrix_value(p.first, p.second, part);
        }
    }
    std::vector<int> rows(m.n);
    for (int i = 0; i < m.n; ++i) rows[i] = i;
    r.shuffle(rows);
    for (int i : rows) if (m.b[i] != 0) { if (add) s.add_rhs_value(i, m.b[i]); else s.insert_rhs_value(i, m.b[i]); }
    std::string all;
    for (auto & o : options) {
        if (r.coin(0.3)) k.set_options(o);
        else all += (all.empty() ? "" : " ") + o;
    }
    if (!all.empty()) k.set_options(all);
    k.solve();
    agree(c, "no-petsc-error", complaint.empty(), [&] { return complaint; });
    std::vector<double> x(m.n, 7.5);
    s.get_solution(x);
    double xn = 0, worst = 0;
    for (double v : x) xn = std::max(xn, std::fabs(v));
    std::vector<double> y(m.n), z(m.n);
    for (auto & [p, v] : m.a) y[p.first] += v * x[p.second], z[p.first] += std::fabs(v) * xn;
    int at = 0;
    for (int i = 0; i < m.n; ++i) {
        double e = std::fabs(y[i] - m.b[i]) / (z[i] + std::fabs(m.b[i]) + 1e-300);
        if (!(e <= worst)) worst = e, at = i;
    }
    agree(c, "residual:sparse", worst <= tol, [&] { return vm::str(what, " n=", m.n, ": equation ", at, " is off by ", worst, " relative; ", all); });
    k.destroy();
    PetscOptionsClear(nullptr);
    c.count(what);
    c.distinct(vm::hcomb(vm::hreal(m.b[0]), m.n));
}
static void large(vm::Case & c)
{
    auto & r = c.rng;
    Sparse m { (int) r.range(600, 3000), {}, {} };
    m.b.resize(m.n);
    for (auto & v : m.b) v = r.real(-1, 1);
    std::vector<double> off(m.n, 0);
    auto put = [&](int i, int j) { double v = r.real(-1, 1); if (i != j && m.a.insert({ { i, j }, v }).second && m.a.insert({ { j, i }, v }).second) off[i] += std::fabs(v), off[j] += std::fabs(v); };
    for (int i = 0; i + 1 < m.n; ++i) put(i, i + 1);
    for (int k = r.pick(30); k > 0; --k) put(r.pick(m.n), r.pick(m.n));
    for (int i = 0; i < m.n; ++i) m.a[{ i, i }] = off[i] + r.real(0.5, 1.5);
    if (r.coin()) solve_sparse(c, m, { "-ksp_type preonly", "-pc_type lu" }, 1e-11, "large systems");
    else solve_sparse(c, m, { "-ksp_type cg", "-pc_type jacobi", "-ksp_rtol 1e-13", "-ksp_max_it 20000" }, 1e-8, "large systems");
}
// the diagonal has zeros: only an option of the factorization makes these solvable
static void exchange(vm::Case & c)
{
    auto & r = c.rng;
    // (pairs of equations in each other's place: PETSc's search for a diagonal does not find it in any matrix)
    Sparse m { 2 * (int) r.range(1, 15), {}, {} };
    m.b.resize(m.n);
    for (auto & v : m.b) v = r.real(-1, 1);
    for (int i = 0; i < m.n; ++i) {
        m.a[{ i, i }] = 0;
        m.a[{ i, i ^ 1 }] = r.real(2, 4) * (r.coin() ? 1 : -1);
    }
    std::vector<std::string> o { "-ksp_type preonly", "-pc_type lu", "-pc_factor_nonzeros_along_diagonal" + std::string(r.coin() ? "" : r.coin() ? " 1e-8" : " .001") };
    if (r.coin(0.3)) o.push_back("-pc_factor_mat_ordering_type " + std::string(r.coin() ? "natural" : "rcm"));
    r.shuffle(o);
    solve_sparse(c, m, o, 1e-9, "systems with zeros on the diagonal");
}

int main(int argc, char ** argv)
{
    // reports of the ranks go to files of their own
    std::vector<std::string> a(argv, argv + argc);
    if (const char * rk = getenv("OMPI_COMM_WORLD_RANK"); rk && std::string(rk) != "0")
        for (size_t i = 1; i + 1 < a.size(); ++i) if (a[i] == "--report") a[i + 1] += std::string(".rank") + rk;
    std::vector<char *> p;
    for (auto & s : a) p.push_back(s.data());
    vm::init((int) p.size(), p.data());
    mito::petsc::initialize();
    PetscPushErrorHandler(handler, nullptr);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    if (size_ == 1) {
        vm::section("serial", 2500, 15000, history);
        vm::section("zeros on the diagonal", 200, 3000, exchange);
        vm::section("large", 10, 150, large);
    }
    else vm::section(vm::str("parallel-", size_), 300, 2000, history);
    PetscPopErrorHandler();
    mito::petsc::finalize();
    return vm::finish();
}
