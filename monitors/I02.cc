// I02: reading a damaged mesh file never corrupts memory, never invents cells, never runs away
// Every read happens in a forked child with its own address space, CPU budget and count of allocated bytes.
#include "meshgen.h"
#include <mito/io.h>
#include <fstream>
#include <sys/wait.h>

namespace geo = mito::geometry;

// bytes requested from the free store so far, and the largest single request
static size_t requested = 0, largest = 0;
static bool metering = false;
struct Refused {};
static size_t limit = ~size_t(0);
static void meter(size_t n)
{
    if (!metering) return;
    requested += n;
    largest = std::max(largest, n);
}
void * operator new(size_t n)
{
    meter(n);
    if (metering && requested > limit) throw Refused {};
    if (void * p = malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, std::align_val_t a)
{
    meter(n);
    if (void * p = aligned_alloc((size_t) a, (n + (size_t) a - 1) / (size_t) a * (size_t) a)) return p;
    throw std::bad_alloc();
}
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
void operator delete(void * p, std::align_val_t) noexcept { free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { free(p); }

// what a file says, read by its format: heading (dimension, numbers of nodes, cells and kinds of cells), nodes, one cell per line
struct Says {
    enum Kind { ANYTHING, NO_MESH, MESH } kind = ANYTHING;
    const char * why = "";
    bool mixed = false;    // kinds of cells other than the one asked for
    std::vector<std::vector<double>> nodes;
    std::vector<std::vector<int>> cells;
};
static bool integer(const std::string & t, long & v)
{
    size_t i = !t.empty() && t[0] == '-';
    if (t.size() == i || t.size() > 9 + i) return false;
    for (size_t k = i; k < t.size(); ++k) if (t[k] < '0' || t[k] > '9') return false;
    v = std::stol(t);
    return true;
}
static bool decimal(const std::string & t, double & v)
{
    size_t i = !t.empty() && t[0] == '-', digits = 0;
    while (i < t.size() && isdigit((unsigned char) t[i])) ++i, ++digits;
    if (!digits || digits > 15) return false;
    if (i < t.size() && t[i] == '.') for (++i; i < t.size() && isdigit((unsigned char) t[i]);) ++i;
    if (i < t.size() && t[i] == 'e') {
        ++i;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i;
        size_t k = i;
        while (i < t.size() && isdigit((unsigned char) t[i])) ++i;
        if (k == i || i > k + 2) return false;
    }
    if (i != t.size()) return false;
    v = strtod(t.c_str(), nullptr);
    return true;
}
static Says says(const std::string & text, int N, int D)
{
    Says s;
    size_t at = 0;
    bool over = false;
    auto token = [&] {
        while (at < text.size() && isspace((unsigned char) text[at])) ++at;
        size_t b = at;
        while (at < text.size() && !isspace((unsigned char) text[at])) ++at;
        over = b == at;
        return text.substr(b, at - b);
    };
    auto no = [&](const char * why) { s.kind = Says::NO_MESH; s.why = why; return s; };
    long h[4];
    for (int k = 0; k < 4; ++k) {
        auto t = token();
        if (over) return no("the heading is incomplete");
        if (!integer(t, h[k])) return s;    // no telling
        if (k == 0 && h[0] != D) return no("the dimension is another");
    }
    if (h[1] < 0 || h[2] < 0) return no("a number of nodes or cells is negative");
    for (long n = 0; n < h[1]; ++n) {
        std::vector<double> x(D);
        for (auto & v : x) {
            auto t = token();
            if (over) return no("there are fewer nodes than declared");
            if (!decimal(t, v)) return s;
        }
        s.nodes.push_back(x);
    }
    for (long n = 0; n < h[2]; ++n) {
        auto t = token();
        long kind, id;
        if (over) return no("there are fewer cells than declared");
        if (!integer(t, kind)) return s;
        if (kind == N + 1) {
            std::vector<int> c;
            for (int i = 0; i <= N; ++i) {
                auto t = token();
                if (over) return no("a cell is incomplete");
                if (!integer(t, id)) return s;
                if (id < 1 || id > h[1]) return no("a cell has a node that is not listed");
                for (int o : c) if (o == id) return no("a cell has the same node twice");
                c.push_back((int) id);
            }
            s.cells.push_back(c);
        } else s.mixed = true;
        while (at < text.size() && text[at] != '\n') ++at;    // labels, or a cell of another kind
    }
    s.kind = Says::MESH;
    return s;
}

// what the child does: read the file, report
template <int N, int D, mito::io::summit::GalerkinMeshType G>
static std::string read_and_judge(const std::string & text, size_t budget, int expected, const Says & said)
{
    using cell_t = geo::geometric_simplex_t<N, D>;
    auto cs = geo::coordinate_system<mgen::cart_t<D>>();
    // the numbers in the file as they stand
    std::vector<std::array<double, D>> rows;
    {
        std::istringstream in(text);
        long h[4];
        for (auto & k : h) in >> k;
        std::array<double, D> x;
        while (in && (long) rows.size() < h[1]) {
            for (auto & v : x) in >> v;
            if (in) rows.push_back(x);
        }
    }
    std::ifstream in("i02.summit");
    limit = budget;
    metering = true;
    try {
        auto mesh = mito::io::summit::reader<cell_t, G>(in, cs);
        metering = false;
        std::set<std::array<double, D>> listed(rows.begin(), rows.end());
        int cells = 0;
        std::set<std::vector<std::array<double, D>>> found;
        for (const auto & cell : mesh.cells()) {
            ++cells;
            std::vector<std::array<double, D>> corners;
            std::set<uintptr_t> distinct;
            int i = 0;
            for (const auto & n : cell.nodes()) {
                ++i;
                const auto & q = cs.coordinates(n->point());
                std::array<double, D> x;
                for (int d = 0; d < D; ++d) x[d] = q[d];
                if (!listed.count(x)) return "BAD cells-refer-to-listed-nodes a cell has a node at " + vm::seq(x) + " which is not in the file";
                distinct.insert(n->vertex().id());
                corners.push_back(x);
            }
            if (i != N + 1 || (int) distinct.size() != N + 1) return "BAD cells-are-simplices a cell has " + std::to_string(distinct.size()) + " distinct nodes";
            std::sort(corners.begin(), corners.end());
            found.insert(corners);
        }
        if (said.kind == Says::NO_MESH) return vm::str("BAD damage-is-reported a mesh of ", cells, " cells out of a file in which ", said.why);
        if (said.kind == Says::MESH) {
            std::set<std::vector<std::array<double, D>>> wanted;
            for (auto & k : said.cells) {
                std::vector<std::array<double, D>> corners;
                for (int i : k) {
                    std::array<double, D> x;
                    for (int d = 0; d < D; ++d) x[d] = said.nodes[i - 1][d];
                    corners.push_back(x);
                }
                std::sort(corners.begin(), corners.end());
                wanted.insert(corners);
            }
            if (found != wanted || cells > (int) said.cells.size())
                return vm::str("BAD the-cells-of-the-file ", cells, " cells read, ", found.size(), " different; the file lists ", said.cells.size(), ", ", wanted.size(), " different");
        }
        if (cells != mesh.nCells()) return "BAD cells-are-simplices iteration and count differ";
        if (expected >= 0 && cells != expected) return "BAD whole-files-are-read " + std::to_string(cells) + " cells read of " + std::to_string(expected);
        // use the mesh
        (void) mito::mesh::boundary_size(mesh);
        return "OK mesh of " + std::to_string(cells);
    } catch (const Refused &) {
        return "BAD memory-follows-file-size the reader asked for " + std::to_string(requested) + " bytes (largest request " + std::to_string(largest) + ") for a file of " + std::to_string(text.size());
    } catch (const std::exception & e) {
        metering = false;
        if (expected >= 0 || said.kind == Says::MESH) return std::string("BAD whole-files-are-read refused: ") + e.what();
        return std::string("ERR ") + e.what();
    }
}

template <int N, int D>
static std::string generate(vm::Rng & r, int & cells)
{
    auto d = mgen::random<N>(r, { .max = 2 });
    mgen::embed<N>(d, D, r, false);
    std::ostringstream o;
    o.precision(8);
    o << D << "\n" << d.x.size() << " " << d.c.size() << " 1\n";
    for (auto & p : d.x) {
        for (int i = 0; i < D; ++i) o << p[i] << " ";
        o << "\n";
    }
    for (auto & v : d.c) {
        o << N + 1;
        for (int i : v) o << " " << i + 1;
        o << (r.coin(0.3) ? " 1 CST" : " 1") << "\n";
    }
    cells = (int) d.c.size();
    return o.str();
}

struct Token { size_t at, n; };
static std::vector<Token> tokens(const std::string & s)
{
    std::vector<Token> t;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && isspace((unsigned char) s[i])) ++i;
        size_t b = i;
        while (i < s.size() && !isspace((unsigned char) s[i])) ++i;
        if (i > b) t.push_back({ b, i - b });
    }
    return t;
}

static std::string damage(vm::Rng & r, std::string s, std::string & what)
{
    static const char * odd[] = { "0", "-1", "1", "2", "3", "4", "5", "7", "99999", "2147483647", "-2147483648", "2147483648", "4294967297", "1000000000", "99999999999999999999", "1e300", "1e999", "nan",
        "-inf", "x", "", "1.5", "0x10", "-", "+", "1e", "00000000000000000001", "\xff\xfe", "1,2", ";" };
    auto t = tokens(s);
    if (t.empty()) { what += "nothing left; "; return s; }
    switch (r.pick(10)) {
    case 9: {    // the counts of the heading
        auto k = t[std::min<int>((int) r.range(0, 3), (int) t.size() - 1)];
        long v = atol(s.substr(k.at, k.n).c_str());
        long w = r.coin(0.3) ? -v : v + r.range(-3, 3);
        what += vm::str("count at ", k.at, " ", v, " becomes ", w, "; ");
        return s.replace(k.at, k.n, std::to_string(w));
    }
    case 0: { size_t k = r.pick((int) s.size() + 1); what += vm::str("cut at byte ", k, "; "); return s.substr(0, k); }
    case 1:
    case 2: {    // any token, or one of the heading
        auto k = r.coin(0.3) ? t[r.pick(std::min<int>(4, (int) t.size()))] : t[r.pick((int) t.size())];
        std::string n = r.coin(0.7) ? std::string(odd[r.pick(30)]) : std::to_string(r.range(-3, 60));
        what += vm::str("token at ", k.at, " '", s.substr(k.at, k.n), "' becomes '", n, "'; ");
        return s.replace(k.at, k.n, n);
    }
    case 3: { auto k = r.of(t); what += vm::str("token at ", k.at, " dropped; "); return s.erase(k.at, k.n); }
    case 4: { auto k = r.of(t); what += vm::str("token at ", k.at, " doubled; "); return s.insert(k.at, s.substr(k.at, k.n) + " "); }
    case 5: { size_t k = r.pick((int) s.size()); char b = (char) r.range(0, 255); what += vm::str("byte ", k, " becomes ", (int) (unsigned char) b, "; "); s[k] = b; return s; }
    case 6: {    // lines
        std::vector<std::string> l;
        std::istringstream in(s);
        for (std::string x; std::getline(in, x);) l.push_back(x);
        int a = r.pick((int) l.size()), b = r.pick((int) l.size());
        int how = r.pick(3);
        what += vm::str("lines ", a, " ", b, " how ", how, "; ");
        if (how == 0) std::swap(l[a], l[b]);
        else if (how == 1) l.erase(l.begin() + a);
        else l.insert(l.begin() + a, l[b]);
        s.clear();
        for (auto & x : l) s += x + "\n";
        return s;
    }
    case 7: { size_t k = r.pick((int) s.size()), n = r.range(1, 40); what += vm::str("bytes ", k, "+", n, " dropped; "); return s.erase(k, n); }
    default: {    // a cell of another kind
        std::vector<std::string> l;
        std::istringstream in(s);
        for (std::string x; std::getline(in, x);) l.push_back(x);
        int a = r.pick((int) l.size());
        int kind = (int) r.range(1, 8);
        std::string x = std::to_string(kind);
        for (int i = 0; i < kind; ++i) x += " " + std::to_string(r.range(1, 6));
        what += vm::str("line ", a, " becomes a cell of kind ", kind, "; ");
        l[a] = x + " 1";
        s.clear();
        for (auto & y : l) s += y + "\n";
        return s;
    }
    }
}

template <int N, int D>
static void judge(vm::Case & c, const std::string & text, const std::string & what, int expected)
{
    c.note(vm::str(N, "-cells in ", D, "D, ", text.size(), " bytes: ", what));
    { std::ofstream("i02.summit", std::ios::binary) << text; }
    size_t budget = (size_t) 4 << 20;
    budget += 4000 * text.size();
    bool dg = c.rng.coin(0.3);
    auto said = says(text, N, D);
    c.count(said.kind == Says::MESH ? said.mixed ? "the file says: a mesh among other cells" : "the file says: a mesh" : said.kind == Says::NO_MESH ? vm::str("the file says: ", said.why) : "the file says nothing definite");
    int pipe_[2], err[2];
    if (pipe(pipe_) || pipe(err)) throw std::runtime_error("pipe");
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        vm::arm(0);
        signal(SIGPROF, SIG_DFL);
        dup2(err[1], 2);
        rlimit cpu { 20, 20 };
        setrlimit(RLIMIT_CPU, &cpu);
        alarm(120);
        auto s = dg ? read_and_judge<N, D, mito::io::summit::DG>(text, budget, expected, said) : read_and_judge<N, D, mito::io::summit::CG>(text, budget, expected, said);
        (void) !write(pipe_[1], s.data(), s.size());
        _exit(0);
    }
    close(pipe_[1]);
    close(err[1]);
    auto drain = [](int fd) {
        std::string s;
        char buf[4096];
        for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) s.append(buf, n);
        close(fd);
        return s;
    };
    std::string verdict = drain(pipe_[0]), complaint = drain(err[0]);
    int status = 0;
    waitpid(p, &status, 0);
    bool controlled = WIFEXITED(status) && WEXITSTATUS(status) == 0 && !verdict.empty();
    // the reader's own sanity checks (in builds that have them) are a controlled report, too
    bool sanity = complaint.find("Assertion") != std::string::npos && complaint.find("io/summit/") != std::string::npos && complaint.find("Sanitizer") == std::string::npos
                  && complaint.find("runtime error") == std::string::npos;
    if (sanity) c.count("stopped by the reader's sanity checks");
    bool slow = (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGALRM));
    c.check("terminates", !slow, [&] { return vm::str("the reader used more than 20 s for ", text.size(), " bytes: ", what); });
    c.check("controlled", controlled || (sanity && expected < 0), [&] {
        std::string s = complaint;
        auto k = s.find("SUMMARY");
        if (k == std::string::npos) k = s.find("runtime error");
        if (k == std::string::npos) k = 0;
        return vm::str("reader ended with status ", status, " on: ", what, " | ", s.substr(k, 400), " | verdict ", verdict);
    });
    if (verdict.rfind("BAD ", 0) == 0) {
        auto k = verdict.find(' ', 4);
        static std::string rule;
        rule = verdict.substr(4, k - 4);
        c.check(rule.c_str(), false, verdict.substr(k + 1) + " on: " + what);
    }
    c.eval(3);
    c.count(verdict.rfind("OK", 0) == 0 ? "accepted" : sanity ? "sanity" : "refused with an exception");
    c.distinct(vm::hstr(text));
    if (c.wants_sample()) c.sample(what + " -> " + (sanity ? "sanity check" : verdict));
    unlink("i02.summit");
}

template <int N, int D>
static void damaged(vm::Case & c)
{
    int cells;
    auto s = generate<N, D>(c.rng, cells);
    std::string what;
    for (int k = 1 + (c.rng.coin(0.3) ? c.rng.pick(4) : 0); k > 0; --k) s = damage(c.rng, s, what);
    judge<N, D>(c, s, what, -1);
}
// labels have any length
static std::string tail(vm::Rng & r) { return r.coin(0.2) ? std::string((size_t) r.range(1, 400), 'x') + " 3" : ""; }
// cells of several kinds
template <int N, int D>
static void mixed(vm::Case & c)
{
    auto & r = c.rng;
    auto d = mgen::random<N>(r, { .max = 2 });
    mgen::embed<N>(d, D, r, false);
    std::vector<std::string> lines;
    for (auto & v : d.c) {
        std::string l = std::to_string(N + 1);
        for (int i : v) l += " " + std::to_string(i + 1);
        lines.push_back(l + (r.coin(0.3) ? " 1 CST" + tail(r) : " 1"));
    }
    std::set<int> kinds { N + 1 };
    for (int k = (int) r.range(1, 12); k > 0; --k) {
        int kind = (int) r.range(1, r.coin(0.2) ? 64 : 10);
        if (kind == N + 1) continue;
        int listed = kind;
        if (r.coin(0.25)) { // almost the kind of the mesh
            long near[] = { -(N + 1), N + 1 + 256, N + 1 + 65536, 10 * (N + 1), 11 * (N + 1), N, N + 2, 0 };
            kind = (int) near[r.pick(8)];
            listed = N + 1;
        }
        kinds.insert(kind);
        std::string l = std::to_string(kind);
        for (int i = 0; i < listed; ++i) l += " " + std::to_string(r.range(1, (long) d.x.size()));
        lines.insert(lines.begin() + r.pick((int) lines.size() + 1), l + (r.coin(0.3) ? " 1 QUAD" + tail(r) : " 2"));
    }
    std::ostringstream o;
    o.precision(8);
    o << D << "\n" << d.x.size() << " " << lines.size() << " " << (r.coin(0.7) ? 1 : (int) kinds.size()) << "\n";
    for (auto & p : d.x) {
        for (int i = 0; i < D; ++i) o << p[i] << " ";
        o << "\n";
    }
    for (auto & l : lines) o << l << "\n";
    std::string s = o.str(), what = "several kinds of cells; ";
    if (r.coin(0.2)) s = damage(r, s, what);
    judge<N, D>(c, s, what, -1);
}
// every truncation of one file
template <int N, int D>
static void truncated(vm::Case & c)
{
    vm::Rng r(vm::hcomb(vm::state().seed, N * 10 + D));
    int cells;
    auto s = generate<N, D>(r, cells);
    size_t k = (size_t) c.index;
    if (k > s.size()) { c.trivial(); c.eval(); return; }
    judge<N, D>(c, s.substr(0, k), vm::str("cut at byte ", k, " of ", s.size()), -1);
}
template <int N, int D>
static void sound(vm::Case & c)
{
    int cells;
    auto s = generate<N, D>(c.rng, cells);
    judge<N, D>(c, s, "undamaged", cells);
}
// arbitrary bytes
template <int N, int D>
static void noise(vm::Case & c)
{
    std::string s;
    int n = (int) c.rng.range(0, 400), kind = c.rng.pick(3);
    static const char * al = "0123456789 \n-.e";
    if (kind == 1) s = vm::str(D, "\n");
    for (int i = 0; i < n; ++i) s += kind == 0 ? (char) c.rng.range(0, 255) : al[c.rng.pick(15)];
    if (kind == 2) {    // many small numbers
        s = vm::str(D, "\n", c.rng.range(0, 30), " ", c.rng.range(0, 30), " 1\n");
        for (int i = 0; i < n; ++i) s += std::to_string(c.rng.range(0, 6)) + (c.rng.coin(0.2) ? "\n" : " ");
    }
    judge<N, D>(c, s, vm::str("noise of kind ", kind), -1);
}

template <int N, int D>
static void sections(long q, long t)
{
    vm::section(vm::str("undamaged files of ", N, "-cells in ", D, "D"), q / 10, t / 10, sound<N, D>);
    vm::section(vm::str("damaged files of ", N, "-cells in ", D, "D"), q, t, damaged<N, D>);
    vm::section(vm::str("mixed files of ", N, "-cells in ", D, "D"), q / 5, t / 5, mixed<N, D>);
    vm::section(vm::str("truncated files of ", N, "-cells in ", D, "D"), q / 2, 700, truncated<N, D>);
    vm::section(vm::str("noise for ", N, "-cells in ", D, "D"), q / 4, t / 4, noise<N, D>);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    journal::info_t("mito.summit.mesh_reader").deactivate();
    signal(SIGPIPE, SIG_IGN);
    sections<2, 2>(400, 20000);
    sections<1, 1>(200, 6000);
    sections<1, 3>(200, 6000);
    sections<2, 3>(200, 6000);
    sections<3, 3>(400, 20000);
    return vm::finish();
}
