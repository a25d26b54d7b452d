// A small runtime-monitoring framework: seeded generation, oracle rules with counters, crash-safe attribution.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace vm {

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    inline uint64_t hstr(const std::string & s)
    {
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        return mix(h);
    }
    inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix(h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2))); }
    template <class C>
    uint64_t hseq(const C & c)
    {
        uint64_t h = 77;
        for (const auto & v : c) h = hcomb(h, (uint64_t) v);
        return h;
    }
    inline uint64_t hreal(double x) { uint64_t u; std::memcpy(&u, &x, 8); return mix(u); }

    class Rng {
      public:
        explicit Rng(uint64_t s = 1) : _s(mix(s)) {}
        uint64_t next() { return mix(_s += 0x9e3779b97f4a7c15ULL); }
        // uniform integer in [a, b]
        int64_t range(int64_t a, int64_t b) { return a + (int64_t) (next() % (uint64_t) (b - a + 1)); }
        int pick(int n) { return (int) (next() % (uint64_t) n); }
        double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
        double real(double a, double b) { return a + (b - a) * unit(); }
        bool coin(double p = 0.5) { return unit() < p; }
        template <class C>
        void shuffle(C & c)
        {
            for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[next() % i]);
        }
        std::vector<int> perm(int n)
        {
            std::vector<int> p(n);
            std::iota(p.begin(), p.end(), 0);
            shuffle(p);
            return p;
        }
        template <class C>
        auto & of(C & c) { return c[next() % c.size()]; }
        // index by weights
        int weighted(std::initializer_list<int> w)
        {
            int tot = 0;
            for (int x : w) tot += x;
            int r = pick(tot), i = 0;
            for (int x : w) { if (r < x) return i; r -= x; ++i; }
            return 0;
        }
      private:
        uint64_t _s;
    };

    struct Failed : std::exception {
        const char * what() const noexcept override { return "oracle rule violated"; }
    };

    struct Marker { char section[120]; long index; char note[256]; };

    struct Section { std::string name; long cases = 0; long trivial = 0; uint64_t evals = 0; std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples; double cpu = 0; std::map<std::string, uint64_t> counters; };

    struct State {
        uint64_t seed = 1;
        std::string tier = "quick", report, only_section;
        long only_case = -1;
        int shard = 0, nshards = 1;
        double scale = 1;
        std::vector<std::string> extra;
        std::vector<Section> sections;
        std::map<std::string, uint64_t> rules;
        int violations = 0;
        Marker * mark = nullptr;
        Marker local {};
        int hang_s = 60;
    };
    inline State & state() { static State * s = new State; return *s; }

    inline void hang_handler(int)
    {
        const char * m = "VMON-HANG: case exceeded its CPU budget\n";
        (void) !write(2, m, strlen(m));
        _exit(77);
    }
    inline void arm(int s)
    {
        itimerval t {};
        t.it_value.tv_sec = s;
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    inline std::string esc(const std::string & s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else if (c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }

    inline void violation(const std::string & rule, const std::string & msg)
    {
        auto & st = state();
        st.violations++;
        std::string line = "{\"rule\": \"" + esc(rule) + "\", \"section\": \"" + esc(st.mark->section) + "\", \"case\": "
                         + std::to_string(st.mark->index) + ", \"message\": \"" + esc(msg) + "\"}\n";
        fprintf(stderr, "VMON-VIOLATION %s", line.c_str());
        if (!st.report.empty()) {
            FILE * f = fopen((st.report + ".viol").c_str(), "a");
            if (f) { fwrite(line.data(), 1, line.size(), f); fclose(f); }
        }
    }

    inline void init(int argc, char ** argv)
    {
        auto & st = state();
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") st.seed = std::stoull(val());
            else if (a == "--tier") st.tier = val();
            else if (a == "--report") st.report = val();
            else if (a == "--section") st.only_section = val();
            else if (a == "--case") st.only_case = std::stol(val());
            else if (a == "--scale") st.scale = std::stod(val());
            else if (a == "--shard") st.shard = std::stoi(val());
            else if (a == "--nshards") st.nshards = std::stoi(val());
            else if (a == "--hang") st.hang_s = std::stoi(val());
            else st.extra.push_back(a);
        }
        st.mark = &st.local;
        if (!st.report.empty()) {
            int fd = open((st.report + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Marker)) == 0) {
                void * p = mmap(nullptr, sizeof(Marker), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) st.mark = (Marker *) p;
            }
        }
        strcpy(st.mark->section, "start");
        signal(SIGPROF, hang_handler);
    }

    class Case {
      public:
        Case(Section & s, long i) : index(i), _sec(s), rng(hcomb(hcomb(mix(state().seed), hstr(s.name)), (uint64_t) i)) {}
        long index;
      private:
        Section & _sec;
      public:
        Rng rng;
        bool thorough() const { return state().tier == "thorough"; }
        // register a distinct, non-trivial observation
        void distinct(uint64_t h)
        {
            if (_sec.distinct.size() < 4000000) _sec.distinct.insert(h);
        }
        void trivial() { _sec.trivial++; }
        void eval(uint64_t n = 1) { _sec.evals += n; }
        void count(const std::string & k, uint64_t n = 1) { _sec.counters[k] += n; }
        void sample(const std::string & s) { if (_sec.samples.size() < 2) _sec.samples.push_back(s); }
        bool wants_sample() const { return _sec.samples.size() < 2; }
        void note(const std::string & s) { strncpy(state().mark->note, s.c_str(), 255); }
        void check(const char * rule, bool ok) { check(rule, ok, [] { return std::string(); }); }
        template <class F>
        void check(const char * rule, bool ok, F && msg)
        {
            auto & st = state();
            _sec.evals++;
            st.rules[rule]++;
            if (!ok) {
                std::string m;
                if constexpr (std::is_invocable_v<F>) m = msg();
                else m = msg;
                violation(rule, m);
                throw Failed();
            }
        }
        // |a - b| <= tol * (1 + |b|) (and no nan)
        void near(const char * rule, double a, double b, double tol, const std::string & what = "")
        {
            bool ok = std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (1.0 + std::fabs(b));
            check(rule, ok, [&] {
                char buf[256];
                snprintf(buf, 256, "observed %.17g expected %.17g tol %g ", a, b, tol);
                return std::string(buf) + what;
            });
        }
        // |a - b| <= tol * scale
        void near(const char * rule, double a, double b, double tol, double scale, const std::string & what = "") { near_abs(rule, a, b, tol * scale, what); }
        // same with an explicit tolerance
        void near_abs(const char * rule, double a, double b, double tol, const std::string & what = "")
        {
            bool ok = std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol;
            check(rule, ok, [&] {
                char buf[256];
                snprintf(buf, 256, "observed %.17g expected %.17g abs tol %g ", a, b, tol);
                return std::string(buf) + what;
            });
        }
    };

    // run {quick} (or {thorough}) cases of a section
    template <class F>
    void section(const std::string & name, long quick, long thorough, F && f)
    {
        auto & st = state();
        if (!st.only_section.empty() && st.only_section != name) return;
        st.sections.push_back({});
        Section & sec = st.sections.back();
        sec.name = name;
        long n = st.tier == "thorough" ? thorough : quick;
        if (n > 1) n = std::max(1L, (long) (n * st.scale));
        int failures = 0;
        auto t0 = clock();
        for (long i = 0; i < n; ++i) {
            if (st.only_case >= 0) { if (i != st.only_case) { if (st.only_case < n) continue; i = st.only_case; } }
            else if (i % st.nshards != st.shard) continue;
            strncpy(st.mark->section, name.c_str(), 119);
            st.mark->index = i;
            st.mark->note[0] = 0;
            sec.cases++;
            arm(st.hang_s);
            try {
                Case c(sec, i);
                f(c);
            } catch (const Failed &) {
                ++failures;
            } catch (const std::exception & e) {
                violation("unexpected-exception", e.what());
                ++failures;
            } catch (...) {
                violation("unexpected-exception", "unknown exception");
                ++failures;
            }
            arm(0);
            if (failures >= 3) break;
        }
        sec.cpu = double(clock() - t0) / CLOCKS_PER_SEC;
        strcpy(st.mark->section, "between");
        st.mark->index = -1;
    }

    inline int finish()
    {
        auto & st = state();
        std::ostringstream o;
        o << "{\"violations\": " << st.violations << ", \"sections\": [";
        bool first = true;
        for (auto & s : st.sections) {
            o << (first ? "" : ", ") << "{\"name\": \"" << esc(s.name) << "\", \"cases\": " << s.cases << ", \"trivial\": " << s.trivial
              << ", \"evaluations\": " << s.evals << ", \"distinct\": " << s.distinct.size() << ", \"cpu_s\": " << s.cpu << ", \"counters\": {";
            bool f2 = true;
            for (auto & [k, v] : s.counters) { o << (f2 ? "" : ", ") << "\"" << esc(k) << "\": " << v; f2 = false; }
            o << "}, \"samples\": [";
            f2 = true;
            for (auto & x : s.samples) { o << (f2 ? "" : ", ") << "\"" << esc(x) << "\""; f2 = false; }
            o << "]}";
            first = false;
        }
        o << "], \"rules\": {";
        first = true;
        for (auto & [k, v] : st.rules) { o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v; first = false; }
        o << "}}\n";
        if (!st.report.empty()) {
            FILE * f = fopen(st.report.c_str(), "w");
            if (f) { auto s = o.str(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
        } else
            printf("%s", o.str().c_str());
        strcpy(st.mark->section, "exit");
        st.mark->index = -1;
        arm(st.hang_s);
        return st.violations ? 1 : 0;
    }

    template <class... A>
    std::string str(const A &... a)
    {
        std::ostringstream o;
        o.precision(17);
        ((o << a), ...);
        return o.str();
    }
    template <class C>
    std::string seq(const C & c)
    {
        std::ostringstream o;
        o.precision(17);
        o << "[";
        bool f = true;
        for (const auto & x : c) { o << (f ? "" : " ") << x; f = false; }
        o << "]";
        return o.str();
    }

    // sign of a permutation by counting cycles (independent of any swap-sort)
    inline int parity(const std::vector<int> & p)
    {
        int n = (int) p.size(), s = 1;
        std::vector<char> seen(n, 0);
        for (int i = 0; i < n; ++i) {
            if (seen[i]) continue;
            int len = 0, j = i;
            while (!seen[j]) { seen[j] = 1; j = p[j]; ++len; }
            if (len % 2 == 0) s = -s;
        }
        return s;
    }

    // allocations that perturb the heap layout
    struct HeapNoise {
        std::vector<void *> p;
        HeapNoise(Rng & r, int n)
        {
            for (int i = 0; i < n; ++i) p.push_back(malloc((size_t) r.range(1, 4000)));
            for (auto & x : p) if (r.coin(0.4)) { free(x); x = nullptr; }
        }
        ~HeapNoise() { for (auto x : p) free(x); }
        HeapNoise(const HeapNoise &) = delete;
        HeapNoise & operator=(const HeapNoise &) = delete;
    };
}
