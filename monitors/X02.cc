// X02: the same workflows, recorded; the recordings of differently built and differently placed processes are compared offline
#include "workflow.h"
#include <cstdlib>

// allocation in shuffled places: every size keeps a few spare blocks, and hands out any of them
static bool shuffling = false;
static void * shuffled(size_t n)
{
    static uint64_t state = 88172645463325252ull;
    constexpr int K = 16, classes = 512;
    static void * spare[classes][K];
    size_t c = (n + 15) / 16;
    if (!shuffling || c >= classes) return malloc(n ? n : 1);
    state ^= state << 13, state ^= state >> 7, state ^= state << 17;
    int k = state % K;
    void * p = spare[c][k];
    spare[c][k] = malloc(c ? 16 * c : 1);
    return p ? p : malloc(c ? 16 * c : 1);
}
void * operator new(size_t n)
{
    if (void * p = shuffled(n)) return p;
    throw std::bad_alloc();
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }

static FILE * out = nullptr;
static int history = 0;

template <int N, int D>
static void work(vm::Case & c, const char * section)
{
    auto & r = c.rng;
    wf::Stats stats;
    uint64_t own = r.next(), past = own ^ (0x9e3779b97f4a7c15ull * (history + 1));
    // what happened before
    std::unique_ptr<vm::HeapNoise> noise;
    std::vector<std::unique_ptr<wf::World<N, D>>> alive;
    vm::Rng q(past);
    wf::Log nowhere;
    if (history) {
        noise = std::make_unique<vm::HeapNoise>(q, q.pick(200));
        for (int i = q.pick(4); i > 0; --i) {
            auto w = std::make_unique<wf::World<N, D>>(q, nowhere, stats, 3);
            for (int k = q.pick(4); k > 0; --k) w->step();
            if (q.coin()) alive.push_back(std::move(w));
        }
    }
    wf::Log log;
    log.file = out;
    fprintf(out, "C %s %ld\n", section, c.index);
    vm::Rng mine(own);
    wf::World<N, D> world(mine, log, stats, c.thorough() ? 5 : 4);
    c.distinct(vm::hreal(world.d.x[0][0]));
    int steps = (int) mine.range(3, c.thorough() ? 24 : 10);
    for (int i = 0; i < steps; ++i) {
        if (history && q.coin(0.3)) { // and what happens next to it
            if (q.coin() || alive.empty()) alive.push_back(std::make_unique<wf::World<N, D>>(q, nowhere, stats, 2));
            else if (q.coin()) alive.erase(alive.begin() + q.pick((int) alive.size()));
            else alive.back()->step();
        }
        world.step();
    }
    world.run(0);
    c.check("workflow:finished", true);
    for (auto & [k, v] : stats.ops) c.count(k, v);
    c.count("whole observations", log.wholes);
    c.count("real observations", log.reals);
    if (c.wants_sample()) { std::string s; for (auto & [k, v] : stats.ops) s += vm::str(k, " ", v, "; "); c.sample(s); }
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    const char * name = getenv("X02_OUT");
    out = fopen(name ? name : "/dev/stdout", "w");
    if (const char * h = getenv("X02_HISTORY")) history = atoi(h);
    if (const char * h = getenv("X02_SHUFFLE")) shuffling = atoi(h);
    mito::petsc::initialize();
    journal::info_t("discretization.discrete_system").deactivate();
    journal::info_t("mito.summit.mesh_reader").deactivate();
    std::vector<std::function<void()>> sections {
        [] { vm::section("segments in 1D", 60, 600, [](vm::Case & c) { work<1, 1>(c, "s1"); }); },
        [] { vm::section("segments in 2D", 40, 400, [](vm::Case & c) { work<1, 2>(c, "s2"); }); },
        [] { vm::section("triangles in 2D", 80, 1000, [](vm::Case & c) { work<2, 2>(c, "t2"); }); },
        [] { vm::section("triangles in 3D", 50, 500, [](vm::Case & c) { work<2, 3>(c, "t3"); }); },
        [] { vm::section("tetrahedra in 3D", 40, 400, [](vm::Case & c) { work<3, 3>(c, "k3"); }); },
    };
    if (history % 2) std::reverse(sections.begin(), sections.end());
    for (auto & s : sections) s();
    mito::petsc::finalize();
    fclose(out);
    return vm::finish();
}
