// S02: a process that performs the script it is given and logs events for the offline checker (bin/runners.py)
//   S02 <log prefix> <script>     letters of the script:
//   a b  look at the simulation from either translation unit      u  use message passing (sum and ring)
//   p q  initialize / finalize petsc through the library           m f  initialize / finalize message passing by hand
//   t    race eight threads to a singleton                         y  eight threads look at the simulation
//   o    other singletons and functions of the library             s  solve a linear system
//   g    message passing held by an object that lives until the process ends
//   d    an object that uses message passing when the process ends
#include "S02.h"
#include <cstring>
#include <ctime>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>

static int fd = -1;
void event(const char * format, ...)
{
    char line[512];
    va_list ap;
    va_start(ap, format);
    int n = vsnprintf(line, 510, format, ap);
    va_end(ap);
    line[n++] = '\n';
    if (write(fd, line, n) != n) _exit(99);
}

// what reaches the message-passing library
static bool over() { int f = 0; PMPI_Finalized(&f); return f; }
extern "C" int MPI_Init(int * argc, char *** argv)
{
    int f = 0;
    PMPI_Initialized(&f);
    event("init again=%d", f);
    return PMPI_Init(argc, argv);
}
extern "C" int MPI_Init_thread(int * argc, char *** argv, int required, int * provided)
{
    int f = 0;
    PMPI_Initialized(&f);
    event("init again=%d", f);
    return PMPI_Init_thread(argc, argv, required, provided);
}
extern "C" int MPI_Finalize()
{
    int f = 0, g = 0;
    PMPI_Initialized(&f);
    PMPI_Finalized(&g);
    event("finalize before-init=%d again=%d", !f, g);
    return PMPI_Finalize();
}
extern "C" int MPI_Abort(MPI_Comm comm, int code)
{
    event("abort %d", code);
    return PMPI_Abort(comm, code);
}

static View look()
{
    auto & s = mito::simulation::simulation();
    const auto & k = s.context();
    return { &s, &k, &s.clock(), k.task_id(), k.n_tasks(), s.clock() };
}
static void report(const char * who, const View & v)
{
    int rank = -1, size = -1;
    if (!over()) {
#ifdef WITH_MPI
        PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
        PMPI_Comm_size(MPI_COMM_WORLD, &size);
#else
        rank = 0, size = 1;
#endif
    }
    event("view %s simulation=%p context=%p clock=%p time=%.17g rank=%d size=%d world-rank=%d world-size=%d", who, v.simulation, v.context,
          v.clock, v.time, v.rank, v.size, rank, size);
}

#ifdef WITH_MPI
// an application that looks after message passing itself, until the process ends
struct Session {
    Session() { MPI_Init(nullptr, nullptr); }
    ~Session() { MPI_Finalize(); }
};
static void hold() { static Session s; }
// the last report of an application
struct LastWords {
    ~LastWords()
    {
        int f = 1;
        PMPI_Finalized(&f);
        int mine = 1, sum = 0, n = 0;
        if (!f) MPI_Comm_size(MPI_COMM_WORLD, &n), MPI_Allreduce(&mine, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        event("use ok=%d", !f && sum == n);
    }
};
static void later() { static LastWords w; }
#endif

int main(int argc, char ** argv)
{
    std::string name = std::string(argv[1]) + "." + std::to_string(getpid());
    fd = open(name.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
    event("start");
    journal::info_t("mito.simulation.context").deactivate();
    using namespace mito::simulation;
    event("types copyable=%d", std::is_copy_constructible_v<simulation_t> || std::is_move_constructible_v<simulation_t> || std::is_copy_assignable_v<simulation_t>
          || std::is_move_assignable_v<simulation_t>
          || std::is_copy_constructible_v<context_t> || std::is_move_constructible_v<context_t> || std::is_copy_assignable_v<context_t> || std::is_move_assignable_v<context_t>);
    for (const char * p = argv[2]; *p; ++p) {
        event("op %c", *p);
        switch (*p) {
        case 'a': report("a", look()); break;
        case 'b': report("b", other_look()); break;
        case 'm': MPI_Init(nullptr, nullptr); break;
        case 'f': MPI_Finalize(); break;
#ifdef WITH_MPI
        case 'g': hold(); break;
        case 'd': later(); break;
#endif
        case 'u': {
            int r, n;
            MPI_Comm_rank(MPI_COMM_WORLD, &r);
            MPI_Comm_size(MPI_COMM_WORLD, &n);
            int mine = r + 1, sum = 0, left = -1;
            MPI_Allreduce(&mine, &sum, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
            MPI_Sendrecv(&mine, 1, MPI_INT, (r + 1) % n, 7, &left, 1, MPI_INT, (r + n - 1) % n, 7, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
            event("use ok=%d", sum == n * (n + 1) / 2 && left == (r + n - 1) % n + 1);
            break;
        }
#ifdef WITH_PETSC
        case 'p': mito::petsc::initialize(); break;
        case 'q': mito::petsc::finalize(); break;
        case 's': {
            int r, n;
            MPI_Comm_rank(MPI_COMM_WORLD, &r);
            MPI_Comm_size(MPI_COMM_WORLD, &n);
            auto s = mito::matrix_solvers::petsc::linear_system("sys");
            s.create(3 * n);
            for (int i = 3 * r; i < 3 * r + 3; ++i) s.insert_matrix_value(i, i, 2.0), s.insert_rhs_value(i, 2.0 * i);
            s.assemble();
            auto k = mito::matrix_solvers::petsc::ksp(s);
            k.create();
            k.set_options("-ksp_type preonly -pc_type jacobi");
            k.solve();
            std::vector<double> x(3 * n);
            s.get_solution(x);
            bool ok = true;
            for (int i = 0; i < 3 * n; ++i) ok &= std::abs(x[i] - i) < 1e-12;
            k.destroy();
            s.destroy();
            event("solve ok=%d", ok);
            break;
        }
#endif
        case 't': {
            std::vector<const void *> seen(8);
            std::vector<std::thread> ts;
            std::atomic<int> ready = 0;
            for (int i = 0; i < 8; ++i)
                ts.emplace_back([&, i] {
                    ++ready;
                    while (ready < 8) {}
                    int v = i;
                    seen[i] = i % 2 ? other_probe(v) : &mito::utilities::Singleton<Probe>::GetInstance(v);
                });
            for (auto & t : ts) t.join();
            bool same = true;
            for (auto s : seen) same &= s == seen[0];
            int v = static_cast<const Probe *>(seen[0])->value;
            event("race same=%d constructed=%d value-ok=%d", same, Probe::constructed.load(), v >= 0 && v < 8 && v == static_cast<const Probe *>(other_probe(99))->value);
            break;
        }
        case 'y': {
            std::vector<View> seen(8);
            std::vector<std::thread> ts;
            for (int i = 0; i < 8; ++i) ts.emplace_back([&, i] { seen[i] = i % 2 ? other_look() : look(); });
            for (auto & t : ts) t.join();
            for (auto & v : seen) report("y", v);
            break;
        }
        case 'o': {
            bool same = other_singleton(0) == &mito::topology::topology() && other_singleton(1) == &mito::geometry::point_cloud<2>()
                        && other_singleton(2) == &mito::geometry::point_cloud<3>();
            event("others same=%d works=%d", same, other_library() == 3);
            break;
        }
        }
    }
    event("leave");
    return 0;
}
