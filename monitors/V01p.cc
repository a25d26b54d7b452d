// V01: visualization files written by the ranks of a parallel job
#include "vtk.h"
using namespace vtkm;
static int rank_ = 0, size_ = 1;

// the ranks' complaints of one case, made known to all so that they stay in step
struct Ballot {
    std::string first;
    long evaluations = 0;
    auto checker()
    {
        return [this](const char * rule, bool ok, const auto & msg) {
            ++evaluations;
            if (!ok && first.empty()) first = std::string(rule) + ": rank " + std::to_string(rank_) + ": " + std::string(msg());
        };
    }
    void count(vm::Case & c)
    {
        int mine = first.empty() ? size_ : rank_, who = 0;
        MPI_Allreduce(&mine, &who, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        std::string text = first;
        if (who < size_) {
            int n = (int) text.size();
            MPI_Bcast(&n, 1, MPI_INT, who, MPI_COMM_WORLD);
            text.resize(n);
            MPI_Bcast(text.data(), n, MPI_CHAR, who, MPI_COMM_WORLD);
        }
        for (long i = 1; i < evaluations; ++i) c.eval();
        c.check("parallel-files", who == size_, [&] { return text; });
        first.clear();
        evaluations = 0;
    }
};

template <class W>
static void write_and_judge(vm::Case & c, W & w, const Expect & e, const std::string & name, int N)
{
    Ballot b;
    auto ck = b.checker();
    vtkstub::written.clear();
    w.write();
    ck("file:written-once", vtkstub::written.size() == 2, [&] { return vm::str(vtkstub::written.size(), " files written"); });
    int pieces = 0, summaries = 0;
    for (auto & s : vtkstub::written) {
        if (s.kind == "vtu") ++pieces, judge(ck, s, e, name + "_" + std::to_string(rank_) + ".vtu", "vtu", N);
        else {
            ++summaries;
            judge(ck, s, e, name + ".pvtu", "pvtu", N);
            ck("pieces", s.pieces == size_ && s.first == rank_ && s.last == rank_, [&] { return vm::str("piece ", s.first, " to ", s.last, " of ", s.pieces); });
        }
    }
    ck("file:one-piece-one-summary", pieces == 1 && summaries == 1, [&] { return vm::str(pieces, " pieces ", summaries, " summaries"); });
    ck("vtk:used-properly", vtkstub::misuse.empty(), [&] { return vtkstub::misuse.empty() ? std::string() : vtkstub::misuse[0]; });
    vtkstub::misuse.clear();
    int fin = 0;
    MPI_Finalized(&fin);
    ck("message-passing-still-there", !fin, [&] { return std::string("shut down"); });
    b.count(c);
}

// every rank has a part of its own; the files of the ranks are their parts
template <int N, int D>
static void mesh(vm::Case & c)
{
    auto & shared = c.rng;
    auto r = vm::Rng(shared.next() + 1000003 * rank_);
    using L = mgen::Lib<N, D>;
    mgen::Opt o;
    o.max = N == 3 ? 2 : 4;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, D, r, false);
    L lib;
    lib.make_nodes(d.x);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    Expect e;
    std::vector<std::pair<int, geo::node_t<D>>> entries;
    for (int i : d.used()) { e.x[i] = d.x[i]; entries.push_back({ i, lib.nodes[i] }); }
    for (auto & v : d.c) e.cells.push_back(std::vector<int>(v.begin(), v.end()));
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::mesh_field<Y>(mesh, name); };
    std::string name = vm::str("p", shared.pick(1000));
    {
        auto w = vtk::parallel_grid_writer(name, mesh, lib.cs);
        write_and_judge(c, w, e, name, N);
    }
    auto w = vtk::parallel_field_writer(name, mesh, lib.cs);
    int files = (int) shared.range(1, 2);
    for (int i = 0; i < files; ++i) {
        if (shared.coin(0.6)) record_labels(w, make, entries, e);
        int n = shared.pick(3);
        for (int j = 0; j < n; ++j) {
            if (shared.coin()) record<double>(c, w, make, entries, e);
            else record<mito::tensor::vector_t<3>>(c, w, make, entries, e);
        }
        write_and_judge(c, w, e, name, N);
    }
    c.distinct(vm::hcomb(c.index, N * 10 + D));
    c.sample(vm::str("rank 0 of ", size_, ": ", d.c.size(), " cells"));
}
template <int N>
static void space(vm::Case & c)
{
    auto & shared = c.rng;
    auto r = vm::Rng(shared.next() + 1000003 * rank_);
    using L = mgen::Lib<N, N>;
    using E = femt::element_t<N, 1>;
    auto d = mgen::random<N>(r);
    mgen::embed(d, N, r, true);
    L lib;
    lib.make_nodes(d.x);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto boundary = mito::mesh::boundary(mesh);
    auto bc = mito::constraints::dirichlet_bc(boundary, zero);
    auto fs = mito::fem::function_space<E>(manifold, bc);
    Expect e;
    std::map<int, disc::discretization_node_t> at;
    for (const auto & el : fs.elements()) {
        auto l = lib.labels(el.cell());
        for (int i = 0; i <= N; ++i) at.insert({ l[i], el.connectivity()[i] });
        e.cells.push_back(l);
    }
    std::set<disc::discretization_node_t> all;
    for (auto & [l, n] : at) { e.x[l] = d.x[l]; all.insert(n); }
    std::vector<std::pair<int, disc::discretization_node_t>> entries(at.begin(), at.end());
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::nodal_field_t<Y>(all, name); };
    std::string name = vm::str("s", shared.pick(1000));
    {
        auto w = vtk::parallel_grid_writer(name, fs, lib.cs);
        write_and_judge(c, w, e, name, N);
    }
    auto w = vtk::parallel_field_writer(name, fs, lib.cs);
    record<double>(c, w, make, entries, e);
    record_labels(w, make, entries, e);
    write_and_judge(c, w, e, name, N);
    c.distinct(vm::hcomb(c.index, N));
}
template <class C>
static void cloud(vm::Case & c)
{
    auto & shared = c.rng;
    auto r = vm::Rng(shared.next() + 1000003 * rank_);
    auto & cloud = geo::point_cloud<C::dim>();
    geo::coordinate_system_t<C> cs;
    Expect e;
    std::vector<std::pair<int, geo::point_t<C::dim>>> entries;
    int n = r.pick(40);
    for (int i = 0; i < n; ++i) {
        auto p = cloud.point();
        auto x = random_coords<C>(r);
        cs.place(p, x);
        entries.push_back({ i, p });
        e.x[i] = place(x);
    }
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::point_field<Y>(cloud, name); };
    std::string name = vm::str("c", shared.pick(1000));
    {
        auto w = vtk::parallel_grid_writer(name, cloud, cs);
        write_and_judge(c, w, e, name, 0);
    }
    auto w = vtk::parallel_field_writer(name, cloud, cs);
    record<mito::tensor::vector_t<2>>(c, w, make, entries, e);
    if (shared.coin()) record_labels(w, make, entries, e);
    write_and_judge(c, w, e, name, 0);
    c.distinct(vm::hcomb(c.index, n));
}

int main(int argc, char ** argv)
{
    std::vector<std::string> a(argv, argv + argc);
    if (const char * rk = getenv("OMPI_COMM_WORLD_RANK"); rk && std::string(rk) != "0")
        for (size_t i = 1; i + 1 < a.size(); ++i) if (a[i] == "--report") a[i + 1] += std::string(".rank") + rk;
    std::vector<char *> p;
    for (auto & s : a) p.push_back(s.data());
    vm::init((int) p.size(), p.data());
    MPI_Init(nullptr, nullptr);
    MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    MPI_Comm_size(MPI_COMM_WORLD, &size_);
    vm::section("triangles-2d", 40, 800, mesh<2, 2>);
    vm::section("segments-3d", 20, 400, mesh<1, 3>);
    vm::section("triangles-3d", 20, 400, mesh<2, 3>);
    vm::section("tetrahedra-3d", 20, 400, mesh<3, 3>);
    vm::section("space-1d", 20, 400, space<1>);
    vm::section("space-2d", 30, 600, space<2>);
    vm::section("cloud-3d", 30, 600, cloud<mgen::cart_t<3>>);
    vm::section("cloud-spherical", 20, 400, cloud<geo::coordinates_t<3, geo::SPHERICAL>>);
    MPI_Finalize();
    return vm::finish();
}
