// X01: workflows through the whole library have no undefined behaviour, up to the end of the process
// What is left alive at the end of main sits in static objects that are older than the library's own global state.
#pragma once
#include "workflow.h"

template <int N, int D>
static std::vector<std::unique_ptr<typename mgen::Lib<N, D>::mesh_t>> left_meshes;
template <int D>
static std::vector<mito::geometry::node_t<D>> left_nodes;
template <int N>
static std::vector<mito::topology::simplex_t<N>> left_simplices;
template <int N, int D>
static std::vector<std::unique_ptr<mgen::Lib<N, D>>> left_libs;

template <int N, int D>
static void work(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    static FILE * nowhere = fopen("/dev/null", "w"); // whatever is seen is printed: its values must be defined
    wf::Log log;
    log.file = nowhere;
    wf::Stats stats;
    auto world = std::make_unique<wf::World<N, D>>(r, log, stats, c.thorough() ? 5 : 4);
    c.distinct(vm::hreal(world->d.x[0][0]));
    // a second one lives next to it for a while
    std::unique_ptr<wf::World<N, D>> other;
    int steps = (int) r.range(3, c.thorough() ? 30 : 12);
    for (int i = 0; i < steps; ++i) {
        if (!other && r.coin(0.15)) other = std::make_unique<wf::World<N, D>>(r, log, stats, 2);
        if (other && r.coin(0.3)) other->step();
        if (other && r.coin(0.15)) other.reset();
        world->step();
        c.check("workflow:mesh-alive", world->mesh && world->mesh->nCells() >= 0);
    }
    world->run(1);
    if (r.coin(0.1)) { // stays until the process ends
        left_meshes<N, D>.push_back(std::move(world->mesh));
        for (auto & n : world->lib.nodes) left_nodes<D>.push_back(n);
        for (auto & s : world->simplices) left_simplices<N>.push_back(s);
        if (r.coin()) { left_libs<N, D>.push_back(std::make_unique<mgen::Lib<N, D>>()); left_libs<N, D>.back()->make_nodes(world->d.x); }
        c.count("worlds alive at exit");
    }
    if (other && r.coin()) other.reset();
    world.reset();
    for (auto & [k, v] : stats.ops) c.count(k, v);
    c.count("whole observations", log.wholes);
    c.count("real observations", log.reals);
    if (c.wants_sample()) { std::string s; for (auto & [k, v] : stats.ops) s += vm::str(k, " ", v, "; "); c.sample(s); }
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
#ifndef WF_DENSE
    mito::petsc::initialize();
#endif
    journal::info_t("discretization.discrete_system").deactivate();
    journal::info_t("mito.summit.mesh_reader").deactivate();
    vm::section("segments in 1D", 60, 2500, work<1, 1>);
    vm::section("segments in 2D", 40, 2000, work<1, 2>);
    vm::section("triangles in 2D", 80, 4000, work<2, 2>);
    vm::section("triangles in 3D", 50, 2000, work<2, 3>);
    vm::section("tetrahedra in 3D", 40, 1500, work<3, 3>);
#ifndef WF_DENSE
    mito::petsc::finalize();
#endif
    return vm::finish();
}
