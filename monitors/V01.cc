// V01: visualization files mirror meshes, clouds and fields
#include "vtk.h"
using namespace vtkm;
void second_unit(std::vector<std::string> & names);

static auto checker(vm::Case & c)
{
    return [&c](const char * rule, bool ok, const auto & msg) { c.check(rule, ok, msg); };
}
static auto one_file(vm::Case & c, const std::string & name)
{
    return [&c, name](const auto & ck, const Expect & e, int N) {
        c.check("file:written-once", vtkstub::written.size() == 1, [&] { return vm::str(vtkstub::written.size(), " files written"); });
        for (auto & s : vtkstub::written) judge(ck, s, e, name + ".vtu", "vtu", N);
        for (auto & m : vtkstub::misuse) c.check("vtk:used-properly", false, [&] { return m; });
        c.check("vtk:used-properly", vtkstub::misuse.empty());
        vtkstub::misuse.clear();
    };
}

template <int N, int D, class C = geo::coordinates_t<D, geo::CARTESIAN>>
static void mesh(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    using cell_t = geo::geometric_simplex_t<N, D>;
    using node_t = geo::node_t<D>;
    mgen::Opt o;
    o.max = N == 3 ? 2 : 4;
    if (r.coin(0.15)) o.max = N == 3 ? 6 : 14;
    auto d = mgen::random<N>(r, o);
    long before = vtkstub::alive;
    geo::coordinate_system_t<C> cs;
    Expect e;
    std::vector<node_t> nodes;
    mgen::embed(d, D, r, false);
    for (size_t i = 0; i < d.x.size(); ++i) {
        auto x = [&] {
            if constexpr (std::is_same_v<C, mgen::cart_t<D>>) return mgen::coords<D>(d.x[i]);
            else return random_coords<C>(r);
        }();
        nodes.push_back(geo::node(cs, x));
        e.x[(int) i] = place(x);
    }
    // some nodes are not shared: others on the same vertex and point take their place
    std::map<int, node_t> by;
    if (r.coin(0.3)) {
        e.unique = false;
        for (auto & v : d.c)
            for (auto & i : v)
                if (r.coin(0.2)) {
                    nodes.push_back(node_t(nodes[i]->vertex(), nodes[i]->point()));
                    e.x[(int) nodes.size() - 1] = e.x[i];
                    i = (int) nodes.size() - 1;
                }
        c.count("meshes with unshared nodes");
    }
    auto mesh = mito::mesh::mesh<cell_t>();
    for (auto & v : d.c)
        mesh.insert([&]<int... I>(mito::tensor::integer_sequence<I...>) { return typename cell_t::nodes_type { nodes[v[I]]... }; }(mito::tensor::make_integer_sequence<N + 1> {}));
    if (r.coin(0.3)) {
        int k = r.pick((int) d.c.size());
        for (int i = 0; i < k; ++i) {
            int n = r.pick(mesh.nCells());
            auto it = mesh.cells().begin();
            for (int j = 0; j < n; ++j) ++it;
            std::array<int, N + 1> l;
            int j = 0;
            for (const auto & q : it->nodes()) l[j++] = (int) (std::find(nodes.begin(), nodes.end(), q) - nodes.begin());
            mesh.erase(*it);
            d.c.erase(std::find(d.c.begin(), d.c.end(), l));
        }
        c.count("meshes with erased cells");
    }
    for (auto & v : d.c) e.cells.push_back(std::vector<int>(v.begin(), v.end()));
    auto used = d.used();
    std::erase_if(e.x, [&](auto & p) { return !used.count(p.first); });
    std::vector<std::pair<int, node_t>> entries;
    for (int i : used) entries.push_back({ i, nodes[i] });
    c.distinct(vm::hcomb(vm::hreal(d.x[0][0]), d.c.size()));
    c.count("cells", d.c.size());
    auto ck = checker(c);
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::mesh_field<Y>(mesh, name); };
    std::string name = vm::str("m", r.pick(1000));
    if (r.coin(0.3)) {
        auto w = vtk::grid_writer(name, mesh, cs);
        vtkstub::written.clear();
        w.write();
        one_file(c, name)(ck, e, N);
    }
    {
        auto w = vtk::field_writer(name, mesh, cs);
        if (r.coin(0.3)) {
            // two writers at the same time
            auto w2 = vtk::field_writer(name + "-other", mesh, cs);
            session<N, D>(c, w2, make, entries, e, ck, one_file(c, name + "-other"));
        }
        session<N, D>(c, w, make, entries, e, ck, one_file(c, name));
    }
    vtkstub::written.clear();
    c.check("vtk:objects-released", vtkstub::alive == before, [&] { return vm::str(vtkstub::alive - before, " VTK objects left behind"); });
    c.check("mesh:unchanged", mesh.nCells() == (int) d.c.size());
    c.sample(vm::str(d.c.size(), " cells, ", used.size(), " nodes"));
}

template <class C>
static void cloud(vm::Case & c)
{
    auto & r = c.rng;
    constexpr int D = C::dim;
    auto & cloud = geo::point_cloud<D>();
    geo::coordinate_system_t<C> cs;
    long before = vtkstub::alive;
    Expect e;
    std::vector<std::pair<int, geo::point_t<D>>> entries;
    {
        int n = r.coin(0.1) ? r.pick(400) : r.pick(60);
        std::vector<geo::point_t<D>> given_up;
        for (int i = 0; i < n; ++i) {
            auto p = cloud.point();
            auto x = random_coords<C>(r);
            if (e.unique && !entries.empty() && r.coin(0.02)) { x = cs.coordinates(entries[0].second); e.unique = false; }
            cs.place(p, x);
            if (r.coin(0.2)) { given_up.push_back(p); continue; }
            entries.push_back({ i, p });
            e.x[i] = place(x);
            if (entries.size() == 1 && r.coin(0.3)) given_up.clear();
        }
        if (r.coin()) {
            // still there
            int i = 1000;
            for (auto & p : given_up) { entries.push_back({ i, p }); e.x[i++] = place(cs.coordinates(p)); }
        }
    }
    // the coordinate system keeps every point it has placed
    std::set<uintptr_t> own;
    for (auto & [l, p] : entries) own.insert(p.id());
    int i = 5000;
    for (const auto & p : cloud.points()) if (!own.count(p.id())) { entries.push_back({ i, p }); e.x[i++] = place(cs.coordinates(p)); }
    c.distinct(vm::hcomb(entries.size(), e.x.empty() ? 0 : vm::hreal(e.x.begin()->second[0])));
    c.count("points", entries.size());
    auto ck = checker(c);
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::point_field<Y>(cloud, name); };
    std::string name = vm::str("cloud", r.pick(1000));
    if (r.coin(0.3)) {
        auto w = vtk::grid_writer(name, cloud, cs);
        vtkstub::written.clear();
        w.write();
        one_file(c, name)(ck, e, 0);
    }
    {
        auto w = vtk::field_writer(name, cloud, cs);
        session<0, D>(c, w, make, entries, e, ck, one_file(c, name));
    }
    vtkstub::written.clear();
    c.check("vtk:objects-released", vtkstub::alive == before, [&] { return vm::str(vtkstub::alive - before, " VTK objects left behind"); });
    c.sample(vm::str(entries.size(), " points"));
}

template <int N, int P>
static void space(vm::Case & c)
{
    auto & r = c.rng;
    vm::HeapNoise noise(r, r.pick(30));
    using L = mgen::Lib<N, N>;
    using E = femt::element_t<N, P>;
    using dof_t = disc::discretization_node_t;
    mgen::Opt o;
    if (r.coin(0.15)) o.max = 14;
    auto d = mgen::random<N>(r, o);
    mgen::embed(d, N, r, true);
    L lib;
    lib.make_nodes(d.x);
    lib.pollute(d, r, r.coin(0.5) ? 0.4 : 0);
    typename L::mesh_t mesh = mito::mesh::mesh<typename L::cell_t>();
    lib.fill(mesh, d);
    long before = vtkstub::alive;
    auto manifold = mito::manifolds::manifold(mesh, lib.cs);
    auto zero = mito::functions::zero<mgen::cart_t<N>>;
    auto boundary = mito::mesh::boundary(mesh);
    auto bc = mito::constraints::dirichlet_bc(boundary, zero);
    auto fs = mito::fem::function_space<E>(manifold, bc);
    Expect e;
    std::map<int, dof_t> at;
    std::set<dof_t> all;
    for (const auto & el : fs.elements()) {
        auto l = lib.labels(el.cell());
        const auto & k = el.connectivity();
        for (int i = 0; i <= N; ++i) at.insert({ l[i], k[i] });
        for (auto & n : k) all.insert(n);
        e.cells.push_back(l);
    }
    for (auto & [l, n] : at) e.x[l] = d.x[l];
    std::vector<std::pair<int, dof_t>> entries(at.begin(), at.end());
    c.distinct(vm::hreal(d.x[0][0]));
    c.count("cells", d.c.size());
    auto ck = checker(c);
    auto make = [&]<class Y>(std::type_identity<Y>, std::string name) { return disc::nodal_field_t<Y>(all, name); };
    std::string name = vm::str("fs", r.pick(1000));
    if (r.coin(0.3)) {
        auto w = vtk::grid_writer(name, fs, lib.cs);
        vtkstub::written.clear();
        w.write();
        one_file(c, name)(ck, e, N);
    }
    {
        auto w = vtk::field_writer(name, fs, lib.cs);
        session<N, N>(c, w, make, entries, e, ck, one_file(c, name));
    }
    {
        // the values of a finite element field
        auto w = vtk::field_writer(name, fs, lib.cs);
        auto f = fs.template fem_field<double>("solution");
        Expect e2 = e;
        std::map<int, double> v;
        for (auto & n : all) f(n) = r.real(-5, 5);
        for (auto & [l, n] : at) v[l] = f(n);
        w.record(f.nodal_values());
        e2.field("solution", v);
        vtkstub::written.clear();
        w.write();
        one_file(c, name)(ck, e2, N);
    }
    vtkstub::written.clear();
    c.check("vtk:objects-released", vtkstub::alive == before, [&] { return vm::str(vtkstub::alive - before, " VTK objects left behind"); });
    c.sample(vm::str("degree ", P, ", ", d.c.size(), " cells"));
}

// another translation unit of the same program writes as well
static void units(vm::Case & c)
{
    std::vector<std::string> names;
    vtkstub::written.clear();
    second_unit(names);
    c.check("several-translation-units", names == std::vector<std::string> { "two.vtu" } && vtkstub::written.size() == 1 && vtkstub::written[0].points.size() == 3);
    c.distinct(1);
}

int main(int argc, char ** argv)
{
    vm::init(argc, argv);
    using polar = geo::coordinates_t<2, geo::POLAR>;
    using spherical = geo::coordinates_t<3, geo::SPHERICAL>;
    vm::section("segments-1d", 60, 2000, mesh<1, 1>);
    vm::section("segments-2d", 60, 2000, mesh<1, 2>);
    vm::section("segments-3d", 60, 2000, mesh<1, 3>);
    vm::section("triangles-2d", 100, 4000, mesh<2, 2>);
    vm::section("triangles-3d", 60, 2000, mesh<2, 3>);
    vm::section("tetrahedra-3d", 60, 2000, mesh<3, 3>);
    vm::section("polar", 60, 2000, mesh<2, 2, polar>);
    vm::section("polar-segments", 30, 1000, mesh<1, 2, polar>);
    vm::section("spherical", 60, 2000, mesh<3, 3, spherical>);
    vm::section("spherical-triangles", 30, 1000, mesh<2, 3, spherical>);
    vm::section("cloud-1d", 60, 2000, cloud<mgen::cart_t<1>>);
    vm::section("cloud-2d", 60, 2000, cloud<mgen::cart_t<2>>);
    vm::section("cloud-3d", 60, 2000, cloud<mgen::cart_t<3>>);
    vm::section("cloud-polar", 60, 2000, cloud<polar>);
    vm::section("cloud-spherical", 60, 2000, cloud<spherical>);
    vm::section("space-segment-p1", 60, 2000, space<1, 1>);
    vm::section("space-triangle-p1", 60, 2000, space<2, 1>);
    vm::section("space-triangle-p2", 60, 2000, space<2, 2>);
    vm::section("units", 1, 1, units);
    return vm::finish();
}
