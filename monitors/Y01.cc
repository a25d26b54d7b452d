// the calls of the Python bindings made from C++: reads commands, answers them
#include <mito.h>
#include <iostream>
using coords_t = mito::geometry::coordinates_t<2, mito::geometry::CARTESIAN>;
using cell_t = mito::geometry::triangle_t<2>;

int
main()
{
    journal::info_t("mito.summit.mesh_reader").deactivate();
    std::unique_ptr<mito::geometry::coordinate_system_t<coords_t>> system;
    std::unique_ptr<mito::mesh::mesh_t<cell_t>> mesh;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "mesh") {
            std::string path;
            in >> path;
            mesh.reset();
            system = std::make_unique<mito::geometry::coordinate_system_t<coords_t>>();
            auto file = std::ifstream(path);
            mesh = std::make_unique<mito::mesh::mesh_t<cell_t>>(mito::io::summit::reader<cell_t>(file, *system));
            printf("= %d\n", mesh->nCells());
        } else if (op == "f") {
            double k[11];
            for (auto & v : k)
                in >> v;
            auto manifold = mito::manifolds::manifold(*mesh, *system);
            auto integrator = mito::quadrature::integrator<mito::quadrature::GAUSS, 2>(manifold);
            const auto f = mito::functions::function([&](const coords_t & p) -> mito::tensor::scalar_t {
                const double x = p[0], y = p[1];
                return k[0] + k[1] * x + k[2] * y + k[3] * x * x + k[4] * x * y + k[5] * y * y + k[6] * std::sin(k[7] * x + k[8] * y)
                     + k[9] * std::exp(k[10] * x / 10);
            });
            printf("= %a\n", integrator.integrate(f));
        } else
            printf("= ?\n");
        fflush(stdout);
    }
    return 0;
}
