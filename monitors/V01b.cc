// the other translation unit of V01
#include "vtk.h"
void second_unit(std::vector<std::string> & names)
{
    using namespace vtkm;
    geo::coordinate_system_t<mgen::cart_t<2>> cs;
    auto mesh = mito::mesh::mesh<geo::triangle_t<2>>();
    mesh.insert({ geo::node(cs, mgen::coords<2>({ 0, 0 })), geo::node(cs, mgen::coords<2>({ 1, 0 })), geo::node(cs, mgen::coords<2>({ 0, 1 })) });
    vtk::grid_writer("two", mesh, cs).write();
    for (auto & s : vtkstub::written) names.push_back(s.file);
}
