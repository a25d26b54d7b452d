// Finite elements driven from mesh data, with independent nodal bases
#pragma once
#include "poly.h"
#include <mito/coordinates.h>
#include <mito/fields.h>
#include <mito/manifolds.h>
#include <mito/quadrature.h>
#include <mito/discrete.h>
#include <mito/constraints.h>
#include <mito/fem.h>

namespace femt {
    using mgen::P3;
    using mgen::operator-;
    using mgen::operator+;
    using mgen::operator*;
    namespace fem = mito::fem;
    namespace geo = mito::geometry;
    namespace quad = mito::quadrature;

    template <int N> struct ref;
    template <> struct ref<1> { using type = geo::reference_segment_t; };
    template <> struct ref<2> { using type = geo::reference_triangle_t; };
    template <int N, int R>
    using rule = quad::quadrature_rule_t<quad::GAUSS, typename ref<N>::type, R>;

    // N: dimension, P: degree
    template <int N, int P>
    using element_t = fem::isoparametric_simplex_t<P, geo::geometric_simplex_t<N, N>>;

    // barycentric coordinates of a parametric point with respect to the nodes of the cell:
    // the segment runs from node 0 (xi=0) to node 1 (xi=1), the triangle's node 0 is at (1,0), node 1 at (0,1), node 2 at (0,0)
    template <int N>
    std::array<double, N + 1> barycentric(const std::array<double, N> & xi)
    {
        if constexpr (N == 1) return { 1 - xi[0], xi[0] };
        else return { xi[0], xi[1], 1 - xi[0] - xi[1] };
    }
    template <int N>
    std::array<double, N> random_xi(vm::Rng & r)
    {
        if constexpr (N == 1) { double v[] = { 0, 1, r.unit(), r.unit(), r.unit() }; return { v[r.pick(5)] }; }
        else {
            double a = r.unit(), b = r.unit();
            if (a + b > 1) { a = 1 - a; b = 1 - b; }
            switch (r.pick(6)) {
            case 0: a = 0; break;
            case 1: b = 0; break;
            case 2: b = 1 - a; break;
            default: break;
            }
            return { a, b };
        }
    }
    template <class E, int N>
    typename E::parametric_coordinates_type parametric(const std::array<double, N> & xi)
    {
        if constexpr (N == 1) return { xi[0] };
        else return { xi[0], xi[1] };
    }
    // the nodes of the element in barycentric coordinates
    template <int N, int P>
    std::vector<std::array<double, N + 1>> element_nodes()
    {
        std::vector<std::array<double, N + 1>> v;
        for (int i = 0; i <= N; ++i) { std::array<double, N + 1> b {}; b[i] = 1; v.push_back(b); }
        if constexpr (P == 2) { v.push_back({ 0.5, 0.5, 0 }); v.push_back({ 0, 0.5, 0.5 }); v.push_back({ 0.5, 0, 0.5 }); }
        return v;
    }
    // textbook Lagrange bases in barycentric coordinates, and their derivatives in these
    template <int N, int P>
    double basis(int a, const std::array<double, N + 1> & l)
    {
        if constexpr (P == 1) return l[a];
        else {
            if (a < 3) return l[a] * (2 * l[a] - 1);
            return 4 * l[(a - 3) % 3] * l[(a - 2) % 3];
        }
    }
    template <int N, int P>
    std::array<double, N + 1> dbasis(int a, const std::array<double, N + 1> & l)
    {
        std::array<double, N + 1> d {};
        if constexpr (P == 1) d[a] = 1;
        else {
            if (a < 3) d[a] = 4 * l[a] - 1;
            else { d[(a - 3) % 3] = 4 * l[(a - 2) % 3]; d[(a - 2) % 3] = 4 * l[(a - 3) % 3]; }
        }
        return d;
    }
    // a cell given by its corners
    template <int N>
    struct Cell {
        std::array<P3, N + 1> x;
        double volume() const
        {
            if constexpr (N == 1) return x[1][0] - x[0][0];
            else return mgen::cross(x[1] - x[0], x[2] - x[0])[2] / 2;
        }
        double size() const
        {
            double s = 0;
            for (int i = 0; i <= N; ++i) for (int j = 0; j < i; ++j) s = std::max(s, mgen::norm(x[i] - x[j]));
            return s;
        }
        double extent() const
        {
            double s = 0;
            for (auto & p : x) s = std::max(s, mgen::norm(p));
            return s;
        }
        P3 at(const std::array<double, N + 1> & l) const
        {
            P3 p {};
            for (int i = 0; i <= N; ++i) p = p + l[i] * x[i];
            return p;
        }
        // the gradient of the i-th barycentric coordinate: over the opposite side, normal to it
        P3 grad(int i) const
        {
            if constexpr (N == 1) return { (i ? 1 : -1) / volume(), 0, 0 };
            else {
                P3 e = x[(i + 2) % 3] - x[(i + 1) % 3];
                return (1 / (2 * volume())) * P3 { -e[1], e[0], 0 };
            }
        }
        template <int P>
        P3 grad(int a, const std::array<double, N + 1> & l) const
        {
            auto d = dbasis<N, P>(a, l);
            P3 g {};
            for (int i = 0; i <= N; ++i) g = g + d[i] * grad(i);
            return g;
        }
        // rounding of a quantity of order one in the cell's own coordinates: position error over the thickness
        double rough() const { return 1e-14 * (extent() + size()) * size() / std::fabs(N == 1 ? size() * volume() : volume()); }
    };
    template <int N>
    Cell<N> random_cell(vm::Rng & r)
    {
        Cell<N> c;
        double s = std::pow(10.0, r.real(-2, 2)), t = r.coin(0.5) ? 0 : r.real(0, 10 * s);
        P3 o { r.real(-t, t), N == 2 ? r.real(-t, t) : 0, 0 };
        for (;;) {
            for (auto & p : c.x) p = { r.real(-1, 1), N == 2 ? r.real(-1, 1) : 0, 0 };
            if constexpr (N == 2) if (r.coin(0.2)) c.x = { P3 { 0, 0, 0 }, P3 { 1, 0, 0 }, P3 { 0, 1, 0 } };
            double v = std::fabs(c.volume());
            if (v > (r.coin(0.3) ? 0.005 : 0.1)) break;
        }
        for (auto & p : c.x) p = s * p + o;
        return c;
    }
    // the library's element for a cell
    template <int N, int P>
    struct Fixture {
        using E = element_t<N, P>;
        using cell_t = geo::geometric_simplex_t<N, N>;
        geo::coordinate_system_t<mgen::cart_t<N>> cs;
        std::array<geo::node_t<N>, N + 1> nodes;
        cell_t cell;
        typename E::connectivity_type dofs;
        E element;
        Fixture(const Cell<N> & c) :
            nodes(make(c, cs)), cell(nodes), element(cell, cs, dofs)
        {}
        static std::array<geo::node_t<N>, N + 1> make(const Cell<N> & c, geo::coordinate_system_t<mgen::cart_t<N>> & cs)
        {
            return [&]<int... I>(mito::tensor::integer_sequence<I...>) {
                return std::array<geo::node_t<N>, N + 1> { geo::node(cs, mgen::coords<N>(c.x[I]))... };
            }(mito::tensor::make_integer_sequence<N + 1> {});
        }
    };
    template <class T>
    double entry(const T & t, int i)
    {
        if constexpr (requires { t[i]; }) return t[i];
        else return t;
    }
}
