// What the VTK writers write, taken down by a stand-in for VTK, against the meshes, clouds and fields they were given
#pragma once
#define WITH_VTK
#define WITH_PARALLEL_VTK
#include "../lib/vtkstub/vtkUnstructuredGrid.h"
#include "femtools.h"
#include <mito/io.h>

namespace vtkm {
    using mgen::P3;
    using mgen::operator-;
    using mgen::operator+;
    using mgen::operator*;
    namespace geo = mito::geometry;
    namespace disc = mito::discrete;
    namespace vtk = mito::io::vtk;

    // values of every type a field can be written with
    template <class Y> struct Val {
        static constexpr int n = Y::size;
        static Y make(vm::Rng & r) { Y v; for (int i = 0; i < n; ++i) v[i] = r.coin(0.1) ? 0.0 : r.real(-10, 10); return v; }
        static std::vector<double> list(const Y & v) { std::vector<double> l; for (int i = 0; i < n; ++i) l.push_back(v[i]); return l; }
    };
    template <> struct Val<double> {
        static constexpr int n = 1;
        static double make(vm::Rng & r) { return r.coin(0.1) ? 0.0 : r.real(-1e3, 1e3); }
        static std::vector<double> list(double v) { return { v }; }
    };

    // what is expected of a file: labelled points in space, cells of labels, values by label
    struct Expect {
        std::map<int, P3> x;
        std::vector<std::vector<int>> cells;
        bool unique = true; // no two points in the same place
        std::map<std::string, std::pair<int, std::map<int, std::vector<double>>>> fields;
        template <class Y>
        void field(const std::string & name, const std::map<int, Y> & v)
        {
            auto & f = fields[name];
            f.first = Val<Y>::n;
            f.second.clear();
            for (auto & [l, y] : v) f.second[l] = Val<Y>::list(y);
        }
    };
    inline std::vector<int> canonical(std::vector<int> l)
    {
        int s = 1;
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j + 1 < l.size() - i; ++j) if (l[j] > l[j + 1]) { std::swap(l[j], l[j + 1]); s = -s; }
        l.push_back(s);
        return l;
    }
    // K: check(rule, condition, message)
    template <class K>
    void judge(const K & ck, const vtkstub::Snapshot & s, const Expect & e, const std::string & file, const char * kind, int N)
    {
        ck("file:name", s.file == file && s.kind == kind, [&] { return vm::str("'", s.file, "' (", s.kind, ") instead of '", file, "'"); });
        ck("points:number", s.points.size() == e.x.size(), [&] { return vm::str(s.points.size(), " points written of ", e.x.size()); });
        // which point is which: told by the field of labels when there is one, and by the place otherwise
        double size = 1e-300;
        for (auto & [l, p] : e.x) size = std::max(size, mgen::norm(p));
        const vtkstub::Array * ids = nullptr;
        for (auto & a : s.point_data) if (a.name == "label") ids = &a;
        std::vector<int> label;
        std::map<int, int> count;
        bool placed = true, finite = true;
        for (size_t i = 0; i < s.points.size(); ++i) {
            int l = -1;
            double best = 1e300;
            if (ids && i < ids->data.size()) l = (int) std::lround(ids->data[i]);
            else for (auto & [k, p] : e.x) if (double q = mgen::norm(p - s.points[i]); q < best) { best = q; l = k; }
            label.push_back(l);
            count[l]++;
            auto it = e.x.find(l);
            for (double q : s.points[i]) finite = finite && std::isfinite(q);
            if (it == e.x.end() || !(mgen::norm(it->second - s.points[i]) <= (s.single ? 2e-7 : 1e-13) * size)) placed = false;
        }
        ck("points:places", placed && finite, [&] { return vm::str("a point of '", file, "' is not where it is in the mesh"); });
        bool once = count.size() == e.x.size();
        for (auto & [l, n] : count) once = once && n == 1;
        if (e.unique || ids) ck("points:each-once", once, [&] { return vm::str("points repeated or missing in '", file, "': ", count.size(), " of ", e.x.size()); });
        // cells
        static const int types[] = { VTK_VERTEX, VTK_LINE, VTK_TRIANGLE, VTK_TETRA };
        std::multiset<std::vector<int>> got, want;
        std::multiset<std::vector<P3>> gx;
        bool types_ok = true, ids_ok = true;
        for (auto & c : s.cells) {
            types_ok = types_ok && c.type == types[N] && (int) c.ids.size() == N + 1;
            std::vector<int> l;
            for (auto i : c.ids) {
                if (i < 0 || i >= (vtkIdType) s.points.size()) ids_ok = false;
                else l.push_back(label[i]);
            }
            got.insert(canonical(l));
        }
        for (auto & c : e.cells) want.insert(canonical(c));
        ck("cells:types", types_ok, [&] { return vm::str("cells of '", file, "' of the wrong type"); });
        ck("cells:points-exist", ids_ok, [&] { return vm::str("cells of '", file, "' refer to points that are not there"); });
        ck("cells:number", s.cells.size() == e.cells.size(), [&] { return vm::str(s.cells.size(), " cells written of ", e.cells.size()); });
        if (e.unique || ids) ck("cells:same", got == want, [&] { return vm::str("cells of '", file, "' on other points, or turned over"); });
        // fields
        size_t n = 0;
        for (auto & [name, f] : e.fields) {
            const vtkstub::Array * a = nullptr;
            for (auto & x : s.point_data) if (x.name == name) a = &x;
            ck("fields:present", a, [&] { return vm::str("no field '", name, "' in '", file, "'"); });
            if (!a) continue;
            ++n;
            bool shape = a->components == f.first && a->data.size() == s.points.size() * f.first;
            ck("fields:shape", shape, [&] { return vm::str("field '", name, "': ", a->components, " components, ", a->data.size(), " values"); });
            if (!shape || !(e.unique || ids)) continue;
            bool ok = true;
            for (size_t i = 0; i < label.size(); ++i) {
                auto it = f.second.find(label[i]);
                ok = ok && it != f.second.end() && std::equal(it->second.begin(), it->second.end(), a->data.begin() + i * f.first);
            }
            ck("fields:values", ok, [&] { return vm::str("values of field '", name, "' in '", file, "'"); });
        }
        ck("fields:no-others", s.point_data.size() == e.fields.size() && s.cell_data.empty(), [&] { return vm::str(s.point_data.size(), " fields written of ", e.fields.size()); });
    }

    // places in space of coordinates
    template <int D> P3 place(const geo::coordinates_t<D, geo::CARTESIAN> & c) { return mgen::p3(c); }
    inline P3 place(const geo::coordinates_t<2, geo::POLAR> & c) { return { c[0] * std::cos(c[1]), c[0] * std::sin(c[1]), 0 }; }
    inline P3 place(const geo::coordinates_t<3, geo::SPHERICAL> & c)
    {
        return { c[0] * std::sin(c[1]) * std::cos(c[2]), c[0] * std::sin(c[1]) * std::sin(c[2]), c[0] * std::cos(c[1]) };
    }
    template <class C> C random_coords(vm::Rng & r)
    {
        mito::tensor::vector_t<C::dim> v;
        for (int i = 0; i < C::dim; ++i) v[i] = r.real(-3, 3);
        if constexpr (std::is_same_v<C, geo::coordinates_t<2, geo::POLAR>>) v[0] = r.real(0.1, 3), v[1] = r.real(-6, 6);
        if constexpr (std::is_same_v<C, geo::coordinates_t<3, geo::SPHERICAL>>) v[0] = r.real(0.1, 3), v[1] = r.real(0.05, 3.1), v[2] = r.real(-6, 6);
        return C(v);
    }
    inline std::string random_name(vm::Rng & r)
    {
        static const char * n[] = { "displacement", "u", "a b", "x/y", "T", "normal", "f1", "stress_11" };
        return std::string(n[r.pick(8)]) + (r.coin(0.1) ? std::string(r.range(10, 300), 'q') : "") + std::to_string(r.pick(50));
    }

    // records fields of several types with a writer, and in the expectation
    // entries: label and key of every point; make: makes a field of a type
    template <class Y, class W, class M, class E>
    void record(vm::Case & c, W & w, const M & make, const E & entries, Expect & e)
    {
        auto & r = c.rng;
        std::string own = random_name(r), name = r.coin(0.5) ? own : random_name(r);
        auto f = make(std::type_identity<Y> {}, own);
        std::map<int, Y> v;
        for (auto & [l, k] : entries) f(k) = v[l] = Val<Y>::make(r);
        if (name == own && r.coin()) w.record(f);
        else w.record(f, name);
        e.field(name, v);
        // the field is as it was
        bool same = f.name() == own;
        for (auto & [l, k] : entries) same = same && Val<Y>::list(f(k)) == Val<Y>::list(v[l]);
        c.check("fields:unchanged", same);
    }
    template <class W, class M, class E>
    void record_labels(W & w, const M & make, const E & entries, Expect & e)
    {
        auto f = make(std::type_identity<double> {}, std::string("label"));
        std::map<int, double> v;
        for (auto & [l, k] : entries) f(k) = v[l] = l;
        w.record(f);
        e.field("label", v);
    }
    // one file after another from one writer
    template <int N, int D, class W, class M, class E, class K, class Ends>
    void session(vm::Case & c, W & w, const M & make, const E & entries, Expect e, const K & ck, const Ends & ends)
    {
        auto & r = c.rng;
        if (!e.unique || r.coin(0.6)) record_labels(w, make, entries, e);
        int files = (int) r.range(1, 3);
        for (int i = 0; i < files; ++i) {
            int n = r.pick(4);
            for (int j = 0; j < n; ++j)
                switch (r.pick(5)) {
                case 0: case 1: record<double>(c, w, make, entries, e); break;
                case 2: record<mito::tensor::vector_t<D>>(c, w, make, entries, e); break;
                case 3: record<mito::tensor::vector_t<3>>(c, w, make, entries, e); break;
                case 4: record<mito::tensor::matrix_t<2>>(c, w, make, entries, e); break;
                }
            vtkstub::written.clear();
            w.write();
            ends(ck, e, N);
            c.count("files");
            c.count("fields", (int) e.fields.size());
        }
    }
}
