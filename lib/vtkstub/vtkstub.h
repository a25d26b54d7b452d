// A stand-in for the part of VTK that writes unstructured grids. VTK is not installed here. It keeps what it is given, behaves as
// VTK documents (points in single precision unless told otherwise, identifiers start at zero, arrays replaced by name), and at
// every Write() takes down a copy of the grid. It also notices what VTK would answer with memory corruption.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#if defined(WITH_MPI)
#include <mpi.h>
#endif

#define VTK_MAJOR_VERSION 9
#define VTK_MINOR_VERSION 2
#define VTK_FLOAT 10
#define VTK_DOUBLE 11
#define VTK_VERTEX 1
#define VTK_LINE 3
#define VTK_TRIANGLE 5
#define VTK_TETRA 10
typedef long long vtkIdType;

namespace vtkstub {
    struct Array { std::string name; int components = 1; std::vector<double> data; };
    struct Snapshot {
        std::string file, kind;
        std::vector<std::array<double, 3>> points;
        bool single = true;
        struct Cell { int type; std::vector<vtkIdType> ids; };
        std::vector<Cell> cells;
        std::vector<Array> point_data, cell_data;
        int pieces = 1, first = 0, last = 0;
    };
    inline std::vector<Snapshot> written;
    inline std::vector<std::string> misuse;
    inline std::vector<std::string> events;
    inline long alive = 0;
    inline void bad(const std::string & s) { if (misuse.size() < 100) misuse.push_back(s); }
}

class vtkObjectBase {
  public:
    vtkObjectBase() { ++vtkstub::alive; }
    vtkObjectBase(const vtkObjectBase &) = delete;
    virtual ~vtkObjectBase() { --vtkstub::alive; }
    void Register(vtkObjectBase * = nullptr) { ++_count; }
    void UnRegister(vtkObjectBase * = nullptr) { if (--_count == 0) delete this; }
    void Delete() { UnRegister(); }
    int GetReferenceCount() const { return _count; }
    void Modified() {}
  private:
    int _count = 1;
};
class vtkObject : public vtkObjectBase {};

#define VTKSTUB_NEW(T) static T * New() { return new T; }

template <class T>
class vtkSmartPointer {
  public:
    vtkSmartPointer() = default;
    vtkSmartPointer(std::nullptr_t) {}
    vtkSmartPointer(T * p) : _p(p) { if (_p) _p->Register(); }
    vtkSmartPointer(const vtkSmartPointer & o) : _p(o._p) { if (_p) _p->Register(); }
    template <class U> vtkSmartPointer(const vtkSmartPointer<U> & o) : _p(o.Get()) { if (_p) _p->Register(); }
    vtkSmartPointer(vtkSmartPointer && o) noexcept : _p(o._p) { o._p = nullptr; }
    ~vtkSmartPointer() { if (_p) _p->UnRegister(); }
    vtkSmartPointer & operator=(vtkSmartPointer o) noexcept { std::swap(_p, o._p); return *this; }
    static vtkSmartPointer New() { vtkSmartPointer s; s._p = T::New(); return s; }
    static vtkSmartPointer Take(T * p) { vtkSmartPointer s; s._p = p; return s; }
    void TakeReference(T * p) { *this = Take(p); }
    T * Get() const { return _p; }
    T * GetPointer() const { return _p; }
    T * operator->() const { return _p; }
    T & operator*() const { return *_p; }
    operator T *() const { return _p; }
  private:
    T * _p = nullptr;
};
template <class T>
class vtkNew {
  public:
    vtkNew() : _p(T::New()) {}
    vtkNew(const vtkNew &) = delete;
    ~vtkNew() { _p->UnRegister(); }
    T * Get() const { return _p; }
    T * GetPointer() const { return _p; }
    T * operator->() const { return _p; }
    T & operator*() const { return *_p; }
    operator T *() const { return _p; }
  private:
    T * _p;
};

class vtkIdList : public vtkObject {
  public:
    VTKSTUB_NEW(vtkIdList)
    void SetNumberOfIds(vtkIdType n) { ids.resize(n, -1); }
    vtkIdType GetNumberOfIds() const { return (vtkIdType) ids.size(); }
    void SetId(vtkIdType i, vtkIdType v)
    {
        if (i < 0 || i >= GetNumberOfIds()) return vtkstub::bad("vtkIdList::SetId out of range");
        ids[i] = v;
    }
    vtkIdType GetId(vtkIdType i) const
    {
        if (i < 0 || i >= GetNumberOfIds()) { vtkstub::bad("vtkIdList::GetId out of range"); return -1; }
        return ids[i];
    }
    void InsertId(vtkIdType i, vtkIdType v) { if (i >= GetNumberOfIds()) ids.resize(i + 1, -1); ids[i] = v; }
    vtkIdType InsertNextId(vtkIdType v) { ids.push_back(v); return GetNumberOfIds() - 1; }
    vtkIdType InsertUniqueId(vtkIdType v)
    {
        for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == v) return (vtkIdType) i;
        return InsertNextId(v);
    }
    vtkIdType IsId(vtkIdType v) const { for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == v) return (vtkIdType) i; return -1; }
    vtkIdType * GetPointer(vtkIdType i) { return ids.data() + i; }
    const vtkIdType * begin() const { return ids.data(); }
    const vtkIdType * end() const { return ids.data() + ids.size(); }
    void Reset() { ids.clear(); }
    void Initialize() { ids.clear(); }
    int Allocate(vtkIdType n, int = 0) { ids.reserve(n); return 1; }
    void Squeeze() {}
    std::vector<vtkIdType> ids;
};

class vtkPoints : public vtkObject {
  public:
    VTKSTUB_NEW(vtkPoints)
    static vtkPoints * New(int type) { auto p = new vtkPoints; p->SetDataType(type); return p; }
    void SetDataType(int t) { single = t != VTK_DOUBLE; }
    void SetDataTypeToDouble() { single = false; }
    void SetDataTypeToFloat() { single = true; }
    int GetDataType() const { return single ? VTK_FLOAT : VTK_DOUBLE; }
    vtkIdType InsertNextPoint(double a, double b, double c) { p.push_back(keep(a, b, c)); return (vtkIdType) p.size() - 1; }
    vtkIdType InsertNextPoint(const double * x) { return InsertNextPoint(x[0], x[1], x[2]); }
    vtkIdType InsertNextPoint(const float * x) { return InsertNextPoint(x[0], x[1], x[2]); }
    void InsertPoint(vtkIdType i, double a, double b, double c) { if (i >= (vtkIdType) p.size()) p.resize(i + 1); p[i] = keep(a, b, c); }
    void InsertPoint(vtkIdType i, const double * x) { InsertPoint(i, x[0], x[1], x[2]); }
    void SetPoint(vtkIdType i, double a, double b, double c)
    {
        if (i < 0 || i >= (vtkIdType) p.size()) return vtkstub::bad("vtkPoints::SetPoint out of range");
        p[i] = keep(a, b, c);
    }
    void SetPoint(vtkIdType i, const double * x) { SetPoint(i, x[0], x[1], x[2]); }
    void SetNumberOfPoints(vtkIdType n) { p.resize(n); }
    vtkIdType GetNumberOfPoints() const { return (vtkIdType) p.size(); }
    void GetPoint(vtkIdType i, double x[3]) const { for (int d = 0; d < 3; ++d) x[d] = p.at(i)[d]; }
    double * GetPoint(vtkIdType i) { return p.at(i).data(); }
    int Allocate(vtkIdType n, vtkIdType = 1000) { p.reserve(n); return 1; }
    int Resize(vtkIdType n) { p.resize(n); return 1; }
    void Initialize() { p.clear(); }
    void Reset() { p.clear(); }
    void Squeeze() {}
    std::array<double, 3> keep(double a, double b, double c) const
    {
        if (single) return { (float) a, (float) b, (float) c };
        return { a, b, c };
    }
    std::vector<std::array<double, 3>> p;
    bool single = true;
};

class vtkAbstractArray : public vtkObject {
  public:
    void SetName(const char * n) { a.name = n ? n : ""; }
    const char * GetName() const { return a.name.c_str(); }
    void SetNumberOfComponents(int n) { a.components = n; }
    int GetNumberOfComponents() const { return a.components; }
    void SetNumberOfTuples(vtkIdType n) { a.data.resize(n * a.components, uninitialized); }
    vtkIdType GetNumberOfTuples() const { return (vtkIdType) a.data.size() / a.components; }
    vtkIdType GetNumberOfValues() const { return (vtkIdType) a.data.size(); }
    void SetNumberOfValues(vtkIdType n) { a.data.resize(n, uninitialized); }
    int Allocate(vtkIdType n, vtkIdType = 1000) { a.data.reserve(n); return 1; }
    int Resize(vtkIdType n) { a.data.resize(n * a.components, uninitialized); return 1; }
    void SetComponentName(vtkIdType, const char *) {}
    void Initialize() { a.data.clear(); }
    void Reset() { a.data.clear(); }
    void Squeeze() {}
    static constexpr double uninitialized = -1.2345678912345e+300;
    vtkstub::Array a;
};
class vtkDataArray : public vtkAbstractArray {
  public:
    template <class T>
    void SetTuple(vtkIdType i, const T * t)
    {
        if (i < 0 || i >= GetNumberOfTuples()) return vtkstub::bad("SetTuple out of range");
        for (int k = 0; k < a.components; ++k) a.data[i * a.components + k] = t[k];
    }
    template <class T> void SetTypedTuple(vtkIdType i, const T * t) { SetTuple(i, t); }
    void SetTuple1(vtkIdType i, double x) { fixed(i, { x }); }
    void SetTuple2(vtkIdType i, double x, double y) { fixed(i, { x, y }); }
    void SetTuple3(vtkIdType i, double x, double y, double z) { fixed(i, { x, y, z }); }
    void SetTuple4(vtkIdType i, double x, double y, double z, double w) { fixed(i, { x, y, z, w }); }
    void SetTuple6(vtkIdType i, double x, double y, double z, double u, double v, double w) { fixed(i, { x, y, z, u, v, w }); }
    void SetTuple9(vtkIdType i, double x0, double x1, double x2, double x3, double x4, double x5, double x6, double x7, double x8) { fixed(i, { x0, x1, x2, x3, x4, x5, x6, x7, x8 }); }
    template <class T>
    void InsertTuple(vtkIdType i, const T * t)
    {
        if (i >= GetNumberOfTuples()) SetNumberOfTuples(i + 1);
        SetTuple(i, t);
    }
    template <class T> vtkIdType InsertNextTuple(const T * t) { auto n = GetNumberOfTuples(); InsertTuple(n, t); return n; }
    template <class T> vtkIdType InsertNextTypedTuple(const T * t) { return InsertNextTuple(t); }
    vtkIdType InsertNextTuple1(double x) { return next({ x }); }
    vtkIdType InsertNextTuple2(double x, double y) { return next({ x, y }); }
    vtkIdType InsertNextTuple3(double x, double y, double z) { return next({ x, y, z }); }
    void SetComponent(vtkIdType i, int k, double v)
    {
        if (i < 0 || i >= GetNumberOfTuples() || k < 0 || k >= a.components) return vtkstub::bad("SetComponent out of range");
        a.data[i * a.components + k] = v;
    }
    void InsertComponent(vtkIdType i, int k, double v) { if (i >= GetNumberOfTuples()) SetNumberOfTuples(i + 1); SetComponent(i, k, v); }
    double GetComponent(vtkIdType i, int k) const { return a.data.at(i * a.components + k); }
    void SetValue(vtkIdType i, double v)
    {
        if (i < 0 || i >= GetNumberOfValues()) return vtkstub::bad("SetValue out of range");
        a.data[i] = v;
    }
    void InsertValue(vtkIdType i, double v) { if (i >= GetNumberOfValues()) SetNumberOfValues(i + 1); a.data[i] = v; }
    vtkIdType InsertNextValue(double v) { a.data.push_back(v); return GetNumberOfValues() - 1; }
    double GetValue(vtkIdType i) const { return a.data.at(i); }
    double * GetTuple(vtkIdType i) { return a.data.data() + i * a.components; }
    void GetTuple(vtkIdType i, double * t) const { for (int k = 0; k < a.components; ++k) t[k] = a.data.at(i * a.components + k); }
    double * GetPointer(vtkIdType i) { return a.data.data() + i; }
    double * WritePointer(vtkIdType i, vtkIdType n) { if (i + n > GetNumberOfValues()) SetNumberOfValues(i + n); return a.data.data() + i; }
    void Fill(double v) { std::fill(a.data.begin(), a.data.end(), v); }
    void FillComponent(int k, double v) { for (vtkIdType i = 0; i < GetNumberOfTuples(); ++i) SetComponent(i, k, v); }
    void FillValue(double v) { Fill(v); }
  private:
    void fixed(vtkIdType i, std::initializer_list<double> t)
    {
        if ((int) t.size() != a.components) return vtkstub::bad("tuple of the wrong size");
        SetTuple(i, t.begin());
    }
    vtkIdType next(std::initializer_list<double> t)
    {
        if ((int) t.size() != a.components) { vtkstub::bad("tuple of the wrong size"); return -1; }
        return InsertNextTuple(t.begin());
    }
};
class vtkDoubleArray : public vtkDataArray { public: VTKSTUB_NEW(vtkDoubleArray) };

class vtkFieldData : public vtkObject {
  public:
    VTKSTUB_NEW(vtkFieldData)
    int AddArray(vtkAbstractArray * x)
    {
        for (size_t i = 0; i < arrays.size(); ++i)
            if (arrays[i]->a.name == x->a.name && x->a.name != "") { arrays[i] = x; return (int) i; }
        arrays.push_back(x);
        return (int) arrays.size() - 1;
    }
    int SetScalars(vtkDataArray * x) { return AddArray(x); }
    int SetVectors(vtkDataArray * x) { return AddArray(x); }
    int SetTensors(vtkDataArray * x) { return AddArray(x); }
    int SetNormals(vtkDataArray * x) { return AddArray(x); }
    int SetActiveScalars(const char *) { return 0; }
    int SetActiveVectors(const char *) { return 0; }
    int GetNumberOfArrays() const { return (int) arrays.size(); }
    int HasArray(const char * n) const { for (auto & x : arrays) if (x->a.name == n) return 1; return 0; }
    vtkDataArray * GetArray(int i) const { return dynamic_cast<vtkDataArray *>(arrays.at(i).Get()); }
    vtkDataArray * GetArray(const char * n) const { for (auto & x : arrays) if (x->a.name == n) return dynamic_cast<vtkDataArray *>(x.Get()); return nullptr; }
    void RemoveArray(const char * n) { std::erase_if(arrays, [&](auto & x) { return x->a.name == n; }); }
    std::vector<vtkSmartPointer<vtkAbstractArray>> arrays;
};
class vtkDataSetAttributes : public vtkFieldData {};
class vtkPointData : public vtkDataSetAttributes { public: VTKSTUB_NEW(vtkPointData) };
class vtkCellData : public vtkDataSetAttributes { public: VTKSTUB_NEW(vtkCellData) };

class vtkCell : public vtkObject {
  public:
    vtkCell(int type, int n) : Points(vtkPoints::New()), PointIds(vtkIdList::New()), _type(type)
    {
        Points->SetNumberOfPoints(n);
        PointIds->SetNumberOfIds(n);
        for (int i = 0; i < n; ++i) PointIds->SetId(i, 0);
    }
    ~vtkCell() override { Points->Delete(); PointIds->Delete(); }
    vtkIdList * GetPointIds() { return PointIds; }
    vtkPoints * GetPoints() { return Points; }
    vtkIdType GetPointId(int i) { return PointIds->GetId(i); }
    vtkIdType GetNumberOfPoints() const { return PointIds->GetNumberOfIds(); }
    int GetCellType() { return _type; }
    vtkPoints * Points;
    vtkIdList * PointIds;
  private:
    int _type;
};
class vtkVertex : public vtkCell { public: vtkVertex() : vtkCell(VTK_VERTEX, 1) {} VTKSTUB_NEW(vtkVertex) };
class vtkLine : public vtkCell { public: vtkLine() : vtkCell(VTK_LINE, 2) {} VTKSTUB_NEW(vtkLine) };
class vtkTriangle : public vtkCell { public: vtkTriangle() : vtkCell(VTK_TRIANGLE, 3) {} VTKSTUB_NEW(vtkTriangle) };
class vtkTetra : public vtkCell { public: vtkTetra() : vtkCell(VTK_TETRA, 4) {} VTKSTUB_NEW(vtkTetra) };

class vtkUnstructuredGrid : public vtkObject {
  public:
    VTKSTUB_NEW(vtkUnstructuredGrid)
    vtkUnstructuredGrid() : point_data(vtkSmartPointer<vtkPointData>::New()), cell_data(vtkSmartPointer<vtkCellData>::New()) {}
    void SetPoints(vtkPoints * p) { points = p; }
    vtkPoints * GetPoints() { return points; }
    vtkIdType InsertNextCell(int type, vtkIdList * l)
    {
        cells.push_back({ type, l->ids });
        return (vtkIdType) cells.size() - 1;
    }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * l)
    {
        cells.push_back({ type, std::vector<vtkIdType>(l, l + n) });
        return (vtkIdType) cells.size() - 1;
    }
    vtkIdType GetNumberOfPoints() const { return points.Get() ? points->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() const { return (vtkIdType) cells.size(); }
    int GetCellType(vtkIdType i) const { return cells.at(i).type; }
    void GetCellPoints(vtkIdType i, vtkIdList * l) const { l->ids = cells.at(i).ids; }
    void GetPoint(vtkIdType i, double x[3]) const { points->GetPoint(i, x); }
    double * GetPoint(vtkIdType i) { return points->GetPoint(i); }
    vtkPointData * GetPointData() { return point_data; }
    vtkCellData * GetCellData() { return cell_data; }
    void Allocate(vtkIdType = 1000, int = 1000) { cells.clear(); }
    bool AllocateEstimate(vtkIdType, vtkIdType) { cells.clear(); return true; }
    bool AllocateExact(vtkIdType, vtkIdType) { cells.clear(); return true; }
    void Initialize() { cells.clear(); points = nullptr; }
    void Reset() { cells.clear(); }
    void Squeeze() {}
    vtkSmartPointer<vtkPoints> points;
    std::vector<vtkstub::Snapshot::Cell> cells;
    vtkSmartPointer<vtkPointData> point_data;
    vtkSmartPointer<vtkCellData> cell_data;
};

class vtkXMLWriterBase : public vtkObject {
  public:
    void SetFileName(const char * n) { _file = n ? n : ""; }
    const char * GetFileName() const { return _file.c_str(); }
    void SetInputData(vtkUnstructuredGrid * g) { _grid = g; }
    void SetInput(vtkUnstructuredGrid * g) { _grid = g; }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    void SetDataModeToAppended() {}
    void SetDataMode(int) {}
    void SetEncodeAppendedData(int) {}
    void SetCompressorTypeToNone() {}
    void SetCompressorTypeToZLib() {}
    void SetCompressor(void *) {}
    void SetNumberOfPieces(int n) { _pieces = n; }
    void SetStartPiece(int n) { _first = n; }
    void SetEndPiece(int n) { _last = n; }
    void SetWritePiece(int n) { _first = _last = n; }
    void SetGhostLevel(int) {}
    void Update() { Write(); }
    virtual int Write() { return take("vtu"); }
  protected:
    int take(const char * kind)
    {
        if (!_grid.Get()) { vtkstub::bad("nothing to write"); return 0; }
        if (_file == "") { vtkstub::bad("no name for the file"); return 0; }
        vtkstub::Snapshot s;
        s.file = _file, s.kind = kind, s.cells = _grid->cells, s.pieces = _pieces, s.first = _first, s.last = _last;
        if (_grid->points.Get()) s.points = _grid->points->p, s.single = _grid->points->single;
        for (auto & x : _grid->point_data->arrays) s.point_data.push_back(x->a);
        for (auto & x : _grid->cell_data->arrays) s.cell_data.push_back(x->a);
        vtkstub::written.push_back(s);
        vtkstub::events.push_back("write " + _file);
        return 1;
    }
    std::string _file;
    vtkSmartPointer<vtkUnstructuredGrid> _grid;
    int _pieces = 1, _first = 0, _last = 0;
};
class vtkXMLUnstructuredGridWriter : public vtkXMLWriterBase { public: VTKSTUB_NEW(vtkXMLUnstructuredGridWriter) };

class vtkMultiProcessController : public vtkObject {
  public:
    static vtkMultiProcessController *& global() { static vtkMultiProcessController * g = nullptr; return g; }
    // the new one is registered, the old one released, as VTK does
    static void SetGlobalController(vtkMultiProcessController * c)
    {
        if (global() == c) return;
        if (global()) global()->UnRegister();
        global() = c;
        if (c) c->Register();
    }
    static vtkMultiProcessController * GetGlobalController() { return global(); }
    virtual int GetNumberOfProcesses() = 0;
    virtual int GetLocalProcessId() = 0;
};
#if defined(WITH_MPI)
class vtkMPIController : public vtkMultiProcessController {
  public:
    VTKSTUB_NEW(vtkMPIController)
    void Initialize(int * = nullptr, char *** = nullptr, int external = 0)
    {
        int on = 0;
        MPI_Initialized(&on);
        vtkstub::events.push_back("controller initialize");
        if (external && !on) vtkstub::bad("message passing was not initialized");
        // the first controller to come initializes message passing when told to
        if (!external && on) vtkstub::bad("message passing initialized twice");
        _ready = true;
    }
    void Finalize(int external = 0)
    {
        if (!external) vtkstub::bad("message passing shut down while in use");
        vtkstub::events.push_back("controller finalize");
        _ready = false;
    }
    int GetNumberOfProcesses() override { int n = 1; if (_ready) MPI_Comm_size(MPI_COMM_WORLD, &n); else vtkstub::bad("controller not ready"); return n; }
    int GetLocalProcessId() override { int n = 0; if (_ready) MPI_Comm_rank(MPI_COMM_WORLD, &n); else vtkstub::bad("controller not ready"); return n; }
    void Barrier() { MPI_Barrier(MPI_COMM_WORLD); }
  private:
    bool _ready = false;
};
#endif
class vtkXMLPUnstructuredGridWriter : public vtkXMLWriterBase {
  public:
    VTKSTUB_NEW(vtkXMLPUnstructuredGridWriter)
    void SetController(vtkMultiProcessController *) {}
    void SetUseSubdirectory(bool) {}
    void SetWriteSummaryFile(int) {}
    int Write() override { return take("pvtu"); }
};
