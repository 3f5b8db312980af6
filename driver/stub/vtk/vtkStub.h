// What the library uses of VTK (which is not installed here), by what its documentation says of it:
// reference counting aside, containers of points, cells and arrays, and writers that take note.
#pragma once
#include <string>
#include <vector>

#define VTK_MAJOR_VERSION 9
using vtkIdType = long long;

template <class T>
class vtkSmartPointer {
  public:
    vtkSmartPointer() = default;
    vtkSmartPointer(T * p) : _p(p) {}
    template <class U>
    vtkSmartPointer(const vtkSmartPointer<U> & other) : _p(other.Get()) {}
    static auto New() -> vtkSmartPointer<T> { return vtkSmartPointer<T>(T::New()); }
    auto Get() const -> T * { return _p; }
    auto GetPointer() const -> T * { return _p; }
    auto operator->() const -> T * { return _p; }
    auto operator*() const -> T & { return *_p; }
    operator T *() const { return _p; }
  private:
    T * _p = nullptr;
};

class vtkPoints {
  public:
    static auto New() -> vtkPoints * { return new vtkPoints(); }
    auto InsertNextPoint(double x, double y, double z) -> vtkIdType
    {
        _x.push_back(x);
        _x.push_back(y);
        _x.push_back(z);
        return GetNumberOfPoints() - 1;
    }
    auto GetNumberOfPoints() const -> vtkIdType { return _x.size() / 3; }
    std::vector<double> _x;
};

class vtkIdList {
  public:
    auto SetId(vtkIdType i, vtkIdType id) -> void { _id.at(i) = id; }
    auto GetId(vtkIdType i) const -> vtkIdType { return _id.at(i); }
    auto GetNumberOfIds() const -> vtkIdType { return _id.size(); }
    std::vector<vtkIdType> _id;
};

class vtkCell {
  public:
    auto GetPointIds() -> vtkIdList * { return &_ids; }
    auto GetCellType() const -> int { return _type; }
    vtkIdList _ids;
    int _type = 0;
};

class vtkLine : public vtkCell {
  public:
    static auto New() -> vtkLine *
    {
        auto c = new vtkLine();
        c->_type = 3;
        c->_ids._id.resize(2);
        return c;
    }
};

class vtkTriangle : public vtkCell {
  public:
    static auto New() -> vtkTriangle *
    {
        auto c = new vtkTriangle();
        c->_type = 5;
        c->_ids._id.resize(3);
        return c;
    }
};

class vtkTetra : public vtkCell {
  public:
    static auto New() -> vtkTetra *
    {
        auto c = new vtkTetra();
        c->_type = 10;
        c->_ids._id.resize(4);
        return c;
    }
};

class vtkDoubleArray {
  public:
    static auto New() -> vtkDoubleArray * { return new vtkDoubleArray(); }
    auto SetName(const char * name) -> void { _name = std::string(name); }
    auto SetNumberOfComponents(int n) -> void { _components = n; }
    auto SetNumberOfTuples(vtkIdType n) -> void { _v.resize(n * _components); }
    auto SetTuple(vtkIdType i, const double * t) -> void
    {
        for (int k = 0; k < _components; ++k) {
            _v.at(i * _components + k) = t[k];
        }
    }
    std::string _name;
    int _components = 1;
    std::vector<double> _v;
};

class vtkPointData {
  public:
    auto AddArray(vtkDoubleArray * a) -> int
    {
        _arrays.push_back(a);
        return _arrays.size() - 1;
    }
    std::vector<vtkDoubleArray *> _arrays;
};

class vtkUnstructuredGrid {
  public:
    static auto New() -> vtkUnstructuredGrid * { return new vtkUnstructuredGrid(); }
    auto SetPoints(vtkPoints * p) -> void { _points = p; }
    auto GetNumberOfPoints() -> vtkIdType { return _points ? _points->GetNumberOfPoints() : 0; }
    auto GetPointData() -> vtkPointData * { return &_data; }
    auto InsertNextCell(int type, vtkIdList * ids) -> vtkIdType
    {
        _types.push_back(type);
        _cells.push_back(ids->_id);
        return _types.size() - 1;
    }
    vtkPoints * _points = nullptr;
    vtkPointData _data;
    std::vector<int> _types;
    std::vector<std::vector<vtkIdType>> _cells;
};

// what was written: the name of the file, the grid, and the pieces of it (all of it: -1)
struct vtkWritten {
    std::string name;
    vtkUnstructuredGrid * grid = nullptr;
    int pieces = -1;
    int first = -1;
    int last = -1;
};
inline std::vector<vtkWritten> vtkFiles;

class vtkXMLUnstructuredGridWriter {
  public:
    static auto New() -> vtkXMLUnstructuredGridWriter * { return new vtkXMLUnstructuredGridWriter(); }
    auto SetFileName(const char * name) -> void { _w.name = std::string(name); }
    auto SetInputData(vtkUnstructuredGrid * g) -> void { _w.grid = g; }
    auto Write() -> int
    {
        vtkFiles.push_back(_w);
        return 1;
    }
    vtkWritten _w;
};

class vtkXMLPUnstructuredGridWriter : public vtkXMLUnstructuredGridWriter {
  public:
    static auto New() -> vtkXMLPUnstructuredGridWriter * { return new vtkXMLPUnstructuredGridWriter(); }
    auto SetNumberOfPieces(int n) -> void { _w.pieces = n; }
    auto SetStartPiece(int n) -> void { _w.first = n; }
    auto SetEndPiece(int n) -> void { _w.last = n; }
};

// the processes: how many there are, and which of them this one is
inline int vtkProcesses = 1;
inline int vtkProcess = 0;

class vtkMPIController {
  public:
    static auto New() -> vtkMPIController * { return new vtkMPIController(); }
    auto Initialize(int *, char ***, int) -> void {}
    static auto SetGlobalController(vtkMPIController *) -> void {}
    auto GetNumberOfProcesses() const -> int { return vtkProcesses; }
    auto GetLocalProcessId() const -> int { return vtkProcess; }
    auto Finalize(int) -> void {}
};
