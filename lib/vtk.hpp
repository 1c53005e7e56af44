// Reads the written VTK files back with the VTK library's own readers, and lists what their headers declare.
#ifndef VP_VTK_HPP
#define VP_VTK_HPP
#include <map>
#include <regex>
#include <string>
#include <vector>
#include <vtkCellArray.h>
#include <vtkCellData.h>
#include <vtkDataArray.h>
#include <vtkIdList.h>
#include <vtkObject.h>
#include <vtkPointData.h>
#include <vtkPolyData.h>
#include <vtkSmartPointer.h>
#include <vtkXMLPPolyDataReader.h>
#include <vtkXMLPolyDataReader.h>

#include "io.hpp"
namespace vtk {
struct Arr {
    std::string type; // Int32 UInt8 Float32 Float64
    int comp = 0;
    std::vector<double> v;
};
struct Data {
    bool ok = false;
    std::string err;
    long points = 0, lines = 0;
    Arr pos;
    std::vector<std::vector<long>> line; // point indices of every line
    std::map<std::string, Arr> point, cell;
    const double *c(const std::string &n, long i) const {
        auto it = cell.find(n);
        static const double none[9] = {NAN, NAN, NAN, NAN, NAN, NAN, NAN, NAN, NAN};
        if (it == cell.end() || (i + 1) * it->second.comp > (long)it->second.v.size())
            return none;
        return &it->second.v[i * it->second.comp];
    }
    const double *p(const std::string &n, long i) const {
        auto it = point.find(n);
        static const double none[9] = {NAN, NAN, NAN, NAN, NAN, NAN, NAN, NAN, NAN};
        if (it == point.end() || (i + 1) * it->second.comp > (long)it->second.v.size())
            return none;
        return &it->second.v[i * it->second.comp];
    }
};
inline std::string typeName(int t) {
    switch (t) {
    case VTK_UNSIGNED_CHAR: return "UInt8";
    case VTK_INT: return "Int32";
    case VTK_FLOAT: return "Float32";
    case VTK_DOUBLE: return "Float64";
    default: return "vtk" + std::to_string(t);
    }
}
inline Arr arr(vtkDataArray *a) {
    Arr r;
    if (!a)
        return r;
    r.type = typeName(a->GetDataType());
    r.comp = a->GetNumberOfComponents();
    for (vtkIdType i = 0; i < a->GetNumberOfTuples(); i++)
        for (int k = 0; k < r.comp; k++)
            r.v.push_back(a->GetComponent(i, k));
    return r;
}
template <class Reader>
inline Data read(const std::string &fn) {
    Data d;
    if (!io::exists(fn)) {
        d.err = "no file " + fn;
        return d;
    }
    vtkObject::GlobalWarningDisplayOff();
    auto r = vtkSmartPointer<Reader>::New();
    r->SetFileName(fn.c_str());
    r->Update();
    vtkPolyData *p = r->GetOutput();
    if (r->GetErrorCode() || !p) {
        d.err = "VTK cannot read " + fn;
        return d;
    }
    d.points = p->GetNumberOfPoints();
    d.lines = p->GetNumberOfLines();
    if (p->GetPoints())
        d.pos = arr(p->GetPoints()->GetData());
    auto id = vtkSmartPointer<vtkIdList>::New();
    p->GetLines()->InitTraversal();
    while (p->GetLines()->GetNextCell(id)) {
        std::vector<long> v;
        for (vtkIdType i = 0; i < id->GetNumberOfIds(); i++)
            v.push_back(id->GetId(i));
        d.line.push_back(v);
    }
    for (int i = 0; i < p->GetPointData()->GetNumberOfArrays(); i++)
        if (p->GetPointData()->GetArrayName(i))
            d.point[p->GetPointData()->GetArrayName(i)] = arr(p->GetPointData()->GetArray(i));
    for (int i = 0; i < p->GetCellData()->GetNumberOfArrays(); i++)
        if (p->GetCellData()->GetArrayName(i))
            d.cell[p->GetCellData()->GetArrayName(i)] = arr(p->GetCellData()->GetArray(i));
    d.ok = true;
    return d;
}
inline Data readP(const std::string &fn) { return read<vtkXMLPPolyDataReader>(fn); }
inline Data read1(const std::string &fn) { return read<vtkXMLPolyDataReader>(fn); }

// what the text of the file declares: section -> name -> "type x components"
struct Head {
    bool ok = false;
    std::map<std::string, std::map<std::string, std::string>> sec;
    std::vector<std::string> pieces;
    bool closed = false;
    int dup = 0;
};
inline std::string attr(const std::string &tag, const char *n) {
    std::string k = std::string(" ") + n + "=\"";
    size_t a = tag.find(k);
    if (a == std::string::npos)
        return "";
    a += k.size();
    return tag.substr(a, tag.find('"', a) - a);
}
inline Head head(const std::string &fn) {
    Head h;
    if (!io::exists(fn))
        return h;
    std::string s = io::slurp(fn);
    std::string cur;
    for (size_t a = s.find('<'); a != std::string::npos; a = s.find('<', a + 1)) {
        size_t e = s.find('>', a);
        if (e == std::string::npos)
            return h;
        std::string tag = s.substr(a + 1, e - a - 1), name = tag.substr(0, tag.find_first_of(" \n/", 1));
        if (!name.empty() && name[0] == 'P' && name != "Piece" && name != "Points" && name != "PointData" && name != "PolyData")
            name = name.substr(1); // the parallel header uses the same names with a P
        if (name == "PointData" || name == "CellData" || name == "Points" || name == "Lines")
            cur = name;
        else if (tag[0] == '/' && tag.find("VTKFile") == 1)
            h.closed = true;
        else if (name == "DataArray")
            h.dup += !h.sec[cur].insert({attr(tag, "Name"), attr(tag, "type") + "x" + attr(tag, "NumberOfComponents")}).second;
        else if (name == "Piece" && !attr(tag, "Source").empty())
            h.pieces.push_back(attr(tag, "Source"));
    }
    h.ok = true;
    return h;
}
} // namespace vtk
#endif
