#define WITH_VTK
#define WITH_PARALLEL_VTK
#include "meshes.h"
#include <mito/discrete.h>
#include <mito/io.h>
namespace verif {
    using namespace mito::io;
    using VT = tensor::vector_t<3>;
    template <class C, int P> auto vk_writer(const std::string & name, const Mesh<C> & m, const CS<C> & s) {
        if constexpr (P == 0) return vtk::field_writer(name, m, s);
        else return vtk::parallel_field_writer(name, m, s);
    }
    template <class C, int P> auto vk_mesh(const std::string & name, const Mesh<C> & m, const CS<C> & s) -> void {
        if constexpr (P == 0) { auto w = vtk::grid_writer(name, m, s); w.write(); }
        else { auto w = vtk::parallel_grid_writer(name, m, s); w.write(); }
    }
    // two fields, one under its own name and one under a given one
    template <class C, int P> auto vk_fields(const std::string & name, const Mesh<C> & m, const CS<C> & s, const discrete::mesh_field_t<C::dim, S> & f, const discrete::mesh_field_t<C::dim, VT> & g) -> void {
        auto w = vk_writer<C, P>(name, m, s);
        w.record(f);
        w.record(g, "another name");
        w.write();
    }
    template <class C> auto vk_sfield(const Mesh<C> & m) { return discrete::mesh_field<S>(m, "scalars"); }
    template <class C> auto vk_vfield(const Mesh<C> & m) { return discrete::mesh_field<VT>(m, "vectors"); }
    template <class C> auto vk_set(discrete::mesh_field_t<C::dim, S> & f, const Node<C> & n, S v) -> void { f(n) = v; }
    template <class C> auto vk_setv(discrete::mesh_field_t<C::dim, VT> & f, const Node<C> & n, S a, S b, S c) -> void { f(n) = VT{ a, b, c }; }
    template <class C, int P> auto vk_cloud(const std::string & name, const geometry::point_cloud_t<C::dim> & m, const CS<C> & s) -> void {
        if constexpr (P == 0) { auto w = vtk::grid_writer(name, m, s); w.write(); }
        else { auto w = vtk::parallel_grid_writer(name, m, s); w.write(); }
    }
    template <class C, int P> auto vk_cloud_fields(const std::string & name, const geometry::point_cloud_t<C::dim> & m, const CS<C> & s, const discrete::point_field_t<C::dim, S> & f, const discrete::point_field_t<C::dim, VT> & g) -> void {
        if constexpr (P == 0) { auto w = vtk::field_writer(name, m, s); w.record(f); w.record(g, "another name"); w.write(); }
        else { auto w = vtk::parallel_field_writer(name, m, s); w.record(f); w.record(g, "another name"); w.write(); }
    }
    template <class C> auto vk_spoint(const geometry::point_cloud_t<C::dim> & m) { return discrete::point_field<S>(m, "scalars"); }
    template <class C> auto vk_vpoint(const geometry::point_cloud_t<C::dim> & m) { return discrete::point_field<VT>(m, "vectors"); }
    template <class C> auto vk_pset(discrete::point_field_t<C::dim, S> & f, const geometry::point_t<C::dim> & n, S v) -> void { f(n) = v; }
    template <class C> auto vk_psetv(discrete::point_field_t<C::dim, VT> & f, const geometry::point_t<C::dim> & n, S a, S b, S c) -> void { f(n) = VT{ a, b, c }; }
    template <class C> auto vk_at(const CS<C> & s, const geometry::point_t<C::dim> & p) { return s.coordinates(p); }
    template <class XX> auto vk_point(const XX & x, vtkSmartPointer<vtkPoints> & p) -> void { vtk::insert_vtk_point(x, p); }
    auto vk_new() { return vtkSmartPointer<vtkPoints>::New(); }
    auto vk_files() -> std::vector<vtkWritten> & { return vtkFiles; }
    auto vk_process(int n, int i) -> void { vtkProcesses = n; vtkProcess = i; }
#define VP(C, P) template auto vk_mesh<C, P>(const std::string &, const Mesh<C> &, const CS<C> &) -> void; \
    template auto vk_fields<C, P>(const std::string &, const Mesh<C> &, const CS<C> &, const discrete::mesh_field_t<C::dim, S> &, const discrete::mesh_field_t<C::dim, VT> &) -> void; \
    template auto vk_cloud<C, P>(const std::string &, const geometry::point_cloud_t<C::dim> &, const CS<C> &) -> void; \
    template auto vk_cloud_fields<C, P>(const std::string &, const geometry::point_cloud_t<C::dim> &, const CS<C> &, const discrete::point_field_t<C::dim, S> &, const discrete::point_field_t<C::dim, VT> &) -> void;
#define MS(C) MS_COMMON(C) template auto vk_at<C>(const CS<C> &, const geometry::point_t<C::dim> &); VP(C, 0) VP(C, 1) template auto vk_sfield<C>(const Mesh<C> &); template auto vk_vfield<C>(const Mesh<C> &); \
    template auto vk_spoint<C>(const geometry::point_cloud_t<C::dim> &); template auto vk_vpoint<C>(const geometry::point_cloud_t<C::dim> &); \
    template auto vk_set<C>(discrete::mesh_field_t<C::dim, S> &, const Node<C> &, S) -> void; \
    template auto vk_setv<C>(discrete::mesh_field_t<C::dim, VT> &, const Node<C> &, S, S, S) -> void; \
    template auto vk_pset<C>(discrete::point_field_t<C::dim, S> &, const geometry::point_t<C::dim> &, S) -> void; \
    template auto vk_psetv<C>(discrete::point_field_t<C::dim, VT> &, const geometry::point_t<C::dim> &, S, S, S) -> void;
    MS(Seg1) MS(Tri2) MS(Tet3)
    template auto vk_point<Cart<1>>(const Cart<1> &, vtkSmartPointer<vtkPoints> &) -> void;
    template auto vk_point<Cart<2>>(const Cart<2> &, vtkSmartPointer<vtkPoints> &) -> void;
    template auto vk_point<Cart<3>>(const Cart<3> &, vtkSmartPointer<vtkPoints> &) -> void;
    template auto vk_point<Pol>(const Pol &, vtkSmartPointer<vtkPoints> &) -> void;
    template auto vk_point<Sph>(const Sph &, vtkSmartPointer<vtkPoints> &) -> void;
}
