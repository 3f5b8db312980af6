#include "meshes.h"
#include <mito/discrete.h>
namespace verif {
    template <class C> auto df_mesh(const Mesh<C> & m) { return discrete::mesh_field<S>(m, "a field"); }
    template <class C> auto df_cont(const Mesh<C> & m, const CS<C> & s) {
        return discrete::mesh_field(m, s, functions::OpaqueField<1, Cart<C::dim>, S>(), "a field");
    }
    template <class C> auto df_cloud(const geometry::point_cloud_t<C::dim> & c) { return discrete::point_field<S>(c, "a field"); }
    template <class C> auto df_points(const discrete::point_field_t<C::dim, S> & f, std::vector<geometry::point_t<C::dim>> & ps, std::vector<S> & vs) -> void { for (const auto & [n, v] : f) { ps.push_back(n); vs.push_back(v); } }
    template <class C> auto df_insert(discrete::mesh_field_t<C::dim, S> & f, const Node<C> & n, S v) -> void { f.insert(n, v); }
    template <class C> auto df_at(const discrete::mesh_field_t<C::dim, S> & f, const Node<C> & n) -> S { return f(n); }
    template <class C> auto df_set(discrete::mesh_field_t<C::dim, S> & f, const Node<C> & n, S v) -> void { f(n) = v; }
    template <class C> auto df_size(const discrete::mesh_field_t<C::dim, S> & f) { return f.size(); }
    template <class C> auto df_list(const discrete::mesh_field_t<C::dim, S> & f, std::vector<Node<C>> & ns, std::vector<S> & vs) -> void { for (const auto & [n, v] : f) { ns.push_back(n); vs.push_back(v); } }
    template <class C> auto df_scale(discrete::mesh_field_t<C::dim, S> & f, S s) -> void { for (auto & [n, v] : f) v = s * v; }
#define MS(C) MS_COMMON(C) template auto df_mesh<C>(const Mesh<C> &); template auto df_cloud<C>(const geometry::point_cloud_t<C::dim> &); \
    template auto df_points<C>(const discrete::point_field_t<C::dim, S> &, std::vector<geometry::point_t<C::dim>> &, std::vector<S> &) -> void; template auto df_cont<C>(const Mesh<C> &, const CS<C> &); \
    template auto df_insert<C>(discrete::mesh_field_t<C::dim, S> &, const Node<C> &, S) -> void; template auto df_at<C>(const discrete::mesh_field_t<C::dim, S> &, const Node<C> &) -> S; \
    template auto df_set<C>(discrete::mesh_field_t<C::dim, S> &, const Node<C> &, S) -> void; template auto df_size<C>(const discrete::mesh_field_t<C::dim, S> &); \
    template auto df_list<C>(const discrete::mesh_field_t<C::dim, S> &, std::vector<Node<C>> &, std::vector<S> &) -> void; \
    template auto df_scale<C>(discrete::mesh_field_t<C::dim, S> &, S) -> void;
    MS(Seg1) MS(Tri2) MS(Tet3)
}
