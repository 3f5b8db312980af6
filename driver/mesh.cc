#include "fields.h"
#include <mito/quadrature.h>
#include <mito/manifolds.h>
namespace verif {
    using namespace mito;
    template <class C> using Mesh = mesh::mesh_t<C>;
    template <class C> using Node = typename C::node_type;
    template <class C> using Nodes = typename C::nodes_type;
    template <class C> using BMesh = typename mesh::boundary_mesh<C>::type;
    template <class C> using CS = geometry::coordinate_system_t<Cart<C::dim>>;
    template <class C> using Sub = typename C::template cell_topological_family_type<C::order - 1>;

    template <class C> auto ms_new() { return mesh::mesh<C>(); }
    template <class C> auto ms_cs() { return geometry::coordinate_system<Cart<C::dim>>(); }
    template <class C> auto ms_node(CS<C> & s, const Cart<C::dim> & x) { return geometry::node(s, x); }
    template <class C> auto ms_coords(const CS<C> & s, const Node<C> & n) { return s.coordinates(n->point()); }
    template <class C> auto ms_cell(const Nodes<C> & n) { return C(n); }
    template <class C> auto ms_insert(Mesh<C> & m, const Nodes<C> & n) -> C & { return m.insert(n); }
    template <class C> auto ms_insert_cell(Mesh<C> & m, const C & c) -> C & { return m.insert(c); }
    template <class C> auto ms_erase(Mesh<C> & m, C & c) -> void { m.erase(c); }
    template <class C> auto ms_n(const Mesh<C> & m) { return m.nCells(); }
    template <class C> auto ms_cells(const Mesh<C> & m, std::vector<C> & out) -> void { for (const auto & c : m.cells()) out.push_back(c); }
    template <class C> auto ms_nodes_of(const C & c) -> const Nodes<C> & { return c.nodes(); }
    template <class C> auto ms_simplex(const C & c) { return c.simplex(); }
    template <class C> auto ms_faces(const C & c) { return c.simplex()->composition(); }
    template <class C> auto ms_on_boundary(const Mesh<C> & m, const Sub<C> & f) { return m.isOnBoundary(f); }
    template <class C> auto ms_boundary(const Mesh<C> & m) { return mesh::boundary(m); }
    template <class C> auto ms_boundary_size(const Mesh<C> & m) { return mesh::boundary_size(m); }
    template <class C> auto ms_dup_top(Mesh<C> & m) -> void { m.erase_topological_duplicates(); }
    template <class C> auto ms_dup_geo(Mesh<C> & m) -> void { m.erase_geometrical_duplicates(); }
    template <class C> auto ms_all_nodes(const Mesh<C> & m, std::set<Node<C>> & out) -> void { mesh::get_nodes(m, out); }
    template <class C> auto ms_flip(const C & c) { return geometry::flip(c); }
    template <class C> auto ms_flip_diagonal(const C & a, const C & b) { return geometry::flip_diagonal<C::dim>({ a, b }); }
    template <class C> auto ms_cell_of(const decltype(std::declval<const C &>().simplex()) & s, const Nodes<C> & n) { return C(s, n); }
    template <class C> auto ms_refine(const Mesh<C> & m, CS<C> & s, int n) { return mesh::tetra(m, s, n); }
    template <class C, int I> auto ms_filter(const Mesh<C> & m) { return mesh::filter<I>(m); }
#define MS(C) template auto ms_new<C>(); template auto ms_cs<C>(); template auto ms_node<C>(CS<C> &, const Cart<C::dim> &); \
    template auto ms_coords<C>(const CS<C> &, const Node<C> &); template auto ms_cell<C>(const Nodes<C> &); template auto ms_insert<C>(Mesh<C> &, const Nodes<C> &) -> C &; \
    template auto ms_insert_cell<C>(Mesh<C> &, const C &) -> C &; template auto ms_erase<C>(Mesh<C> &, C &) -> void; template auto ms_n<C>(const Mesh<C> &); \
    template auto ms_cells<C>(const Mesh<C> &, std::vector<C> &) -> void; template auto ms_nodes_of<C>(const C &) -> const Nodes<C> &; template auto ms_simplex<C>(const C &); \
    template auto ms_faces<C>(const C &); template auto ms_on_boundary<C>(const Mesh<C> &, const Sub<C> &); template auto ms_boundary<C>(const Mesh<C> &); \
    template auto ms_boundary_size<C>(const Mesh<C> &); template auto ms_dup_top<C>(Mesh<C> &) -> void; template auto ms_dup_geo<C>(Mesh<C> &) -> void; \
    template auto ms_all_nodes<C>(const Mesh<C> &, std::set<Node<C>> &) -> void; template auto ms_flip<C>(const C &);
#define RF(C) template auto ms_refine<C>(const Mesh<C> &, CS<C> &, int);
#define FL(C, I) template auto ms_filter<C, I>(const Mesh<C> &);
    using Seg1 = geometry::segment_t<1>;
    using Seg2 = geometry::segment_t<2>;
    using Tri2 = geometry::triangle_t<2>;
    using Tri3 = geometry::triangle_t<3>;
    using Tet3 = geometry::tetrahedron_t<3>;
    MS(Seg1) MS(Seg2) MS(Tri2) MS(Tri3) MS(Tet3)
    RF(Seg1) RF(Seg2) RF(Tri2) RF(Tri3) RF(Tet3)
#define CO(C) template auto ms_cell_of<C>(const decltype(std::declval<const C &>().simplex()) &, const Nodes<C> &);
    CO(Seg1) CO(Seg2) CO(Tri2) CO(Tri3) CO(Tet3)
    template auto ms_flip_diagonal<Tri2>(const Tri2 &, const Tri2 &); template auto ms_flip_diagonal<Tri3>(const Tri3 &, const Tri3 &);
    FL(Tri2, 1) FL(Tet3, 2) FL(Tet3, 1)
    // point clouds
    template <int DD> using Cloud = geometry::point_cloud_t<DD>;
    template <int DD> auto pc_cloud() -> Cloud<DD> & { return geometry::point_cloud<DD>(); }
    template <int DD> auto pc_point(Cloud<DD> & c) { return c.point(); }
    template <int DD> auto pc_size(const Cloud<DD> & c) { return c.size(); }
    template <int DD> auto pc_walk(const Cloud<DD> & c, std::vector<geometry::point_t<DD>> & out) -> void { for (const auto & p : c) out.push_back(p); }
    template <int DD> auto pc_points(const Cloud<DD> & c, std::vector<geometry::point_t<DD>> & out) -> void { for (const auto & p : c.points()) out.push_back(p); }
    template <int DD> auto pc_node(geometry::coordinate_system_t<Cart<DD>> & s, const Cart<DD> & x) { return geometry::node(s, x); }
    template <int DD> auto pc_vertex_of(const geometry::node_t<DD> & n) { return n->vertex(); }
    template <int DD> auto pc_point_of(const geometry::node_t<DD> & n) { return n->point(); }
    template <int DD> auto pc_at(const geometry::coordinate_system_t<Cart<DD>> & s, const geometry::point_t<DD> & p) { return s.coordinates(p); }
    template <int DD> auto pc_system() { return geometry::coordinate_system<Cart<DD>>(); }
#define PC(DD) template auto pc_cloud<DD>() -> Cloud<DD> &; template auto pc_point<DD>(Cloud<DD> &); template auto pc_size<DD>(const Cloud<DD> &); \
    template auto pc_walk<DD>(const Cloud<DD> &, std::vector<geometry::point_t<DD>> &) -> void; template auto pc_points<DD>(const Cloud<DD> &, std::vector<geometry::point_t<DD>> &) -> void; \
    template auto pc_node<DD>(geometry::coordinate_system_t<Cart<DD>> &, const Cart<DD> &); template auto pc_vertex_of<DD>(const geometry::node_t<DD> &); \
    template auto pc_point_of<DD>(const geometry::node_t<DD> &); template auto pc_at<DD>(const geometry::coordinate_system_t<Cart<DD>> &, const geometry::point_t<DD> &); \
    template auto pc_system<DD>();
    PC(1) PC(2) PC(3)
    // cells of a filtered or boundary mesh
    template <class C> auto ms_sub(const Mesh<C> & m, std::vector<C> & out) -> void { for (const auto & c : m.cells()) out.push_back(c); }
    template auto ms_sub<geometry::segment_t<3>>(const Mesh<geometry::segment_t<3>> &, std::vector<geometry::segment_t<3>> &) -> void;
    template auto ms_sub<Seg2>(const Mesh<Seg2> &, std::vector<Seg2> &) -> void;
    template auto ms_sub<Tri3>(const Mesh<Tri3> &, std::vector<Tri3> &) -> void;
}
namespace verif {
    template <class XX> auto at(S a, S b, S c) -> XX
    {
        if constexpr (XX::dim == 1) return geometry::coordinates<XX>({ a });
        if constexpr (XX::dim == 2) return geometry::coordinates<XX>({ a, b });
        if constexpr (XX::dim == 3) return geometry::coordinates<XX>({ a, b, c });
    }
    template <class XX> auto aff_get(const XX & A, const XX &, const V<XX::dim> &) {
        if constexpr (XX::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (XX::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (XX::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(XX) template auto at<XX>(S, S, S) -> XX; template auto aff_get(const XX &, const XX &, const V<XX::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>)
}
