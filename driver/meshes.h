// what the drivers that work on meshes have in common
#pragma once
#include "fields.h"
#include <mito/mesh.h>
namespace verif {
    using namespace mito;
    template <class C> using Mesh = mesh::mesh_t<C>;
    template <class C> using Node = typename C::node_type;
    template <class C> using Nodes = typename C::nodes_type;
    template <class C> using CS = geometry::coordinate_system_t<Cart<C::dim>>;

    template <class C> auto ms_new() { return mesh::mesh<C>(); }
    template <class C> auto ms_cs() { return geometry::coordinate_system<Cart<C::dim>>(); }
    template <class C> auto ms_node(CS<C> & s, const Cart<C::dim> & x) { return geometry::node(s, x); }
    // another node on the vertex and the point of a node
    template <class C> auto ms_again(const Node<C> & n) { return Node<C>(n->vertex(), n->point()); }
    template <class C> auto ms_coords(const CS<C> & s, const Node<C> & n) { return s.coordinates(n->point()); }
    template <class C> auto ms_insert(Mesh<C> & m, const Nodes<C> & n) -> C & { return m.insert(n); }
    template <class C> auto ms_erase(Mesh<C> & m, C & c) -> void { m.erase(c); }
    template <class C> auto ms_n(const Mesh<C> & m) { return m.nCells(); }
    template <class C> auto ms_cells(const Mesh<C> & m, std::vector<C> & out) -> void { for (const auto & c : m.cells()) out.push_back(c); }
    template <class C> auto ms_nodes_of(const C & c) -> const Nodes<C> & { return c.nodes(); }
    template <class C> auto ms_simplex(const C & c) { return c.simplex(); }
#define MS_COMMON(C) template auto ms_new<C>(); template auto ms_cs<C>(); template auto ms_node<C>(CS<C> &, const Cart<C::dim> &); template auto ms_again<C>(const Node<C> &); \
    template auto ms_coords<C>(const CS<C> &, const Node<C> &); template auto ms_insert<C>(Mesh<C> &, const Nodes<C> &) -> C &; template auto ms_erase<C>(Mesh<C> &, C &) -> void; \
    template auto ms_n<C>(const Mesh<C> &); template auto ms_cells<C>(const Mesh<C> &, std::vector<C> &) -> void; template auto ms_nodes_of<C>(const C &) -> const Nodes<C> &; \
    template auto ms_simplex<C>(const C &);
    using Seg1 = geometry::segment_t<1>;
    using Tri2 = geometry::triangle_t<2>;
    using Tet3 = geometry::tetrahedron_t<3>;
}
namespace verif {
    template <class XX> auto at(S a, S b, S c) -> XX
    {
        if constexpr (XX::dim == 1) return geometry::coordinates<XX>({ a });
        if constexpr (XX::dim == 2) return geometry::coordinates<XX>({ a, b });
        if constexpr (XX::dim == 3) return geometry::coordinates<XX>({ a, b, c });
    }
    template <class XX> auto aff_get(const XX & A, const XX &, const V<XX::dim> &) {
        if constexpr (XX::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (XX::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (XX::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(XX) template auto at<XX>(S, S, S) -> XX; template auto aff_get(const XX &, const XX &, const V<XX::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>) AT(Pol) AT(Sph)
}
