#include "shim.h"
#include <mito/utilities.h>
#include <mito/journal.h>
#include <mito/topology.h>
using namespace mito::topology;
template class mito::topology::Simplex<1>;
template class mito::topology::Simplex<2>;
template class mito::topology::Simplex<3>;
template class mito::topology::OrientedSimplex<1>;
template class mito::topology::OrientedSimplex<2>;
template class mito::topology::OrientedSimplex<3>;
namespace verif {
    using T = Topology;
    auto vertex(T & t) -> vertex_t { return t.vertex(); }
    auto seg(T & t, const vertex_simplex_composition_t<1> & v) -> simplex_t<1> { return t.segment(v); }
    auto tri(T & t, const vertex_simplex_composition_t<2> & v) -> simplex_t<2> { return t.triangle(v); }
    auto tet(T & t, const vertex_simplex_composition_t<3> & v) -> simplex_t<3> { return t.tetrahedron(v); }
    auto sv1(T & t, const vertex_simplex_composition_t<1> & v) -> simplex_t<1> { return t.simplex<1>(v); }
    auto sv2(T & t, const vertex_simplex_composition_t<2> & v) -> simplex_t<2> { return t.simplex<2>(v); }
    auto sv3(T & t, const vertex_simplex_composition_t<3> & v) -> simplex_t<3> { return t.simplex<3>(v); }
    auto segc(T & t, const simplex_composition_t<1> & c) -> simplex_t<1> { return t.segment(c); }
    auto tric(T & t, const simplex_composition_t<2> & c) -> simplex_t<2> { return t.triangle(c); }
    auto tetc(T & t, const simplex_composition_t<3> & c) -> simplex_t<3> { return t.tetrahedron(c); }
    auto sf0(T & t, const unoriented_simplex_t<0> & f, int o) -> simplex_t<0> { return t.simplex<0>(f, o); }
    auto sf1(T & t, const unoriented_simplex_t<1> & f, int o) -> simplex_t<1> { return t.simplex<1>(f, o); }
    auto sf2(T & t, const unoriented_simplex_t<2> & f, int o) -> simplex_t<2> { return t.simplex<2>(f, o); }
    auto sf3(T & t, const unoriented_simplex_t<3> & f, int o) -> simplex_t<3> { return t.simplex<3>(f, o); }
    auto so0(T & t, int o) -> simplex_t<0> { return t.simplex<0>(o); }
    auto flip0(T & t, const simplex_t<0> & s) -> simplex_t<0> { return t.flip<0>(s); }
    auto flip1(T & t, const simplex_t<1> & s) -> simplex_t<1> { return t.flip<1>(s); }
    auto flip2(T & t, const simplex_t<2> & s) -> simplex_t<2> { return t.flip<2>(s); }
    auto flip3(T & t, const simplex_t<3> & s) -> simplex_t<3> { return t.flip<3>(s); }
    auto exf0(const T & t, const simplex_t<0> & s) -> bool { return t.exists_flipped<0>(s); }
    auto exf1(const T & t, const simplex_t<1> & s) -> bool { return t.exists_flipped<1>(s); }
    auto exf2(const T & t, const simplex_t<2> & s) -> bool { return t.exists_flipped<2>(s); }
    auto exf3(const T & t, const simplex_t<3> & s) -> bool { return t.exists_flipped<3>(s); }
    auto ex1(const T & t, const simplex_composition_t<1> & s) -> bool { return t.exists<1>(s); }
    auto ex2(const T & t, const simplex_composition_t<2> & s) -> bool { return t.exists<2>(s); }
    auto ex3(const T & t, const simplex_composition_t<3> & s) -> bool { return t.exists<3>(s); }
    auto exv(const T & t, const vertex_simplex_composition_t<1> & s) -> bool { return t.exists(s); }
    auto erase0(T & t, simplex_t<0> & s) -> void { t.erase<0>(s); }
    auto erase1(T & t, simplex_t<1> & s) -> void { t.erase<1>(s); }
    auto erase2(T & t, simplex_t<2> & s) -> void { t.erase<2>(s); }
    auto erase3(T & t, simplex_t<3> & s) -> void { t.erase<3>(s); }
    auto n0(const T & t) -> int { return t.n_simplices<0>(); }
    auto n1(const T & t) -> int { return t.n_simplices<1>(); }
    auto n2(const T & t) -> int { return t.n_simplices<2>(); }
    auto n3(const T & t) -> int { return t.n_simplices<3>(); }
    auto comp1(const simplex_t<1> & s) -> simplex_composition_t<1> { return s->composition(); }
    auto comp2(const simplex_t<2> & s) -> simplex_composition_t<2> { return s->composition(); }
    auto comp3(const simplex_t<3> & s) -> simplex_composition_t<3> { return s->composition(); }
    auto verts1(const simplex_t<1> & s) -> vertex_simplex_composition_t<1> { return s->vertices(); }
    auto verts2(const simplex_t<2> & s) -> vertex_simplex_composition_t<2> { return s->vertices(); }
    auto verts3(const simplex_t<3> & s) -> vertex_simplex_composition_t<3> { return s->vertices(); }
    auto fverts1(const simplex_t<1> & s) -> std::set<vertex_t> { return s->footprint()->vertices(); }
    auto fverts2(const simplex_t<2> & s) -> std::set<vertex_t> { return s->footprint()->vertices(); }
    auto fverts3(const simplex_t<3> & s) -> std::set<vertex_t> { return s->footprint()->vertices(); }
    auto gflip1(const simplex_t<1> & s) -> simplex_t<1> { return mito::topology::flip<1>(s); }
    auto gflip3(const simplex_t<3> & s) -> simplex_t<3> { return mito::topology::flip<3>(s); }
    auto overts3(const simplex_t<3> & s, std::set<vertex_t> & v) -> void { s->vertices(v); }
    auto edges2(const simplex_t<2> & s, std::set<simplex_t<1>> & e) -> void { s->edges(e); }
    auto edges3(const simplex_t<3> & s, std::set<simplex_t<1>> & e) -> void { s->edges(e); }
    auto foot0(const simplex_t<0> & s) -> unoriented_simplex_t<0> { return s->footprint(); }
    auto foot1(const simplex_t<1> & s) -> unoriented_simplex_t<1> { return s->footprint(); }
    auto foot2(const simplex_t<2> & s) -> unoriented_simplex_t<2> { return s->footprint(); }
    auto foot3(const simplex_t<3> & s) -> unoriented_simplex_t<3> { return s->footprint(); }
    auto ori0(const simplex_t<0> & s) -> int { return s->orientation(); }
    auto ori1(const simplex_t<1> & s) -> int { return s->orientation(); }
    auto ori2(const simplex_t<2> & s) -> int { return s->orientation(); }
    auto ori3(const simplex_t<3> & s) -> int { return s->orientation(); }
    auto sane3(const simplex_t<3> & s) -> bool { return s->sanityCheck(); }
    auto sane2(const simplex_t<2> & s) -> bool { return s->sanityCheck(); }
    auto sane1(const simplex_t<1> & s) -> bool { return s->sanityCheck(); }
    auto valid1(const simplex_composition_t<1> & c) -> bool { return isValid<1>(c); }
    auto valid2(const simplex_composition_t<2> & c) -> bool { return isValid<2>(c); }
    auto valid3(const simplex_composition_t<3> & c) -> bool { return isValid<3>(c); }
    auto tail1(const simplex_t<1> & s) -> vertex_t { return tail(s); }
    auto head1(const simplex_t<1> & s) -> vertex_t { return head(s); }
    auto connected(const simplex_t<1> & s, const simplex_t<1> & u) -> bool { return headTailConnected(s, u); }
    auto flipdiag(const std::pair<simplex_t<2>, simplex_t<2>> & p) -> std::pair<simplex_t<2>, simplex_t<2>> { return flip_diagonal(p); }
    auto top() -> T & { return mito::topology::topology(); }
    auto gflip2(const simplex_t<2> & s) -> simplex_t<2> { return mito::topology::flip<2>(s); }
    auto gvertex() -> vertex_t { return mito::topology::vertex(); }
    auto gseg(const vertex_simplex_composition_t<1> & v) -> segment_t { return mito::topology::segment(v); }
    auto gtri(const vertex_simplex_composition_t<2> & v) -> triangle_t { return mito::topology::triangle(v); }
    auto gtet(const vertex_simplex_composition_t<3> & v) -> tetrahedron_t { return mito::topology::tetrahedron(v); }
    auto gsegc(const simplex_composition_t<1> & v) -> segment_t { return mito::topology::segment(v); }
    auto gtric(const simplex_composition_t<2> & v) -> triangle_t { return mito::topology::triangle(v); }
    auto gtetc(const simplex_composition_t<3> & v) -> tetrahedron_t { return mito::topology::tetrahedron(v); }
}
