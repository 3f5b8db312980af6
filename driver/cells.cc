#include "fields.h"
#include <mito/quadrature.h>
#include <mito/manifolds.h>
namespace verif {
    using namespace mito::geometry;
    namespace F = mito::fields;
    template <class X> using CSX = geometry::coordinate_system_t<X>;
    template <int N, int D> using Simplex = geometry::geometric_simplex_t<N, D>;

    template <class X> auto at(S a, S b, S c) -> X
    {
        if constexpr (X::dim == 1) return geometry::coordinates<X>({ a });
        if constexpr (X::dim == 2) return geometry::coordinates<X>({ a, b });
        if constexpr (X::dim == 3) return geometry::coordinates<X>({ a, b, c });
    }
    template <class X> auto aff_get(const X & A, const X &, const V<X::dim> &) {
        if constexpr (X::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (X::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (X::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(X) template auto at<X>(S, S, S) -> X; template auto aff_get(const X &, const X &, const V<X::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>) AT(Pol) AT(Sph)

    // cells
    template <class C, class X> auto cell_barycenter(const C & c, const CSX<X> & s) -> X { return barycenter(c, s); }
    template <class C, class X> auto cell_directors(const C & c, const CSX<X> & s) { return directors(c, s); }
    template <class C, class X> auto cell_volume(const C & c, const CSX<X> & s, const mesh::mesh_t<C> & m) { return manifolds::manifold(m, s).volume(c); }
    template <class C, class X> auto cell_total(const C & c, const CSX<X> & s, const mesh::mesh_t<C> & m) { return manifolds::manifold(m, s).volume(); }
    template <class C, class X> auto cell_param(const C & c, const CSX<X> & s, const typename geometry::reference_simplex_t<C::order>::parametric_coordinates_type & xi)
    {
        return c.parametrization(s)(xi);
    }
    template <class C, class X, int r> auto cell_integral(const C & c, const CSX<X> & s, const mesh::mesh_t<C> & m)
    {
        auto M = manifolds::manifold(m, s);
        auto I = quadrature::integrator<quadrature::GAUSS, r>(M);
        return I.integrate(verif::f<X>);
    }
#define BOTH(m, N, X) m(N, X::dim, X)
#define CB(N, X) template auto cell_barycenter(const Simplex<N, X::dim> &, const CSX<X> &) -> X; \
    template auto cell_directors(const Simplex<N, X::dim> &, const CSX<X> &);
    CB(1, Cart<1>) CB(1, Cart<2>) CB(1, Cart<3>) CB(2, Cart<2>) CB(2, Cart<3>) CB(3, Cart<3>) CB(1, Pol) CB(1, Sph)
#define CP(N, X) template auto cell_param(const Simplex<N, X::dim> &, const CSX<X> &, const typename geometry::reference_simplex_t<N>::parametric_coordinates_type &);
    CP(1, Cart<1>) CP(1, Cart<2>) CP(1, Cart<3>) CP(2, Cart<2>) CP(2, Cart<3>) CP(3, Cart<3>)
#define CV(N, X) template auto cell_volume(const Simplex<N, X::dim> &, const CSX<X> &, const mesh::mesh_t<Simplex<N, X::dim>> &); \
    template auto cell_total(const Simplex<N, X::dim> &, const CSX<X> &, const mesh::mesh_t<Simplex<N, X::dim>> &);
    CV(1, Cart<1>) CV(2, Cart<2>) CV(3, Cart<3>) CV(2, Pol) CV(3, Sph)
#define CI(N, X, r) template auto cell_integral<Simplex<N, X::dim>, X, r>(const Simplex<N, X::dim> &, const CSX<X> &, const mesh::mesh_t<Simplex<N, X::dim>> &);
    CI(1, Cart<1>, 1) CI(1, Cart<1>, 2) CI(2, Cart<2>, 1) CI(2, Cart<2>, 2) CI(2, Cart<2>, 3) CI(2, Cart<2>, 4) CI(3, Cart<3>, 1) CI(3, Cart<3>, 2)

    // cells embedded in a space of higher dimension
    template <class C, class X> auto sub_volume1(const C & c, const CSX<X> & s, const mesh::mesh_t<C> & m) { return manifolds::submanifold(m, s, verif::v<X>).volume(c); }
    template <class C, class X> auto sub_volume2(const C & c, const CSX<X> & s, const mesh::mesh_t<C> & m) { return manifolds::submanifold(m, s, verif::v<X>, verif::w<X>).volume(c); }
    template auto sub_volume1(const Simplex<1, 2> &, const CSX<Cart<2>> &, const mesh::mesh_t<Simplex<1, 2>> &);
    template auto sub_volume1(const Simplex<2, 3> &, const CSX<Cart<3>> &, const mesh::mesh_t<Simplex<2, 3>> &);
    template auto sub_volume2(const Simplex<1, 3> &, const CSX<Cart<3>> &, const mesh::mesh_t<Simplex<1, 3>> &);

    // quadrature rules
    template <class R, int r> auto qr_points() { return std::array<S, 1>{ S(quadrature::QuadratureRule<quadrature::GAUSS, R, r>::npoints) }; }
    template <class R, int r> auto qr_point(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().point(q); }
    template <class R, int r> auto qr_weight(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().weight(q); }
#define QR(R, r) template auto qr_points<R, r>(); template auto qr_point<R, r>(int); template auto qr_weight<R, r>(int);
    QR(geometry::reference_segment_t, 1) QR(geometry::reference_segment_t, 2)
    QR(geometry::reference_triangle_t, 1) QR(geometry::reference_triangle_t, 2) QR(geometry::reference_triangle_t, 3) QR(geometry::reference_triangle_t, 4)
    QR(geometry::reference_tetrahedron_t, 1) QR(geometry::reference_tetrahedron_t, 2)
}
