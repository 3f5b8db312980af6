#include "fields.h"
#include <mito/quadrature.h>
#include <mito/manifolds.h>
#include <mito/fem.h>
namespace verif {
    using namespace mito::fem;
    template <int D> using CS = geometry::coordinate_system_t<Cart<D>>;
    using Seg = fem::IsoparametricSegmentP1;
    using T1 = fem::IsoparametricTriangleP1;
    using T2 = fem::IsoparametricTriangleP2;

    // an element on a cell, and the reference coordinates of a point
    template <class E> auto el_make(const typename E::cell_type & c, const CS<E::dim> & s, const typename E::connectivity_type & n) { return E(c, s, n); }
    template <class E, int a> auto el_shape(const E & e, const Cart<E::dim> & xi) { return e.template shape<a>()(xi); }
    template <class E, int a> auto el_dshape(const E & e, const Cart<E::dim> & xi) { return E::shape_functions.template dshape<a>()(xi); }
    template <class E, int a> auto el_gradient(const E & e, const Cart<E::dim> & xi) { return e.template gradient<a>()(xi); }
    template <class E, int a> auto el_jacobian(const E & e, const Cart<E::dim> & xi) { return e.jacobian()(xi); }
    template <class E, int a> auto el_param(const E & e, const Cart<E::dim> & xi) { return e.parametrization()(xi); }
#define EL(E, n, a) template auto el_##n<E, a>(const E &, const Cart<E::dim> &);
#define ELS(E, a) EL(E, shape, a) EL(E, dshape, a) EL(E, gradient, a)
    ELS(Seg, 0) ELS(Seg, 1) ELS(T1, 0) ELS(T1, 1) ELS(T1, 2) ELS(T2, 0) ELS(T2, 1) ELS(T2, 2) ELS(T2, 3) ELS(T2, 4) ELS(T2, 5)
    EL(Seg, jacobian, 0) EL(T1, jacobian, 0) EL(T2, jacobian, 0) EL(Seg, param, 0) EL(T1, param, 0) EL(T2, param, 0)
#define MK(E) template auto el_make<E>(const E::cell_type &, const CS<E::dim> &, const E::connectivity_type &);
    MK(Seg) MK(T1) MK(T2)

    // quadrature rules
    template <class R, int r> auto qr_points() { return std::array<S, 1>{ S(quadrature::QuadratureRule<quadrature::GAUSS, R, r>::npoints) }; }
    template <class R, int r> auto qr_point(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().point(q); }
    template <class R, int r> auto qr_weight(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().weight(q); }
#define QR(R, r) template auto qr_points<R, r>(); template auto qr_point<R, r>(int); template auto qr_weight<R, r>(int);
    QR(geometry::reference_segment_t, 1) QR(geometry::reference_segment_t, 2)
    QR(geometry::reference_triangle_t, 1) QR(geometry::reference_triangle_t, 2) QR(geometry::reference_triangle_t, 3) QR(geometry::reference_triangle_t, 4)
    QR(geometry::reference_tetrahedron_t, 1) QR(geometry::reference_tetrahedron_t, 2)
    template <class R> auto rs_area() { return S(R::area); }
    template auto rs_area<geometry::reference_segment_t>(); template auto rs_area<geometry::reference_triangle_t>(); template auto rs_area<geometry::reference_tetrahedron_t>();
}
namespace verif {
    template <class X> auto at(S a, S b, S c) -> X
    {
        if constexpr (X::dim == 1) return geometry::coordinates<X>({ a });
        if constexpr (X::dim == 2) return geometry::coordinates<X>({ a, b });
        if constexpr (X::dim == 3) return geometry::coordinates<X>({ a, b, c });
    }
    template <class X> auto aff_get(const X & A, const X &, const V<X::dim> &) {
        if constexpr (X::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (X::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (X::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(X) template auto at<X>(S, S, S) -> X; template auto aff_get(const X &, const X &, const V<X::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>) AT(Pol) AT(Sph)
}
