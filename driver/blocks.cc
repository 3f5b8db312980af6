#include "fields.h"
#include <mito/quadrature.h>
#include <mito/manifolds.h>
#include <mito/fem.h>
namespace verif {
    using namespace mito::fem;
    template <int D> using CS = geometry::coordinate_system_t<Cart<D>>;
    using Seg = fem::IsoparametricSegmentP1;
    using T1 = fem::IsoparametricTriangleP1;
    using T2 = fem::IsoparametricTriangleP2;
    template <class E, int r> using QR = quadrature::quadrature_rule_t<quadrature::GAUSS, typename E::canonical_element_type, r>;
    template <class E> using Cell = typename E::cell_type;
    template <class E> using Conn = typename E::connectivity_type;
    template <class E> using X = Cart<E::dim>;

    template <class E> auto el_make(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n) { return E(c, s, n); }
#define MKE(E) template auto el_make<E>(const Cell<E> &, const CS<E::dim> &, const Conn<E> &);
    MKE(Seg) MKE(T1) MKE(T2)

    // elementary blocks
    template <class E, int r> auto bk_mass(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n) { E e(c, s, n); return blocks::mass_block<E, QR<E, r>>().compute(e); }
    template <class E, int r> auto bk_grad(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n) { E e(c, s, n); return blocks::grad_grad_block<E, QR<E, r>>().compute(e); }
    template <class E, int r> auto bk_source(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n)
    {
        E e(c, s, n);
        auto b = blocks::source_term_block<E, QR<E, r>>(verif::f<X<E>>);
        return b.compute(e);
    }
    template <class E, int r> auto bk_norm(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n)
    {
        E e(c, s, n);
        auto b = blocks::l2_norm_block<E, QR<E, r>>(verif::f<X<E>>);
        return b.compute(e);
    }
    // a weak form of several blocks
    template <class E, int r> auto bk_weak(const Cell<E> & c, const CS<E::dim> & s, const Conn<E> & n)
    {
        E e(c, s, n);
        auto m = blocks::mass_block<E, QR<E, r>>();
        auto k = blocks::grad_grad_block<E, QR<E, r>>();
        auto f = blocks::source_term_block<E, QR<E, r>>(verif::f<X<E>>);
        auto g = blocks::source_term_block<E, QR<E, r>>(verif::g<X<E>>);
        Weakform<E> w;
        w.add_block(m);
        w.add_block(m);
        w.add_block(f);
        w.add_block(f);
        w.add_block(k);
        w.add_block(g);
        w.add_block(m);
        return w.compute_blocks(e);
    }
#define BK(E, r, n) template auto bk_##n<E, r>(const Cell<E> &, const CS<E::dim> &, const Conn<E> &);
#define BKS(E, r) BK(E, r, mass) BK(E, r, grad) BK(E, r, source) BK(E, r, norm)
    BKS(Seg, 1) BKS(Seg, 2) BKS(T1, 1) BKS(T1, 2) BKS(T2, 2) BK(T2, 4, mass) BK(T2, 4, source)
    BK(Seg, 2, weak) BK(T1, 2, weak)

    // norms over a function space
    template <class E, int D> using FS = FunctionSpace<E, constraints::Dirichlet<mesh::mesh_t<geometry::segment_t<D>>, decltype(verif::f<Cart<D>>)>>;
    template <class E, int r> auto nm_l2(const FS<E, 2> & s) { return compute_l2_norm<QR<E, r>>(s, verif::f<X<E>>, verif::g<X<E>>); }
    template <class E, int r> auto nm_h1(const FS<E, 2> & s) { return compute_h1_norm<QR<E, r>>(s, verif::f<X<E>>, verif::g<X<E>>); }
#define NM(E, r) template auto nm_l2<E, r>(const FS<E, 2> &); template auto nm_h1<E, r>(const FS<E, 2> &);
    NM(T1, 2)

    // quadrature rules
    template <class R, int r> auto qr_points() { return std::array<S, 1>{ S(quadrature::QuadratureRule<quadrature::GAUSS, R, r>::npoints) }; }
    template <class R, int r> auto qr_point(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().point(q); }
    template <class R, int r> auto qr_weight(int q) { return quadrature::quadrature_rule<quadrature::GAUSS, R, r>().weight(q); }
#define QRX(R, r) template auto qr_points<R, r>(); template auto qr_point<R, r>(int); template auto qr_weight<R, r>(int);
    QRX(geometry::reference_segment_t, 1) QRX(geometry::reference_segment_t, 2)
    QRX(geometry::reference_triangle_t, 1) QRX(geometry::reference_triangle_t, 2) QRX(geometry::reference_triangle_t, 3) QRX(geometry::reference_triangle_t, 4)
    QRX(geometry::reference_tetrahedron_t, 1) QRX(geometry::reference_tetrahedron_t, 2)
}
namespace verif {
    template <class XX> auto at(S a, S b, S c) -> XX
    {
        if constexpr (XX::dim == 1) return geometry::coordinates<XX>({ a });
        if constexpr (XX::dim == 2) return geometry::coordinates<XX>({ a, b });
        if constexpr (XX::dim == 3) return geometry::coordinates<XX>({ a, b, c });
    }
    template <class XX> auto aff_get(const XX & A, const XX &, const V<XX::dim> &) {
        if constexpr (XX::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (XX::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (XX::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(XX) template auto at<XX>(S, S, S) -> XX; template auto aff_get(const XX &, const XX &, const V<XX::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>) AT(Pol) AT(Sph)
}
