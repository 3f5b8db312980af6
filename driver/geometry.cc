#include "fields.h"
namespace verif {
    using namespace mito::geometry;
    namespace F = mito::fields;

    // coordinates from numbers
    template <class X> auto at(S a, S b, S c) -> X
    {
        if constexpr (X::dim == 1) return geometry::coordinates<X>({ a });
        if constexpr (X::dim == 2) return geometry::coordinates<X>({ a, b });
        if constexpr (X::dim == 3) return geometry::coordinates<X>({ a, b, c });
    }

// instantiate for each kind of coordinates
#define ALL(m, ...) m(Cart<1>, __VA_ARGS__) m(Cart<2>, __VA_ARGS__) m(Cart<3>, __VA_ARGS__) m(Pol, __VA_ARGS__) m(Sph, __VA_ARGS__)

    // affine structure
    template <class X> auto aff_plus(const X & A, const X & B, const V<X::dim> & v) { return A + v; }
    template <class X> auto aff_pluseq(const X & A, const X & B, const V<X::dim> & v) { X C = A; X & D = (C += v); return std::pair<X, bool>(C, &D == &C); }
    template <class X> auto aff_minus(const X & A, const X & B, const V<X::dim> & v) { return B - A; }
    template <class X> auto aff_distance(const X & A, const X & B, const V<X::dim> & v) { return distance(A, B); }
    template <class X> auto aff_between(const X & A, const X & B, const V<X::dim> & v) { return A + (B - A); }
    template <class X> auto aff_equal(const X & A, const X & B, const V<X::dim> & v) { return A == B; }
    template <class X> auto aff_less(const X & A, const X & B, const V<X::dim> & v) { return A < B; }
    template <class X> auto aff_copy(const X & A, const X & B, const V<X::dim> & v) { X C(B); C = A; return C; }
    template <class X> auto aff_get(const X & A, const X & B, const V<X::dim> & v) {
        if constexpr (X::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (X::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (X::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AFF(X, n) template auto aff_##n(const X &, const X &, const V<X::dim> &);
    ALL(AFF, plus) ALL(AFF, pluseq) ALL(AFF, minus) ALL(AFF, distance) ALL(AFF, between) ALL(AFF, equal) ALL(AFF, less) ALL(AFF, copy) ALL(AFF, get)
#define AT(X, n) template auto at<X>(S, S, S) -> X;
    ALL(AT, at)

    // construction
    template <class X> auto mk_default() { return X(); }
#define MK(X, n) template auto mk_default<X>();
    ALL(MK, n)
    auto mk_cartesian1(S a) { return cartesian::coordinates<1>({ a }); }
    auto mk_cartesian2(S a, S b) { return cartesian::coordinates<2>({ a, b }); }
    auto mk_cartesian3(S a, S b, S c) { return cartesian::coordinates<3>({ a, b, c }); }
    auto mk_polar(S a, S b) { return polar::coordinates({ a, b }); }
    auto mk_spherical(S a, S b, S c) { return spherical::coordinates({ a, b, c }); }
    template <class X> auto mk_vector(const V<X::dim> & v) { return X(v); }
#define MKV(X, n) template auto mk_vector<X>(const V<X::dim> &);
    ALL(MKV, n)
    auto mk_pack1(S a) { return Cart<1>(a); }
    auto mk_pack2(S a, S b) { return Pol(a, b); }
    auto mk_pack3(S a, S b, S c) { return Sph(a, b, c); }

    // transformations
    auto tr_pol_cart(const Cart<2> & x) { return transform_coordinates<Pol>(x); }
    auto tr_cart_pol(const Pol & x) { return transform_coordinates<Cart<2>>(x); }
    auto tr_sph_cart(const Cart<3> & x) { return transform_coordinates<Sph>(x); }
    auto tr_cart_sph(const Sph & x) { return transform_coordinates<Cart<3>>(x); }

    // coordinate functions
    auto cf_x0_1(const Cart<1> & x) { return cartesian::x_0<1>(x); }
    auto cf_x0_2(const Cart<2> & x) { return cartesian::x_0<2>(x); }
    auto cf_x1_2(const Cart<2> & x) { return cartesian::x_1<2>(x); }
    auto cf_x0_3(const Cart<3> & x) { return cartesian::x_0<3>(x); }
    auto cf_x1_3(const Cart<3> & x) { return cartesian::x_1<3>(x); }
    auto cf_x2_3(const Cart<3> & x) { return cartesian::x_2<3>(x); }
    auto cf_pr(const Pol & x) { return polar::r(x); }
    auto cf_ptheta(const Pol & x) { return polar::theta(x); }
    auto cf_sr(const Sph & x) { return spherical::r(x); }
    auto cf_stheta(const Sph & x) { return spherical::theta(x); }
    auto cf_sphi(const Sph & x) { return spherical::phi(x); }

    // bases and metrics
    template <class X, int I> auto ms_e(const X & x, const V<X::dim> & u, const V<X::dim> & v, const V<X::dim> & w) { return metric_space<X>::template e<I>(x); }
    template <class X, int I> auto ms_dx(const X & x, const V<X::dim> & u, const V<X::dim> & v, const V<X::dim> & w) { return metric_space<X>::template dx<I>(x)(u); }
    template <class X, int I> auto ms_g(const X & x, const V<X::dim> & u, const V<X::dim> & v, const V<X::dim> & w) { return metric_space<X>::g(x); }
    template <class X, int I> auto ms_ginv(const X & x, const V<X::dim> & u, const V<X::dim> & v, const V<X::dim> & w) { return metric_space<X>::g_inv(x); }
    template <class X, int I> auto ms_flat(const X & x, const V<X::dim> & u, const V<X::dim> & w, const V<X::dim> & z) { return metric_space<X>::metric_equivalent(verif::v<X>)(x)(u); }
    template <class X, int I> auto ms_sharp(const X & x, const V<X::dim> & u, const V<X::dim> & w, const V<X::dim> & z)
    {
        return metric_space<X>::metric_equivalent(metric_space<X>::template dx<I>)(x);
    }
    template <class X, int I> auto ms_round(const X & x, const V<X::dim> & u, const V<X::dim> & w, const V<X::dim> & z)
    {
        return metric_space<X>::metric_equivalent(metric_space<X>::metric_equivalent(verif::v<X>))(x);
    }
    template <class X, int I> auto ms_w(const X & x, const V<X::dim> & u, const V<X::dim> & v, const V<X::dim> & z)
    {
        if constexpr (X::dim == 1) return metric_space<X>::w(x)(u);
        if constexpr (X::dim == 2) return metric_space<X>::w(x)(u, v);
        if constexpr (X::dim == 3) return metric_space<X>::w(x)(u, v, z);
    }
#define MS(X, n, I) template auto ms_##n<X, I>(const X &, const V<X::dim> &, const V<X::dim> &, const V<X::dim> &);
    ALL(MS, e, 0) MS(Cart<2>, e, 1) MS(Cart<3>, e, 1) MS(Cart<3>, e, 2) MS(Pol, e, 1) MS(Sph, e, 1) MS(Sph, e, 2)
    ALL(MS, dx, 0) MS(Cart<2>, dx, 1) MS(Cart<3>, dx, 1) MS(Cart<3>, dx, 2) MS(Pol, dx, 1) MS(Sph, dx, 1) MS(Sph, dx, 2)
    ALL(MS, sharp, 0) MS(Cart<2>, sharp, 1) MS(Cart<3>, sharp, 1) MS(Cart<3>, sharp, 2) MS(Pol, sharp, 1) MS(Sph, sharp, 1) MS(Sph, sharp, 2)
    ALL(MS, g, 0) ALL(MS, ginv, 0) ALL(MS, flat, 0) ALL(MS, round, 0) ALL(MS, w, 0)
    auto api_metric1(const Cart<1> & x) { return cartesian::metric<1>(x); }
    auto api_metric2(const Cart<2> & x) { return cartesian::metric<2>(x); }
    auto api_metric3(const Cart<3> & x) { return cartesian::metric<3>(x); }
    auto api_metricp(const Pol & x) { return polar::metric(x); }
    auto api_metrics(const Sph & x) { return spherical::metric(x); }
    auto api_e0_1(const Cart<1> & x) { return cartesian::e_0<1>(x); }
    auto api_e0_2(const Cart<2> & x) { return cartesian::e_0<2>(x); }
    auto api_e1_2(const Cart<2> & x) { return cartesian::e_1<2>(x); }
    auto api_e0_3(const Cart<3> & x) { return cartesian::e_0<3>(x); }
    auto api_e1_3(const Cart<3> & x) { return cartesian::e_1<3>(x); }
    auto api_e2_3(const Cart<3> & x) { return cartesian::e_2<3>(x); }
    auto api_er_p(const Pol & x) { return polar::e_r(x); }
    auto api_et_p(const Pol & x) { return polar::e_theta(x); }
    auto api_er_s(const Sph & x) { return spherical::e_r(x); }
    auto api_et_s(const Sph & x) { return spherical::e_theta(x); }
    auto api_ep_s(const Sph & x) { return spherical::e_phi(x); }
}

namespace verif {
    template <class X> using CSX = geometry::coordinate_system_t<X>;
    // coordinate systems
    template <class X> using P = geometry::point_t<X::dim>;
    template <class X> auto cs_lookup(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, y);
        return std::pair<X, X>(s.coordinates(p), s.coordinates(q));
    }
    template <class X> auto cs_missing(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        return s.coordinates(q);
    }
    template <class X> auto cs_twice(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, x);
        s.place(p, y);
        return s.coordinates(p);
    }
    template <class X> auto cs_walk(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, y);
        int n = 0;
        for (const auto & [a, c] : s) n += (a == p && c == x) || (a == q && c == y) ? 1 : 100;
        return n;
    }
    template <class X> auto cs_midpoint(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, y);
        return s.midpoint(p, q);
    }
    template <class X> auto cs_distance(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, y);
        return distance(p, q, s);
    }
    // the system that refused a point
    template <class X> auto cs_made(const P<X> & p, const P<X> & q, const X & x, const X & y) -> CSX<X> *
    {
        auto s = new CSX<X>();
        s->place(p, x);
        return s;
    }
    template <class X> auto cs_again(CSX<X> * s, const P<X> & p, const X & y) { s->place(p, y); }
    template <class X> auto cs_kept(CSX<X> * s, const P<X> & p, const X & x) { return s->coordinates(p); }
#define CSG(X) template auto cs_again<X>(CSX<X> *, const P<X> &, const X &); template auto cs_kept<X>(CSX<X> *, const P<X> &, const X &);
    CSG(Cart<1>) CSG(Cart<2>) CSG(Cart<3>) CSG(Pol) CSG(Sph)
    template auto cs_made<Cart<1>>(const P<Cart<1>> &, const P<Cart<1>> &, const Cart<1> &, const Cart<1> &) -> CSX<Cart<1>> *;
    template auto cs_made<Cart<2>>(const P<Cart<2>> &, const P<Cart<2>> &, const Cart<2> &, const Cart<2> &) -> CSX<Cart<2>> *;
    template auto cs_made<Cart<3>>(const P<Cart<3>> &, const P<Cart<3>> &, const Cart<3> &, const Cart<3> &) -> CSX<Cart<3>> *;
    template auto cs_made<Pol>(const P<Pol> &, const P<Pol> &, const Pol &, const Pol &) -> CSX<Pol> *;
    template auto cs_made<Sph>(const P<Sph> &, const P<Sph> &, const Sph &, const Sph &) -> CSX<Sph> *;
#define CSF(X, n) template auto cs_##n<X>(const P<X> &, const P<X> &, const X &, const X &);
#define CSA(n) CSF(Cart<1>, n) CSF(Cart<2>, n) CSF(Cart<3>, n) CSF(Pol, n) CSF(Sph, n)
    CSA(lookup) CSA(missing) CSA(twice) CSA(walk) CSA(midpoint) CSA(distance)
    template <class Y, class X> auto cs_convert(const P<X> & p, const P<X> & q, const X & x, const X & y)
    {
        CSX<X> s;
        s.place(p, x);
        s.place(q, y);
        CSX<Y> t(s);
        return std::pair<Y, Y>(t.coordinates(p), t.coordinates(q));
    }
    template auto cs_convert<Pol, Cart<2>>(const P<Cart<2>> &, const P<Cart<2>> &, const Cart<2> &, const Cart<2> &);
    template auto cs_convert<Cart<2>, Pol>(const P<Pol> &, const P<Pol> &, const Pol &, const Pol &);
    template auto cs_convert<Sph, Cart<3>>(const P<Cart<3>> &, const P<Cart<3>> &, const Cart<3> &, const Cart<3> &);
    template auto cs_convert<Cart<3>, Sph>(const P<Sph> &, const P<Sph> &, const Sph &, const Sph &);
}
