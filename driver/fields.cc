#include "fields.h"
namespace verif {
    using namespace mito::geometry;
    namespace F = mito::fields;
    // differential operators
    template <class X> auto df_gradf(const X & x) { return F::gradient(f<X>)(x); }
    template <class X> auto df_gradfg(const X & x) { return F::gradient(f<X> * g<X>)(x); }
    template <class X> auto df_gradv(const X & x) { return F::gradient(v<X>)(x); }
    template <class X> auto df_gradfv(const X & x) { return F::gradient(f<X> * v<X>)(x); }
    template <class X> auto df_gradu3(const X & x) { return F::gradient(u3<X>)(x); }
    template <class X> auto df_gradu2(const X & x) { return F::gradient(u2<X>)(x); }
    template <class X> auto df_divv(const X & x) { return F::divergence(v<X>)(x); }
    template <class X> auto df_divfv(const X & x) { return F::divergence(f<X> * v<X>)(x); }
    template <class X> auto df_divA(const X & x) { return F::divergence(A<X>)(x); }
    template <class X> auto df_divfA(const X & x) { return F::divergence(f<X> * A<X>)(x); }
    template <class X> auto df_lap(const X & x) { return F::divergence(F::gradient(f<X>))(x); }
    template <class X> auto df_hess(const X & x) { return F::gradient(F::gradient(f<X>))(x); }
    template <class X> auto df_divgrad(const X & x) { return F::divergence(F::gradient(v<X>))(x); }
#define DF(n) template auto df_##n(const Cart<2> &); template auto df_##n(const Cart<3> &);
    DF(gradf) DF(gradfg) DF(gradv) DF(gradfv) DF(gradu3) DF(gradu2) DF(divv) DF(divfv) DF(divA) DF(divfA) DF(lap) DF(hess) DF(divgrad)
    template auto df_gradf(const Cart<1> &);

    // products of one-form fields
    template <class X> constexpr auto oa = functions::function([](const X & x) { const V<X::dim> y = v<X>(x); return tensor::one_form(y); });
    template <class X> constexpr auto ob = functions::function([](const X & x) { const V<X::dim> y = w<X>(x); return tensor::one_form(y); });
    template <class X> constexpr auto oc = functions::function([](const X & x) { const V<X::dim> y = A<X>(x) * v<X>(x); return tensor::one_form(y); });
    template <class X> auto ff_a(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return F::wedge(oa<X>)(x)(p); }
    template <class X> auto ff_ten2(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return F::tensor(oa<X>, ob<X>)(x)(p, q); }
    template <class X> auto ff_wed2(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return F::wedge(oa<X>, ob<X>)(x)(p, q); }
    template <class X> auto ff_ten3(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return F::tensor(oa<X>, ob<X>, oc<X>)(x)(p, q, r); }
    template <class X> auto ff_wed3(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return F::wedge(oa<X>, ob<X>, oc<X>)(x)(p, q, r); }
    template <class X> auto ff_scaled(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return (f<X> * F::wedge(oa<X>, ob<X>))(x)(p, q); }
    template <class X> auto ff_sum(const X & x, const V<X::dim> & p, const V<X::dim> & q, const V<X::dim> & r) { return (f<X> * oa<X> + ob<X>)(x)(p); }
#define FF(n) template auto ff_##n(const Cart<2> &, const V<2> &, const V<2> &, const V<2> &); template auto ff_##n(const Sph &, const V<3> &, const V<3> &, const V<3> &); template auto ff_##n(const Pol &, const V<2> &, const V<2> &, const V<2> &); 
    FF(a) FF(ten2) FF(wed2) FF(ten3) FF(scaled) FF(sum)
    template auto ff_wed3(const Cart<3> &, const V<3> &, const V<3> &, const V<3> &);
    template auto ff_wed3(const Sph &, const V<3> &, const V<3> &, const V<3> &);
}
namespace verif {
    // coordinates from numbers
    template <class X> auto at(S a, S b, S c) -> X
    {
        if constexpr (X::dim == 1) return geometry::coordinates<X>({ a });
        if constexpr (X::dim == 2) return geometry::coordinates<X>({ a, b });
        if constexpr (X::dim == 3) return geometry::coordinates<X>({ a, b, c });
    }
    template auto at<Cart<1>>(S, S, S) -> Cart<1>; template auto at<Cart<2>>(S, S, S) -> Cart<2>; template auto at<Cart<3>>(S, S, S) -> Cart<3>;
    template auto at<Pol>(S, S, S) -> Pol; template auto at<Sph>(S, S, S) -> Sph;
}
