#include "functions.h"
namespace verif {
    FN(add, f<X> + g<X>)
    FN(sub, f<X> - g<X>)
    FN(neg, -f<X>)
    FN(cadd, a + f<X>)
    FN(addc, f<X> + a)
    FN(csub, a - f<X>)
    FN(subc, f<X> - a)
    FN(cmul, a * f<X>)
    FN(mulc, f<X> * a)
    FN(divc, f<X> / a)
    FN(mul, f<X> * g<X>)
    FN(cdiv, a / f<X>)
    FN(div, f<X> / g<X>)
    FN(mixed, (a * f<X> + g<X>) * h<X> - f<X> / (b + h<X>))
    FN(comp, p(f<X>))
    FN(comp2, p(p(f<X> * g<X>)))
    FV(compv, q(v<X>))
    FV(compvv, q(r(v<X>)))
    FV(comp3, m3(u3<X>))
    FN(compsv, pv(f<X>))
    FN(sum3, summation(f<X>, g<X>, h<X>))
    FN(lin, linear_combination(std::array<S, 3>{ a, b, c }, f<X>, g<X>, h<X>))
    FN(linv, linear_combination(std::array<S, 2>{ a, b }, v<X>, w<X>))
    FN(linsame, linear_combination(std::array<S, 2>{ a, b }, p(f<X>), p(g<X>)))
    FN(Kplus, K + A<X>)
    FN(Kminus, K - A<X>)
    FN(minusK, A<X> - K)
    FN(kplus, v<X> - k)
    FN(timesK, A<X> * K)
    FN(vK, v<X> * K)
    FN(Ak, A<X> * k)
    FN(dotk, v<X> * k)
    FN(fK, f<X> * K)
    FN(Kf, K * f<X>)
    FN(kf, k * f<X>)
    FN(constant, constant<X>(a))
    FN(vadd, v<X> + w<X>)
    FN(vsub, v<X> - w<X>)
    FN(vneg, -v<X>)
    FN(vscale, a * v<X>)
    FN(fv, f<X> * v<X>)
    FN(vf, v<X> * f<X>)
    FN(vdivf, v<X> / f<X>)
    FN(dot, v<X> * w<X>)
    FN(sub0, v<X>[0])
    FN(sub1, v<X>[1])
    FN(sub1f, (f<X> * v<X> + w<X>)[1])
    FN(Aadd, A<X> + B<X>)
    FN(fA, f<X> * A<X>)
    FN(Av, A<X> * v<X>)
    FN(vA, v<X> * A<X>)
    FN(AB, A<X> * B<X>)
    FN(At, transpose(A<X>))
    FN(AtB, transpose(A<X>) * B<X>)
    FN(A01, A<X>[{ 0, 1 }])
    FN(A10f, (f<X> * A<X>)[{ 1, 0 }])
    FN(zero, f<X> + zero<X>)
    FN(one, f<X> - one<X>)
    EV(iden, A<X> + identity<X, 2>())
    EV(functor, f<X> + function([](const X & y) { return g<X>(y); }) * h<X>)
    EV(functorv, function([](const X & y) { return v<X>(y); })[1])
    EV(det, determinant(A<X>))
    EV(inv, inverse(A<X>))
    EV(dyad, dyadic(v<X>, w<X>))
    FV(cmp0, component<X, 0>)
    FV(cmp1, component<X, 1>)
    FV(cmpmix, component<X, 0> * component<X, 1> + p(component<X, 1>))
    FS(sin, L::sin)
    FS(cos, L::cos)
    FS(tan, L::tan)
    FS(asin, L::asin)
    FS(acos, L::acos)
    FS(atan, L::atan)
    FS(exp, L::exp)
    FS(log, L::log)
    FS(sqrt, L::sqrt)
    FS(cbrt, L::cbrt)
    FS(pow1, L::pow<1>)
    FS(pow2, L::pow<2>)
    FS(pow3, L::pow<3>)
    FS(pow5, L::pow<5>)
    FS(poly, a * L::pow<3> + b * L::pow<1> - c)
    FN(sinf, L::sin(f<X>))
    FN(expsin, L::exp(L::sin(f<X>) * g<X>))
    FN(logf, L::log(f<X>))
    FN(pow3f, L::pow<3>(f<X>))
    FN(sqrtf, L::sqrt(f<X> * f<X> + g<X>))

// every kind of function can be composed with an inner function ...
    FE(c_add, (q + q2)(v<X>))
    FE(c_const, constant<V<2>>(a)(v<X>))
    FE(c_plus, (q + a)(v<X>))
    FE(c_mul, (q * q2)(v<X>))
    FE(c_times, (q * a)(v<X>))
    FE(c_ctimes, (a * q)(v<X>))
    FE(c_rec, (a / q)(v<X>))
    FE(c_rec1, Reciprocal(q)(v<X>))
    FE(c_sub, r[1](v<X>))
    FE(c_lin, linear_combination(std::array<S, 2>{ a, b }, q, q2)(v<X>))
    FE(c_cmp, component<V<2>, 1>(v<X>))
    EV(c_tr, transpose(A<V<2>>)(v<X>))
    EV(c_det, determinant(A<V<2>>)(v<X>))
    EV(c_inv, inverse(A<V<2>>)(v<X>))
    EV(c_dyad, dyadic(r, r)(v<X>))
    EV(c_fun, function([](const V<2> & y) { return q(y); })(v<X>))
    FN(c_cos, L::cos(f<X>))
    FN(c_tan, L::tan(f<X>))
    FN(c_asin, L::asin(f<X>))
    FN(c_acos, L::acos(f<X>))
    FN(c_atan, L::atan(f<X>))
    FN(c_cbrt, L::cbrt(f<X>))
// ... and subscripted
    FN(s_add, (v<X> + w<X>)[1])
    FN(s_mul, (A<X> * v<X>)[1])
    FN(s_times, (v<X> * a)[1])
    FN(s_ctimes, (a * v<X>)[0])
    FE(s_comp, r(v<X>)[1])
    FN(s_lin, linear_combination(std::array<S, 2>{ a, b }, v<X>, w<X>)[1])
    FN(s_tr, transpose(A<X>)[{ 0, 1 }])
    FN(s_add2, (A<X> + B<X>)[{ 1, 0 }])
    FN(s_mul2, (A<X> * B<X>)[{ 1, 0 }])
    FN(s_times2, (A<X> * a)[{ 0, 1 }])
    FN(s_ctimes2, (a * A<X>)[{ 0, 1 }])
    EV(s_inv, inverse(A<X>)[{ 0, 1 }])
    EV(s_dyad, dyadic(v<X>, w<X>)[{ 0, 1 }])

// the matrix of partial derivatives, and second derivatives
    auto jac_f2(const V<2> & x) { return derivative(f<V<2>>)(x); }
    auto jac_f3(const V<3> & x) { return derivative(f<V<3>>)(x); }
    auto jac_v2(const V<2> & x) { return derivative(v<V<2>>)(x); }
    auto jac_v3(const V<3> & x) { return derivative(v<V<3>>)(x); }
    auto jac_u2(const V<2> & x) { return derivative(u3<V<2>>)(x); }
    auto jac_u1(const S & x) { return derivative(u3<S>)(x); }
    auto jac_f1(const S & x) { return derivative(f<S>)(x); }
    auto jac_r2(const V<2> & x) { return derivative(r(v<V<2>>))(x); }
    template <int I, int J> auto sec_mul(const V<2> & x) { return derivative<I>(derivative<J>(f<V<2>> * g<V<2>>))(x); }
    template <int I, int J> auto sec_div(const V<2> & x) { return derivative<I>(derivative<J>(f<V<2>> / g<V<2>>))(x); }
    template <int I, int J> auto sec_comp(const V<2> & x) { return derivative<I>(derivative<J>(p(f<V<2>>)))(x); }
    template <int I, int J> auto sec_compv(const V<2> & x) { return derivative<I>(derivative<J>(q(v<V<2>>)))(x); }
#define SEC(n) template auto sec_##n<0, 0>(const V<2> &); template auto sec_##n<0, 1>(const V<2> &); template auto sec_##n<1, 0>(const V<2> &); template auto sec_##n<1, 1>(const V<2> &);
    SEC(mul) SEC(div) SEC(comp) SEC(compv)
}
namespace verif {
    FN(Ktimes, K * A<X>)
    FN(Kv, K * v<X>)
    FN(kA, k * A<X>)
    FN(kdot, k * v<X>)
    FN(Kdivf, K / f<X>)
    FN(constK, constant<X>(K) * A<X>)
}
