// arbitrary functions to build expressions from, and the macros naming the expressions
#pragma once
#include "shim.h"
#include <mito/tensor.h>
#include <mito/functions.h>
using namespace mito;

// an arbitrary smooth function: {K} names the function, {I...} the partial derivatives taken so far
namespace mito::functions {
    template <int K, class X, class Y, int... I>
    class Opaque : public Function<X, Y> {
      public:
        template <function_c H>
        constexpr auto operator()(const H & f) const { return Composition(*this, f); }
        constexpr auto operator[](int i) const
        requires subscriptable_c<Y>
        { return Subscript(*this, i); }
        template <tensor::tensor_c outputT = Y>
        constexpr auto operator[](const typename outputT::index_t & i) const { return Subscript(*this, i); }
        auto operator()(const X & x) const -> Y;
    };
    template <int J, int K, class X, class Y, int... I>
    constexpr auto derivative(const Opaque<K, X, Y, I...> &) { return Opaque<K, X, Y, I..., J>(); }
}

namespace verif {
    using namespace mito::functions;
    using mito::functions::function;
    namespace L = mito::functions;
    using S = tensor::scalar_t;
    template <int D> using V = tensor::vector_t<D>;
    template <int D> using M = tensor::matrix_t<D>;

    template <class X> constexpr auto f = Opaque<0, X, S>();
    template <class X> constexpr auto g = Opaque<1, X, S>();
    template <class X> constexpr auto h = Opaque<2, X, S>();
    template <class X> constexpr auto v = Opaque<3, X, V<2>>();
    template <class X> constexpr auto w = Opaque<4, X, V<2>>();
    template <class X> constexpr auto A = Opaque<5, X, M<2>>();
    template <class X> constexpr auto B = Opaque<6, X, M<2>>();
    constexpr auto p = Opaque<7, S, S>();       // outer function of a scalar
    constexpr auto q = Opaque<8, V<2>, S>();    // outer functions of a vector
    constexpr auto r = Opaque<9, V<2>, V<2>>();
    constexpr auto m3 = Opaque<10, V<3>, S>();
    template <class X> constexpr auto u3 = Opaque<11, X, V<3>>();
    constexpr auto q2 = Opaque<13, V<2>, S>();
    constexpr auto pv = Opaque<12, S, V<2>>();

// value and derivatives of an expression of the input {X}; {X} is a scalar, a 2D or a 3D vector
#define FN(name, ...)                                                                                  \
    template <class X> auto val_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = (__VA_ARGS__); return e(x); }         \
    template <int I, class X> auto der_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = derivative<I>(__VA_ARGS__); return e(x); } \
    template auto val_##name(const S &, S, S, S, const M<2> &, const V<2> &);                                                       \
    template auto val_##name(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                    \
    template auto der_##name<0>(const S &, S, S, S, const M<2> &, const V<2> &);                                                    \
    template auto der_##name<0>(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                 \
    template auto der_##name<1>(const V<2> &, S, S, S, const M<2> &, const V<2> &);
// evaluation only
#define EV(name, ...)                                                                                  \
    template <class X> auto val_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = (__VA_ARGS__); return e(x); }         \
    template auto val_##name(const S &, S, S, S, const M<2> &, const V<2> &);                                                       \
    template auto val_##name(const V<2> &, S, S, S, const M<2> &, const V<2> &);
// evaluation; derivatives for arguments that are vectors
#define FE(name, ...)                                                                                  \
    template <class X> auto val_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = (__VA_ARGS__); return e(x); }         \
    template <int I, class X> auto der_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = derivative<I>(__VA_ARGS__); return e(x); } \
    template auto val_##name(const S &, S, S, S, const M<2> &, const V<2> &);                                                       \
    template auto val_##name(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                    \
    template auto der_##name<0>(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                 \
    template auto der_##name<1>(const V<2> &, S, S, S, const M<2> &, const V<2> &);
// functions of a scalar
#define FS(name, ...)                                                                                  \
    template <class X> auto val_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = (__VA_ARGS__); return e(x); }         \
    template <int I, class X> auto der_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = derivative<I>(__VA_ARGS__); return e(x); } \
    template auto val_##name(const S &, S, S, S, const M<2> &, const V<2> &);                                                       \
    template auto der_##name<0>(const S &, S, S, S, const M<2> &, const V<2> &);
// functions of a vector
#define FV(name, ...)                                                                                  \
    template <class X> auto val_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = (__VA_ARGS__); return e(x); }         \
    template <int I, class X> auto der_##name(const X & x, S a, S b, S c, const M<2> & K, const V<2> & k) { const auto e = derivative<I>(__VA_ARGS__); return e(x); } \
    template auto val_##name(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                    \
    template auto der_##name<0>(const V<2> &, S, S, S, const M<2> &, const V<2> &);                                                 \
    template auto der_##name<1>(const V<2> &, S, S, S, const M<2> &, const V<2> &);

}
