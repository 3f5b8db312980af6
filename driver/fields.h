// arbitrary fields over a set of coordinates, to build expressions from
#pragma once
#include "shim.h"
#include <mito/tensor.h>
#include <mito/functions.h>
using namespace mito;

namespace verif {
    using S = tensor::scalar_t;
    template <int D> using V = tensor::vector_t<D>;
    template <int D> using M = tensor::matrix_t<D>;

    // the value of function {K}, differentiated along {I...}, at the given coordinates
    template <int K, class Y, int... I> auto leaf(S = 0, S = 0, S = 0) -> Y;
}

namespace mito::functions {
    // an arbitrary smooth field: {K} names the function, {I...} the partial derivatives taken so far
    template <int K, class X, class Y, int... I>
    class OpaqueField : public Function<X, Y> {
      public:
        template <function_c H>
        constexpr auto operator()(const H & f) const { return Composition(*this, f); }
        constexpr auto operator[](int i) const
        requires subscriptable_c<Y>
        { return Subscript(*this, i); }
        template <tensor::tensor_c outputT = Y>
        constexpr auto operator[](const typename outputT::index_t & i) const { return Subscript(*this, i); }
        auto operator()(const X & x) const -> Y
        {
            if constexpr (X::dim == 1) return verif::leaf<K, Y, I...>(x[0]);
            if constexpr (X::dim == 2) return verif::leaf<K, Y, I...>(x[0], x[1]);
            if constexpr (X::dim == 3) return verif::leaf<K, Y, I...>(x[0], x[1], x[2]);
        }
    };
    template <int J, int K, class X, class Y, int... I>
    constexpr auto derivative(const OpaqueField<K, X, Y, I...> &) { return OpaqueField<K, X, Y, I..., J>(); }
}

#include <mito/coordinates.h>
#include <mito/geometry.h>
#include <mito/fields.h>

namespace verif {
    template <int D> using Cart = geometry::cartesian_coordinates_t<D>;
    using Pol = geometry::polar_coordinates_t;
    using Sph = geometry::spherical_coordinates_t;
    template <class X> constexpr auto f = mito::functions::OpaqueField<0, X, S>();
    template <class X> constexpr auto g = mito::functions::OpaqueField<1, X, S>();
    template <class X> constexpr auto v = mito::functions::OpaqueField<2, X, V<X::dim>>();
    template <class X> constexpr auto w = mito::functions::OpaqueField<3, X, V<X::dim>>();
    template <class X> constexpr auto A = mito::functions::OpaqueField<4, X, M<X::dim>>();
    template <class X> constexpr auto u3 = mito::functions::OpaqueField<5, X, V<3>>();
    template <class X> constexpr auto u2 = mito::functions::OpaqueField<6, X, V<2>>();
}
