// -*- C++ -*-
// -*- coding: utf-8 -*-
//
// michael a.g. aïvázis <michael.aivazis@para-sim.com>
// (c) 1998-2026 all rights reserved


// code guard
#pragma once


// my dependencies
#include <pyre/tensor/forward.h>
#include <pyre/tensor/repacking.h>


// set up the namespace
namespace pyre::tensor {

    // concept of a tensor (the same as the installed header's, without the lambda in the requirement, on
    // which clang 18 gives inconsistent answers)
    template <typename T, class packingT, int... I>
    void binds_to_tensor(const Tensor<T, packingT, I...> &);

    template <class F>
    concept tensor_c = requires(F c) { ::pyre::tensor::binds_to_tensor(c); };

    // concept of a vector
    template <class F>
    concept vector_c = tensor_c<F> and F::rank == 1;

    // concept of a matrix
    template <class F>
    concept matrix_c = tensor_c<F> and F::rank == 2;

    // concept of a square matrix
    template <class F>
    concept square_matrix_c = matrix_c<F> and F::dims[0] == F::dims[1];

    // concept of a diagonal matrix
    template <class F>
    concept diagonal_matrix_c = square_matrix_c<F> and F::diagonal;

    // concept of a symmetric matrix
    template <class F>
    concept symmetric_matrix_c = square_matrix_c<F> and F::symmetric;

    // concept of tensors having the same shape
    template <class F0, class... Fs>
    concept tensor_same_shape_c =
        tensor_c<F0> && (tensor_c<Fs> && ...) && ((F0::dims == Fs::dims) && ...);

    // concept of a fourth-order tensor
    template <class F>
    concept fourth_order_tensor_c = tensor_c<F> and F::rank == 4;

    // concept of a compatible pair of tensors
    // (an instance of {tensorT1} can be assigned to an instance of {tensorT2})
    template <class tensorT1, class tensorT2>
    concept compatible_tensor_c =
        tensor_c<tensorT1> and tensor_c<tensorT2>
        and std::is_same_v<
            typename repacking_sum<
                typename tensorT1::pack_t, typename tensorT2::pack_t>::packing_type,
            typename tensorT2::pack_t>;

} // namespace pyre::tensor


// end of file
