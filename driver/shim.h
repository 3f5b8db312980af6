// Pre-included in front of every driver translation unit: makes the header-only library parse
// stand-alone (standard headers some of its own headers forget; one alias the installed pyre lacks).
#pragma once
#define DEBUG 1  // developer build: the journal firewalls are live
#include <bits/stdc++.h>
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
    template <class T>
    struct transpose {
        using type = decltype(pyre::tensor::transpose(std::declval<const T &>()));
    };
}
