// the Python module, as it is, with what is needed to make meshes and to integrate on them
#include "meshes.h"
#include <mito/io.h>
#include <mito/mito.cc>
namespace verif {
    MS_COMMON(Tri2)
    using Sf2 = std::function<S(const Cart<2> &)>;
    auto py_integral(const Mesh<Tri2> & m, const CS<Tri2> & s, const functions::FunctionFromFunctor<Sf2> & f) -> S
    {
        auto M = manifolds::manifold(m, s);
        auto I = quadrature::integrator<quadrature::GAUSS, 2>(M);
        return I.integrate(f);
    }
}
