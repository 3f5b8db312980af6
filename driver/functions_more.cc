// expressions kept apart because they once did not compile
#include "functions.h"
namespace verif {
    FE(c_comp, p(q)(v<X>))
    FN(lindup, linear_combination(std::array<S, 2>{ a, b }, f<X>, f<X>))
}
