#include "shim.h"
#include <mito/math.h>
#include <mito/tensor.h>
#include <mito/journal.h>
#include <mito/materials.h>
using namespace mito;
using namespace mito::tensor;
template class mito::materials::MaterialConsistencyTest<mito::materials::gent_t>;
template class mito::materials::MaterialConsistencyTest<mito::materials::linear_elastic_t>;
namespace verif {
    // -- permutations
    auto p_sign2(const std::array<int, 2> & a, const std::array<int, 2> & b) -> int { return math::permutation_sign(a, b); }
    auto p_sign3(const std::array<int, 3> & a, const std::array<int, 3> & b) -> int { return math::permutation_sign(a, b); }
    auto p_sign4(const std::array<int, 4> & a, const std::array<int, 4> & b) -> int { return math::permutation_sign(a, b); }
    auto p_sign5(const std::array<int, 5> & a, const std::array<int, 5> & b) -> int { return math::permutation_sign(a, b); }
    auto p_same2(const std::array<int, 2> & a, const std::array<int, 2> & b) -> bool { return math::same_elements(a, b); }
    auto p_same3(const std::array<int, 3> & a, const std::array<int, 3> & b) -> bool { return math::same_elements(a, b); }
    auto p_same4(const std::array<int, 4> & a, const std::array<int, 4> & b) -> bool { return math::same_elements(a, b); }

    // -- forms
    template <int D> using V = vector_t<D>;
    template <int D> struct F {
        using v = const vector_t<D> &;
        using r = const real &;
        static auto one_sym(v a, const symmetric_matrix_t<D> & g, v x) -> real { return one_form(a, g)(x); }
        static auto one_diag(v a, const diagonal_matrix_t<D> & g, v x) -> real { return one_form(a, g)(x); }
        static auto one_def(v a, v x) -> real { return one_form(a)(x); }
        static auto one_dummy(v a, v x) -> real { return one_form(a)(_)(x); }
        static auto one_fun(v a, v x) -> real { return one_form([a](const vector_t<D> & y) -> real { return a * y; })(x); }
        static auto add1(v a, v b, v x) -> real { return (one_form(a) + one_form(b))(x); }
        static auto sub1(v a, v b, v x) -> real { return (one_form(a) - one_form(b))(x); }
        static auto neg1(v a, v x) -> real { return (-one_form(a))(x); }
        static auto lmul1(r s, v a, v x) -> real { return (s * one_form(a))(x); }
        static auto rmul1(r s, v a, v x) -> real { return (one_form(a) * s)(x); }
        static auto add2(v a, v b, v c, v d, v x, v y) -> real { return (mito::tensor::tensor(one_form(a), one_form(b)) + mito::tensor::tensor(one_form(c), one_form(d)))(x, y); }
        static auto sub2(v a, v b, v c, v d, v x, v y) -> real { return (mito::tensor::tensor(one_form(a), one_form(b)) - mito::tensor::tensor(one_form(c), one_form(d)))(x, y); }
        static auto neg2(v a, v b, v x, v y) -> real { return (-mito::tensor::tensor(one_form(a), one_form(b)))(x, y); }
        static auto lmul2(r s, v a, v b, v x, v y) -> real { return (s * mito::tensor::tensor(one_form(a), one_form(b)))(x, y); }
        static auto rmul2(r s, v a, v b, v x, v y) -> real { return (mito::tensor::tensor(one_form(a), one_form(b)) * s)(x, y); }
        static auto star(v a, v b, v x, v y) -> real { return (one_form(a) * one_form(b))(x, y); }
        static auto ten2(v a, v b, v x, v y) -> real { return mito::tensor::tensor(one_form(a), one_form(b))(x, y); }
        static auto ten2_xd(v a, v b, v x, v y) -> real { return mito::tensor::tensor(one_form(a), one_form(b))(x, _)(y); }
        static auto ten2_dy(v a, v b, v x, v y) -> real { return mito::tensor::tensor(one_form(a), one_form(b))(_, y)(x); }
        static auto ten2_dd(v a, v b, v x, v y) -> real { return mito::tensor::tensor(one_form(a), one_form(b))(_, _)(x, y); }
        static auto ten3(v a, v b, v c, v x, v y, v z) -> real { return mito::tensor::tensor(one_form(a), one_form(b), one_form(c))(x, y, z); }
        static auto ten3_xyd(v a, v b, v c, v x, v y, v z) -> real { return mito::tensor::tensor(one_form(a), one_form(b), one_form(c))(x, y, _)(z); }
        static auto ten3_xdz(v a, v b, v c, v x, v y, v z) -> real { return mito::tensor::tensor(one_form(a), one_form(b), one_form(c))(x, _, z)(y); }
        static auto ten3_dyz(v a, v b, v c, v x, v y, v z) -> real { return mito::tensor::tensor(one_form(a), one_form(b), one_form(c))(_, y, z)(x); }
        static auto wedge1(v a, v x) -> real { return wedge(one_form(a))(x); }
        static auto wedge2(v a, v b, v x, v y) -> real { return wedge(one_form(a), one_form(b))(x, y); }
        static auto wedge2_xd(v a, v b, v x, v y) -> real { return wedge(one_form(a), one_form(b))(x, _)(y); }
        static auto wedge2_dy(v a, v b, v x, v y) -> real { return wedge(one_form(a), one_form(b))(_, y)(x); }
        static auto wedge_s1(r s, v a, v x) -> real { return wedge(s, one_form(a))(x); }
        static auto wedge_1s(r s, v a, v x) -> real { return wedge(one_form(a), s)(x); }
        static auto wedge_s2(r s, v a, v b, v x, v y) -> real { return wedge(s, wedge(one_form(a), one_form(b)))(x, y); }
        static auto wedge_2s(r s, v a, v b, v x, v y) -> real { return wedge(wedge(one_form(a), one_form(b)), s)(x, y); }
        static auto wedge3(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), one_form(b), one_form(c))(x, y, z); }
        static auto wedge12(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), wedge(one_form(b), one_form(c)))(x, y, z); }
        static auto wedge3_xyd(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), one_form(b), one_form(c))(x, y, _)(z); }
        static auto wedge3_xdz(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), one_form(b), one_form(c))(x, _, z)(y); }
        static auto wedge3_dyz(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), one_form(b), one_form(c))(_, y, z)(x); }
        static auto wedge3_xdd(v a, v b, v c, v x, v y, v z) -> real { return wedge(one_form(a), one_form(b), one_form(c))(x, _, _)(y, z); }
    };
    template struct F<1>;
    template struct F<2>;
    template struct F<3>;
    template struct F<4>;

    // -- materials
    auto g_make(real rho, real kappa, real mu, real Jm) -> materials::gent_t { return materials::gent(rho, kappa, mu, Jm); }
    auto g_energy(const materials::gent_t & m, const matrix_t<3> & F) -> real { return m.energy(F); }
    auto g_stress(const materials::gent_t & m, const matrix_t<3> & F) -> matrix_t<3> { return m.stress(F); }
    auto g_tangents(const materials::gent_t & m, const matrix_t<3> & F) { return m.tangents(F); }
    auto l_make(real rho, real E, real nu) -> materials::linear_elastic_t { return materials::linear_elastic(rho, E, nu); }
    auto l_energy(const materials::linear_elastic_t & m, const matrix_t<3> & F) -> real { return m.energy(F); }
    auto l_stress(const materials::linear_elastic_t & m, const matrix_t<3> & F) { return m.stress(F); }
    auto l_tangents(const materials::linear_elastic_t & m, const matrix_t<3> & F) { return m.tangents(F); }
}
