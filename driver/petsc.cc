// the PETSc backend: the translation units of the library and calls of their public interface
#include <mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc>
#include <mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc>
#include <mito/matrix_solvers/backend/petsc/public.h>
namespace verif {
    using LS = mito::matrix_solvers::petsc::linear_system_t;
    using KSP_ = mito::matrix_solvers::petsc::ksp_t;
    using R = PetscScalar;
    using Ix = PetscInt;

    LS ls_make(const std::string & label) { return LS(label); }
    void ls_create(LS & x, Ix n) { x.create(n); }
    void ls_destroy(LS & x) { x.destroy(); }
    std::string ls_label(LS & x) { return x.label(); }
    void ls_assemble(LS & x) { x.assemble(); }
    int ls_n(LS & x) { return x.n_equations(); }
    void ls_insert_matrix(LS & x, Ix i, Ix j, const R & v) { x.insert_matrix_value(i, j, v); }
    void ls_add_matrix(LS & x, Ix i, Ix j, const R & v) { x.add_matrix_value(i, j, v); }
    void ls_insert_rhs(LS & x, Ix i, const R & v) { x.insert_rhs_value(i, v); }
    void ls_add_rhs(LS & x, Ix i, const R & v) { x.add_rhs_value(i, v); }
    void ls_solution(LS & x, std::vector<double> & v) { x.get_solution(v); }
    void ls_print(LS & x) { x.print(); }

    KSP_ ksp_make(LS & x) { return KSP_(x); }
    void ksp_create(KSP_ & x) { x.create(); }
    void ksp_destroy(KSP_ & x) { x.destroy(); }
    void ksp_options(KSP_ & x, const std::string & s) { x.set_options(s); }
    void ksp_solve(KSP_ & x) { x.solve(); }
    void ksp_print(KSP_ & x) { x.print(); }

    void petsc_start() { mito::petsc::initialize(); }
    void petsc_stop() { mito::petsc::finalize(); }
    // the constructors of the library
    LS ls_factory(const std::string & label) { return mito::matrix_solvers::petsc::linear_system(label); }
    KSP_ ksp_factory(LS & x) { return mito::matrix_solvers::petsc::ksp(x); }
}
