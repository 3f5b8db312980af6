#include "fields.h"
#include <mito/quadrature.h>
#include <mito/manifolds.h>
#include <mito/constraints.h>
#include <mito/discrete.h>
#include <mito/fem.h>
#include <mito/solvers.h>
namespace verif {
    using namespace mito::fem;
    // a linear system that only takes note
    struct Sink {
        Sink(const std::string &);
        void create(int);
        int n_equations() const;
        void add_rhs_value(int, const S &);
        void add_matrix_value(int, int, const S &);
        void insert_rhs_value(int, const S &);
        void insert_matrix_value(int, int, const S &);
        void get_solution(std::vector<double> &) const;
    };
    // and a solver of it
    struct Solver {
        Solver(Sink &);
        void create();
        void destroy();
        void set_options(const std::string &);
        void solve();
        void print() const;
    };
    using Seg = fem::IsoparametricSegmentP1;
    using T1 = fem::IsoparametricTriangleP1;
    using T2 = fem::IsoparametricTriangleP2;
    template <class E> using Cell = typename E::cell_type;
    template <class E> using X = Cart<E::dim>;
    template <class E> using Mesh = mesh::mesh_t<Cell<E>>;
    template <class E> using BMesh = typename mesh::boundary_mesh<Cell<E>>::type;
    template <class E> using BC = constraints::Dirichlet<BMesh<E>, std::remove_cvref_t<decltype(verif::f<X<E>>)>>;
    template <class E> using FS = FunctionSpace<E, BC<E>>;
    template <class E> using Man = decltype(manifolds::manifold(std::declval<const Mesh<E> &>(), std::declval<const geometry::coordinate_system_t<X<E>> &>()));
    template <class E> using DS = DiscreteSystem<FS<E>, Sink>;
    template <class E> using DN = typename E::discretization_node_type;

    template <class E> auto as_bc(const BMesh<E> & m) { return constraints::dirichlet_bc(m, verif::f<X<E>>); }
    template <class E> auto as_space(const Man<E> & m, const BC<E> & c) { return function_space<E>(m, c); }
    template <class E> auto as_count(const FS<E> & s) { int n = 0; for (const auto & e : s.elements()) { (void) e; ++n; } return n; }
    template <class E> auto as_conn(const FS<E> & s, std::vector<DN<E>> & out) -> void { for (const auto & e : s.elements()) for (const auto & n : e.connectivity()) out.push_back(n); }
    template <class E> auto as_cells(const FS<E> & s, std::vector<Cell<E>> & out) -> void { for (const auto & e : s.elements()) out.push_back(e.cell()); }
    template <class E> auto as_cell(const E & e) { return e.cell(); }
    template <class E> auto as_fixed(const FS<E> & s, std::vector<DN<E>> & out) -> void { for (const auto & n : s.constrained_nodes()) out.push_back(n); }
    template <class E> auto as_map(const FS<E> & s, const typename FS<E>::mesh_node_type & n) { return s.node_map().at(n); }
    template <class E> auto as_system(const FS<E> & s, const Weakform<E> & w) { return discrete_system<Sink>(std::string("label"), s, w); }
    template <class E> auto as_equations(const DS<E> & s) { return s.n_equations(); }
    template <class E> auto as_sink(DS<E> & s) -> Sink & { return s.linear_system(); }
    template <class E> auto as_assemble(DS<E> & s) -> void { s.assemble(); }
    template <class E> auto as_read(DS<E> & s) -> void { s.read_solution(); }
    template <class E> auto as_value(const DS<E> & s, const DN<E> & n) -> S { return s.solution()(n); }
    template <class E> auto as_local(const DS<E> & s, const FS<E> & fs, int k, const typename E::parametric_coordinates_type & x) -> S
    {
        for (const auto & e : fs.elements()) if (k-- == 0) return localize(s.solution(), e)(x);
        return 0.0;
    }
    template <class E> auto as_field(const FS<E> & s, std::vector<DN<E>> & out) -> int
    {
        auto u = s.template fem_field<S>("u");
        for (const auto & [node, value] : u) out.push_back(node);
        return u.nodal_values().size();
    }
    template <class E> auto as_solver(DS<E> & s) -> void
    {
        auto l = solvers::linear_solver<Solver>(s);
        l.set_options("-options");
        l.solve();
        l.destroy();
    }
#define AS(E) template auto as_bc<E>(const BMesh<E> &); template auto as_space<E>(const Man<E> &, const BC<E> &); \
    template auto as_count<E>(const FS<E> &); template auto as_conn<E>(const FS<E> &, std::vector<DN<E>> &) -> void; \
    template auto as_cells<E>(const FS<E> &, std::vector<Cell<E>> &) -> void; template auto as_cell<E>(const E &); \
    template auto as_fixed<E>(const FS<E> &, std::vector<DN<E>> &) -> void; template auto as_map<E>(const FS<E> &, const typename FS<E>::mesh_node_type &); \
    template auto as_system<E>(const FS<E> &, const Weakform<E> &); template auto as_equations<E>(const DS<E> &); template auto as_sink<E>(DS<E> &) -> Sink &; \
    template auto as_assemble<E>(DS<E> &) -> void; template auto as_read<E>(DS<E> &) -> void; template auto as_value<E>(const DS<E> &, const DN<E> &) -> S; \
    template auto as_local<E>(const DS<E> &, const FS<E> &, int, const typename E::parametric_coordinates_type &) -> S; \
    template auto as_field<E>(const FS<E> &, std::vector<DN<E>> &) -> int; template auto as_solver<E>(DS<E> &) -> void;
    AS(Seg) AS(T1) AS(T2)
}
namespace verif {
    template <class XX> auto at(S a, S b, S c) -> XX
    {
        if constexpr (XX::dim == 1) return geometry::coordinates<XX>({ a });
        if constexpr (XX::dim == 2) return geometry::coordinates<XX>({ a, b });
        if constexpr (XX::dim == 3) return geometry::coordinates<XX>({ a, b, c });
    }
    template <class XX> auto aff_get(const XX & A, const XX &, const V<XX::dim> &) {
        if constexpr (XX::dim == 1) return std::array<S, 1>{ A[0] };
        if constexpr (XX::dim == 2) return std::array<S, 2>{ A[0], A[1] };
        if constexpr (XX::dim == 3) return std::array<S, 3>{ A[0], A[1], A[2] };
    }
#define AT(XX) template auto at<XX>(S, S, S) -> XX; template auto aff_get(const XX &, const XX &, const V<XX::dim> &);
    AT(Cart<1>) AT(Cart<2>) AT(Cart<3>) AT(Pol) AT(Sph)
}
