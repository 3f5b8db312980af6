#define WITH_VTK
#define WITH_PARALLEL_VTK
#include "assembly.cc"
#include <mito/io.h>
namespace verif {
    using namespace mito::io;
    using VT = tensor::vector_t<3>;
    template <class E> using SCS = geometry::coordinate_system_t<X<E>>;
    template <class E, class Y> using FF = std::remove_cvref_t<decltype(std::declval<const FS<E> &>().template fem_field<Y>(std::string()))>;
    template <class E, int P> auto vs_space(const std::string & name, const FS<E> & m, const SCS<E> & s) -> void {
        if constexpr (P == 0) { auto w = vtk::grid_writer(name, m, s); w.write(); }
        else { auto w = vtk::parallel_grid_writer(name, m, s); w.write(); }
    }
    template <class E, int P> auto vs_fields(const std::string & name, const FS<E> & m, const SCS<E> & s, const FF<E, S> & f, const FF<E, VT> & g) -> void {
        if constexpr (P == 0) { auto w = vtk::field_writer(name, m, s); w.record(f.nodal_values()); w.record(g.nodal_values(), "another name"); w.write(); }
        else { auto w = vtk::parallel_field_writer(name, m, s); w.record(f.nodal_values()); w.record(g.nodal_values(), "another name"); w.write(); }
    }
    template <class E> auto vs_sfield(const FS<E> & m) { return m.template fem_field<S>("scalars"); }
    template <class E> auto vs_vfield(const FS<E> & m) { return m.template fem_field<VT>("vectors"); }
    template <class E> auto vs_set(FF<E, S> & f, const DN<E> & n, S v) -> void { f(n) = v; }
    template <class E> auto vs_setv(FF<E, VT> & f, const DN<E> & n, S a, S b, S c) -> void { f(n) = VT{ a, b, c }; }
    template <class E> auto vs_list(const FF<E, S> & f, std::vector<DN<E>> & out) -> void { for (const auto & [n, v] : f) out.push_back(n); }
#define VP(E, P) template auto vs_space<E, P>(const std::string &, const FS<E> &, const SCS<E> &) -> void; \
    template auto vs_fields<E, P>(const std::string &, const FS<E> &, const SCS<E> &, const FF<E, S> &, const FF<E, VT> &) -> void;
#define VS(E) VP(E, 0) VP(E, 1) template auto vs_sfield<E>(const FS<E> &); template auto vs_vfield<E>(const FS<E> &); \
    template auto vs_set<E>(FF<E, S> &, const DN<E> &, S) -> void; template auto vs_setv<E>(FF<E, VT> &, const DN<E> &, S, S, S) -> void; \
    template auto vs_list<E>(const FF<E, S> &, std::vector<DN<E>> &) -> void;
    VS(Seg) VS(T1) VS(T2)
}
