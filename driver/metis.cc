#define WITH_METIS 1
#include "meshes.h"
namespace verif {
    template <class C> auto mt_partition(const Mesh<C> & m, int n, int rank) -> Mesh<C> { return mesh::metis::partition(m, n, rank); }
#define MS(C) MS_COMMON(C) template auto mt_partition<C>(const Mesh<C> &, int, int) -> Mesh<C>;
    MS(Seg1) MS(Tri2) MS(Tet3)
}
