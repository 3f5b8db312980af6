#include "meshes.h"
#include <mito/io.h>
namespace verif {
    template <class C> auto io_write(const Mesh<C> & m, const CS<C> & s, const std::string & name, const std::string & type) -> void {
        io::MeshSummitWriter<Mesh<C>, CS<C>> writer(name, m, s, type);
        writer.write();
    }
    template <class C, int G> auto io_read(const std::string & name, CS<C> & s) -> Mesh<C> {
        std::ifstream file(name);
        return io::summit::reader<C, G == 0 ? io::summit::CG : io::summit::DG>(file, s);
    }
#define MS(C) MS_COMMON(C) template auto io_write<C>(const Mesh<C> &, const CS<C> &, const std::string &, const std::string &) -> void; \
    template auto io_read<C, 0>(const std::string &, CS<C> &) -> Mesh<C>; template auto io_read<C, 1>(const std::string &, CS<C> &) -> Mesh<C>;
    MS(Seg1) MS(Tri2) MS(Tet3)
}
