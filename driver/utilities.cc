#include <mito/utilities.h>
#include <mito/journal.h>
namespace verif {
    // a reference counted resource and an invalidatable resource, with a payload
    class Resource : public mito::utilities::Shareable {
      public:
        Resource(int p) : _payload(p) {}
        ~Resource() override {}
        int _payload;
    };
    class Item : public mito::utilities::Invalidatable {
      public:
        Item(int p) : _payload(p) {}
        ~Item() override {}
        int _payload;
    };
}
using namespace mito::utilities;
template class mito::utilities::SharedPointer<verif::Resource>;
template class mito::utilities::StdSharedPointer<verif::Item>;
template class mito::utilities::SegmentedAllocator<verif::Resource>;
template class mito::utilities::SegmentedAllocator<verif::Item>;
template class mito::utilities::SegmentedAllocatorIterator<SegmentedAllocator<verif::Resource>>;
template class mito::utilities::SegmentedAllocatorIterator<SegmentedAllocator<verif::Item>>;
template class mito::utilities::SegmentedVector<verif::Item>;
template class mito::utilities::Repository<SharedPointer<verif::Resource>>;
namespace verif {
    using ptr_t = SharedPointer<Resource>;
    // instantiate the member templates and free operators
    auto u_repo_emplace(Repository<ptr_t> & r, int p) -> ptr_t { return r.emplace(p); }
    auto u_vec_emplace(SegmentedVector<Item> & v, int p) -> Item & { return v.emplace(p); }
    auto u_ptr_eq(const ptr_t & a, const ptr_t & b) -> bool { return a == b; }
    auto u_ptr_lt(const ptr_t & a, const ptr_t & b) -> bool { return a < b; }
    auto u_std_eq(const StdSharedPointer<Item> & a, const StdSharedPointer<Item> & b) -> bool { return a == b; }
    auto u_std_make(int p) -> StdSharedPointer<Item> { return StdSharedPointer<Item>(p); }
    auto u_repo_walk(const Repository<ptr_t> & r) -> int
    {
        int n = 0;
        for (auto it = r.begin(); it != r.end(); ++it) { n += (*it)->_payload; }
        for (auto it = r.begin(); it != r.end(); it++) { n += (*it)->_payload; }
        for (auto it = r.begin(); it != r.end(); ++it) { n += it->_payload; }
        return n;
    }
    auto u_vec_walk(const SegmentedVector<Item> & r) -> int
    {
        int n = 0;
        for (auto it = r.begin(); it != r.end(); ++it) { n += (*it)._payload; }
        for (auto it = r.begin(); it != r.end(); it++) { n += (*it)._payload; }
        for (auto it = r.begin(); it != r.end(); ++it) { n += it->_payload; }
        return n;
    }
    auto u_alloc_walk(const SegmentedAllocator<Resource> & r) -> int
    {
        int n = 0;
        for (auto it = r.begin(); it != r.end(); it++) { n += (*it)._payload; }
        for (auto it = r.begin(); it != r.end(); ++it) { n += it->_payload; }
        return n;
    }
}
