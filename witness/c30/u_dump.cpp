#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
#include "min.h"
struct KT { int v; };
template<class M> void dl(M& m, const M& c) {
    Save s;
    Load l;
    use(c.phmap_dump(s), m.phmap_load(l));
    gtl::BinaryOutputArchive o("x");
    gtl::BinaryInputArchive i("x");
    use(c.phmap_dump(o), m.phmap_load(i));
}
template<class M> void dla() { dl(any<M&>(), any<const M&>()); }
void go() {
    dla<gtl::flat_hash_map<KT, double, H0<KT>, E0<KT>>>();
    dla<gtl::flat_hash_set<KT, H0<KT>, E0<KT>>>();
    dla<gtl::flat_hash_map<int, int>>();
    dla<gtl::flat_hash_map<int, std::pair<int, int>>>();
    dla<gtl::flat_hash_set<int>>();
    dla<gtl::parallel_flat_hash_map<KT, double, H0<KT>, E0<KT>>>();
    dla<gtl::parallel_flat_hash_set<KT, H0<KT>, E0<KT>>>();
    dla<gtl::parallel_flat_hash_map_m<int, int>>();
    dla<gtl::parallel_flat_hash_set_m<int>>();
    gtl::BinaryOutputArchive o("x");
    gtl::BinaryInputArchive i("x");
    gtl::flat_hash_map<int, int> m;
    use(o.saveBinary(1), i.loadBinary(any<int*>()), o.saveBinary(m), i.loadBinary(&m), o.saveBinary(any<void*>(), 1), i.loadBinary(any<void*>(), 1));
}
