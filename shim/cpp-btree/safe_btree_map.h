// Stand-in for cpp-btree's safe_btree_map (iterators survive insertion).
#ifndef VERIF_BTREE_MAP_H
#define VERIF_BTREE_MAP_H
#include <map>
namespace btree {
template <class K, class V> class safe_btree_map : public std::map<K, V> {};
}
#endif
