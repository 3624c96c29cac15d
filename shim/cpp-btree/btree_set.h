// Stand-in for cpp-btree's btree_set.
#ifndef VERIF_BTREE_SET_H
#define VERIF_BTREE_SET_H
#include <set>
namespace btree {
template <class K> class btree_set : public std::set<K> {};
}
#endif
