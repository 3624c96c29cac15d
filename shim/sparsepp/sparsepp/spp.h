// Stand-in for the sparsepp submodule (absent here): same API subset, backed by
// the standard containers.  Used only in scratch builds made by /verif.
#ifndef VERIF_SPP_H
#define VERIF_SPP_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <string>
#include <utility>
#include <unordered_map>
#include <unordered_set>
namespace spp {
template <class T> struct spp_hash {
	size_t operator()(const T &x) const { return std::hash<T>()(x); }
};
template <class T> inline void hash_combine(std::size_t &seed, const T &v) {
	spp_hash<T> hasher;
	seed ^= hasher(v) + 0x9e3779b97f4a7c15ULL + (seed << 12) + (seed >> 4);
}
template <class K, class V, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_map : public std::unordered_map<K, V, H, E> {
	typedef std::unordered_map<K, V, H, E> base;
public:
	sparse_hash_map() : base() {}
	explicit sparse_hash_map(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
template <class K, class H = spp_hash<K>, class E = std::equal_to<K> >
class sparse_hash_set : public std::unordered_set<K, H, E> {
	typedef std::unordered_set<K, H, E> base;
public:
	sparse_hash_set() : base() {}
	explicit sparse_hash_set(size_t n) : base(n) {}
	void resize(size_t n) { this->reserve(n); }
	void clear_deleted_key() {}
	void clear_no_resize() { this->clear(); }
};
}
#endif
