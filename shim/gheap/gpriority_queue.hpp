// Stand-in for gheap's gpriority_queue: a binary heap.
#ifndef VERIF_GPQ_H
#define VERIF_GPQ_H
#include <queue>
#include <vector>
template <class Heap, class T, class Container, class Cmp>
class gpriority_queue : public std::priority_queue<T, Container, Cmp> {
	typedef std::priority_queue<T, Container, Cmp> base;
public:
	gpriority_queue() : base() {}
	template <class It> gpriority_queue(It first, It last) : base(first, last) {}
};
#endif
