"""Expose the inline C-level bit vector functions of discodop.bit to Python.

Vectors are Python integers; ``slots`` is the number of 64-bit words."""
from libc.stdint cimport uint8_t, uint16_t, uint32_t, uint64_t
from .bit cimport (nextset, nextunset, bitlength, testbit, abitcount,
		abitlength, anextset, anextunset, iteratesetbits, iterateunsetbits,
		setintersectinplace, setunioninplace, setintersect, setunion, subset)

cdef enum:
	MAX = 8


cdef void load(obj, uint64_t *vec, int slots) except *:
	cdef int n
	for n in range(slots):
		vec[n] = (obj >> (64 * n)) & 0xffffffffffffffff


cdef store(uint64_t *vec, int slots):
	cdef int n
	result = 0
	for n in range(slots):
		result |= int(vec[n]) << (64 * n)
	return result


def p_nextset(uint64_t a, int pos):
	return nextset(a, pos)


def p_nextunset(uint64_t a, int pos):
	return nextunset(a, pos)


def p_bitlength(uint64_t a):
	return bitlength(a)


def p_testbit64(uint64_t a, int pos):
	return bool(testbit(a, pos))


def p_testbit32(uint32_t a, int pos):
	return bool(testbit(a, pos))


def p_abitcount(a, int slots):
	cdef uint64_t vec[MAX]
	load(a, vec, slots)
	return abitcount(vec, slots)


def p_abitlength(a, int slots):
	cdef uint64_t vec[MAX]
	load(a, vec, slots)
	return abitlength(vec, slots)


def p_anextset(a, int pos, int slots):
	cdef uint64_t vec[MAX]
	load(a, vec, slots)
	return anextset(vec, pos, slots)


def p_anextunset(a, int pos, int slots):
	cdef uint64_t vec[MAX]
	load(a, vec, slots)
	return anextunset(vec, pos, slots)


def p_iterset(a, int slots):
	cdef uint64_t vec[MAX]
	cdef uint64_t cur
	cdef int idx = 0, n
	load(a, vec, slots)
	cur = vec[0]
	result = []
	n = iteratesetbits(vec, slots, &cur, &idx)
	while n != -1 and len(result) <= 64 * slots:
		result.append(n)
		n = iteratesetbits(vec, slots, &cur, &idx)
	return result


def p_iterunset(a, int slots):
	cdef uint64_t vec[MAX]
	cdef uint64_t cur
	cdef int idx = 0, n
	load(a, vec, slots)
	cur = ~vec[0]
	result = []
	n = iterateunsetbits(vec, slots, &cur, &idx)
	while n != -1 and len(result) <= 64 * slots:
		result.append(n)
		n = iterateunsetbits(vec, slots, &cur, &idx)
	return result


def p_binary(a, b, int slots):
	"""(union, intersection, union in place, intersection in place, subset)"""
	cdef uint64_t v[MAX]
	cdef uint64_t w[MAX]
	cdef uint64_t x[MAX]
	load(a, v, slots)
	load(b, w, slots)
	setunion(x, v, w, slots)
	result = [store(x, slots)]
	setintersect(x, v, w, slots)
	result.append(store(x, slots))
	load(a, x, slots)
	setunioninplace(x, w, slots)
	result.append(store(x, slots))
	load(a, x, slots)
	setintersectinplace(x, w, slots)
	result.append(store(x, slots))
	result.append(bool(subset(v, w, slots)))
	result.append(store(v, slots))
	result.append(store(w, slots))
	return result
