"""C01: bit vector primitives agree with sets of integers."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import combinations, product
from vlib import build, core
build.activate('bit')
from discodop import bit, tree  # noqa: E402
from discodop import _vbit as vb  # noqa: E402

EDGES = [0, 1, 2, 3, 31, 32, 33, 61, 62, 63, 64, 65, 66, 95, 126, 127, 128,
		129, 130, 191, 192, 193, 255, 256]


def bits(a):
	return [n for n in range(a.bit_length()) if a >> n & 1]


def comps(s):
	return sum(1 for a in s if a - 1 not in s)


def intervals(edges, k):
	"""All unions of up to k non-adjacent intervals with the given endpoints."""
	yield 0
	for n in range(1, k + 1):
		for points in combinations(edges, 2 * n):
			v = 0
			for a, b in zip(points[::2], points[1::2]):
				v |= (1 << b) - (1 << a)
			yield v


def pycase(v, rec):
	"""The functions on Python integers of unbounded size."""
	s = set(bits(v))
	rec.expect('bit count', bit.pyintbitcount(v), len(s))
	if v < 1 << 64:
		rec.expect('bit count (C)', bit.bitcount(v), len(s))
	rec.expect('fanout', bit.fanout(v), comps(s))
	rec.expect('fanout (tree)', tree.bitfanout(v), comps(s))
	top = v.bit_length() + 2
	positions = range(top) if top <= 40 else sorted(
			set(p + d for p in s for d in (-1, 0, 1) if p + d >= 0)
			& set(range(top)) | set(e for e in EDGES if e < top)
			| {top, top + 64})
	for pos in positions:
		want = min((a for a in s if a >= pos), default=-1)
		rec.step()
		if not rec.expect('next set from %d' % pos,
				bit.pyintnextset(v, pos), want):
			break
	rec.trace()
	rec.outcome((len(s), comps(s)))


def gen_small(tier):
	width = 12 if tier == 'quick' else 16
	for off in (0, 1, 26, 51, 52, 53, 54, 55, 57, 60, 63, 64, 65, 116, 122, 128):
		for v in range(1 << width):
			if off == 0 or v & 1:
				yield v << off


def gen_edges(tier):
	for v in intervals(EDGES, 2):
		yield v
	for v in intervals(EDGES[::2] if tier == 'quick' else EDGES[:20], 3):
		yield v


def gen_word(tier):
	"""(vector, slots)"""
	width = 10 if tier == 'quick' else 13
	for off in (0, 27, 54, 60, 118, 123):
		for slots in (1, 2, 3):
			if off + width > slots * 64 and off > 64 * (slots - 1) + 63:
				continue
			for v in range(1 << width):
				if (v << off) < 1 << 64 * slots:
					yield v << off, slots
					yield ((1 << 64 * slots) - 1) ^ (v << off), slots
	for slots in (1, 2, 3):
		edges = [a for a in EDGES if a <= 64 * slots]
		for v in intervals(edges, 2):
			yield v, slots


def word(case, rec):
	"""The inline functions on 64-bit words and arrays of words."""
	v, slots = case
	n = 64 * slots
	s = set(bits(v))
	u = set(range(n)) - s
	if slots == 1:
		rec.expect('bit length', vb.p_bitlength(v), v.bit_length())
		for pos in range(64):
			rec.step(3)
			if not rec.expect('nextset %d' % pos, vb.p_nextset(v, pos),
					min((a for a in s if a >= pos), default=-1)) or \
					not rec.expect('nextunset %d' % pos,
					vb.p_nextunset(v, pos),
					min((a for a in u if a >= pos), default=64)) or \
					not rec.expect('testbit %d' % pos, vb.p_testbit64(v, pos),
					pos in s):
				break
		for pos in range(32):
			if not rec.expect('testbit %d' % pos, vb.p_testbit32(
					v & 0xffffffff, pos), pos in s):
				break
	rec.expect('count', vb.p_abitcount(v, slots), len(s))
	rec.expect('length', vb.p_abitlength(v, slots), v.bit_length())
	rec.expect('set bits', vb.p_iterset(v, slots), sorted(s))
	rec.expect('unset bits', vb.p_iterunset(v, slots), sorted(u))
	near = sorted(set(a + d for a in EDGES for d in (-1, 0, 1))
			| set(a + d for a in (v & -v, v) for d in (
				a.bit_length() - 1, a.bit_length(), a.bit_length() + 1)))
	for pos in near:
		if not 0 <= pos < n:
			continue
		rec.step(2)
		rec.expect('anextset %d' % pos, vb.p_anextset(v, pos, slots),
				min((a for a in s if a >= pos), default=-1))
		rec.expect('anextunset %d' % pos, vb.p_anextunset(v, pos, slots),
				min((a for a in u if a >= pos), default=n))
	rec.expect('anextset past the end', vb.p_anextset(v, n, slots), -1)
	rec.expect('anextunset past the end', vb.p_anextunset(v, n, slots), n)
	rec.trace()


def gen_pair(tier):
	pts = [0, 1, 63, 64, 65, 127, 128]
	vecs = sorted(set(intervals(pts, 2)))
	if tier == 'thorough':
		vecs = sorted(set(intervals([0, 1, 2, 62, 63, 64, 65, 66, 126, 127, 128], 2)))
	for a, b in product(vecs, repeat=2):
		yield a, b


def pair(case, rec):
	a, b = case
	rec.expect('set operations', vb.p_binary(a, b, 2),
			[a | b, a & b, a | b, a & b, a & ~b == 0, a, b])
	rec.step(5)
	rec.trace()
	rec.outcome((a & ~b == 0, a == b))


SPACES = [
	core.Space('pyint-small', gen_small, pycase,
		{'quick': 'all 12-bit windows at 16 offsets from 0 to 128',
		'thorough': 'all 16-bit windows at 16 offsets from 0 to 128'}),
	core.Space('pyint-edges', gen_edges, pycase,
		'all unions of up to 3 intervals with ends at word boundaries'),
	core.Space('words', gen_word, word, '1 to 3 words; 10-bit (13-bit) windows '
		'and complements at word boundaries, unions of up to 2 intervals'),
	core.Space('pairs', gen_pair, pair, 'all pairs of 2-word vectors that are '
		'unions of up to 2 intervals with ends at word boundaries'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C01', SPACES, [
		'next-set/next-unset positions lie within the vector',
		'compiled with the directives of setup.py (without -march=native)']))
