"""C18: tree edit distance is the cost of the cheapest edit script."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from collections import Counter
from vlib import build, core, gen
build.activate(None)
from discodop.tree import Tree, ParentedTree, ImmutableTree  # noqa: E402
from discodop.treedist import (treedist, newtreedist, prepare,  # noqa: E402
		geteditstats, Terminal)


def plain(t):
	"""The tree that is compared: ordered by first word, tags with index."""
	t = gen.canon(t)

	def rec(a):
		if not isinstance(a[1], tuple):
			return ('%s-%d' % a, )
		return (a[0], ) + tuple(map(rec, a[1:]))
	return rec(t)


class Info(object):
	"""Labels in pre-order, and the relation between pairs of nodes."""

	def __init__(self, t):
		self.labels, self.rel = [], {}
		self.tree = t
		spans = []

		def rec(a):
			me = len(self.labels)
			self.labels.append(a[0])
			spans.append(None)
			for b in a[1:]:
				rec(b)
			spans[me] = len(self.labels)
		rec(t)
		# for i < j: is i an ancestor of j, or does it precede j?
		n = len(self.labels)
		self.anc = [[j < spans[i] for j in range(n)] for i in range(n)]


def bestmapping(a, b):
	"""Enumerate all mappings that preserve ancestry and order (Tai 1979)."""
	n, m = len(a.labels), len(b.labels)
	best = n + m
	pairs = []

	def rec(i, last, cost):
		nonlocal best
		# nodes in pre-order; mapped nodes must be increasing in both
		left, right = n - i, m - last - 1
		if cost + abs(left - right) >= best:
			return
		if i == n:
			best = min(best, cost + right)
			return
		for j in range(last + 1, m):
			if all(a.anc[x][i] == b.anc[y][j] for x, y in pairs):
				pairs.append((i, j))
				rec(i + 1, j, cost + (j - last - 1)
						+ (a.labels[i] != b.labels[j]))
				pairs.pop()
		rec(i + 1, last, cost + 1)
	rec(0, -1, 0)
	return best


TREES = {}


def alltrees(spec):
	"""The trees of this spec, with information for the reference."""
	if spec not in TREES:
		n, disc, unary, labels, pos, root = spec
		TREES[spec] = [(t, Info(plain(t))) for t in gen.sentencetrees(
				n, bool(disc), unary, labels, root,
				list(pos) if pos else None)]
	return TREES[spec]


# words, discontinuous, unary nodes, labels, tags, label of root
QUICK = [((3, 1, 0, 'AB', 'XY', 'S'), (3, 1, 0, 'AB', 'XY', 'S')),
		((3, 1, 1, 'AB', 'X', 'S'), (3, 1, 0, 'AB', 'X', 'A')),
		((3, 1, 1, 'A', 'X', 'S'), (3, 1, 1, 'A', 'X', 'S')),
		((4, 1, 0, 'A', 'X', 'S'), (4, 1, 0, 'A', 'X', 'S')),
		((4, 1, 0, 'A', 'X', 'A'), (4, 1, 0, 'AB', 'X', 'S')),
		((2, 0, 2, 'AB', 'XY', 'S'), (2, 0, 2, 'AB', 'X', 'A')),
		((1, 0, 3, 'AB', 'XY', 'S'), (1, 0, 3, 'AB', 'XY', 'A')),
		((4, 1, 0, 'A', 'X', 'S'), (3, 1, 1, 'A', 'X', 'S')),
		((5, 0, 0, 'A', 'X', 'S'), (5, 0, 0, 'A', 'X', 'S')),
		((4, 1, 0, 'AB', 'X', 'S'), (4, 1, 0, 'AB', 'X', 'S')),
		((3, 1, 2, 'A', 'XY', 'S'), (3, 1, 1, 'AB', 'X', 'A')),
		((4, 1, 1, 'A', 'X', 'S'), (4, 1, 0, 'AB', 'X', 'S')),
		((5, 0, 0, 'AB', 'X', 'S'), (5, 0, 0, 'A', 'X', 'S')),
		((5, 1, 0, 'A', 'X', 'S'), (5, 0, 0, 'A', 'X', 'A'))]
THOROUGH = [((5, 1, 0, 'AB', 'X', 'S'), (4, 1, 0, 'AB', 'X', 'S')),
		((4, 1, 1, 'AB', 'X', 'S'), (4, 1, 0, 'AB', 'X', 'A')),
		((6, 0, 0, 'A', 'X', 'S'), (5, 1, 0, 'A', 'X', 'S')),
		((5, 1, 0, 'A', 'X', 'S'), (5, 1, 0, 'A', 'X', 'S'))]


def gen_dist(tier):
	for a, b in QUICK if tier == 'quick' else QUICK + THOROUGH:
		for i in range(len(alltrees(a))):
			yield (a, i, b)


def dist(case, rec):
	spec1, i, spec2 = case
	t1, info1 = alltrees(spec1)[i]
	one = gen.build(ParentedTree if i % 2 else Tree, t1)
	before = repr(one)
	for j, (t2, info2) in enumerate(alltrees(spec2)):
		if (i // 2 + j) % 2:  # the order of children makes no difference
			t2 = gen.mirrored(t2)
		two = gen.build(Tree if i % 2 else ImmutableTree, t2)
		want = bestmapping(info1, info2)
		what = ' %s %s' % (gen.show(t1), gen.show(t2))
		rec.expect('treedist' + what, int(treedist(one, two)), want)
		rec.step()
		if j % 3 == i % 3:
			rec.expect('newtreedist' + what, newtreedist(one, two), want)
			script(one, two, info1, info2, want, rec, what)
		rec.expect('zero iff equal' + what, want == 0,
				info1.tree == info2.tree)
		rec.outcome(want)
		rec.expect('unchanged', totuple(two), t2)
	rec.expect('unchanged', repr(one), before)
	rec.state(t1)
	rec.trace()


def totuple(tree):
	return gen.totuple(tree)


def script(one, two, info1, info2, want, rec, what):
	"""The recorded operations are what the distance counts."""
	try:
		stats = geteditstats((prepare(one).freeze(), ),
				(prepare(two).freeze(), ))
	finally:
		geteditstats.mem.clear()
	rec.expect('length of script' + what, len(stats.editscript), want)
	rec.expect('distance' + what, stats.distance, want)
	ops = Counter(a for a, _, _ in stats.editscript)
	n, m = len(info1.labels), len(info2.labels)
	rec.expect('nodes in first tree' + what,
			ops['D'] + ops['S'] + stats.matched, n)
	rec.expect('nodes in second tree' + what,
			ops['I'] + ops['S'] + stats.matched, m)
	# apply the script to the multiset of labels
	have = Counter(info1.labels)
	for op, a, b in stats.editscript:
		rec.expect('operands' + what, (a is None, b is None),
				(op == 'I', op == 'D'))
		if a is not None:
			have[a.label] -= 1
		if b is not None:
			have[b.label] += 1
		if op == 'S':
			rec.expect('substitution' + what, a.label != b.label, True)
	rec.expect('labels' + what, +have, Counter(info2.labels))
	rec.expect('nothing removed that is not there' + what,
			min(have.values()) >= 0, True)
	rec.step()


def gen_prepare(tier):
	for n in range(1, 6 if tier == 'quick' else 7):
		for t in gen.sentencetrees(n, unary=1 if n < 4 else 0):
			yield t
	for t in gen.large((9, 10, 11, 12, 33)):
		yield t


def preparing(t, rec):
	if len(gen.leaves(t)) < 5:  # all orders on all levels
		orders = gen.orders(t)
	else:
		mirror = gen.mirrored(t)
		orders = [t, mirror, t[:1] + mirror[:0:-1], t[:1] + t[:0:-1],
				t[:1] + tuple(gen.mirrored(a) if n % 2 else a
					for n, a in enumerate(t[:0:-1]))]
	for u in orders:
		for cls in (Tree, ParentedTree, ImmutableTree):
			orig = gen.build(cls, u)
			tree = prepare(orig)
			rec.step()
			rec.expect('prepared', shape(tree), plain(t))
			rec.expect('unchanged', gen.totuple(orig), u)
			tree = prepare(orig, includeterms=True)
			rec.expect('with terminals', withterms(tree), gen.canon(t))
			rec.expect('unchanged', gen.totuple(orig), u)
	rec.state(t)
	rec.trace()


def shape(tree):
	return (tree.label, ) + tuple(map(shape, tree))


def withterms(tree):
	if isinstance(tree, Terminal):
		assert len(tree) == 0 and list(tree) == [] and tree[:] == ()
		return tree.label
	return (tree.label, ) + tuple(map(withterms, tree))


SPACES = [
	core.Space('distance', gen_dist, dist, {
		'quick': 'all pairs of trees in 14 pairs of families: <=5 words, '
		'discontinuous, <=3 unary nodes, 1-2 labels and tags',
		'thorough': '18 pairs of families, <=6 words'}),
	core.Space('prepare', gen_prepare, preparing, {
		'quick': 'fixed large shapes of 9-33 words; '
		'all trees over <=5 words, all orders of children on all '
		'levels (5 orders for 5 words)',
		'thorough': '<=6 words'}),
	]
ASSUMPTIONS = [
	'The reference enumerates all mappings between the nodes of two trees that '
	'preserve ancestry and order (Tai 1979); trees of up to 9 nodes.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C18', SPACES, ASSUMPTIONS))
