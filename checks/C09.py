"""C09: optimal binarizations are optimal, and still binarizations."""
import re
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, groupby
from functools import lru_cache
from vlib import build, core, gen
build.activate('bit')
from discodop.grammar import UniqueIDs  # noqa: E402
from discodop.tree import Tree, ImmutableTree  # noqa: E402
from discodop.treetransforms import (minimalbinarization,  # noqa: E402
		optimalbinarize, addbitsets, complexityfanout, fanoutcomplexity,
		unbinarize, canonicalize, complexity, fanout, getyf, factorconstituent)


def blocks(s):
	return sum(1 for a in s if a - 1 not in s)


@lru_cache(maxsize=None)
def binarizations(items):
	"""All unordered binary trees over a tuple of items."""
	if len(items) == 1:
		return (items[0], )
	first, rest = items[0], items[1:]
	result = []
	for mask in range((1 << len(rest)) - 1):  # left part contains first
		left = (first, ) + tuple(a for n, a in enumerate(rest)
				if mask >> n & 1)
		right = tuple(a for n, a in enumerate(rest) if not mask >> n & 1)
		for a in binarizations(left):
			for b in binarizations(right):
				result.append((a, b))
	return tuple(result)


@lru_cache(maxsize=None)
def headdriven(items, head):
	"""All binary trees that start from the head and add one item at a time."""
	def rec(tree, rest):
		if not rest:
			yield tree
		for a in rest:
			for b in rec((tree, a), tuple(x for x in rest if x != a)):
				yield b
	return tuple(rec(head, tuple(a for a in items if a != head)))


def cost(tree, yields, own, key):
	"""(worst score, sum of complexities) of a binarization."""
	worst, total = [], [0]

	def rec(a):
		if not isinstance(a, tuple):
			worst.append(own[a])
			return yields[a]
		x, y = rec(a[0]), rec(a[1])
		z = x | y
		fo = blocks(z)
		c = fo + blocks(x) + blocks(y)
		worst.append(key(c, fo))
		total[0] += c
		return z
	rec(tree)
	return (max(worst), total[0])


SCORES = ((complexityfanout, lambda c, f: (c, f)),
		(fanoutcomplexity, lambda c, f: (f, c)))


def shape(tree, kids):
	"""Binarized node to nested tuples of child numbers."""
	def rec(a):
		ident = tuple(sorted(a.leaves()))
		if ident in kids:
			return kids[ident]
		return tuple([rec(b) for b in a])
	return tuple([rec(b) for b in tree])


def production(case, rec):
	yields = [frozenset(a) for a in case]
	k = len(yields)
	t = ('X', ) + tuple([('B%d' % n, ) + tuple(sorted(a))
			for n, a in enumerate(yields)])
	kids = {tuple(sorted(a)): n for n, a in enumerate(yields)}
	whole = frozenset().union(*yields)
	cont = all(blocks(a) == 1 for a in yields) and blocks(whole) == 1
	for score, key in SCORES:
		own = [key(blocks(a) + len(a), blocks(a)) for a in yields]
		for head in [None] + list(range(k)):
			if head is not None and cont:
				continue  # right-factored without search
			tree = addbitsets(gen.build(Tree, t))
			result = minimalbinarization(tree, score, head=head)
			rec.step()
			rec.expect('label', result.label, 'X')
			for a in result.subtrees():
				if len(a) > 2 and tuple(sorted(a.leaves())) not in kids:
					rec.fail('not binary: %s' % result)
				rec.expect('bitset', a.bitset, sum(1 << b for b in a.leaves()))
				if '|<' in a.label:
					want = [n for n in range(k) if yields[n] <= set(a.leaves())]
					got = a.label[3:-1].split(',')
					rec.expect('label of %s' % a, got if head is None
							else sorted(got), ['B%d' % n for n in want])
			got = shape(result, kids)
			alternatives = binarizations(tuple(range(k))) if head is None \
					else headdriven(tuple(range(k)), head)
			best = min(cost(a, yields, own, key) for a in alternatives)
			# NB: ties of a head-driven search are not broken by the sum
			num = 2 if head is None else 1
			rec.expect('cost of %s (%s, head=%r)' % (result, score.__name__,
					head), cost(got, yields, own, key)[:num], best[:num])
			if head is not None:
				rec.expect('head-driven', norm(got) in {norm(a)
						for a in alternatives}, True)
			back = canonicalize(unbinarize(Tree.convert(result)))
			rec.expect('unbinarize', gen.canon(gen.totuple(back)),
					gen.canon(t))
			rec.outcome((got, best))
	rec.trace()


def norm(a):
	return frozenset(map(norm, a)) if isinstance(a, tuple) else a


def gen_production(tier):
	top = {3: 7, 4: 7, 5: 6} if tier == 'quick' else {3: 9, 4: 8, 5: 8, 6: 7}
	for k, most in top.items():
		for n in range(k, most + 1):
			for p in gen.partitions(tuple(range(n))):
				if len(p) == k:
					yield p
				elif len(p) == k + 1:  # one block is not covered
					for i in range(1, k):
						if p[i][-1] < n - 1:
							yield p[:i] + p[i + 1:]


def trees(case, rec):
	t = case
	orig = gen.build(Tree, t)
	tree = optimalbinarize(orig.copy(True))
	want = {tuple(sorted(gen.leaves(a))) for a in gen.nodes(t)}
	for a in tree.subtrees():
		if len(a) > 2:
			rec.fail('not binary: %s' % tree)
		rec.expect('bitset', a.bitset, sum(1 << b for b in a.leaves()))
	back = canonicalize(unbinarize(Tree.convert(tree)))
	rec.expect('unbinarize', gen.totuple(back), gen.canon(t))
	rec.expect('argument', gen.totuple(orig), t)
	# every production has an optimal cost
	byyield = {}
	for a in tree.subtrees():
		if '|<' not in a.label and len(a) > 1:
			byyield.setdefault((a.label, tuple(sorted(a.leaves()))), a)
	for a in gen.nodes(t):
		if len(a) < 4:
			continue
		yields = [frozenset(gen.leaves(b)) for b in a[1:]]
		kids = {tuple(sorted(b)): n for n, b in enumerate(yields)}
		node = byyield[a[0], tuple(sorted(gen.leaves(a)))]
		key = SCORES[0][1]
		own = [None] * len(yields)
		for b in node.subtrees():  # the children count as they are
			n = kids.get(tuple(sorted(b.leaves())))
			if n is not None and own[n] is None:
				fo = blocks(yields[n])
				own[n] = key(fo + sum(blocks(frozenset(c.leaves()))
						if isinstance(c, Tree) else 1 for c in b), fo)
		got = cost(shape(node, kids), yields, own, key)
		best = min(cost(b, yields, own, key)
				for b in binarizations(tuple(range(len(yields)))))
		rec.expect('cost of %s' % node, got[0], best[0])
		rec.step()
	# vertical context
	tree = optimalbinarize(gen.build(Tree, t), headdriven=True, h=1, v=2)
	back = canonicalize(unbinarize(Tree.convert(tree)))
	rec.expect('unbinarize (h=1 v=2)', gen.canon(gen.totuple(back)),
			gen.canon(t))
	rec.outcome(str(tree))
	rec.trace()


def gen_trees(tier):
	for n in range(1, 7 if tier == 'quick' else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 5 else 0, labels='A'):
			yield t
			# children in another order than their words
			for u in gen.orders(t) if n < 4 else (gen.mirrored(t), ):
				if u != t and n < 6:
					yield u
	for t in gen.large((9, 10, 11, 12, 33), disc=False):
		if max(map(len, gen.nodes(t))) < 4:
			yield t


def functions(case, rec):
	"""Yield functions, fan-out and complexity of binary productions; right
	and left factoring of one constituent."""
	a, b = map(frozenset, case)
	t = addbitsets(gen.build(Tree, ('X', ('A', ) + tuple(sorted(a)), ('B', )
			+ tuple(sorted(b)))))
	rec.expect('fanout', (fanout(t), fanout(t[0]), fanout(t[1])),
			(blocks(a | b), blocks(a), blocks(b)))
	rec.expect('complexity', complexity(t), blocks(a | b) + blocks(a)
			+ blocks(b))
	want, cur = '', ','
	for n in range(max(a | b) + 1):
		new = '0' if n in a else '1' if n in b else ','
		if new != cur:
			want += new
		cur = new
	rec.expect('yield function', getyf(t[0], t[1]), ';' + want)
	rec.outcome(want)
	rec.step(3)
	rec.trace()


def gen_functions(tier):
	for n in range(2, 7 if tier == 'quick' else 9):
		for assign in product((0, 1, None), repeat=n):
			a = tuple(i for i in range(n) if assign[i] == 0)
			b = tuple(i for i in range(n) if assign[i] == 1)
			if a and b and assign[-1] is not None:
				yield a, b


def factored(case, rec):
	t, factor, h = case
	tree = addbitsets(gen.build(Tree, t))
	result = factorconstituent(tree, factor=factor, h=h)
	k = len(t) - 1
	for a in result.subtrees():
		rec.expect('bitset', a.bitset, sum(1 << b for b in a.leaves()))
		rec.expect('binary', len(a) <= 2 or isinstance(a[0], int), True)
		if '|<' in a.label:
			mine = sorted(b for b in range(k) if set(gen.leaves(t[b + 1]))
					<= set(a.leaves()))
			labels = [t[b + 1][0] for b in mine]
			rec.expect('label', a.label, 'X|<%s>' % ','.join(
					labels[:h] if factor == 'right' else
					[t[b][0] for b in range(1, k + 1)][
					max(0, mine[-1] - h + 1):mine[-1] + 1]))
	rec.expect('order', result.leaves(), gen.leaves(t))
	rec.expect('undone', gen.totuple(unbinarize(Tree.convert(result))), t)
	rec.outcome(str(result))
	# numeric labels; yield functions; other constituents get binarized too
	ids = UniqueIDs()
	plain = lambda a: re.sub('<[0-9]+>', '', str(a))  # noqa: E731
	seen, meaning = [], {}
	for opts in (dict(), dict(markyf=True), dict(markyf=True)):
		got = factorconstituent(tree, factor=factor, h=h, ids=ids, **opts)
		rec.expect('shape', plain(got), re.sub('<[^>]*>', '', str(result)))
		labels = [(a.label, a) for a in got.subtrees() if '|<' in a.label]
		if labels:
			rec.expect('new label', labels[0][0] in seen, False)
		for name, a in labels[1:]:  # label determines labels of children
			if 'markyf' in opts:
				info = getyf(a[0], a[1]), a[1 if factor == 'left' else 0].label
			else:
				info = a[1 if factor == 'left' else 0].label
			rec.expect('reused label', meaning.setdefault((name,
					'markyf' in opts), info), info)
		seen += [a for a, _ in labels]
		for a in got.subtrees():
			rec.expect('bitset', a.bitset, sum(1 << b for b in a.leaves()))
	for threshold in (1, 3):
		got = factorconstituent(tree, factor=factor, h=h, threshold=threshold)
		for a in got.subtrees():
			rec.expect('bitset', a.bitset, sum(1 << b for b in a.leaves()))
		rec.expect('threshold', any('|<' in a.label for a in got.subtrees()),
				k > threshold)
		rec.expect('undone', gen.totuple(unbinarize(Tree.convert(got))), t)
	if k <= 6:
		for threshold, fan, yf, filt, fun in product((1, 2), (False, True),
				(False, True), ((), ('A', )), (None, funlabel)):
			kw = dict(labelfun=fun) if fun else {}
			got = factorconstituent(tree, factor=factor, h=h, markyf=yf,
					threshold=threshold, markfanout=fan, filterlabels=filt, **kw)
			rec.expect('labels', [a.label for a in got.subtrees()
					if '|<' in a.label], artlabels(t, factor, h, threshold, fan,
					yf, filt, fun or (lambda a: a.label)))
			rec.step()
	rec.step()
	rec.trace()


def funlabel(node):
	return node.label[:1] + str(len(node.leaves()))


def yieldfunction(a, b):
	"""Components of two sets of positions, in order."""
	return ';' + ','.join(''.join(k for k, _ in groupby(
			'0' if n in a else '1' for n in part))
			for part in components(sorted(set(a) | set(b))))


def components(span):
	result = []
	for n in span:
		if result and result[-1][-1] == n - 1:
			result[-1].append(n)
		else:
			result.append([n])
	return result


def artlabels(t, factor, h, threshold, fan, yf, filt, fun):
	"""Labels of artificial nodes, from the top."""
	kids = t[1:]
	k = len(kids)
	if k <= threshold:
		return []
	labels = [fun(gen.build(Tree, a)) for a in kids]
	keep = lambda seq: ','.join([a for a in seq if a not in filt])  # noqa: E731
	leaves = [gen.leaves(a) for a in kids]
	if k <= 2:
		return ['X|<%s%s>' % (keep(labels[:h]), yieldfunction(leaves[0],
				leaves[1] if k > 1 else []) if yf else '')]
	result = []
	for n in range(1, k - 1):
		if factor == 'right':
			mine = range(n, k)
			ctx = keep(labels[n:n + h])
			first, second = leaves[n], sum(leaves[n + 1:], [])
		else:
			mine = range(k - n)
			i = k - n - 1
			ctx = keep(labels[max(0, i - h + 1):i + 1])
			first, second = sum(leaves[:i], []), leaves[i]
		num = len(components(sorted(sum([leaves[j] for j in mine], []))))
		result.append('X|<%s%s>%s' % (ctx, yieldfunction(first, second)
				if yf else '', '_%d' % num if fan and num > 1 else ''))
	return result


def gen_factored(tier):
	for k in range(1, 7):
		for tags in product('AB', repeat=k):
			t = ('X', ) + tuple([(a, i) for i, a in enumerate(tags)])
			for factor in ('right', 'left'):
				for h in (1, 2, 999):
					yield t, factor, h
	for n in gen.MANY:
		t = ('X', ) + tuple([('AB'[i % 2], i) for i in range(n)])
		for factor in ('right', 'left'):
			for h in (1, 2, 10, 999):
				yield t, factor, h
	for p in gen.partitions(tuple(range(6))):
		yield ('X', ) + tuple([('A%d' % n, ) + a for n, a in enumerate(p)]), \
				'right', 999


SPACES = [
	core.Space('production', gen_production, production, {
		'quick': 'all productions with 3-4 children over <=7 positions, 5 over '
		'<=6, with at most one uncovered block; every head; 2 scores; against '
		'all binarizations',
		'thorough': '3: <=9, 4: <=8, 5: <=8, 6: <=7'}),
	core.Space('trees', gen_trees, trees, {
		'quick': 'fixed large shapes of 9-33 words; '
		'all trees over <=6 words', 'thorough': '<=7 words'}),
	core.Space('functions', gen_functions, functions, {
		'quick': 'all pairs of yields within 6 positions',
		'thorough': '8 positions'}),
	core.Space('factored', gen_factored, factored,
		'all constituents of <=6 children with 2 labels, all partitions of 6 '
		'positions; one constituent each of 9-129 children'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C09', SPACES))
