"""C11: clean-ups of trees do what they should and nothing else."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, combinations
from collections import Counter
from vlib import build, core, gen
build.activate('cont')
from discodop.tree import (Tree, ParentedTree, ImmutableTree,  # noqa: E402
		HEAD)
from discodop.treetransforms import (canonicalize,  # noqa: E402
		canonicalizealpino, canonicallyorderedtree, removeterminals,
		removeemptynodes, addfanoutmarkers, removefanoutmarkers,
		treebankfanout, addbitsets, getbits, contsets, markovthreshold,
		binarize, unbinarize)


def parents(tree, rec):
	if not isinstance(tree, ParentedTree):
		return
	for a in tree.subtrees():
		for n, b in enumerate(a):
			if isinstance(b, Tree) and (b.parent is not a
					or b.parent_index != n):
				rec.fail('parent of %s in %s' % (b, tree))


def alpino(t):
	"""Children in order of their last leaf."""
	if not isinstance(t, tuple):
		return t
	return (t[0], ) + tuple(sorted([alpino(a) for a in t[1:]],
			key=lambda a: max(gen.leaves(a))))


def rename(t, new):
	if not isinstance(t, tuple):
		return new[t]
	return (t[0], ) + tuple([rename(a, new) for a in t[1:]])


def order(case, rec):
	t = case
	n = len(gen.leaves(t))
	words = ['w%d' % a for a in range(n)]
	want = alpino(t)
	seq = gen.leaves(want)
	for cls in (Tree, ParentedTree):
		tree = gen.build(cls, t)
		rec.expect('canonical', gen.totuple(canonicalize(tree)), gen.canon(t))
		parents(tree, rec)
		tree = gen.build(cls, t)
		rec.expect('alpino order', gen.totuple(canonicalizealpino(tree)), want)
		parents(tree, rec)
		tree, sent = gen.build(cls, t), list(words)
		result = canonicallyorderedtree(tree, sent)
		parents(tree, rec)
		rec.expect('sentence', sent, [words[a] for a in seq])
		rec.expect('continuous tree', gen.totuple(result), rename(want,
				{a: m for m, a in enumerate(seq)}))
		rec.step(3)
	rec.outcome((gen.canon(t), seq))
	rec.trace()


def gen_order(tier):
	quick = tier == 'quick'
	for n in range(1, 5 if quick else 6):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0, labels='A'):
			for a in gen.orders(t):
				yield a
	for n in range(5, 7 if quick else 8):
		for t in gen.sentencetrees(n, True, 0, labels='A'):
			yield t
	for t in gen.large(gen.MANY[:12]):
		yield t


def without(t, drop):
	"""Remove leaves and nodes left without children."""
	if not isinstance(t, tuple):
		return None if t in drop else t
	kids = [b for b in [without(a, drop) for a in t[1:]] if b is not None]
	return (t[0], ) + tuple(kids) if kids else None


def remove(case, rec):
	t, drop = case
	n = len(gen.leaves(t))
	left = [a for a in range(n) if a not in drop]
	new = {a: m for m, a in enumerate(left)}
	want = without(t, drop)
	want = rename(want, new) if want is not None else (t[0], )
	tree = gen.build(ParentedTree, t)
	sent = ['w%d' % a for a in range(n)]
	objs = {a.leaves()[0]: a for a in tree.subtrees(lambda x: isinstance(
			x[0], int))}
	seen = []

	def func(word, node):
		seen.append((word, node.label))
		if not any(b is node and word == 'w%d' % a for a, b in objs.items()):
			rec.fail('called with %r %s' % (word, node))
		return word in ['w%d' % a for a in drop]
	removeterminals(tree, sent, func)
	rec.expect('tree', gen.totuple(tree), want)
	rec.expect('sentence', sent, ['w%d' % a for a in left])
	rec.expect('each terminal once', Counter(a for a, _ in seen),
			Counter('w%d' % a for a in range(n)))
	parents(tree, rec)
	rec.step()
	for kind in range(3):  # None, empty string, -NONE-
		tree = gen.build(ParentedTree, t)
		sent = ['w%d' % a for a in range(n)]
		for a in tree.subtrees(lambda x: isinstance(x[0], int)):
			if a[0] in drop:
				if kind == 2:
					a.label = '-NONE-'
				else:
					sent[a[0]] = (None, '')[kind]
		removeemptynodes(tree, sent)
		rec.expect('tree without empty nodes', gen.totuple(tree), want)
		rec.expect('sentence', sent, ['w%d' % a for a in left])
		parents(tree, rec)
		rec.step()
	rec.outcome(want)
	rec.trace()


def gen_remove(tier):
	quick = tier == 'quick'
	for n in range(1, 6 if quick else 7):
		for t in gen.sentencetrees(n, True, {1: 2, 2: 2, 3: 2, 4: 1}.get(n, 0),
				labels='A'):
			for k in range(n + 1):
				for drop in combinations(range(n), k):
					yield t, drop
	for t in gen.large((9, 10, 11, 12, 33)):
		n = len(gen.leaves(t))
		for drop in ((), (0, ), (n - 1, ), tuple(range(1, n)),
				tuple(range(0, n, 2)), tuple(range(n - 1)), (9, ), (1, 9, 10)):
			if not drop or drop[-1] < n:
				yield t, drop
	for t in gen.sentencetrees(3, True, 1, labels='A'):
		for a in gen.orders(t):
			for k in range(4):
				for drop in combinations(range(3), k):
					yield a, drop


ODD = ('A_B', 'A_', '_A', 'A_B_2', 'A*', 'A|<B,C>', 'A^<B>', '_')


def fanout(case, rec):
	t = case
	for cls in (Tree, ParentedTree):
		tree = gen.build(cls, t)
		addfanoutmarkers(tree)
		rec.step()

		def mark(a):
			if not isinstance(a, tuple):
				return a
			k = gen.comps(gen.leaves(a))
			label = a[0]
			if k > 1 and not label.endswith('_%d' % k):
				label += '_%d' % k
			return (label, ) + tuple([mark(b) for b in a[1:]])
		rec.expect('marked', gen.totuple(tree), mark(t))
		again = gen.totuple(addfanoutmarkers(tree.copy(True)))
		rec.expect('marking twice', again, gen.totuple(tree))
		if not any(a[0].endswith('_2') for a in gen.nodes(t)):
			rec.expect('unmarked', gen.totuple(removefanoutmarkers(tree)), t)
	own = [gen.comps(gen.leaves(a)) for a in gen.nodes(t) if len(a) > 2]
	other = gen.build(Tree, ('S', ('A', 0), ('B', 1)))
	tree = gen.build(Tree, t)
	rec.expect('fan-out', treebankfanout([other, tree, other])[0],
			max(own + [1]))
	if max(own + [1]) > 1:
		rec.expect('fan-out', treebankfanout([other, tree, other]),
				(max(own), 1))
	rec.expect('fan-out of no trees', treebankfanout([]), (1, 0))
	# bit vectors
	frozen = addbitsets(gen.build(Tree, t))
	for a in frozen.subtrees():
		mine = sorted(a.leaves())
		rec.expect('bits', a.bitset, sum(1 << b for b in mine))
		rec.expect('getbits', list(getbits(a.bitset)), mine)
		rec.step()
		if isinstance(a[0], Tree) and all(gen.comps(b.leaves()) == 1
				for b in a):
			got = [[b for b in x] for x in contsets(list(a))]
			want, prev = [], None
			for b in sorted(a, key=lambda x: min(x.leaves())):
				if prev is not None and min(b.leaves()) == prev + 1:
					want[-1].append(b)
				else:
					want.append([b])
				prev = max(b.leaves())
			rec.expect('continuous subsets', got, want)
	rec.expect('same tree', addbitsets(frozen) is frozen, True)
	rec.outcome(gen.totuple(addfanoutmarkers(gen.build(Tree, t))))
	rec.trace()


def gen_fanout(tier):
	quick = tier == 'quick'
	for n in range(1, 7 if quick else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 5 else 0, labels='A'):
			yield t
	for n in range(1, 5):
		for t in gen.sentencetrees(n, True, 0, labels=ODD):
			yield t
	for t in gen.sentencetrees(2, True, 0, labels='A', pos=ODD):
		yield t
	for t in gen.large(gen.MANY):
		yield t


def markov(case, rec):
	ts, n, h, v, binh, binv, fan, opts = case

	def make():
		result = []
		for t in ts:
			tree = gen.build(Tree, t)
			for a in tree.subtrees(lambda n: isinstance(n[0], Tree)):
				a[len(a) // 2].type = HEAD
			tree = binarize(tree, horzmarkov=binh, vertmarkov=binv, **dict(opts))
			result.append(addfanoutmarkers(tree) if fan else tree)
		return result
	before, trees = make(), make()
	freqs = Counter(a.label for tree in before for a in tree.subtrees()
			if '|<' in a.label)
	markovthreshold(trees, n, h, v)
	rec.step()
	for old, new, t in zip(before, trees, ts):
		for a, b in zip(old.subtrees(), new.subtrees()):
			if '|<' not in a.label or freqs[a.label] >= n:
				rec.expect('label', b.label, a.label)
				continue
			start, rest = a.label.split('|<', 1)
			ctx, rest = rest.split('>', 1)
			pre, semi, ctx = ctx.rpartition(';')
			want = (start + '|<' + pre + semi + ','.join(ctx.split(',')[:h])
					+ ',>')
			if rest.startswith('^<'):
				par, rest = rest[2:].split('>', 1)
				want += '^<' + ','.join(par.split(',')[:v]) + '>'
			rec.expect('rare label %s' % a.label, b.label, want + rest)
			rec.step()
		if not fan:
			rec.expect('undone', gen.totuple(unbinarize(new)), t)
	rec.outcome([str(a) for a in trees])
	rec.trace()


BINOPTIONS = (
	(('rightmostunary', True), ('tailmarker', '$')),
	(('markhead', True), ), (('leftmostunary', True), ('revhorzmarkov', 1)),
	(('headoutward', True), ('direction', True)),
	(('headoutward', True), ('markhead', True), ('rightmostunary', True),
		('tailmarker', '$T')))


def gen_markov(tier):
	quick = tier == 'quick'
	flat = [('S', ) + tuple([(a, i) for i, a in enumerate(tags)])
			for k in (2, 3, 4) for tags in product('AB', repeat=k)]
	deep = [t for n in (3, 4) for t in gen.sentencetrees(n, True, 0,
			labels=['X'], pos=None) if len(t) > 2]
	bags = [p for p in product(flat[::2], repeat=2)] + [(a, b, c)
			for a in flat for b in flat[-6:] for c in flat[-3:]]
	bags += [(a, ) for a in deep] + list(product(deep[:12], repeat=2))
	for ts in bags[::1 if not quick else 2]:
		for n in (1, 2, 3):
			for h in (0, 1, 2):
				for v in (1, 2):
					for binh, binv in ((999, 1), (2, 2), (1, 3)):
						yield ts, n, h, v, binh, binv, v == 2, ()
	for ts in bags[::5]:
		for opts in BINOPTIONS:
			for n, h, v in ((2, 1, 1), (3, 0, 2), (2, 2, 1)):
				yield ts, n, h, v, 999, 2, h == 0, opts


SPACES = [
	core.Space('order', gen_order, order, {
		'quick': 'fixed large shapes of 9-99 words; '
		'all trees over <=4 words with all orders of children; all '
		'trees over <=6 words', 'thorough': '<=5 words; <=7 words'}),
	core.Space('remove', gen_remove, remove, {
		'quick': 'fixed large shapes of 9-33 words; '
		'all trees over <=5 words, all subsets of words to remove',
		'thorough': '<=6 words'}),
	core.Space('fanout', gen_fanout, fanout, {
		'quick': 'fixed large shapes of 9-129 words; '
		'all trees over <=6 words; 8 odd labels in all combinations '
		'for <=4 words', 'thorough': '<=7 words'}),
	core.Space('markov', gen_markov, markov,
		'pairs and triples of flat trees of <=4 children over 2 labels, trees '
		'over <=4 words; 3 thresholds x 3 x 2 reductions x 3 binarizations; 5 '
		'sets of options for binarization'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C11', SPACES))
