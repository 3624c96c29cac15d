"""C14: a treebank grammar has exactly the rules and counts of its trees."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations, groupby
from collections import Counter
from fractions import Fraction
from vlib import build, core, gen, scratch
build.activate(None)
scratch.folder()
import numpy as np  # noqa: E402
from discodop.tree import (Tree, ParentedTree, ImmutableTree)  # noqa: E402
from discodop.grammar import (lcfrsproductions, treebankgrammar,  # noqa: E402
		sortgrammar, subsetgrammar, grammarinfo, defaultparse, printrule)


def refrules(t, sent, frontiers=False):
	"""Productions, for nodes in pre-order."""
	result = []
	for a in gen.nodes(t):
		kids = a[1:]
		if not isinstance(kids[0], tuple):
			if len(kids) == 1 and sent[kids[0]] is not None:
				result.append(((a[0], 'Epsilon'), (escaped(sent[kids[0]]), )))
			elif frontiers:
				result.append(((a[0], ), ()))
			continue
		owner = {i: n for n, b in enumerate(kids) for i in gen.leaves(b)}
		yf = []
		for i in range(min(owner), max(owner) + 1):
			if i not in owner:
				continue
			if i - 1 not in owner:
				yf.append([])
			yf[-1].append(owner[i])
		result.append(((a[0], ) + tuple(b[0] for b in kids),
				tuple(tuple(x for x, _ in groupby(b)) for b in yf)))
	return result


def escaped(word):
	return word.replace('(', '#LRB#').replace(')', '#RRB#')


def derive(rules):
	"""Rewrite with the productions of a tree in pre-order; give the
	components of the yield of the root."""
	rules = iter(rules)

	def rec(label):
		nts, yf = next(rules)
		if nts[0] != label:
			raise ValueError('expected %r got %r' % (label, nts))
		if nts[1] == 'Epsilon':
			return [list(yf)]
		kids = [rec(a) for a in nts[1:]]
		result = [[w for n in arg for w in kids[n].pop(0)] for arg in yf]
		if any(kids):
			raise ValueError('components left in %r' % (kids, ))
		return result
	nts = None

	def start(first):
		return rec(first)
	return start


# --- productions of a single tree --------------------------------------------
WORDS = ('the', 'man', '(', 'saw', ')', 'a:b')


def orders(t, limit):
	"""All orders of the children of all nodes, up to a number of leaves."""
	if not isinstance(t[1], tuple):
		yield t
		return
	kids = [list(orders(b, limit)) for b in t[1:]]
	for combo in product(*kids):
		for perm in permutations(combo):
			yield t[:1] + perm
			if limit == 0:
				break


def gen_rules(tier):
	extra = tier != 'quick'
	for n in range(1, 8 + extra):
		for t in gen.sentencetrees(n, unary=2 if n < 4 else int(n == 4),
				labels='AB' if n < 5 else 'A'):
			yield (t, int(n < 5 + extra))
	for t in gen.large((9, 10, 11, 12, 33)):
		yield (t, 0)


def rules(case, rec):
	t, reorder = case
	n = len(gen.leaves(t))
	sent = list(WORDS[:n])
	if n > len(WORDS):
		sent += ['w'] * (n - len(WORDS))
	for t1 in orders(t, 1) if reorder else [t, reverse(t)]:
		want = refrules(t1, sent)
		for cls in (Tree, ParentedTree, ImmutableTree):
			tree = gen.build(cls, t1)
			got = lcfrsproductions(tree, sent)
			rec.expect('rules of ' + gen.show(t1), got, want)
			rec.expect('unchanged', gen.totuple(tree), t1)
		got = lcfrsproductions(tree, sent, frontiers=True)
		rec.expect('rules with frontiers of ' + gen.show(t1), got, want)
		rec.step()
		rec.expect('derived sentence', derive(got)(t1[0]),
				[list(map(escaped, sent))])
	for r, yf in want:
		text = printrule(r, yf, 2)
		rec.expect('printed rule', text, '2 %s\t%s' % (
				','.join(''.join(map(str, a)) for a in yf), ' '.join(r)))
		rec.expect('printed rule', '2 ' + printrule(r, yf), text)
	rec.outcome(max(len(yf) for _, yf in want))
	rec.state(t)
	rec.trace()


def reverse(t):
	if not isinstance(t, tuple):
		return t
	return t[:1] + tuple(reverse(a) for a in t[:0:-1])


# --- fragments: frontier nodes, and errors ----------------------------------
def gen_frontier(tier):
	for n in range(1, 6 if tier == 'quick' else 7):
		for t in gen.sentencetrees(n, labels='AB' if n < 4 else 'A'):
			yield t


def frontier(t, rec):
	"""Cut off below all possible sets of nodes."""
	n = len(gen.leaves(t))
	for cut in cuts(t):
		done = {i for a in gen.nodes(cut) if len(a) > 2
				and not isinstance(a[1], tuple) for i in a[1:]}
		for mask in range(1 << n):
			if any(mask >> i & 1 for i in done):
				continue
			sent = [None if i in done or mask >> i & 1 else WORDS[i]
					for i in range(n)]
			for flag in (False, True):
				rec.expect('rules of %s %r' % (gen.show(cut), sent),
						lcfrsproductions(gen.build(Tree, cut), sent,
							frontiers=flag), refrules(cut, sent, flag))
				rec.step()
	rec.state(t)
	rec.trace()
	# errors
	leaves = gen.leaves(t)
	sent = list(WORDS[:n])

	def fails(t1, sent, what):
		try:
			lcfrsproductions(gen.build(Tree, t1), sent)
		except ValueError:
			return
		rec.fail('%s is not reported: %s %r' % (what, gen.show(t1), sent))
	fails(t, [], 'an empty sentence')
	fails(t, sent[:-1], 'an index after the end')
	fails(relabel(t, leaves[-1], -1), sent, 'a negative index')
	fails(relabel(t, leaves[-1], 'foo'), sent, 'a leaf that is not an index')
	if n > 1:
		fails(relabel(t, leaves[-1], leaves[0]), sent, 'a repeated index')
	fails(t + (('X', ), ), sent, 'a node without children')
	fails(t + (n, ), sent + ['x'], 'a mixture of nodes and indices')


def relabel(t, old, new):
	if not isinstance(t, tuple):
		return new if t == old else t
	return t[:1] + tuple(relabel(a, old, new) for a in t[1:])


def cuts(t, root=True):
	"""The tree with some phrases replaced by frontier nodes."""
	if not isinstance(t[1], tuple):
		yield t
		return
	if not root:
		yield (t[0], ) + tuple(sorted(gen.leaves(t)))
	for kids in product(*[cuts(a, False) for a in t[1:]]):
		yield t[:1] + kids


# --- grammars of a treebank -------------------------------------------------
SENTS = (['a', 'b', 'a'], ['b', '(', 'a'], ['c', 'a', 'b'])


def family(which):
	return list(gen.sentencetrees(3 if which else 2, disc=True, unary=0,
			labels=('A', 'A}<0>') if which else 'AB', root='S', pos=['X', 'Y']))


def gen_bank(tier):
	for i in range(len(family(1))):
		yield (1, i)
	for i in range(len(family(0))):
		yield (0, i)


def kind(rule):
	(nts, yf), _ = rule
	if len(nts) == 2 and nts[1] == 'Epsilon':
		return 2, yf[0], nts[0]
	return (1 if '}<' in nts[0] else 0), '', nts[0]


def bank(case, rec):
	which, i = case
	trees = family(which)
	first = trees[i]
	n = len(gen.leaves(first))
	for second in trees:
		for third in (None, first, second):
			ts = [a for a in (first, second, third) if a]
			sents = [s[:n] for s in SENTS[:len(ts)]]
			want = Counter()
			for t, s in zip(ts, sents):
				want.update(refrules(t, s))
			objs = [gen.build(Tree, t) for t in ts]
			for extra in (None, {}, {(('S', 'Q'), ((0, ), )): 3,
					(('Q', 'Epsilon'), ('a', )): 0.5,
					(('X', 'Epsilon'), ('a', )): 2}):
				got = treebankgrammar(objs, sents, extra)
				rec.step()
				total = Counter(want)
				total.update(extra or {})
				what = ' of %s' % ' '.join(map(gen.show, ts))
				rec.expect('distinct rules' + what, len(got), len(total))
				rec.expect('counts' + what, dict(got), dict(total))
				rec.expect('order' + what, [kind(a) for a in got],
						sorted(kind(a) for a in got))
				rec.state(sorted(map(repr, got)))
			if third is None and which:
				info(got, rec)
				altweights(got, rec)
				rec.expect('subset', (subsetgrammar(want.items(), got), quiet(
						lambda: subsetgrammar(got, want.items()))),
						(True, False))
	rec.trace()


def quiet(func):
	out, sys.stdout = sys.stdout, open(os.devnull, 'w')
	try:
		return func()
	finally:
		sys.stdout.close()
		sys.stdout = out


def altweights(grammar, rec):
	"""Alternative weights keep corresponding to their rules."""
	for mixed in (grammar[::-1], grammar[1::2] + grammar[::2]):
		weights = {'one': np.array([float(w) * 10 + len(r[1][0])
				for r, w in mixed]),
				'two': np.arange(len(mixed), dtype=float)}
		new, alt = sortgrammar(mixed, weights)
		rec.expect('same rules', sorted(map(repr, new)),
				sorted(map(repr, mixed)))
		rec.expect('order', [kind(a) for a in new],
				sorted(kind(a) for a in new))
		rec.expect('aligned', [mixed[int(x)] for x in alt['two']], new)
		rec.expect('aligned', list(alt['one']),
				[float(w) * 10 + len(r[1][0]) for r, w in new])


def info(grammar, rec):
	infos(grammar, rec)
	phrasal = [a for a in grammar if a[0][0][1] != 'Epsilon']
	if phrasal:
		infos(phrasal, rec)


def infos(grammar, rec):
	dump = scratch.path('dump')
	text = grammarinfo(grammar, dump=dump)
	lexical = sum(nts[1] == 'Epsilon' for (nts, _), _ in grammar)
	fanouts = [len(yf) for (_, yf), _ in grammar]
	cost = [1 if nts[1] == 'Epsilon' else len(yf) + sum(map(len, yf))
			for (nts, yf), _ in grammar]

	def number(pattern):
		return float(re.search(pattern, text).group(1))
	labels = {a for (nts, _), _ in grammar for a in nts}
	tags = {nts[0] for (nts, _), _ in grammar if nts[1] == 'Epsilon'} or (
			labels - {nts[0] for (nts, _), _ in grammar})
	rec.expect('labels', [number(r'^labels: (\d+)'),
			number(r'preterminals: (\d+)')],
			[len(labels), len(tags)])
	with open(dump) as inp:
		rec.expect('dump', sorted(tuple(map(int, a.split())) for a in inp),
				sorted(Counter(cost).items()))
	rec.expect('info', [number(r'clauses: (\d+)'),
			number(r' lexical clauses: (\d+)'),
			number(r'non-lexical clauses: (\d+)'),
			number(r'max fan-out: (\d+)'),
			number(r'max parsing complexity: (\d+)'),
			number(r'max variables: (\d+)')],
			[len(grammar), lexical, len(grammar) - lexical, max(fanouts),
			max(cost), max(sum(map(len, yf)) for (nts, yf), _ in grammar
				if nts[1] != 'Epsilon')])
	means = [float(a) for a in re.findall(r'mean:? ([-.e0-9]+)', text)]
	for a, b in zip(means, (fanouts, cost)):
		rec.expect('mean', abs(a - float(Fraction(sum(b), len(b)))) < 1e-4,
				True)


# --- default parse ----------------------------------------------------------
def gen_default(tier):
	for n in range(1, 6 if tier == 'quick' else 8):
		for tags in product('XY', repeat=n):
			yield tags


def default(tags, rec):
	words = ['w%d' % i for i in range(len(tags))]
	pairs = list(zip(words, tags))
	rec.expect('flat', defaultparse(pairs), '(NOPARSE %s)' % ' '.join(
			'(%s %s)' % (t, w) for w, t in pairs))
	want = ''
	for w, t in pairs[::-1]:
		want = '(NP (%s %s)%s)' % (t, w, ' ' + want if want else '')
	rec.expect('right branching', defaultparse(pairs, True), want)
	rec.state(tags)
	rec.step(2)
	rec.trace()


SPACES = [
	core.Space('rules', gen_rules, rules, {
		'quick': 'fixed large shapes of 9-33 words; '
		'all trees over <=7 words, with unary nodes and all orders of '
		'children for <=4 words', 'thorough': '<=8 words, orders for <=5'}),
	core.Space('frontier', gen_frontier, frontier, {
		'quick': 'all trees over <=5 words, all sets of phrases and words cut '
		'off, 7 kinds of errors', 'thorough': '<=6 words'}),
	core.Space('bank', gen_bank, bank,
		'all pairs of trees over 2 and 3 words with 2 labels and tags; some '
		'triples; 3 sets of extra rules'),
	core.Space('default', gen_default, default, {
		'quick': 'all sequences of <=5 tags', 'thorough': '<=7'}),
	]
ASSUMPTIONS = ['Small treebanks; the rules of a tree depend on that tree only.']

if __name__ == '__main__':
	sys.exit(core.main('C14', SPACES, ASSUMPTIONS))
