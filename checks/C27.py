"""C27: fragment extraction finds all common fragments and counts them."""
import os
import re
import subprocess
import sys
import gc
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, defaultdict
from itertools import combinations, product
from vlib import build, core, gen, dop, run, scratch
build.activate('full')
from discodop import _fragments, fragments as frags  # noqa: E402
from discodop.containers import Vocabulary  # noqa: E402
from discodop.tree import (Tree, ParentedTree,  # noqa: E402
		discbrackettree)
from discodop.treebank import writetree  # noqa: E402
from discodop.treetransforms import binarize, handledisc  # noqa: E402

FAMILIES = {
	# words, discontinuous, unary nodes, labels, root, tags
	'two': (2, False, 1, 'A', 'A', 'XY'),
	'chain': (2, False, 2, 'A', 'S', 'X'),
	'disc': (3, True, 0, 'AB', 'S', 'X'),
	'same': (3, True, 0, 'A', 'A', 'X'),
	'unary': (3, True, 1, 'A', 'A', 'X'),
	'four': (4, True, 0, 'A', 'A', 'X'),
	'five': (5, False, 0, 'A', 'A', 'X'),
}
TEXTS = {
	2: (['a', 'b'], ['b', 'a'], ['a', 'a']),
	3: (['a', 'b', 'a'], ['a', 'a', 'b'], ['c', 'b', 'a']),
	4: (['a', 'b', 'a', 'c'], ['b', 'a', 'b', 'a'], ['a', 'a', 'c', 'c']),
	5: (['a', 'b', 'a', 'b', 'c'], ['a', 'a', 'b', 'b', 'b'], ['a'] * 5),
}
CACHE = {}


def fanout(t):
	if not isinstance(t, tuple):
		return t
	n = gen.comps(gen.leaves(t))
	return (t[0] if n == 1 else '%s_%d' % (t[0], n), ) + tuple(
			map(fanout, t[1:]))


def family(name):
	if name not in CACHE:
		n, disc, unary, labels, root, tags = FAMILIES[name]
		CACHE[name] = [fanout(t) for t in gen.sentencetrees(n, disc, unary,
				labels, root, list(tags))
				if all(len(a) < 4 for a in gen.nodes(t))]
	return CACHE[name]


def continuous(t):
	return not any(gen.comps(gen.leaves(a)) > 1 for a in gen.nodes(t)
			if isinstance(a, tuple))


# --- reference ---------------------------------------------------------------
def occurrences(d, path=()):
	yield path, d
	for n, a in enumerate(d[1]):
		for b in occurrences(a, path + (n, )):
			yield b


def overlap(x, y):
	"""The largest common fragment at these nodes, or None."""
	if x[0] != y[0]:
		return None
	return (x[0], tuple(overlap(a, b) for a, b in zip(x[1], y[1])))


def maximal(d1, d2):
	"""All (path, fragment) where path is of the root in the first tree."""
	first, second = dict(occurrences(d1)), dict(occurrences(d2))
	for p, x in first.items():
		for q, y in second.items():
			if x[0] == y[0] and not (p and q and p[-1] == q[-1]
					and first[p[:-1]][0] == second[q[:-1]][0]):
				yield p, overlap(x, y)


def terminals(f):
	if f[0][0][1] == 'Epsilon':
		yield f[0]
	for a in f[1]:
		if a is not None:
			for b in terminals(a):
				yield b


def frontiers(f):
	return sum(1 if a is None else frontiers(a) for a in f[1])


def common(ds1, ds2=None, twoterms=None, adjacent=False):
	"""{fragment: set of (tree number, path)}"""
	result = defaultdict(set)
	for n, a in enumerate(ds1):
		for m, b in enumerate(ds1 if ds2 is None else ds2):
			if (n + 1 != m) if adjacent else (ds2 is None and m <= n):
				continue
			for p, f in maximal(a, b):
				terms = list(terminals(f))
				if twoterms is None or (len(terms) > 1 and any(
						re.match(twoterms, rule[0][0]) for rule in terms)):
					result[f].add((n, p))
	return result


def matchcounts(ds):
	"""{fragment: [tree, ...]}"""
	result = defaultdict(list)
	for n, d in enumerate(ds):
		for f, m in sorted(dop.allfragments([d]).items(), key=repr):
			result[f].extend([n] * m)
	return result


def text(f, disc):
	if disc:
		return dop.show(f)[0]
	if f[0][0][1] == 'Epsilon':
		return '(%s %s)' % (f[0][0][0], f[0][1][0])
	return '(%s %s)' % (dop.label(f), ' '.join(
			'(%s )' % lab if a is None else text(a, False)
			for a, lab in zip(f[1], f[0][0][1:])))


def table(counts, disc, func):
	result = {}
	for f, x in counts.items():
		s = text(f, disc)
		assert s not in result
		result[s] = func(x)
	return result


# --- single treebank, two treebanks ------------------------------------------
def gen_banks(tier):
	extra = tier != 'quick'
	for name in FAMILIES:
		if name == 'five' and not extra:
			continue
		num = len(family(name))
		for i in range(num):
			for j in range(num):
				if name != 'unary' or extra or j <= i:
					yield name, (i, j)
		if name in ('disc', 'chain') or extra and name in ('same', 'two'):
			for i in range(num):
				for j in range(num):
					for k in range(num):
						yield name, (i, j, k)


def bank(case):
	name, ids = case[0], case[1]
	n = FAMILIES[name][0]
	trees = [family(name)[i] for i in ids]
	return trees, TEXTS[n][:len(trees)]


def banks(case, rec):
	trees, sents = bank(case)
	ds = [dop.derivation(t, s) for t, s in zip(trees, sents)]
	objs = [gen.build(Tree, t) for t in trees]
	what = ' of ' + ' '.join(map(gen.show, trees))
	every = matchcounts(ds)
	rec.state(case)
	for disc in (True, False):
		if not disc and not all(map(continuous, trees)):
			continue
		# a single treebank
		params = _fragments.getctrees(list(zip(objs, sents)))
		for twoterms, adjacent in ((None, False), ('X', False), ('Y$', False),
				(None, True)):
			extract(params['trees1'], params['vocab'], None, ds, None, every,
					disc, twoterms, adjacent, rec, what)
		for a, b, want in allsame(params, disc, ds, rec, what):
			rec.expect('%s%s' % (a, what), b, want)
		# two treebanks; split in all ways
		for k in range(1, len(trees)):
			items = list(zip(objs, sents))
			params = _fragments.getctrees(items[:k], items[k:])
			for twoterms in (None, 'X', 'Y$'):
				extract(params['trees1'], params['vocab'], params['trees2'],
						ds[:k], ds[k:], every, disc, twoterms, False, rec,
						' (%d)%s' % (k, what))
		frags.PARAMS.clear()
		for depth, width in ((0, 999), (1, 999), (2, 999), (2, 1), (3, 0)):
			recurring(objs, sents, ds, every, disc, depth, width, rec, what)
	rec.trace()


def extract(trees1, vocab, trees2, ds1, ds2, every, disc, twoterms, adjacent,
		rec, what):
	found = common(ds1, ds2, twoterms, adjacent)
	what = ' (disc=%s, twoterms=%s, adjacent=%s)%s' % (
			disc, twoterms, adjacent, what)
	got = _fragments.extractfragments(trees1, 0, 0, vocab, trees2,
			approx=True, disc=disc, twoterms=twoterms, adjacent=adjacent)
	rec.step()
	rec.expect('approximate counts' + what, got, table(found, disc, len))
	got = _fragments.extractfragments(trees1, 0, 0, vocab, trees2,
			approx=False, disc=disc, twoterms=twoterms, adjacent=adjacent)
	keys = sorted(got)
	bytext = table({f: f for f in found}, disc, lambda f: f)
	rec.expect('fragments' + what, keys, sorted(bytext))
	bitsets = [got[a] for a in keys]
	where = matchcounts(ds1)
	maxnodes = max(trees1.maxnodes, (trees2 or trees1).maxnodes) \
			if hasattr(trees1, 'maxnodes') else None
	for target, trees in ((ds1, trees1), (ds2, trees2)):
		if target is None:
			continue
		where = matchcounts(target)
		want = [where[bytext[a]] for a in keys]
		for kwargs in ({}, {'maxnodes': maxnodes}):
			rec.expect('counts' + what, list(_fragments.exactcounts(bitsets,
					trees1, trees, indices=0, **kwargs)), list(map(len, want)))
			rec.expect('indices' + what, [list(a) for a in
					_fragments.exactcounts(bitsets, trees1, trees, indices=1,
						**kwargs)], want)
			got = _fragments.exactcounts(bitsets, trees1, trees, indices=2,
					**kwargs)
			rec.expect('indices' + what, [list(a) for a, _ in got], want)
		for a, (ns, ms) in zip(keys, got):
			nodes(bytext[a], ns, ms, trees, target, vocab, rec, what)
		rec.step(3)
		num = len(target)
		for start in range(num):
			for end in list(range(start + 1, num + 1)) + [None]:
				want1 = [[n for n in a if start <= n < (end or num)]
						for a in want]
				rec.expect('counts%s %s%s' % (start, end, what), list(
						_fragments.exactcountsslice(bitsets, trees1, trees,
							indices=0, start=start, end=end)),
						list(map(len, want1)))
				rec.expect('indices%s %s%s' % (start, end, what), [list(a)
						for a in _fragments.exactcountsslice(bitsets, trees1,
							trees, indices=1, start=start, end=end)], want1)
				got = _fragments.exactcountsslice(bitsets, trees1, trees,
						indices=2, start=start, end=end)
				rec.expect('indices%s %s%s' % (start, end, what),
						[list(a) for a, _ in got], want1)
				for a, (ns, ms) in zip(keys, got):
					if start == 0 and end is None:
						nodes(bytext[a], ns, ms, trees, target, vocab, rec,
								what)
		for n, a in enumerate(keys):
			for limit in range(1, 4):
				rec.expect('first %d%s' % (limit, what), [list(a) for a in
						_fragments.exactcountsslice([bitsets[n]], trees1,
						trees, indices=1, maxresults=limit)],
						[want[n][:limit]])
	rec.outcome(sorted(keys))


def nodes(f, ns, ms, trees, ds, vocab, rec, what):
	"""Reported nodes should be exactly those where f occurs."""
	got = sorted((n, trees.extract(n, vocab, disc=True, node=m))
			for n, m in zip(ns, ms))
	if len(set(zip(ns, ms))) != len(ns):
		rec.fail('duplicate nodes' + what)
	want = []
	for n, d in enumerate(ds):
		for _, sub in occurrences(d):
			if any(a == f for a, _ in dop.matches(sub)):
				want.append((n, shape(sub)))
	rec.expect('nodes' + what, sorted((n, shape2(a)) for n, a in got),
			sorted(want))


def shape(d):
	if d[0][0][1] == 'Epsilon':
		return '(%s %s)' % (d[0][0][0], d[0][1][0])
	return '(%s %s)' % (dop.label(d), ' '.join(map(shape, d[1])))


def shape2(text):
	return re.sub(r' [0-9]+=', ' ', text)


def covered(every, depth, width, disc, func=len):
	return table({f: x for f, x in every.items()
			if dop.depth(f) <= depth and frontiers(f) <= width}, disc, func)


def allsame(params, disc, ds, rec, what):
	every = matchcounts(ds)
	for depth in range(1, 5):
		for width in (0, 1, 2, 3, 999):
			got = _fragments.allfragments(params['trees1'], params['vocab'],
					depth, width, disc=disc)
			rec.step()
			yield ('all fragments of depth %d width %d' % (depth, width), got,
					covered(every, depth, width, disc))
	got = _fragments.allfragments(params['trees1'], params['vocab'], 3,
			disc=disc, indices=True)
	yield ('all fragments with indices', {a: list(b) for a, b in got.items()},
			covered(every, 3, 999, disc, list))
	for start in range(len(ds)):
		for end in range(start + 1, len(ds) + 1):
			got = _fragments.allfragments(params['trees1'], params['vocab'],
					2, disc=disc, start=start, end=end)
			yield ('all fragments from %d to %d' % (start, end), got,
					covered(matchcounts(ds[start:end]), 2, 999, disc))


def recurring(objs, sents, ds, every, disc, depth, width, rec, what):
	want = {f: every[f] for f in common(ds)}
	want.update((f, x) for f, x in every.items()
			if dop.depth(f) <= depth and frontiers(f) <= width)
	got = frags.recurringfragments(objs, sents, 1, disc=disc, indices=True,
			maxdepth=depth, maxfrontier=width)
	rec.expect('recurring fragments %d %d%s' % (depth, width, what),
			{a: list(b) for a, b in got.items()}, table(want, disc, list))
	got = frags.recurringfragments(objs, sents, 1, disc=disc, indices=False,
			maxdepth=depth, maxfrontier=width)
	rec.expect('recurring fragments %d %d%s' % (depth, width, what),
			got, table(want, disc, len))
	if disc and depth:
		got = frags.allfragments(objs, sents, depth, width)
		rec.expect('fragments %d %d%s' % (depth, width, what),
				{a: list(b) for a, b in got.items()},
				covered(every, depth, width, disc, list))
	rec.step(2)


# --- given fragments ---------------------------------------------------------
def gen_needles(tier):
	for name in FAMILIES:
		if name == 'five' or name == 'unary' and tier == 'quick':
			continue
		num = len(family(name))
		for i in range(num):
			for j in range(num):
				yield name, (i, j)


def needles(case, rec):
	trees, sents = bank(case)
	ds = [dop.derivation(t, s) for t, s in zip(trees, sents)]
	what = ' in ' + ' '.join(map(gen.show, trees))
	found = sorted(dop.allfragments(ds[:1]), key=repr)
	where = matchcounts(ds[1:])
	vocab = Vocabulary()
	for disc in (True, False):
		if not disc and not all(map(continuous, trees)):
			continue
		params = _fragments.getctrees(
				[needle(f) for f in found],
				[(gen.build(Tree, trees[1]), sents[1])])
		trees1, trees2 = params['trees1'], params['trees2']
		for size in {trees1.maxnodes, trees2.maxnodes, 64, 200} if hasattr(
				trees1, 'maxnodes') else (8, 64, 200):
			texts, bitsets = _fragments.completebitsets(trees1,
					params['vocab'], size, disc)
			rec.step()
			rec.expect('fragments as strings' + what, texts,
					[text(f, disc) for f in found])
			got = _fragments.exactcounts(bitsets, trees1, trees2, indices=1,
					maxnodes=size)
			rec.expect('occurrences of fragments' + what,
					dict(zip(texts, map(list, got))),
					table({f: where.get(f, []) for f in found}, disc, list))
			for start in range(len(found)):
				texts1, bitsets1 = _fragments.completebitsets(trees1,
						params['vocab'], size, disc, start=start,
						end=start + 2)
				rec.expect('some fragments', (texts1, bitsets1),
						(texts[start:start + 2], bitsets[start:start + 2]))
	rec.state(case)
	rec.trace()


def needle(f):
	"""A fragment as binarized tree and sentence."""
	tree, sent = discbrackettree(text(f, True))
	return handledisc(tree), sent


# --- sizes around multiples of 64 --------------------------------------------
def chain(n, kind):
	"""A tree with n nodes."""
	if kind == 'unary':
		t = ('X', 0)
		for _ in range(n - 1):
			t = ('A', t)
		return t
	words = (n + 1) // 2  # a binary tree with n words has 2n - 1 nodes
	t = ('X', words - 1)
	for a in range(words - 2, -1, -1):
		t = ('A', ('X', a), t)
	return t if n % 2 else ('S', chain(n - 1, kind))


SIZES = (1, 2, 3, 30, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192)


def gen_big(tier):
	for kind in ('unary', 'binary'):
		for n in SIZES:
			for m in SIZES:
				if tier != 'quick' or n < 4 or m < 4 or abs(n - m) < 3:
					yield kind, n, m


def big(case, rec):
	kind, n, m = case
	trees = [chain(n, kind), chain(m, kind)]
	sents = []
	for t in trees:
		k = len(gen.leaves(t))
		sents.append(['a'] * k)
		if kind == 'binary':
			sents[-1] = ['%s%d' % ('ab'[a % 2], a // 2 % 3)
					for a in range(k)][::-1]
	ds = [dop.derivation(t, s) for t, s in zip(trees, sents)]
	items = [(gen.build(Tree, t), s) for t, s in zip(trees, sents)]
	params = _fragments.getctrees(items[:1], items[1:])
	trees1, trees2 = params['trees1'], params['trees2']
	found = common(ds[:1], ds[1:])
	got = _fragments.extractfragments(trees1, 0, 0, params['vocab'], trees2,
			approx=False, disc=True)
	rec.step()
	what = ' of trees with %d and %d nodes' % (n, m)
	want = {text(f, True): f for f in found}
	rec.expect('fragments' + what, sorted(got), sorted(want))
	keys = sorted(got)
	bitsets = [got[a] for a in keys]
	times = {a: [occurs(want[a], d) for d in ds] for a in keys}
	rec.expect('counts' + what, list(_fragments.exactcounts(bitsets,
			trees1, trees1, maxnodes=max(n, m))),
			[times[a][0] for a in keys])
	for size in (None, max(n, m)):
		rec.expect('counts in other treebank' + what, list(
				_fragments.exactcounts(bitsets, trees1, trees2, maxnodes=size)),
				[times[a][1] for a in keys])
		for indices in (0, 1, 2):
			rec.expect('occurrences in other treebank' + what,
					[x if indices == 0 else len(x[0] if indices == 2 else x)
						for x in _fragments.exactcountsslice(bitsets, trees1,
							trees2, indices=indices, maxnodes=size)],
					[times[a][1] for a in keys])
	params = _fragments.getctrees(items)
	want = {f: sum(times[text(f, True)]) if text(f, True) in times
			else sum(occurs(f, d) for d in ds) for f in list(common(ds))
			+ [(a[0], (None, ) * len(a[1])) for d in ds
			for _, a in occurrences(d)]}
	for disc in (True, False):
		got = frags.recurringfragments([t for t, _ in items], sents, 1,
				disc=disc, indices=False, maxdepth=1)
		rec.expect('recurring fragments' + what, got,
				{text(f, disc): x for f, x in want.items()})
	texts, bitsets = _fragments.completebitsets(params['trees1'],
			params['vocab'], max(n, m), True)
	rec.expect('whole trees' + what, texts, [text(d, True) for d in ds])
	rec.expect('occurrences' + what, [list(a) for a in _fragments.exactcounts(
			bitsets, params['trees1'], params['trees1'], indices=1)],
			[[k for k, b in enumerate(ds) for _ in range(occurs(a, b))]
				for a in ds])
	rec.state(case)
	rec.trace()


def occurs(f, d):
	def match(f, d):
		if f is None:
			return True
		if f[0] != d[0]:
			return False
		for a, b in zip(f[1], d[1]):
			if a is not None and not match(a, b):
				return False
		return True
	return sum(match(f, a) for _, a in occurrences(d))


# --- reading bracketed trees -------------------------------------------------
def gen_read(tier):
	for n in range(1, 5):
		for t in gen.sentencetrees(n, disc=False, unary=int(n < 4),
				labels='AB' if n < 4 else 'A', root='S', pos=['X']):
			yield t
	for n in (range(5, 7) if tier == 'quick' else range(5, 8)):
		for t in gen.sentencetrees(n, disc=False, unary=0, labels='A',
				root='S', pos=['X']):
			yield t


STYLES = ('(%s %s)', ' ( %s\t%s ) ', '(%s  %s )')


def brackets(t, words, style, cut=()):
	if not isinstance(t[1], tuple):
		return style % (t[0], '' if t[1] in cut else words[t[1]])
	return style % (t[0], (' ' if style.endswith(')') else '').join(
			brackets(a, words, style, cut) for a in t[1:]))


def read(t, rec):
	n = len(gen.leaves(t))
	words = ['w%d' % a for a in range(n)]
	tree = binarize(gen.build(Tree, t), dot=True)
	want = gen.totuple(tree)
	texts = [brackets(t, words, style) for style in STYLES]
	texts += [brackets(t, words, STYLES[0], (a, )) for a in range(n)
			if n > 1]
	path = scratch.write('c27.txt', '\n'.join(texts) + '\n')
	vocab = Vocabulary()
	trees = _fragments.readtreebank(path, vocab)
	rec.step(len(texts))
	wants = [brackets(want, words, STYLES[0])] * len(STYLES)
	wants += [brackets(want, words, STYLES[0], (a, )) for a in range(n)
			if n > 1]
	rec.expect('trees of ' + gen.show(t), [trees.extract(a, vocab, disc=False)
			for a in range(len(trees))], wants)
	rec.expect('sentence of ' + gen.show(t), [trees.extractsent(a, vocab)
			for a in range(len(trees))], [words] * len(STYLES) + [
			[None if a == b else words[b] for b in range(n)]
			for a in range(n) if n > 1])
	# errors
	good = texts[0]
	bad = [good[:-1], good + ')', good + ' ' + good, '', good + 'x']
	for m in re.finditer(r'\)', good):  # a word next to other nodes
		bad.append(good[:m.end()] + ' z' + good[m.end():])
		bad.append(good[:m.start()] + ' z' + good[m.start():])
	bad.extend(good[:m.start()] + ' z ' + good[m.start():]
			for m in re.finditer(r'\(', good))
	for a in bad:
		path = scratch.write('c27.txt', a + '\n')
		try:
			trees = _fragments.readtreebank(path, vocab)
		except ValueError:
			pass
		else:
			rec.fail('not refused: %r; result: %s' % (a,
					trees.extract(0, vocab, disc=False)))
		rec.count('errors')
	rec.state(t)
	rec.trace()


# --- command line ------------------------------------------------------------
TREES = [
	('(S (A (X 0) (Y 1)) (B 2) (C 3) (D 4))', 'a b x y z'),
	('(S (A (X 0) (Y 1)) (B 2) (C 3) (E 4))', 'a b x w z'),
	('(S (A (X 0) (Y 1)) (B 2) (C 3) (D 4))', 'b b x y v'),
	('(S (A (X 0) (Y 1)) (B 2) (C 3) (D 4))', 'a c x y z'),
	('(R (S (A (A (X 0) (Y 1)) (Y 2)) (C 3)))', 'a b b y'),
	('(R (S (A (A (X 0) (Y 1))) (X 2)))', 'a "b" a'),
	('(R (A (X 0) (Y 1)))', 'a "b"'),
	('(R (S (C 0)))', 'y'),
	('(S (B 0) (B 1) (B 2) (B 3) (B 4) (B 5))', 'x x y y x x'),
	('(R (S (B 0) (C 1) (B 2) (B 3) (B 4) (B 5)))', 'x y y y x x'),
	('(S (X 0) (E 1) (B 2))', '\u00e9 \u00e8 \u20ac'),
	('(R (S (X 0) (E 1) (B 2)))', '\u00e9 \u00e8 x'),
	# discontinuous
	('(S (A (X 0) (Y 2)) (B 1) (C 3))', 'a b x y'),
	('(S (A (X 0) (Y 3)) (B 1) (C 2))', 'a x y b'),
	('(S (A (A (X 0) (Y 2)) (C 4)) (B 1) (C 3))', 'a b x y y'),
	('(S (A (X 0) (Y 2) (B 4)) (B 1) (C 3))', 'a b x y z'),
	('(R (S (A (X 0) (Y 2) (B 4)) (B 1) (C 3)))', 'a b x y x'),
]
# fragments as queries; as text
QUERIES = {
	'bracket': [
		'(A (X ) (Y b))', '(S (A ) (B x) (C ) (D ))', '(X a)', '(X nope)',
		'(A (A ) (Y ))', '(S (A (X a) (Y b)) (B x) (C ) (E z))', '(B x)',
		'(S (A ) (S|<A.B,C,D> (B x) (S|<A,B.C,D> (C y) (D ))))',
		'(Z (B x) (C y))', '(R (S (A ) (X )))', '(S (B ) (B ) (B y) (B ) '
		'(B x) (B ))', '(A (X ) (Y ))'],
	'discbracket': [
		'(A (X 0=) (Y 1=b))', '(A (X 0=a) (Y 2=x))', '(S (A 0= 2=) (B 1=) '
		'(C 3=y))', '(S (A 0= 2= 4=) (B 1=b) (C 3=))', '(X 0=a)',
		'(X 0=nope)', '(A (X 0=) (Y 2=) (B 4=))', '(A (A 0= 2=) (C 4=))',
		'(S (A 0=) (B 1=x) (C 2=) (D 3=))', '(R (S 0=))'],
}
BANKS = ((0, 1, 2, 0), (4, 5, 0, 6, 7, 6), (8, 9, 4, 7), (3, 1, 2),
		(5, 6, 4, 5), (10, 11, 0))
DISCBANKS = ((12, 13, 14, 0, 12), (15, 16, 12, 14), (13, 15, 2, 1),
		(0, 14, 16))
OPTS = ('approx', 'nofreq', 'indices', 'relfreq', 'adjacent', 'debin', 'alt',
		'twoterms=X', 'twoterms=(X|D)$', 'cover=1', 'cover=2,1', 'cover=3,0',
		'numtrees=2', 'o')


def gen_cli(tier):
	for num in range(4 if tier == 'quick' else 5):
		for opts in combinations(OPTS, num):
			keys = [a.split('=')[0] for a in opts]
			if len(set(keys)) < len(keys):
				continue
			elif 'approx' in opts and ('indices' in opts or 'cover' in keys):
				continue
			for mode in ('single', 'pair', 'complete', 'batch',
					'batchcomplete'):
				if 'batch' in mode and ('cover' in keys or 'o' in opts):
					continue
				elif 'complete' in mode and set(keys) & {'twoterms', 'adjacent',
						'approx', 'nofreq', 'cover'}:
					continue
				for fmt in ('bracket', 'discbracket', 'export'):
					if fmt == 'export' and 'complete' in mode:
						continue
					banks = BANKS if fmt == 'bracket' else DISCBANKS
					banks = tuple(banks[n:n + 3] + banks[:max(0, n + 3
							- len(banks))] for n in range(len(banks)))
					for n, a in enumerate(banks):
						if num < 2 or n % 2 == num % 2 or tier != 'quick':
							yield 'run', opts, mode, fmt, a
	for a in ERRORS:
		yield ('error', ) + a
	for a in INPUTS:
		yield ('input', ) + a


def makebank(ids, fmt, encoding='utf8', name='bank'):
	"""File with these trees; reference derivations."""
	out, ds = [], []
	for n, i in enumerate(ids, 1):
		tree = ParentedTree(TREES[i][0])
		sent = TREES[i][1].split()
		out.append(writetree(tree, sent, str(n), fmt))
		if fmt == 'export':  # there is always the same root label
			tree.label = 'ROOT'
		tree = binarize(handledisc(tree), dot=True)
		ds.append(dop.derivation(gen.totuple(tree), sent))
	path = scratch.path(name)
	with open(path, 'wb') as outfile:
		outfile.write(''.join(out).encode(encoding))
	return path, ds


def queries(fmt, limit=None, name='queries'):
	texts = QUERIES[fmt][:limit]
	path = scratch.write(name, '\n'.join(QUERIES[fmt]) + '\n')
	return path, texts


def pieces(text):
	"""Brackets as nested lists; terminals are strings."""
	stack = [[]]
	for a in re.findall(r'\(|\)|[^() ]+', text):
		if a == '(':
			stack.append([])
		elif a == ')':
			b = stack.pop()
			stack[-1].append(b)
		else:
			stack[-1].append(a)
	return stack[0][0]


def spliced(t, root=True):
	"""Remove intermediate nodes, unless root or not expanded."""
	kids = []
	for a in t[1:]:
		if isinstance(a, list):
			a = spliced(a, False)
			if '|<' in a[0] and any(isinstance(b, list) for b in a):
				kids.extend(a[1:])
				continue
		kids.append(a)
	return [t[0]] + kids


def written(t):
	if len(t) == 1:
		return '(%s )' % t[0]
	return '(%s)' % ' '.join(a if isinstance(a, str) else written(a)
			for a in t)


def quoted(t):
	if len(t) == 1:
		return t[0]
	return '(%s)' % ' '.join([t[0]] + ['"%s"' % a if isinstance(a, str)
			and len(t) == 2 else a if isinstance(a, str) else quoted(a)
			for a in t[1:]])


def presented(s, opts):
	t = pieces(s)
	if 'debin' in opts:
		s = written(spliced(t))
		t = pieces(s)
	if 'alt' in opts:
		s = quoted(pieces(s.replace('"', "''")))
	return s


def option(opts, key):
	for a in opts:
		if a.split('=')[0] == key:
			return a.split('=')[1]


def lines(ds1, ds2, target, opts, fmt, given=None):
	"""Expected output."""
	disc = fmt != 'bracket'
	if given is not None:  # given fragments
		found = {(n, a): None for n, a in enumerate(given)}
		where = {}
		for n, a in found:
			f = wanted(a, disc)
			where[n, a] = [n for n, d in enumerate(target)
					for _ in range(occurs2(f, d))]
		texts = {a: text(blank(wanted(a[1], disc)), disc) for a in found}
	else:
		found = common(ds1, ds2, option(opts, 'twoterms'), 'adjacent' in opts)
		every = matchcounts(target)
		where = {f: every[f] for f in found}
		if option(opts, 'cover'):
			a = [int(b) for b in option(opts, 'cover').split(',')]
			depth, width = a if len(a) > 1 else (a[0], 999)
			where.update((f, x) for f, x in matchcounts(ds1).items()
					if dop.depth(f) <= depth and frontiers(f) <= width)
		texts = {f: text(f, disc) for f in where}
	counts = {f: len(found[f]) if 'approx' in opts else len(x)
			for f, x in where.items()}
	result = []
	shown = {f: presented(texts[f], opts) for f in where}
	totals = Counter()
	for f, n in counts.items():
		totals[shown[f][1:shown[f].index(' ')]] += n
	for f, n in counts.items():
		if 'nofreq' in opts:
			result.append(shown[f])
		elif 'indices' in opts:
			a = where[f]
			if 'adjacent' in opts:
				a = [b for b in a if b - 1 in a or b + 1 in a]
			if n:
				result.append('%s\t%s' % (shown[f], a))
		elif 'relfreq' in opts:
			result.append('%s\t%d/%d' % (shown[f], n, totals[
					shown[f][1:shown[f].index(' ')]]))
		elif n:
			result.append('%s\t%d' % (shown[f], n))
	return sorted(result)


def wanted(s, disc):
	"""Query as binarized derivation."""
	if disc:
		tree, sent = discbrackettree(s)
	else:
		sent = []

		def indexed(t):
			if len(t) == 1 or isinstance(t[1], str):
				sent.append(t[1] if len(t) > 1 else None)
				return '(%s %d)' % (t[0], len(sent) - 1)
			return '(%s %s)' % (t[0], ' '.join(map(indexed, t[1:])))
		tree = ParentedTree(indexed(pieces(s)))
	tree = binarize(handledisc(tree), dot=True)

	def convert(t):
		if not isinstance(t[1], tuple):
			if sent[t[1]] is None:
				return t[0]
			return (((t[0], 'Epsilon'), (sent[t[1]], )), ())
		if t[0].endswith('|<>') or len(t) == 3 and t[2][0].endswith('|<>'):
			return t[0].split('|')[0]  # discontinuous frontier
		return (((t[0], ) + tuple(a[0] for a in t[1:]),
				dop.yieldfunction([gen.leaves(a) for a in t[1:]])),
				tuple(map(convert, t[1:])))
	return convert(gen.totuple(tree))


def blank(f):
	return (f[0], tuple(None if isinstance(a, str) else blank(a)
			for a in f[1]))


def occurs2(f, d):
	def match(f, d):
		if isinstance(f, str):
			return f == d[0][0][0]
		return f[0] == d[0] and all(
				match(a, b) for a, b in zip(f[1], d[1]))
	return sum(match(f, a) for _, a in occurrences(d))


def commandline(case, rec):
	if case[0] == 'error':
		return erroneous(case[1:], rec)
	elif case[0] == 'input':
		return inputs(case[1:], rec)
	_, opts, mode, fmt, ids = case
	limit = int(option(opts, 'numtrees') or 0) or None
	paths, every = [], []
	given = None
	for n, a in enumerate(ids):
		if n == 0 and 'complete' in mode:
			path, given = queries(fmt, limit, 'bank0')
			ds = None
		else:
			path, ds = makebank(a, fmt, name='bank%d' % n)
		paths.append(path)
		every.append(ds[:limit] if ds else None)
	if mode == 'single':
		paths, every = paths[:1], every[:1]
	elif 'batch' not in mode:
		paths, every = paths[:2], every[:2]
	argv = ['--fmt=' + fmt] if fmt != 'bracket' else []
	argv += ['--' + a for a in opts if a != 'o']
	if 'complete' in mode:
		argv.append('--complete')
	target = scratch.path('result')
	if os.path.exists(target):
		os.unlink(target)
	if 'o' in opts:
		argv += ['-o', target]
	folder = None
	if 'batch' in mode:
		folder = os.path.dirname(target)
		argv.append('--batch=' + folder)
	what = ' of fragments %s (%s)' % (' '.join(argv), case)
	error, out, err = run.captured(frags.main, argv + ['--quiet'] + paths)
	gc.collect()
	rec.step()
	rec.state(case)
	if error:
		rec.fail('error%s: %s\n%s' % (what, error, err))
		return
	if folder:
		rec.expect('output' + what, out, b'')
		for n in range(1, len(paths)):
			path = os.path.join(folder, '%s_%s' % (
					os.path.basename(paths[0]), os.path.basename(paths[n])))
			got = read1(path)
			os.unlink(path)
			rec.expect('output of file %d%s' % (n, what), got, lines(every[0],
					every[n], every[n], opts, fmt, given))
	else:
		if 'o' in opts:
			rec.expect('output' + what, out, b'')
			got = read1(target)
		else:
			got = sorted(out.decode('utf8').splitlines())
		rec.expect('output' + what, got, lines(every[0],
				every[1] if len(every) > 1 else None,
				every[1] if given is not None else every[0], opts, fmt,
				given))
		rec.outcome(got)
	rec.trace()


def read1(path):
	with open(path, encoding='utf8') as inp:
		return sorted(inp.read().splitlines())


ERRORS = (
	('--complete', 'bank'), ('--complete', '--approx', 'bank', 'bank'),
	('--complete', '--nofreq', 'bank', 'bank'),
	('--complete', '--twoterms=X', 'bank', 'bank'),
	('--complete', '--adjacent', 'bank', 'bank'),
	('nonexistent', ), ('bank', 'nonexistent'), ('--option', 'bank'), (),
	('bank', 'bank', 'bank'), ('empty', ), ('bank', 'empty'),
	('--fmt=discbracket', 'empty'), ('malformed', ), ('bank', 'malformed'),
	('--fmt=unknown', 'bank'), ('--encoding=ascii', 'bank'),
	('--batch=FOLDER', '--numproc=2', 'bank', 'bank'),
	('--numproc=-1', 'bank'), ('--numproc=x', 'bank'),
	)


def erroneous(argv, rec):
	"""No output, but an error message."""
	makebank((0, 10), 'bracket')
	scratch.write('empty', '')
	scratch.write('malformed', '(S (A (X a) (Y b))\n')
	folder = os.path.dirname(scratch.path('bank'))
	error, out, err = run.captured(frags.main, [
			scratch.path(a) if a in ('bank', 'nonexistent', 'empty',
				'malformed') else a.replace('FOLDER', folder) for a in argv]
			+ ['--quiet'])
	if not error:
		rec.fail('no error with arguments %r; output: %r' % (argv, out))
	rec.count('errors')
	rec.step()
	rec.trace()


INPUTS = tuple(product(('utf8', 'iso-8859-1', 'utf-16'), ('file', 'gz', 'zst', '-'),
		('bracket', 'discbracket', 'export'), (1, 2)))


def inputs(case, rec):
	"""Encodings and ways to give files."""
	encoding, how, fmt, num = case
	banks = ((5, 0, 4, 11 if encoding == 'iso-8859-1' else 10, 11),
			(11, 4, 0, 8))[:num]
	paths, every, stdin = [], [], b''
	for n, a in enumerate(banks):
		if encoding == 'iso-8859-1':
			a = tuple(11 if b == 10 else b for b in a)
		path, ds = makebank(a, fmt, encoding, 'bank%d' % n)
		every.append(ds)
		if n == 0 and how == 'gz':
			import gzip
			with open(path, 'rb') as inp:
				data = inp.read()
			path += '.gz'
			with gzip.open(path, 'wb') as out:
				out.write(data)
		elif n == 0 and how == 'zst':
			subprocess.run(['zstd', '-q', '-f', path], check=True)
			path += '.zst'
		elif n == 0 and how == '-':
			with open(path, 'rb') as inp:
				stdin = inp.read()
			path = '-'
		paths.append(path)
	error, out, err = run.captured(frags.main, ['--fmt=' + fmt, '--quiet',
			'--encoding=' + encoding, '-o', scratch.path('out')] + paths,
			stdin)
	gc.collect()
	rec.step()
	if error:
		rec.fail('error with %s: %s\n%s' % (case, error, err))
		return
	with open(scratch.path('out'), encoding=encoding) as inp:
		got = sorted(inp.read().splitlines())
	rec.expect('output with %s' % (case, ), got, lines(every[0], every[1]
			if num > 1 else None, every[0], (), fmt))
	rec.trace()


SPACES = [
	core.Space('banks', gen_banks, banks, {
		'quick': 'all treebanks of 2 binary trees over 2-4 words from 6 '
		'families, and of 3 trees from 2 families; all slices',
		'thorough': 'also trees over 5 words, more triples'}),
	core.Space('needles', gen_needles, needles, {
		'quick': 'all fragments of all trees from 5 families in all others',
		'thorough': '6 families'}),
	core.Space('big', gen_big, big, {
		'quick': 'pairs of chains with around 1, 64, 128, 192 nodes',
		'thorough': 'all pairs'}),
	core.Space('read', gen_read, read, {
		'quick': 'all continuous trees over <=6 words, with unary nodes for '
		'<=3 words; 3 styles of whitespace; each word missing; trees with '
		'misplaced words or parentheses', 'thorough': '<=7 words'}),
	core.Space('commandline', gen_cli, commandline, {
		'quick': 'all sets of up to 3 options of discodop fragments; one, two '
		'or more treebanks, given fragments; 3 formats; 4 to 6 sets of '
		'treebanks; errors, encodings',
		'thorough': 'all sets of up to 4 options'}),
	]
ASSUMPTIONS = [
	'Fragments are enumerated by brute force.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C27', SPACES, ASSUMPTIONS))
