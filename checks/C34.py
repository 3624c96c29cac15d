"""C34: a treebank in its compact, indexed form is the same treebank."""
import os
import sys
import pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen, scratch
build.activate('full')
from discodop import _fragments  # noqa: E402
from discodop.containers import (Ctrees, Vocabulary,  # noqa: E402
		FixedVocabulary)
from discodop.tree import Tree  # noqa: E402


# --- reference ---------------------------------------------------------------
def phrase(t):
	return isinstance(t[1], tuple)


def runs(t):
	"""List of (first, last) of the components of a node."""
	result = []
	for n in sorted(gen.leaves(t)):
		if result and result[-1][1] == n - 1:
			result[-1][1] = n
		else:
			result.append([n, n])
	return result


def rule(t, sent):
	"""Expected text of the production at the root of a tree."""
	if not phrase(t):
		return ' %s %r ' % (t[0], sent[t[1]])
	parts = []
	owner = {n: k for k, c in enumerate(t[1:]) for n in gen.leaves(c)}
	for a, b in runs(t):
		s = ''
		for n in range(a, b + 1):
			if not s or s[-1] != str(owner[n]):
				s += str(owner[n])
		parts.append(s)
	return '%s %s %s %s' % (','.join(parts), t[0], t[1][0],
			t[2][0] if len(t) > 2 else '')


def cachedrule(t, sent, cache={}):
	key = t, sent
	if key not in cache:
		if len(cache) > 20000:
			cache.clear()
		cache[key] = rule(t, sent)
	return cache[key]


def preorder(t):
	yield t
	if phrase(t):
		for a in t[1:]:
			for b in preorder(a):
				yield b


def text(t, sent, disc):
	if not phrase(t):
		word = sent[t[1]] or ''
		return '(%s %s)' % (t[0], '%d=%s' % (t[1], word) if disc else word)
	return '(%s %s)' % (t[0], ' '.join(text(a, sent, disc) for a in t[1:]))


class Model:
	"""A list of trees and a list of productions in order of occurrence."""
	def __init__(self):
		self.trees, self.vocab, self.labels = [], [], ['Epsilon']

	def learn(self, item):
		for a in preorder(item[0]):
			labels = [a[0]]
			if phrase(a):
				labels.extend(b[0] for b in a[1:])
			elif item[1][a[1]] is not None:
				labels.append(item[1][a[1]])
			self.labels.extend(b for n, b in enumerate(labels)
					if b not in self.labels and b not in labels[:n])
			r = cachedrule(a, item[1])
			if r not in self.vocab:
				self.vocab.append(r)

	def add(self, items):
		for a in items:
			self.learn(a)
			self.trees.append(a)


# --- comparison --------------------------------------------------------------
def compare(rec, what, ct, vocab, m, indexed):
	sizes = [sum(1 for _ in preorder(t)) for t, _ in m.trees]
	rec.expect('size' + what,
			(len(ct), ct.len, ct.numnodes, ct.numwords, ct.maxnodes),
			(len(sizes), len(sizes), sum(sizes),
				sum(len(gen.leaves(t)) for t, _ in m.trees),
				max(sizes + [0])))
	if len(ct) != len(m.trees):
		return
	for n, (t, sent) in enumerate(m.trees):
		nodes = list(preorder(t))
		if sizes[n] > 100:
			nodes = nodes[:9] + nodes[-9:]
		rec.expect('tree' + what, ct.extract(n, vocab), text(t, sent, True))
		rec.expect('tree without indices' + what,
				ct.extract(n, vocab, disc=False), text(t, sent, False))
		rec.expect('sentence' + what, ct.extractsent(n, vocab), list(sent))
		got = sorted(ct.extract(n, vocab, node=k) for k in range(sizes[n]))
		want = sorted(text(a, sent, True) for a in nodes)
		if len(nodes) < sizes[n]:
			got = [a for a in want if a in got]
		rec.expect('nodes' + what, got, want)
	for n in (-1, len(m.trees)):
		for f in (ct.extract, ct.extractsent):
			try:
				got = f(n, vocab)
			except IndexError:
				got = None
			rec.expect('tree number out of range' + what, got, None)
	if indexed:
		got = {}
		for k, a in enumerate(ct.prodindex):
			if a:
				got[vocab.prodrepr(k)] = sorted(a)
		want = {}
		for n, (t, sent) in enumerate(m.trees):
			for a in preorder(t):
				want.setdefault(cachedrule(a, sent), set()).add(n)
		rec.expect('index' + what, got,
				{a: sorted(b) for a, b in want.items()})


def words(rec, what, vocab, m, known=True):
	rec.expect('productions' + what, [vocab.prodrepr(k)
			for k in range(len(m.vocab))], m.vocab)
	rec.expect('unknown production', vocab.prodrepr(-1), '<UNKNOWN>')
	if known:
		rec.expect('numbers of productions' + what,
				sorted(vocab.prods.values()), list(range(len(m.vocab))))
		rec.expect('labels' + what, sorted(vocab.labels, key=vocab.labels.get),
				m.labels)
		rec.expect('numbers of labels' + what, sorted(vocab.labels.values()),
				list(range(len(m.labels))))


def lookup(rec, vocab, m):
	"""A fixed vocabulary knows exactly what it has seen."""
	for t, sent in ITEMS:
		new = _fragments.getctrees([objects((t, sent))], vocab=vocab,
				index=False)['trees1']

		def known(a):
			r = rule(a, sent)
			word = sent[a[1]] if not phrase(a) else None
			label = a[0] if r in m.vocab else '<UNKNOWN>'
			if not phrase(a):
				if r not in m.vocab:
					word = '<UNKNOWN>'
				return '(%s %d=%s)' % (label, a[1], word or '')
			return '(%s %s)' % (label, ' '.join(map(known, a[1:])))

		rec.expect('lookup', new.extract(0, vocab), known(t))


def objects(item):
	return gen.build(Tree, item[0]), list(item[1])


def fragmentsof(ct, vocab):
	got = _fragments.extractfragments(ct, 0, 0, vocab, approx=False, disc=True)
	keys = sorted(got)
	counts = _fragments.exactcounts([got[a] for a in keys], ct, ct, indices=1)
	return {k: sorted(c) for k, c in zip(keys, counts)}


# --- alphabet ----------------------------------------------------------------
def chain(n, label='X'):
	t = (label, n - 1)
	for k in range(n - 2, -1, -1):
		t = ('C', ('Y', k), t)
	return t


ITEMS = (
	(('S', ('A', 0), ('B', 1)), ('a', 'b')),
	(('S', ('A_2', ('X', 0), ('Y', 2)), ('B', 1)), ('a', '\xe9', 'b')),
	(('S', ('A', ('A', ('B', 0)))), ('a', )),
	(('S', ('A', 0), ('B', 1)), ('b', None)),
	(chain(12), tuple('abcabcabcabc')),
	(('A', 0), ('\u65e5\u672c', )),
	(('S', ('A_3', ('X_2', ('A', 0), ('B', 2)), ('Y', 4)), ('B_2', ('A', 1),
		('B', 3))), ('a', 'b', 'a', 'b', 'c')),
	)
BATCHES = tuple((n, ) for n in range(len(ITEMS))) + (
		(0, 1), (1, 3, 0), (), (0, 0))


def stages(ops):
	"""Replay operations on a store and the model."""
	m = Model()
	vocab = Vocabulary()
	ct = Ctrees()
	for n, (op, arg) in enumerate(ops):
		if op == 'new':
			res = _fragments.getctrees([objects(ITEMS[a]) for a in arg])
			ct, vocab = res['trees1'], res['vocab']
			m = Model()
			m.add([ITEMS[a] for a in arg])
		elif op == 'add':
			ct.addtrees([objects(ITEMS[a]) for a in arg], vocab)
			m.add([ITEMS[a] for a in arg])
		elif op == 'other':  # another set of trees with the same vocabulary
			_fragments.getctrees([objects(ITEMS[a]) for a in arg], vocab=vocab)
			for a in arg:
				m.learn(ITEMS[a])
		elif op == 'load' and ct.prodindex:
			ct.tofile(scratch.path('t.ct'))
			vocab.tofile(scratch.path('t.voc'))
			ct = Ctrees.fromfilemut(scratch.path('t.ct'))
			vocab = Vocabulary.fromfile(scratch.path('t.voc'))
		elif op == 'words':
			vocab = pickle.loads(pickle.dumps(vocab))
	return ct, vocab, m


def history(ops, rec):
	ct, vocab, m = stages(ops)
	what = ''
	rec.step(len(ops))
	compare(rec, what, ct, vocab, m, bool(ct.prodindex is not None))
	words(rec, what, vocab, m)
	fname, vname = scratch.path('s.ct'), scratch.path('s.voc')
	if ct.prodindex:
		ct.tofile(fname)
		vocab.tofile(vname)
		with Ctrees.fromfile(fname) as fixed, \
				FixedVocabulary.fromfile(vname) as voc:
			what = ' (file)'
			words(rec, what, voc, m, False)
			compare(rec, what, fixed, voc, m, True)
			voc.makeindex()
			words(rec, what, voc, m)
			lookup(rec, voc, m)
			again = fragmentsof(fixed, voc)
			rec.step()
		new = _fragments.getctrees([objects(a) for a in m.trees])
		want = fragmentsof(new['trees1'], new['vocab'])
		rec.expect('fragments', fragmentsof(ct, vocab), want)
		rec.expect('fragments (file)', again, want)
		what = ' (mutable file)'
		compare(rec, what, Ctrees.fromfilemut(fname),
				Vocabulary.fromfile(vname), m, True)
		words(rec, what, Vocabulary.fromfile(vname), m)
	what = ' (pickle)'
	copy, voc = pickle.loads(pickle.dumps((ct, vocab)))
	compare(rec, what, copy, voc, m, ct.prodindex is not None)
	words(rec, what, voc, m)
	compare(rec, ' (afterwards)', ct, vocab, m, ct.prodindex is not None)
	rec.state((tuple(m.trees), tuple(m.vocab)))
	rec.trace()


def gen_history(tier):
	first = [('new', a) for a in BATCHES] + [('add', a) for a in BATCHES]
	later = ([('add', a) for a in BATCHES] + [('other', (1, )),
			('other', (4, 6)), ('load', None), ('words', None)])
	depth = 3 if tier == 'quick' else 4
	for n in range(depth):
		for a in first:
			for b in product(later, repeat=n):
				yield (a, ) + b
	if tier != 'quick':
		return
	few = [('add', (1, )), ('add', (3, )), ('other', (4, 6)), ('load', None),
			('words', None)]
	for n in (3, 4):
		for a in (('new', (0, 1)), ('add', (1, 3, 0)), ('add', ())):
			for b in product(few, repeat=n):
				yield (a, ) + b


def shapes(case, rec):
	"""Any binarized tree; store of that tree after and before others."""
	t, k = case
	n = len(gen.leaves(t))
	sent = tuple('w%d' % a if k == 1 else 'ab\xe9'[a % 3] for a in range(n))
	item = (t, sent)
	m = Model()
	items = [ITEMS[0], item, ITEMS[1]]
	m.add(items)
	res = _fragments.getctrees([objects(a) for a in items[:1]])
	ct, vocab = res['trees1'], res['vocab']
	ct.addtrees([objects(a) for a in items[1:]], vocab)
	compare(rec, '', ct, vocab, m, True)
	words(rec, '', vocab, m)
	ct.tofile(scratch.path('s.ct'))
	vocab.tofile(scratch.path('s.voc'))
	with Ctrees.fromfile(scratch.path('s.ct')) as fixed, \
			FixedVocabulary.fromfile(scratch.path('s.voc')) as voc:
		compare(rec, ' (file)', fixed, voc, m, True)
		words(rec, ' (file)', voc, m, False)
	rec.state(case)
	rec.trace()


def binary(t):
	return not phrase(t) or (len(t) < 4 and all(map(binary, t[1:])))


def gen_shapes(tier):
	top = 5 if tier == 'quick' else 6
	for n in range(1, top + 1):
		for t in gen.sentencetrees(n, True, 2 if n < 3 else 1 if n < 4 else 0,
				'A' if n > 3 else 'AB', 'S', ['X', 'Y']):
			if binary(t):
				yield t, 0
	for n in (13, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300):
		yield chain(n), 0
		yield chain(n), 1


def many(case, rec):
	"""Stores that have to grow."""
	kind, n = case
	items = [(('S', ('A', 0), ('B', 1)), ('w%d' % (a % 7), 'v%d' % (a % 11)))
			for a in range(n)]
	if kind == 'getctrees':
		res = _fragments.getctrees([objects(a) for a in items])
		ct, vocab = res['trees1'], res['vocab']
	else:
		ct, vocab = Ctrees(), Vocabulary()
		size = n if kind == 'batch' else 1 if kind == 'single' else n // 2
		for a in range(0, n, size):
			ct.addtrees([objects(b) for b in items[a:a + size]], vocab)
			if kind == 'load':
				ct.tofile(scratch.path('t.ct'))
				ct = Ctrees.fromfilemut(scratch.path('t.ct'))
	m = Model()
	m.add(items)
	compare(rec, '', ct, vocab, m, True)
	words(rec, '', vocab, m)
	rec.state(case)
	rec.trace()


def gen_many(tier):
	for n in (2, 8, 9, 10, 11, 63, 64, 65, 100, 511, 512, 513, 600):
		for kind in ('getctrees', 'batch', 'single', 'load'):
			yield kind, n


SPACES = [
	core.Space('history', gen_history, history, {
		'quick': 'all sequences of up to 3 of 15 operations (add one of 11 '
		'batches, use the vocabulary for other trees, save and load), up to 5 '
		'of 5 operations from 3 states',
		'thorough': 'all sequences of up to 4'}),
	core.Space('shapes', gen_shapes, shapes, {
		'quick': 'all binary trees of <=5 words (discontinuous, unary); chains '
		'of up to 300 words', 'thorough': '<=6 words'}),
	core.Space('many', gen_many, many,
		'1 to 600 trees added in 4 ways'),
	]
ASSUMPTIONS = [
	'A store that was unpickled or opened read-only is not extended.',
	'Stores without any productions are not written to a file (the library '
	'roaringbitmap cannot open these).',
	'Files are not changed by another process while they are in use.']

if __name__ == '__main__':
	sys.exit(core.main('C34', SPACES, ASSUMPTIONS))
