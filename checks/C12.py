"""C12: punctuation strategies move or remove punctuation and nothing else."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen
build.activate('bit')
from discodop.tree import Tree, ParentedTree  # noqa: E402
from discodop import punctuation as P  # noqa: E402
from discodop.treebank import NegraCorpusReader, EXPORTHEADER  # noqa: E402
from vlib import scratch  # noqa: E402

# (word, tag, is punctuation, is pruned at the edges, matching mark)
WORDS = {'w': ('w', 'N'), ',': (',', '$,'), '"': ('"', '$['),
		'(': ('(', '$['), ')': (')', '$['), '.': ('.', '$.'),
		'a': ("'", 'POS'), 't': ('foo', 'PUNCT'), '-': ('-', 'X'),
		'q': ("'", '$['), 'n': ('"', 'N')}
PUNCT = frozenset(',"().t-qn')
PRUNE = frozenset('".n')
MATCH = {'"': '"', '(': ')', 'q': "'"}
TAGGED = frozenset(',"().tq')


class N(object):
	"""Node of the model."""

	def __init__(self, label, kids):
		self.label, self.kids, self.parent = label, kids, None
		for a in kids:
			if isinstance(a, N):
				a.parent = self

	def leaves(self):
		return [a for k in self.kids for a in (k.leaves()
				if isinstance(k, N) else [k])]

	def nodes(self):
		yield self
		for k in self.kids:
			if isinstance(k, N):
				for a in k.nodes():
					yield a

	def detach(self):
		p, self.parent = self.parent, None
		p.kids = [a for a in p.kids if a is not self]
		return p

	def attach(self, to):
		self.parent = to
		to.kids.append(self)

	def tup(self):
		return (self.label, ) + tuple([a.tup() if isinstance(a, N) else a
				for a in self.kids])


def model(t):
	return N(t[0], [model(a) if isinstance(a, tuple) else a for a in t[1:]])


def preterms(root):
	return {a.kids[0]: a for a in root.nodes()
			if a.kids and not isinstance(a.kids[0], N)}


def prune(root, node):
	"""Remove empty node and its empty ancestors."""
	while not node.kids and node is not root:
		node = node.detach()


def remove(root, sent, drop):
	for i, a in sorted(preterms(root).items()):
		if i in drop:
			prune(root, a.detach())
	keep = [i for i in range(len(sent)) if i not in drop]
	for m, i in enumerate(keep):
		pass
	new = {i: m for m, i in enumerate(keep)}
	for a in preterms(root).values():
		a.kids = [new[a.kids[0]]]
	return [sent[i] for i in keep]


def raisepunct(root, sent, everything):
	todo = [i for i, a in preterms(root).items() if a.parent is root
			and (everything or sent[i] in PUNCT)]
	for i in sorted(todo, reverse=True):
		if len(root.kids) == 1:
			continue
		a = preterms(root)[i]
		a.detach()
		# the largest constituent that starts right after the mark
		target = root
		for b in root.nodes():
			if b is not root and min(b.leaves()) == i + 1:
				target = b.parent
				break
		a.attach(target)


def balance(root, sent):
	opened = {}  # expected closing word => index
	terms = preterms(root)
	for i in range(len(sent)):
		c = sent[i]
		if c not in PUNCT:
			continue
		word = WORDS[c][0]
		if c in TAGGED and word in opened:
			left, right = terms[opened.pop(word)], terms[i]
			if max(left.parent.leaves()) == i - 1:
				old = right.detach()
				right.attach(left.parent)
				prune(root, old)
			elif min(right.parent.leaves()) == left.kids[0] + 1:
				old = left.detach()
				left.attach(right.parent)
				prune(root, old)
		elif c in MATCH:
			opened[MATCH[c]] = i


def lower(root, sent):
	"""Attach every mark to the lowest node around it."""
	for i, a in sorted(preterms(root).items()):
		if sent[i] not in PUNCT:
			continue
		top = a
		while top is not root and len(top.parent.kids) == 1:
			top = top.parent
		if top is root:
			continue
		top.detach()
		if top is not a:
			a.detach()
		cand = root
		while True:
			for b in sorted((x for x in cand.kids if isinstance(x, N)
					and isinstance(x.kids[0], N)), key=N.leaves):
				if min(b.leaves()) < i < max(b.leaves()):
					cand = b
					break
			else:
				break
		a.attach(cand)


def expected(t, sent, method):
	root = model(t)
	if method == 'remove':
		sent = remove(root, sent, {i for i, c in enumerate(sent)
				if c in PUNCT})
	elif method == 'removeall':
		sent = remove(root, sent, {i for i, a in preterms(root).items()
				if a.parent is root})
	elif method == 'root':
		for i, a in sorted(preterms(root).items()):
			if sent[i] in PUNCT and a.parent is not root:
				prune(root, a.detach())
				a.attach(root)
	elif method == 'lower':
		lower(root, sent)
	else:
		if method == 'prune':
			n = len(sent)
			left = next((i for i in range(n) if sent[i] not in PRUNE), n)
			right = next((i for i in reversed(range(n))
					if sent[i] not in PRUNE), -1)
			sent = remove(root, sent, {i for i in range(n)
					if i < left or i > right})
		raisepunct(root, sent, method == 'moveall')
		balance(root, sent)
	return root.tup(), sent


METHODS = ('remove', 'removeall', 'move', 'moveall', 'prune', 'root', 'lower')


def nopunct(t, sent):
	"""Structure without punctuation."""
	root = model(t)
	remove(root, sent, {i for i, c in enumerate(sent) if c in PUNCT})
	return gen.canon(root.tup())


def check(case, rec):
	t, sent = case
	sent = list(sent)
	t = retag(t, sent)
	for method in METHODS:
		tree = gen.build(ParentedTree, t)
		words = [WORDS[c][0] for c in sent]
		if method == 'lower':
			P.punctlower(tree, words)
		else:
			P.applypunct(method, tree, words)
		rec.step()
		got = gen.totuple(tree)
		want, left = expected(t, sent, method)
		rec.expect('words (%s)' % method, words, [WORDS[c][0] for c in left])
		rec.expect('tree (%s)' % method, gen.canon(got), gen.canon(want))
		if method not in ('root', 'remove', 'removeall', 'lower'):
			rec.expect('order (%s)' % method, got, gen.canon(got))
		# properties of any result
		if len(left):
			for a in tree.subtrees():
				if len(a) == 0:
					rec.fail('%s: empty node in %s' % (method, tree))
				for n, b in enumerate(a):
					if isinstance(b, Tree) and (b.parent is not a
							or b.parent_index != n):
						rec.fail('parent of %s in %s' % (b, tree))
		rec.expect('tags (%s)' % method, [b for _, b in sorted(tree.pos())],
				[WORDS[c][1] for c in left])
		if method in ('move', 'root', 'lower') and any(c not in PUNCT
				for c in sent):
			rec.expect('other words (%s)' % method, nopunct(got, sent),
					nopunct(t, sent))
		rec.outcome((method, got))
	# methods that change nothing
	for method in (None, 'no'):
		tree = gen.build(ParentedTree, t)
		P.applypunct(method, tree, words)
		rec.expect('no change', gen.totuple(tree), t)
	# without a tree
	words = [WORDS[c][0] for c in sent]
	P.punctprune(None, words)
	rec.expect('pruned sentence', words, [WORDS[c][0]
			for c in expected(t, sent, 'prune')[1]])
	for i, c in enumerate(sent):
		rec.expect('ispunct', P.ispunct(WORDS[c][0], Tree(WORDS[c][1], [i])),
				c in PUNCT)
	rec.trace()


def retag(t, sent):
	if isinstance(t[1], tuple):
		return (t[0], ) + tuple([retag(a, sent) for a in t[1:]])
	return (WORDS[sent[t[1]]][1], t[1])


def gen_check(tier):
	quick = tier == 'quick'
	for n in range(1, 4):
		for t in gen.sentencetrees(n, True, 2 if n < 3 else 1, labels='A'):
			for s in product(sorted(WORDS), repeat=n):
				yield t, ''.join(s)
	for t in gen.sentencetrees(3, True, 2 if quick else 3, labels='A'):
		for s in product('w"(),', repeat=3):
			yield t, ''.join(s)
	for t in gen.sentencetrees(4, True, 0 if quick else 1, labels='A'):
		for s in product('w,"().' if quick else 'w,"().aqt', repeat=4):
			yield t, ''.join(s)
	for t in gen.sentencetrees(4, True, 0, labels='A'):
		for s in product('wn"', repeat=4):
			if 'n' in s and '"' in s:
				yield t, ''.join(s)
	for t in gen.sentencetrees(5, True, 0, labels='A'):
		for s in product('w,"' if quick else 'w,"()', repeat=5):
			if quick and 'w' not in s:
				continue
			yield t, ''.join(s)
	if not quick:
		for t in gen.sentencetrees(6, True, 0, labels='A'):
			for s in product('w"', repeat=6):
				yield t, ''.join(s)


def flat(case, rec):
	"""As the reader does it for a corpus with punctuation at the root."""
	t, sent, method = case
	t = retag(t, sent)
	block, ids = [], {}
	for a in gen.nodes(t):
		if isinstance(a[1], tuple):
			ids[id(a)] = 499 + len(ids)
	lines = {}

	def walk(a, parent):
		if isinstance(a[1], tuple):
			if parent is not None:
				block.append('#%d\t%s\t--\t--\t%d\n' % (ids[id(a)], a[0],
						parent))
			me = ids[id(a)] if parent is not None else 0
			for b in a[1:]:
				walk(b, me)
		else:
			lines[a[1]] = '%s\t%s\t--\t--\t%d\n' % (WORDS[sent[a[1]]][0],
					a[0], parent)
	walk(t, None)
	text = '#BOS 1\n' + ''.join(lines[i] for i in range(len(sent))) + ''.join(
			block) + '#EOS 1\n'
	corpus = NegraCorpusReader(scratch.write('c12.export', text), punct=method)
	(key, item), = corpus.itertrees()
	want, left = expected(t, sent, method)
	rec.expect('words', item.sent, [WORDS[c][0] for c in left])
	rec.expect('tree', gen.canon(gen.totuple(item.tree)), gen.canon(want))
	rec.expect('words only', list(corpus.sents().values()), [item.sent])
	rec.expect('tagged', list(corpus.tagged_sents().values()),
			[[WORDS[c] for c in left]])
	rec.step()
	rec.trace()


def gen_flat(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for t in gen.sentencetrees(n, True, 0, labels='A', root='ROOT'):
			for s in product('w,"().', repeat=n):
				if any(c not in PUNCT for c in s):
					for method in METHODS[:-1]:
						if method == 'removeall' and all(
								not isinstance(a[1], tuple) for a in t[1:]):
							continue  # nothing is left
						yield t, ''.join(s), method


SPACES = [
	core.Space('strategies', gen_check, check, {
		'quick': 'all trees over <=3 words with all sequences of 10 tokens (3 '
		'words with 2 unary nodes: 5 tokens), 4 '
		'words with 6 tokens, 5 words with 3; 7 methods',
		'thorough': '3 words (3 unary) with 5 tokens, 4 words (1 unary) with 9 tokens, 5 words with 5, 6 words '
		'with 2'}),
	core.Space('reader', gen_flat, flat, {
		'quick': 'all corpora of one tree over <=3 words with 6 tokens',
		'thorough': '<=4 words'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C12', SPACES))
