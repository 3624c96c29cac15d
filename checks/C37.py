"""C37: tree-adjoining grammars: induction, reduction to rules, derivations."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, defaultdict
from fractions import Fraction
from itertools import combinations, product
from vlib import build, core, gen, scratch
build.activate('full')
from discodop import grammar as GR, pcfg, disambiguation  # noqa: E402
from discodop.fragments import recurringfragments  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.tree import Tree  # noqa: E402
from discodop.treetransforms import addbitsets  # noqa: E402
scratch.folder()
FOOT = '*'


# --- elementary trees: nested tuples, leaves: word, None (substitution), '*' --------

def el(text):
	"""'(NP (DT a) (NN))' => ('NP', ('DT', 'a'), ('NN', None))"""
	tokens = re.findall(r'[()]|[^\s()]+', text)
	pos = 0

	def rec():
		nonlocal pos
		label = tokens[pos + 1]
		pos += 2
		kids = []
		while tokens[pos] != ')':
			if tokens[pos] == '(':
				kids.append(rec())
			else:
				kids.append(tokens[pos])
				pos += 1
		pos += 1
		return (label, ) + (tuple(kids) or (None, ))
	return rec()


def show(t):
	"""String with numbered leaves."""
	num = 0

	def rec(t):
		nonlocal num
		if not isinstance(t[1], tuple):
			num += 1
			return '(%s %d=%s)' % (t[0], num - 1, t[1] or '')
		return '(%s %s)' % (t[0], ' '.join([rec(a) for a in t[1:]]))
	return rec(t)


def words(t):
	return [t[1]] if not isinstance(t[1], tuple) else [
			b for a in t[1:] for b in words(a)]


def paths(t, path=()):
	"""All nodes, top down."""
	yield path, t
	if isinstance(t[1], tuple):
		for n, a in enumerate(t[1:], 1):
			for b in paths(a, path + (n, )):
				yield b


def at(t, path):
	for n in path:
		t = t[n]
	return t


def replaced(t, path, new):
	if not path:
		return new
	return t[:path[0]] + (replaced(t[path[0]], path[1:], new), ) + t[
			path[0] + 1:]


def onspine(t):
	return FOOT in words(t)


# --- induction -----------------------------------------------------------------------

def induction(t):
	""":returns: list of pairs (initial tree, auxiliary tree)."""
	result = []
	if not any(words(t)):
		return result
	for path, f in paths(t):
		if not path or not isinstance(f[1], tuple):
			continue
		for k in range(len(path) - 1, 0, -1):
			r = at(t, path[:k])
			if r[0] == f[0]:
				result.append((replaced(t, path[:k], f),
						replaced(r, path[k:], (f[0], FOOT))))
				break
	return result


def induced(fragments):
	""":returns: trees with the set of weights they may have."""
	init, kept, aux = {}, {}, {}
	for t, w in fragments:
		pairs = induction(t)
		for a, b in pairs:
			init.setdefault(show(a), set()).add(w)
			aux.setdefault(show(b), set()).add(w)
		if not pairs and sum(1 for _ in paths(t)) > 3:
			kept.setdefault(show(t), set()).add(w)
	for a in kept:
		init.setdefault(a, set()).update(kept[a])
	for a in aux:
		init.pop(a.replace('*', ''), None)
	return init, aux


def leafings(t, maxwords, vocabulary=('a', 'b')):
	"""All ways to fill the leaves."""
	n = len(gen.leaves(t))
	for ws in product(('', ) + vocabulary, repeat=n):
		it = iter(ws)

		def rec(t):
			if not isinstance(t[1], tuple):
				return (t[0], next(it) or None)
			return (t[0], ) + tuple([rec(a) for a in t[1:]])
		yield rec(t)


def gen_induction(tier):
	shapes = []
	for n, unary, labels in ((1, 2, 'AB'), (2, 2, 'AB'), (3, 2, 'AB'),
			(4, 0, 'AB') if tier == 'thorough' else (4, 0, 'A')):
		for t in gen.sentencetrees(n, False, unary, labels, 'S', None):
			shapes.append((n, t))
		for t in gen.sentencetrees(n, False, min(unary, 1), labels, 'A', None):
			shapes.append((n, t))
	for n, t in shapes:
		for a in leafings(t, n, ('a', 'b') if n < 3 else ('a', )):
			yield [(a, 3)]
			for _, b in induction(a):  # the same with a substitution site
				b = tuple(substituted(b))
				if len(list(paths(b))) > 3:
					yield [(a, 3), (b, 2)]
					yield [(b, 2), (a, 3)]
	small = [a for n, t in shapes if n == 2
			for a in leafings(t, n, ('a', ))
			if len(list(paths(a))) > 4]
	for n, a in enumerate(small):
		for b in small[:n]:
			if a[0] == b[0] and (tier == 'thorough' or n % 3 == 0):
				yield [(a, 2), (b, 5)]


def check_induction(case, rec):
	rec.step()
	rec.state(case)
	want = induced(case)
	for t, _ in case:  # the pair can be put together again
		for a, b in induction(t):
			rec.trace()
			if not any(at(a, p)[0] == b[0] and replaced(a, p,
					adjoin(b, at(a, p))) == t for p, _ in paths(a)):
				rec.fail('reference for %r is wrong' % (t, ), 'reference')
	got = GR.inducetagfromtsg([(show(t), w) for t, w in case])
	for name, x, y in zip(('initial', 'auxiliary'), got, want):
		rec.expect('%s trees from %r' % (name, [show(t) for t, _ in case]),
				sorted(x), sorted(y))
		for a in x:
			rec.expect('weight of %s is one of %r' % (a, y[a]), x[a] in y[a],
					True)
	rec.outcome((len(got[0]), len(got[1])))
	if got[1]:
		rec.count('with auxiliary trees')


def substituted(t):
	if not isinstance(t[1], tuple):
		return (t[0], None if t[1] == FOOT else t[1])
	return (t[0], ) + tuple([substituted(a) for a in t[1:]])


def adjoin(aux, node):
	"""Put node in place of the foot."""
	if not isinstance(aux[1], tuple):
		return node if aux[1] == FOOT else aux
	return (aux[0], ) + tuple([adjoin(a, node) for a in aux[1:]])


# --- reference for derivations ---------------------------------------------------------

class Reference(object):
	"""All derivations of a sentence."""

	def __init__(self, init, aux, sent):
		self.init, self.aux, self.sent = init, aux, sent
		self.total = defaultdict(int)
		for t, w in init:
			self.total[t[0]] += w
		self.adj = defaultdict(int)
		for t, w in aux:
			self.adj[t[0]] += w
		self.memo = {}

	def site(self, label, i, j, inner, z):
		"""Derivations at a node where adjunction is possible.

		A derivation is: (derived tree, probability, sorted list of elementary
		trees)"""
		result = []
		for n, (t, w) in enumerate(self.aux):
			if t[0] == label:
				result += [(a, p * Fraction(w, z), e + (('aux', n), ))
						for a, p, e in self.spine(t, i, j, inner)]
		return result

	def spine(self, t, i, j, inner):
		if not isinstance(t[1], tuple):
			return inner(i, j)
		return self.combine(t, i, j, [
				(lambda k, m, a=a: self.spine(a, k, m, inner))
				if onspine(a) else
				(lambda k, m, a=a: self.node(a, k, m)) for a in t[1:]],
				[None if onspine(a) else a for a in t[1:]])

	def combine(self, t, i, j, funcs, _=None):
		result = []

		def rec(n, k):
			if n == len(funcs) - 1:
				return [((a, ), p, e) for a, p, e in funcs[n](k, j)]
			result = []
			for m in range(k + 1, j - (len(funcs) - n - 1) + 1):
				left = funcs[n](k, m)
				if left:
					right = rec(n + 1, m)
					result += [((a, ) + b, p * q, e + f)
							for a, p, e in left for b, q, f in right]
			return result
		return [((t[0], ) + a, p, e) for a, p, e in rec(0, i)]

	def node(self, t, i, j):
		"""Internal node of an elementary tree."""
		if t[1] is None:
			return self.subst(t[0], i, j)
		elif not isinstance(t[1], tuple):
			return [((t[0], i), Fraction(1), ())] if (
					j == i + 1 and self.sent[i] == t[1]) else []
		key = id(t), i, j
		if key not in self.memo:
			z = 1 + self.adj[t[0]]
			result = [(a, p / z, e) for a, p, e in self.combine(t, i, j,
					[lambda k, m, a=a: self.node(a, k, m) for a in t[1:]])]
			result += self.site(t[0], i, j,
					lambda k, m: self.node(t, k, m), z)
			self.memo[key] = result
		return self.memo[key]

	def subst(self, label, i, j):
		key = label, i, j
		if key not in self.memo:
			z = self.total[label] + self.adj[label]
			result = []
			for n, (t, w) in enumerate(self.init):
				if t[0] != label:
					continue
				elif not isinstance(t[1], tuple):
					tmp = self.node(t, i, j)
				else:
					tmp = self.combine(t, i, j,
							[lambda k, m, a=a: self.node(a, k, m) for a in t[1:]])
				result += [(a, p * Fraction(w, z), e + (('init', n), ))
						for a, p, e in tmp]
			result += self.site(label, i, j,
					lambda k, m: self.subst(label, k, m), z)
			self.memo[key] = result
		return self.memo[key]

	def derivations(self, start):
		return self.subst(start, 0, len(self.sent))


# --- reduction ---------------------------------------------------------------------------

INIT = [
	# always
	[('(R (S))', 1), ('(S (A) (B))', 2), ('(A (X a))', 3), ('(B (Y b))', 1), ('(X a)', 1),
		('(Y b)', 2), ('(X b)', 1)],
	[('(R (S))', 1), ('(S (A) (A))', 1), ('(A (X))', 1), ('(B (Y))', 2),
		('(X a)', 2), ('(X b)', 1), ('(Y a)', 1), ('(Y b)', 3)],
	]
MOREINIT = ['(S (A (X a)) (B))', '(S (A (X) (Y b)) (B (Y)))',
	'(A (X) (Y))', '(A (B (Y b)) (X))', '(B (A) (Y b))', '(B (A (X a)) (A))',
	'(A (A (X a)) (A))', '(S (S) (A (X b)))']
AUX = ['(A (A *) (X a))', '(A (Y b) (A *))', '(B (B *) (A))',
	'(A (B (A *) (Y b)) (X))', '(S (A (X a)) (S *))', '(A (A *) (A (X a)))',
	'(B (A (B *)) (Y b))', '(A (A (X a)) (B (Y) (A *)))', '(A (A *) (A))',
	'(S (S (S *) (X b)) (X a))']


def gen_reduction(tier):
	maxinit, maxaux, n = (2, 2, 4) if tier == 'quick' else (3, 3, 4)
	for base in range(len(INIT)):
		for i in range(maxinit + 1):
			for more in combinations(range(len(MOREINIT)), i):
				for k in range(maxaux + 1):
					if i + k > (3 if tier == 'quick' else 4):
						continue
					for aux in combinations(range(len(AUX)), k):
						for packed in (False, True):
							yield base, more, aux, packed, n


def strip(t):
	"""Derived tree of a derivation: drop nodes for adjunction, addresses."""
	if not isinstance(t, Tree):
		return t
	while (len(t) == 1 and isinstance(t[0], Tree) and '[' in t[0].label
			and t[0].label.split('[', 1)[1] == t.label + ']'):
		t = t[0]
	return (re.split(r'[@[]', t.label)[0], ) + tuple([strip(a) for a in t])


def plain(t):
	return (re.split(r'[@[]', t.label)[0], ) + tuple([
			plain(a) if isinstance(a, Tree) else a for a in t])


def close(a, b):
	return abs(a - b) <= 1e-9 + 1e-6 * max(abs(a), abs(b))


def load(rules, lexicon, start):
	rfile = scratch.write('rules', rules)
	lfile = scratch.write('lex', lexicon)
	return Grammar(rfile, lfile, start=start)


def check_reduction(case, rec):
	base, more, aux, packed, maxlen = case
	init = INIT[base] + [(MOREINIT[n], 1 + n % 3) for n in more]
	init = [(el(a), b) for a, b in init]
	aux = [(el(AUX[n]), 1 + n % 2) for n in aux]
	start = 'R'
	rec.step()
	rec.state(case)
	rules, lexicon = GR.ostagreduction({show(a): b for a, b in init},
			{show(a): b for a, b in aux}, packed)
	grammar = load(rules, lexicon, start)
	for n in range(1, maxlen + 1):
		for sent in product('ab', repeat=n):
			onesent(grammar, init, aux, start, list(sent), packed, rec)


def onesent(grammar, init, aux, start, sent, packed, rec):
	ref = Reference(init, aux, sent)
	want = defaultdict(list)
	for t, p, e in ref.derivations(start):
		want[t].append((p, tuple(sorted(e))))
	total = sum(map(len, want.values()))
	if total > 2000:
		rec.count('too many derivations')
		return
	chart, _ = pcfg.parse(sent, grammar)
	rec.trace()
	what = '%s with %s + %s%s' % (' '.join(sent), [show(a) for a, _ in init],
			[show(a) for a, _ in aux], ' packed' if packed else '')
	rec.expect('parse of ' + what, bool(chart), bool(want))
	rec.outcome((len(want), total))
	if not want:
		rec.count('no parse')
		return
	disambiguation.getderivations(chart, 3000, True)
	got = Counter()
	for d, _ in chart.derivations:
		got[strip(Tree(d))] += 1
	rec.expect('derived trees of ' + what, sorted(got), sorted(want))
	if not packed:
		rec.expect('number of derivations of ' + what, dict(got),
				{a: len(b) for a, b in want.items()})
	parses, _ = disambiguation.marginalize('mpp', chart, sent=sent, ostag=True)
	rec.expect('parse trees of ' + what, sorted(plain(Tree(a))
			for a, _, _ in parses), sorted(want))
	if any(a > 1 for a in got.values()):
		rec.count('ambiguous')
	for a, p, frags in parses:
		a = plain(Tree(a))
		if not packed:
			x = float(sum(p for p, _ in want[a]))
			if not close(p, x):
				rec.fail('probability of %s for %s: got %r, want %r' % (a, what,
						p, x), 'probability')
		used = sorted(re.sub(r'[@[][^ ()]+', '', f) for f, _ in frags)
		best = max(p for p, _ in want[a])
		opts = [sorted(foots(show((init if x == 'init' else aux)[n][0]))
				for x, n in e) for p, e in want[a] if packed or p == best]
		if used not in opts and not any(unclear(t) for t, _ in aux):
			rec.fail('fragments of %s for %s: got %r, want one of %r' % (
					a, what, used, opts), 'fragments')


def unclear(t):
	"""Another node before the foot may have the same label and address."""
	return any(b[1] == FOOT and any(c[0] == b[0] for c in a[1:n])
			for _, a in paths(t) if isinstance(a[1], tuple)
			for n, b in enumerate(a[1:], 1))


def foots(a):
	return a.replace('=*', '=')


# --- from a treebank -----------------------------------------------------------------

FAMILIES = {
	# words, unary nodes, labels, tags
	'two': (2, 2, 'AB', 'X'),
	'three': (3, 1, 'AB', 'X'),
	'tags': (3, 0, 'AB', 'XY'),
	'four': (4, 0, 'A', 'X'),
	'five': (5, 0, 'A', 'X'),
	'five2': (5, 0, 'AB', 'X'),
	'three2': (3, 2, 'AB', 'XY'),
	}
WORDS = (('a b c d e', 'a b c d e'), ('a a a a a', 'a a a a a'),
		('a b a b a', 'b b a a b'), ('a b c d e', 'd b c b a'))
CACHE = {}


def family(name):
	if name not in CACHE:
		n, unary, labels, tags = FAMILIES[name]
		CACHE[name] = [t for t in gen.sentencetrees(n, False, unary, labels,
				'ROOT', list(tags)) if all(len(a) < 4 for a in gen.nodes(t))]
	return CACHE[name]


def gen_treebanks(tier):
	for name in FAMILIES:
		num = len(family(name))
		limit = 2000 if tier == 'quick' else 30000
		pairs = [(i, j) for i in range(num) for j in range(i, num)]
		step = max(1, len(pairs) // limit)
		while step > 1 and num % step == 0:
			step += 1
		for n, (i, j) in enumerate(pairs[::step]):
			unary = {(a[0], a[1][0]) for k in (i, j)
					for _, a in paths(family(name)[k])
					if len(a) == 2 and isinstance(a[1], tuple)}
			if any(a == b or (b, a) in unary for a, b in unary):
				continue  # infinitely many derivations
			for ws in range(len(WORDS)):
				yield name, i, j, ws, n % 2 == 0, (10, 5, 20)[n % 3]


def check_treebanks(case, rec):
	name, i, j, ws, packed, maxnodes = case
	rec.step()
	rec.state(case)
	tuples = [family(name)[i], family(name)[j]]
	n = FAMILIES[name][0]
	sents = [a.split()[:n] for a in WORDS[ws]]
	trees = [addbitsets(gen.build(Tree, t)) for t in tuples]
	rules, lexicon, gotinit, gotaux = GR.doubleostagfromtsg(trees, sents,
			numproc=1, packedgraph=packed, maxnodes=maxnodes)
	fragments = [(el(re.sub(' [0-9]+=', ' ', a)), b) for a, b in
			recurringfragments(trees, sents, 1, disc=True, indices=False,
			maxdepth=0).items()]
	restricted = []
	for t, w in fragments:
		size = sum(1 for _ in paths(t))
		if size <= maxnodes and (size <= 3 or any(words(t))):
			restricted.append((t, w))
	init, aux = induced(restricted)
	init = {a: b for a, b in init.items() if re.search('=[a-e][)]', a)}
	aux = {a: b for a, b in aux.items() if re.search('=[a-e][)]', a)}
	prods = Counter()
	for t, sent in zip(tuples, sents):
		for _, a in paths(t):
			prods[show((a[0], sent[a[1]]) if not isinstance(a[1], tuple) else
					(a[0], ) + tuple([(b[0], None) for b in a[1:]]))] += 1
	init.update((a, {b}) for a, b in prods.items())
	what = ' '.join([show(dress(t, s)) for t, s in zip(tuples, sents)])
	rec.expect('initial trees of ' + what, sorted(gotinit), sorted(init))
	rec.expect('auxiliary trees of ' + what, sorted(gotaux), sorted(aux))
	for a in init:
		rec.expect('weight of %s is one of %r' % (a, init[a]),
				gotinit[a] in init[a], True)
	for a in aux:
		rec.expect('weight of %s is one of %r' % (a, aux[a]),
				gotaux[a] in aux[a], True)
	rec.outcome((len(init), len(aux)))
	grammar = load(rules, lexicon, 'ROOT')
	init = [(unshow(a), b) for a, b in gotinit.items()]
	aux = [(unshow(a), b) for a, b in gotaux.items()]
	for t, sent in zip(tuples, sents):
		rec.expect('training tree %r can be derived' % (t, ), any(a == t
				for a, _, _ in Reference(init, aux, sent).derivations('ROOT')),
				True)
		onesent(grammar, init, aux, 'ROOT', sent, packed, rec)


def unshow(a):
	return el(re.sub(' [0-9]+=', ' ', a))


def dress(t, sent):
	if not isinstance(t[1], tuple):
		return (t[0], sent[t[1]])
	return (t[0], ) + tuple([dress(a, sent) for a in t[1:]])


SPACES = [
	core.Space('induction', gen_induction, check_induction, {
		'quick': 'continuous trees of up to 4 words (some with unary nodes), '
		'leaves: words or substitution sites; pairs of trees of 2 words',
		'thorough': 'same, more labels'}),
	core.Space('reduction', gen_reduction, check_reduction, {
		'quick': '2 grammars with up to 2 initial trees (of 8) and 2 auxiliary '
		'trees (of 10), up to 3 in total; all sentences of up to 4 words',
		'thorough': 'up to 3 of each, up to 4 in total'}),
	core.Space('treebanks', gen_treebanks, check_treebanks, {
		'quick': 'treebanks of 2 trees with up to 5 words, 7 families, at most '
		'2000 pairs of trees each; 4 pairs of sentences',
		'thorough': 'at most 30000 pairs of trees of each family'}),
	]
ASSUMPTIONS = ['C20, C24 (parsing with a grammar); C27 (recurring fragments)']
if __name__ == '__main__':
	sys.exit(core.main('C37', SPACES, ASSUMPTIONS))
