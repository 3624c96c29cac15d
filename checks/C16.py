"""C16: fragments survive the conversion to grammar rules and back."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, defaultdict
from fractions import Fraction
from vlib import build, core, gen, dop
build.activate(None)
from discodop.tree import Tree, ParentedTree  # noqa: E402
from discodop.grammar import (dopgrammar, compiletsg, flatten,  # noqa: E402
		UniqueIDs)

WORDS = (['a', 'b', 'c', 'd', 'e', 'f'], ['b', '(', 'x=y', 'b', ')', 'a'],
		['a', 'a', '@', '}<0>', '=', '1='])
FAMILIES = {
	# words, labels, tags, discontinuous, unary nodes
	'flat': (2, 'AB', 'XY', False, 1),
	'chain': (2, 'AB', 'XY', False, 2),
	'same': (3, 'A', 'A', True, 0),
	'three': (3, 'AB', 'XY', True, 0),
	'unary': (3, 'A', 'X', True, 1),
	'four': (4, 'A', 'X', True, 0),
	'five': (5, 'A', 'X', True, 0),
	'six': (6, 'A', 'X', True, 0),
}
CACHE = {}


def fanout(t):
	"""Mark the number of components of discontinuous phrases."""
	if not isinstance(t, tuple):
		return t
	n = gen.comps(gen.leaves(t))
	return (t[0] if n == 1 else '%s_%d' % (t[0], n), ) + tuple(
			map(fanout, t[1:]))


def family(name):
	if name not in CACHE:
		n, labels, tags, disc, unary = FAMILIES[name]
		CACHE[name] = [fanout(t) for t in gen.sentencetrees(n, disc, unary,
				labels, 'A' if name == 'same' else 'S', list(tags))]
		if name == 'six':  # binarized trees
			CACHE[name] = [t for t in CACHE[name]
					if all(len(a) < 4 for a in gen.nodes(t))]
	return CACHE[name]


def expand(label, yf, rhs, rules):
	"""Undo the binarization: list of children, components of the yield."""
	children = []

	def rec(nts, yf):
		parts = []
		for n, a in enumerate(nts[1:]):
			if '}<' in a.split('@')[0]:
				(nts1, yf1), = rules[a]
				parts.append(rec(nts1, yf1))
			else:
				me = len(children)
				children.append(a)
				fan = sum(x == n for arg in yf for x in arg)
				parts.append([[(me, i)] for i in range(fan)])
		result = [[x for n in arg for x in parts[n].pop(0)] for arg in yf]
		if any(parts):
			raise ValueError('components left')
		return result
	comps = rec((label, ) + rhs, yf)
	return children, comps


def reference(f):
	"""String, children in order, components of the yield, template."""
	text, pos, words, comp = dop.show(f)
	order = sorted(pos, key=lambda path: pos[path][0])
	rank = {path: n for n, path in enumerate(order)}
	labels = {}

	def rec(a, lab, path):
		if a is None:
			labels[path] = lab
		elif a[0][0][1] == 'Epsilon':
			labels[path] = '%s@%s' % (lab, words[path])
		else:
			return '(%s %s)' % (lab, ' '.join(rec(b, c, path + (n, ))
				for n, (b, c) in enumerate(zip(a[1], a[0][0][1:]))))
		return '{%d}' % rank[path]
	template = rec(f, dop.label(f), ())
	return (text, [labels[path] for path in order],
			[[(rank[path], n) for path, n in c] for c in comp], template)


def gen_flatten(tier):
	for name in FAMILIES:
		if name == 'six' and tier == 'quick':
			continue
		for i in range(len(family(name))):
			if name == 'five' and tier == 'quick' and i % 8:
				continue
			yield (name, i)


def flattening(case, rec):
	name, i = case
	t = family(name)[i]
	n = FAMILIES[name][0]
	for sent in WORDS:
		ids = UniqueIDs()
		used = {}
		d = dop.derivation(t, sent[:n])
		for a in dop.subderivations(d):
			for f, _ in dop.matches(a):
				flatten1(f, ids, used, rec)
	rec.state(t)
	rec.trace()


def flatten1(f, ids, used, rec):
	text, labels, comps, template = reference(f)
	prods, newfrag = flatten(text, ids)
	rec.step()
	first = prods[0]
	rec.expect('lhs of ' + text, first[0][0], dop.label(f))
	if first[0][1] == 'Epsilon':
		rec.expect('lexical ' + text, prods, [f[0]])
		rec.expect('lexical ' + text, newfrag.rsplit(' ', 1)[0],
				'(' + dop.label(f))
		return
	rec.expect('template of ' + text, newfrag, template)
	rules = defaultdict(list)
	for rule in prods[1:]:
		rules[rule[0][0]].append(rule)
	children, got = expand(first[0][0], first[1], first[0][1:], rules)
	rec.expect('children of ' + text, children, labels)
	rec.expect('yield of ' + text, got, comps)
	rec.expect('binary ' + text, max(len(a[0]) for a in prods) <= 3, True)
	for a in prods[1:]:
		if a[0][1] != 'Epsilon':
			rec.expect('marked label ' + text, '}<' in a[0][0], True)
		# labels may be shared by fragments if they have the same meaning
		rec.expect('rule for ' + a[0][0], used.setdefault(a[0][0], a), a)
	rec.expect('first rule of ' + text, used.setdefault(first, text), text)
	lexical = sorted({a for a in prods[1:] if a[0][1] == 'Epsilon'})
	rec.expect('words of ' + text, lexical, sorted({((a, 'Epsilon'),
			(a[a.index('@') + 1:], )) for a in labels if '@' in a}))


# --- complete grammars -------------------------------------------------------
def gen_grammar(tier):
	names = ('flat', 'same', 'three', 'unary', 'four')
	for name in names + (() if tier == 'quick' else ('chain', )):
		for i in range(len(family(name))):
			yield (name, i)


def grammar(case, rec):
	name, i = case
	trees = family(name)
	n = FAMILIES[name][0]
	for j, second in enumerate(trees):
		if name == 'three' and (i + j) % 5:
			continue
		for depth in (1, 2, 9):
			for extra in (None, {(('X', 'Epsilon'), ('a', )): 3,
					(('Y', 'Epsilon'), ('zz', )): .5}):
				if extra and (depth > 1 or j % 2):
					continue
				grammar1([trees[i], second, trees[i]],
						[a[:n] for a in WORDS], depth, extra, rec)
		rec.state((trees[i], second))
	rec.trace()


def lhsorder(rule):
	(nts, yf), _ = rule
	if nts[1] == 'Epsilon':
		return yf[0], '}<' in nts[0], nts[0]
	return '', '}<' in nts[0], nts[0]


def grammar1(trees, sents, depth, extra, rec):
	occ = defaultdict(list)
	for k, (t, s) in enumerate(zip(trees, sents)):
		for a in dop.subderivations(dop.derivation(t, s)):
			for f, _ in dop.matches(a):
				if dop.depth(f) <= depth:
					occ[f].append(k)
	refs = {f: reference(f) for f in occ}
	fragments = {refs[f][0]: occ[f] for f in occ}
	if len(fragments) != len(occ):
		rec.fail('ambiguous notation')
		return
	bytext = {refs[f][0]: f for f in occ}
	objs = [gen.build(ParentedTree, t) for t in trees]
	rules, backtransform, alt, newfragments = dopgrammar(objs, fragments,
			extrarules=extra)
	rec.step()
	what = ' of %s depth %d' % (' '.join(map(gen.show, trees)), depth)
	rec.expect('distinct rules' + what, len({a for a, _ in rules}), len(rules))
	rec.expect('order' + what, [lhsorder(a) for a in rules],
			sorted(lhsorder(a) for a in rules))
	phrasal = [f for f in occ if f[0][0][1] != 'Epsilon']
	rec.expect('templates' + what, len(backtransform), len(phrasal))
	rec.expect('fragments' + what, sorted(a for a, _ in newfragments),
			sorted(refs[f][0] for f in phrasal))
	rec.expect('models' + what, sorted(alt), ['bon', 'ewe', 'shortest'])
	bylhs = defaultdict(list)
	for rule, _ in rules:
		if '}<' in rule[0][0].split('@')[0]:
			bylhs[rule[0][0]].append(rule)
	percount = Counter(k for occs in occ.values() for k in occs)
	nodes = Counter(a[0] for t in trees for a in gen.nodes(t))
	ewe, want = {}, {}
	for f, ks in occ.items():
		ewe[f] = sum(Fraction(1, percount[k]) for k in ks)
	ewesum = Counter()
	for f, w in ewe.items():
		ewesum[dop.label(f)] += w
	for rule, w in (extra or {}).items():
		ewesum[rule[0][0]] += Fraction(w)
	seen = set()
	for k, (rule, w) in enumerate(rules):
		f = None
		if k < len(backtransform):
			text, ks = newfragments[k]
			f = bytext[text]
			_, labels, comps, template = refs[f]
			rec.expect('template' + what, backtransform[k], template)
			rec.expect('label' + what, rule[0][0], dop.label(f))
			children, got = expand(rule[0][0], rule[1], rule[0][1:], bylhs)
			rec.expect('children' + what, children, labels)
			rec.expect('yield' + what, got, comps)
			rec.expect('occurrences' + what, ks, occ[f])
		elif rule[0][1] == 'Epsilon' and '@' not in rule[0][0]:
			f = (rule, ())
			if f not in occ:
				rec.expect('extra rule' + what, rule in (extra or {}), True)
				rec.expect('weight of extra rule' + what, w, extra[rule])
				continue
		if f is None:
			rec.expect('weight of other rule' + what, w, 1)
			rec.expect('shortest' + what, alt['shortest'][k], 1)
			rec.expect('ewe' + what, alt['ewe'][k], 1)
			continue
		seen.add(f)
		plus = (extra or {}).get(rule, 0) if k >= len(backtransform) else 0
		rec.expect('frequency' + what, w, len(occ[f]) + plus)
		rec.expect('shortest' + what, alt['shortest'][k], .5)
		close(rec, 'ewe' + what, alt['ewe'][k],
				float((ewe[f] + Fraction(plus)) / ewesum[dop.label(f)]))
		if not plus:
			close(rec, 'bon' + what, alt['bon'][k], len(occ[f])
					/ nodes[dop.label(f)] / 2 ** (refs[f][0].count('(') - 1))
	rec.expect('all fragments' + what, len(seen), len(occ))
	# fixed weights
	weights = {text: n / 4 for n, text in enumerate(sorted(fragments), 1)}
	rules, backtransform, alt = compiletsg(weights)
	rec.expect('models' + what, alt, {})
	rec.expect('order' + what, [lhsorder(a) for a in rules],
			sorted(lhsorder(a) for a in rules))
	rec.expect('templates' + what, len(backtransform), len(phrasal))
	bylhs = defaultdict(list)
	for rule, _ in rules:
		if '}<' in rule[0][0].split('@')[0]:
			bylhs[rule[0][0]].append(rule)
	got = []
	for k, (rule, w) in enumerate(rules):
		if k < len(backtransform):
			children, comps = expand(rule[0][0], rule[1], rule[0][1:], bylhs)
			got.append((rule[0][0], children, comps, backtransform[k], w))
		elif rule[0][1] == 'Epsilon' and '@' not in rule[0][0]:
			rec.expect('weight of word' + what, w,
					weights[refs[rule, ()][0]])
		else:
			rec.expect('weight of other rule' + what, w, 1)
	rec.expect('weighted fragments' + what, sorted(got), sorted(
			(dop.label(f), ) + refs[f][1:] + (weights[refs[f][0]], )
			for f in phrasal))


def close(rec, what, got, want):
	if abs(got - want) > 1e-9 * abs(want):
		rec.expect(what, got, want)


SPACES = [
	core.Space('flatten', gen_flatten, flattening, {
		'quick': 'all fragments of all trees over <=5 words, discontinuous, '
		' with unary nodes, 3 sentences',
		'thorough': 'also binary trees over 6 words'}),
	core.Space('grammar', gen_grammar, grammar, {
		'quick': 'all treebanks of a pair of trees from 5 families with all '
		'fragments of depth 1, 2, or any',
		'thorough': '6 families'}),
	]
ASSUMPTIONS = [
	'Fragments are enumerated by brute force, and written in the notation that '
	'the fragment extractor produces.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C16', SPACES, ASSUMPTIONS))
