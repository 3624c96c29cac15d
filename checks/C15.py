"""C15: the DOP reduction gives every tree the probability of the DOP model."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import build, core, gen, dop
build.activate(None)
from discodop.tree import Tree, ParentedTree  # noqa: E402
from discodop.grammar import (dopreduction, nodefreq,  # noqa: E402
		TreeDecorator, lcfrsproductions)

WORDS = (['a', 'b', 'c', 'd'], ['b', 'a', '(', 'a'], ['a', 'a', 'b', 'c'])
FAMILIES = {
	# words, labels, tags, discontinuous, unary nodes
	'flat': (2, 'AB', 'XY', False, 1),
	'same': (3, 'A', 'A', True, 0),
	'three': (3, 'AB', 'X', True, 0),
	'tags': (3, 'A', 'XY', True, 0),
	'four': (4, 'A', 'X', True, 0),
	'wide': (5, 'A', 'X', True, 0),
	'unary': (3, 'A', 'X', True, 1),
	'binary': (4, 'AB', 'X', True, 0),
}


def family(name):
	n, labels, tags, disc, unary = FAMILIES[name]
	result = [t for root in (('S', 'A') if name == 'same' else 'S')
			for t in gen.sentencetrees(n, disc, unary, labels, root,
				list(tags))]
	if name == 'binary':
		result = [t for t in result if all(len(a) < 4 for a in gen.nodes(t))]
	if name == 'wide':  # phrases with the same parts, differently combined
		result = [t for t in result if len(list(gen.nodes(t))) == 8
				and any(len(a) == 3 and gen.comps(gen.leaves(a)) == 2
					and gen.isdisc(a[1]) for a in gen.nodes(t))]
		result = result[::3]
	return list(map(fanout, result))


def fanout(t):
	"""Mark the number of components of discontinuous phrases."""
	if not isinstance(t, tuple):
		return t
	n = gen.comps(gen.leaves(t))
	return (t[0] if n == 1 else '%s_%d' % (t[0], n), ) + tuple(
			map(fanout, t[1:]))


def base(lab):
	return re.sub(r'@\d+-\d+$', '', lab)


class Reduction(object):
	"""Probabilities of trees with addressed labels summed out."""

	def __init__(self, rules, weights):
		self.rules = {}
		for ((nts, yf), _), w in zip(rules, weights):
			key = (tuple(base(a) if a != 'Epsilon' else a for a in nts), yf)
			self.rules.setdefault(key, []).append((nts, w))

	def inside(self, d, memo, best=False):
		if d not in memo:
			result = {}
			for nts, w in self.rules.get(d[0], ()):
				for a, kid in zip(nts[1:], d[1]):
					w *= self.inside(kid, memo, best).get(a, 0)
				if w:
					result[nts[0]] = (max(result.get(nts[0], 0), w) if best
							else result.get(nts[0], 0) + w)
			memo[d] = result
		return memo[d]


def gen_bank(tier):
	for name in FAMILIES:
		if name == 'binary' and tier == 'quick':
			continue
		for i in range(len(family(name))):
			yield (name, i)


def bank(case, rec):
	name, i = case
	trees = family(name)
	n = FAMILIES[name][0]
	for j, second in enumerate(trees):
		if name == 'four' and (i + j) % 3:
			continue
		if name == 'wide':
			bank1([trees[i], second], [['a'] * n, ['a'] * n], None, rec)
			continue
		bank1([trees[i], second], [WORDS[0][:n], WORDS[(i + j) % 3][:n]],
				None, rec)
		if (i + j) % 5 == 0:
			bank1([trees[i], second, trees[i]],
					[a[:n] for a in WORDS], {(('X', 'Epsilon'), ('a', )): 3,
					(('Y', 'Epsilon'), ('zz', )): 1}, rec)
	rec.trace()


def bank1(trees, sents, extra, rec):
	what = ' of ' + ' '.join(map(gen.show, trees))
	ds = [dop.derivation(t, s) for t, s in zip(trees, sents)]
	tags = {a[0] for t in trees for a in gen.nodes(t)}
	extra = extra and {a: b for a, b in extra.items() if a[0][0] in tags}
	counts = dop.allfragments(ds)
	for rule, n in (extra or {}).items():
		counts[rule, ()] += n
	rf = {a: float(b) for a, b in dop.relfreq(counts).items()}
	tests = {}
	for d in ds:
		for a in dop.derivable(ds, dop.label(d), 3):
			if len(list(dop.subderivations(a))) <= 11:
				tests[a] = None
			if len(tests) > 40:
				break
	objs = [gen.build(ParentedTree if len(trees) > 2 else Tree, t)
			for t in trees]
	nodes = Counter(a[0] for t in trees for a in gen.nodes(t))
	for packed in (False, True):
		rules, alt = dopreduction(objs, sents, packedgraph=packed,
				extrarules=extra)
		rec.step()
		rec.expect('distinct rules' + what, len({a for a, _ in rules}),
				len(rules))
		total = Counter()
		for (nts, _), w in rules:
			total[nts[0]] += w
		red = Reduction(rules, [float(w) / float(total[nts[0]])
				for (nts, _), w in rules])
		short = Reduction(rules, list(alt['shortest']))
		memo, memo1, memo2, memo3 = {}, {}, {}, {}
		for d in tests:
			got = red.inside(d, memo).get(dop.label(d), 0)
			same(rec, 'probability of %r%s, packed=%r' % (d, what, packed),
					got, dop.prob(d, rf, memo1))
			if extra is None:
				rec.expect('fewest fragments for %r%s' % (d, what),
						short.inside(d, memo2, True).get(dop.label(d), 0),
						.5 ** dop.shortest(d, rf, memo3))
			rec.step()
			rec.outcome('%.6g' % got)
		# the weight of each single fragment, for each of the models
		if not packed and extra is None:
			single(rules, red, counts, rf, rec, what)
		names = sorted(alt)
		rec.expect('models', names, ['bon', 'ewe', 'shortest'])
		rec.expect('length', {len(alt[a]) for a in alt}, {len(rules)})
		rec.expect('order', [kind(a) for a in rules],
				sorted(kind(a) for a in rules))
		ewe = Reduction(rules, list(alt['ewe']))
		for f in counts if not packed else ():
			same(rec, 'equal weights' + what, fragweight(ewe, f),
					rf[f] / nodes[dop.label(f)])
	rec.state(sorted(map(repr, counts.items())))
	rec.expect('unchanged', [gen.totuple(a) for a in objs], list(trees))


def same(rec, what, got, want):
	if abs(got - want) > 1e-9 * abs(want):
		rec.expect(what, got, want)


def kind(rule):
	(nts, yf), _ = rule
	return (yf[0] if nts[1] == 'Epsilon' else '', nts[0])


def fragweight(red, f):
	"""Weight of a fragment: inner nodes addressed, frontiers not."""
	def rec(f):
		result = {}
		for nts, w in red.rules.get(f[0], ()):
			for a, kid in zip(nts[1:], f[1]):
				if kid is None:
					w *= '@' not in a
				elif '@' not in a:
					w = 0
				else:
					w *= rec(kid).get(a, 0)
			if w:
				result[nts[0]] = result.get(nts[0], 0) + w
		return result
	return rec(f).get(dop.label(f), 0)


def single(rules, red, counts, rf, rec, what):
	for f in counts:
		same(rec, 'probability of fragment %r%s' % (f, what),
				fragweight(red, f), rf[f])


# --- addresses --------------------------------------------------------------
def gen_decorate(tier):
	for name in ('flat', 'same', 'three') + (
			() if tier == 'quick' else ('unary', 'four')):
		for i in range(len(family(name))):
			yield (name, i)


def decorate(case, rec):
	name, i = case
	trees = family(name)
	n = FAMILIES[name][0]
	for second in trees:
		for packed in (False, True):
			dec = TreeDecorator(memoize=packed)
			fd, ntfd = Counter(), Counter()
			seen, back = {}, {}
			for k, t in enumerate((trees[i], second, trees[i])):
				sent = WORDS[k][:n]
				obj = gen.build(Tree, t)
				new = dec.decorate(obj, sent)
				rec.step()
				rec.expect('unchanged', gen.totuple(obj), t)
				new1 = gen.totuple(new)
				rec.expect('labels', strip(new1), t)
				rec.expect('root', new1[0], t[0])
				pairs = list(zip(gen.nodes(new1), gen.nodes(t)))[1:]
				for a, b in pairs:
					rec.expect('addressed', '@' in a[0], True)
					d = dop.derivation(b, sent)
					if packed:  # same address iff same subtree
						rec.expect('same subtree', seen.setdefault(a[0], d), d)
						rec.expect('same address', back.setdefault(d, a[0]),
								a[0])
					else:
						rec.expect('unique', a[0] in seen, False)
						seen[a[0]] = d
				num = nodefreq(obj, new, fd, ntfd)
				d = dop.derivation(t, sent)
				rec.expect('number of fragments', num,
						len(list(dop.matches(d))))
			for a, d in seen.items():
				rec.expect('fragments of %s' % a, fd[a],
						len(list(dop.matches(d))))
		rec.state((trees[i], second))
	rec.trace()


def strip(t):
	if not isinstance(t, tuple):
		return t
	return (base(t[0]), ) + tuple(map(strip, t[1:]))


SPACES = [
	core.Space('reduction', gen_bank, bank, {
		'quick': 'all pairs of trees from 7 families (<=5 words, discontinuous, '
		'recursive labels), some triples with extra rules; up to 40 trees of '
		'depth 3, and all fragments, for each; 2 encodings',
		'thorough': '8 families'}),
	core.Space('addresses', gen_decorate, decorate, {
		'quick': 'all pairs of trees from 3 families',
		'thorough': '5 families'}),
	]
ASSUMPTIONS = [
	'The reference enumerates all fragments of a treebank and all derivations '
	'of a tree with them.',
	'The equal weights estimate is compared with the relative frequency divided '
	'by the number of nodes with the label, as documented in the code.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C15', SPACES, ASSUMPTIONS))
