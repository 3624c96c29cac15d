"""Reference for tree fragments, by brute force.

A derivation is a nested tuple (production, (kid, ...)); a fragment is the same
with None in place of kids that are cut off."""
from collections import Counter
from fractions import Fraction
from itertools import product, groupby, islice
from . import gen


def escaped(word):
	return word.replace('(', '#LRB#').replace(')', '#RRB#')


def yieldfunction(parts):
	"""parts: sets of positions."""
	owner = {i: n for n, a in enumerate(parts) for i in a}
	yf = []
	for i in sorted(owner):
		if i - 1 not in owner:
			yf.append([])
		yf[-1].append(owner[i])
	return tuple(tuple(x for x, _ in groupby(a)) for a in yf)


def derivation(t, sent):
	if not isinstance(t[1], tuple):
		return (((t[0], 'Epsilon'), (escaped(sent[t[1]]), )), ())
	return (((t[0], ) + tuple(a[0] for a in t[1:]),
			yieldfunction([gen.leaves(a) for a in t[1:]])),
			tuple(derivation(a, sent) for a in t[1:]))


def subderivations(d):
	yield d
	for a in d[1]:
		for b in subderivations(a):
			yield b


def label(d):
	return d[0][0][0]


def matches(d):
	"""All fragments at the root of d, each with what is cut off."""
	opts = []
	for a in d[1]:
		opts.append([(None, (a, ))] + list(matches(a)))
	for combo in product(*opts):
		yield ((d[0], tuple(a for a, _ in combo)),
				tuple(x for _, rest in combo for x in rest))


def allfragments(ds):
	"""Number of occurrences of all fragments."""
	result = Counter()
	for d in ds:
		for a in subderivations(d):
			result.update(f for f, _ in matches(a))
	return result


def relfreq(counts):
	total = Counter()
	for f, n in counts.items():
		total[label(f)] += n
	return {f: Fraction(n) / Fraction(total[label(f)])
			for f, n in counts.items()}


def prob(d, weights, memo=None):
	"""Sum of probabilities of all ways to make d from fragments."""
	memo = {} if memo is None else memo
	if d not in memo:
		p = 0
		for f, rest in matches(d):
			w = weights.get(f, 0)
			for a in rest:
				if not w:
					break
				w *= prob(a, weights, memo)
			p += w
		memo[d] = p
	return memo[d]


def shortest(d, weights, memo=None):
	"""Least number of fragments from which d can be made."""
	memo = {} if memo is None else memo
	if d not in memo:
		memo[d] = min((1 + sum(shortest(a, weights, memo) for a in rest)
				for f, rest in matches(d) if f in weights),
				default=10 ** 6)
	return memo[d]


def derivable(ds, start, depth, limit=20):
	"""Derivations with the productions of ds up to some depth; the first few
	of each subtree."""
	bylhs = {}
	for d in ds:
		for a in subderivations(d):
			bylhs.setdefault(a[0][0][0], {})[a[0]] = None

	def rec(lhs, depth):
		for rule in bylhs.get(lhs, ()):
			if rule[0][1] == 'Epsilon':
				yield (rule, ())
			elif depth:
				for kids in product(*[list(islice(rec(a, depth - 1), limit))
						for a in rule[0][1:]]):
					yield (rule, kids)
	return rec(start, depth)


def depth(f):
	return 1 + max([depth(a) for a in f[1] if a is not None], default=0)


def spans(f):
	"""Number of components of a (sub)fragment."""
	return 1 if f[0][0][1] == 'Epsilon' else len(f[0][1])


def show(f):
	"""Fragment in discontinuous bracket notation with normal indices."""
	order, words, labels = [], {}, {}

	def rec(a, path):
		"""The components of the yield as lists of (path, component)."""
		if a[0][0][1] == 'Epsilon':
			words[path] = a[0][1][0]
			return [[(path, 0)]]
		parts = []
		fan = Counter(x for arg in a[0][1] for x in arg)
		for n, kid in enumerate(a[1]):
			if kid is None:
				parts.append([[(path + (n, ), i)] for i in range(fan[n])])
			else:
				parts.append(rec(kid, path + (n, )))
		return [[x for n in arg for x in parts[n].pop(0)] for arg in a[0][1]]
	comp = rec(f, ())
	pos, n = {}, 0
	for c in comp:
		for path, _ in c:
			pos.setdefault(path, []).append(n)
			n += 1
		n += 1

	def text(a, lab, path):
		if a is None:
			return '(%s %s)' % (lab, ' '.join('%d=' % i for i in pos[path]))
		if a[0][0][1] == 'Epsilon':
			return '(%s %d=%s)' % (lab, pos[path][0], words[path])
		return '(%s %s)' % (lab, ' '.join(text(b, c, path + (n, ))
				for n, (b, c) in enumerate(zip(a[1], a[0][0][1:]))))
	return text(f, label(f), ()), pos, words, comp
