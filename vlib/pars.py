"""Reference for parsing: all derivations of a sentence, by brute force.

A rule is ``(lhs, rhs, yf)``: ``rhs`` is a tuple of one or two labels, ``yf`` a
string such as ``'01,0'``.  A grammar here is a list of ``(rule, weight)`` and
a list of ``((tag, word), weight)``; a span is a frozenset of positions, and a
derivation a string in bracket notation with the positions of the words."""
from fractions import Fraction
from math import log


_RUNS = {}


def runs(span):
	"""Maximal intervals of a set of positions."""
	if span in _RUNS:
		return _RUNS[span]
	result = []
	for a in sorted(span):
		if result and result[-1][1] == a:
			result[-1][1] = a + 1
		else:
			result.append([a, a + 1])
	if len(_RUNS) > 200000:
		_RUNS.clear()
	_RUNS[span] = tuple(map(tuple, result))
	return _RUNS[span]


def concat(yf, left, right=None):
	"""The span that a rule makes of the spans of its children, or None."""
	if right is not None and not left.isdisjoint(right):
		return None
	parts = [list(runs(left)), list(runs(right)) if right is not None else []]
	if [yf.count('0'), yf.count('1')] != list(map(len, parts)):
		return None
	end = -1
	for comp in yf.split(','):
		for n, a in enumerate(comp):
			start, stop = parts[int(a)].pop(0)
			if start <= end if n == 0 else start != end:
				return None
			end = stop
	return left | right if right is not None else left


class Ref(object):
	"""Relative frequencies of a list of rules; duplicates add up."""

	def __init__(self, rules, lexicon, start='S'):
		self.start = start
		self.rules, self.lexicon, self.mass = {}, {}, {}
		for r, w in rules:
			w = Fraction(w)
			self.rules[r] = self.rules.get(r, 0) + w
			self.mass[r[0]] = self.mass.get(r[0], 0) + w
		for r, w in lexicon:
			w = Fraction(w)
			self.lexicon[r] = self.lexicon.get(r, 0) + w
			self.mass[r[0]] = self.mass.get(r[0], 0) + w
		self.fanout = {r[0]: r[2].count(',') + 1 for r in self.rules}
		for tag, _ in self.lexicon:
			self.fanout.setdefault(tag, 1)

	def prob(self, r):
		return self.rules[r] / self.mass[r[0]]

	def lexprob(self, r):
		return self.lexicon[r] / self.mass[r[0]]

	def words(self):
		return sorted({w for _, w in self.lexicon})


def items(ref, sent, tags=None, allowed=None, prob=None, lexprob=None):
	"""Fixpoint of all items; returns {item: [(rule or None, children)]}.

	:param tags: optional list of sets of tags; gives these probability 1 if
		no matching tag is found in the lexicon.
	:param allowed: optional predicate on (label, span)."""
	lexprob = lexprob or ref.lexprob
	prob = prob or ref.prob
	chart, agenda, bylabel = {}, [], {}
	unary, left, right = {}, {}, {}
	for r in sorted(ref.rules):
		if len(r[1]) == 1:
			unary.setdefault(r[1][0], []).append(r)
		else:
			left.setdefault(r[1][0], []).append(r)
			right.setdefault(r[1][1], []).append(r)

	def add(item, edge):
		if item not in chart:
			chart[item] = []
			agenda.append(item)
		chart[item].append(edge)

	def apply(r, a, b=None):
		span = concat(r[2], a, b)
		if span is not None and (allowed is None or allowed(r[0], span)):
			add((r[0], span), (prob(r), r, ((r[1][0], a), ) + (
					((r[1][1], b), ) if b is not None else ())))

	for n, word in enumerate(sent):
		span = frozenset([n])
		for (tag, w) in sorted(ref.lexicon):
			if w == word and (allowed is None or allowed(tag, span)):
				add((tag, span), (lexprob((tag, w)), None, (n, )))
	while agenda:  # every item is combined once with those before it
		lab, span = agenda.pop()
		bylabel.setdefault(lab, []).append(span)
		for r in unary.get(lab, ()):
			apply(r, span)
		for r in left.get(lab, ()):
			for b in list(bylabel.get(r[1][1], ())):
				apply(r, span, b)
		for r in right.get(lab, ()):
			for a in list(bylabel.get(r[1][0], ())):
				apply(r, a, span)
	return chart


def cyclic(chart):
	"""Whether some item is part of its own derivation."""
	state = {}

	def visit(item):
		if state.get(item) == 1:
			return True
		elif state.get(item) == 2:
			return False
		state[item] = 1
		for _, r, kids in chart.get(item, ()):
			if r is not None and any(visit(a) for a in kids):
				return True
		state[item] = 2
		return False

	return any(visit(item) for item in chart)


def derivations(chart, root, limit=10 ** 6):
	"""{derivation: probability} for an acyclic chart."""
	memo = {}

	def visit(item):
		if item in memo:
			return memo[item]
		result = {}
		for p, r, kids in chart.get(item, ()):
			if r is None:
				result['(%s %d)' % (item[0], kids[0])] = p
				continue
			parts = [('(%s' % item[0], p)]
			for a in kids:
				parts = [(x + ' ' + y, q * z) for x, q in parts
						for y, z in visit(a).items()]
			for x, q in parts:
				result[x + ')'] = q
			assert len(result) <= limit
		memo[item] = result
		return result

	return visit(root)


def topk(chart, root, k):
	"""[(probability, derivation)] of the k best; cycles are allowed, provided
	that they lose probability."""
	best = {item: [] for item in chart}
	while True:
		changed = False
		for item in chart:
			cand = {}
			for p, r, kids in chart[item]:
				if r is None:
					cand['(%s %d)' % (item[0], kids[0])] = p
					continue
				parts = [('(%s' % item[0], p)]
				for a in kids:
					parts = [(x + ' ' + y, q * z) for x, q in parts
							for z, y in best[a]]
				for x, q in parts:
					cand[x + ')'] = q
			new = sorted(((q, x) for x, q in cand.items()),
					key=lambda a: (-a[0], a[1]))[:k]
			# keep everything tied with the last one
			if new != best[item]:
				best[item] = new
				changed = True
		if not changed:
			return best.get(root, [])


def rulestext(rules, bitpar=False):
	"""The text format of a list of rules."""
	result = []
	for (lhs, rhs, yf), w in rules:
		if bitpar:
			result.append('%s\t%s\n' % (w, '\t'.join((lhs, ) + rhs)))
		else:
			result.append('\t'.join((lhs, ) + rhs + (yf, str(w))) + '\n')
	return ''.join(result)


def lexicontext(lexicon):
	words = {}
	for (tag, word), w in lexicon:
		words.setdefault(word, []).append('%s %s' % (tag, w))
	return ''.join('%s\t%s\n' % (word, '\t'.join(a))
			for word, a in words.items())


def tuples(rules, lexicon):
	"""The same grammar as a list of tuples."""
	return [(((lhs, ) + rhs, tuple(tuple(map(int, a)) for a in yf.split(','))),
			w) for (lhs, rhs, yf), w in rules] + [
			(((tag, 'Epsilon'), (word, )), w) for (tag, word), w in lexicon]


def neglog(p):
	if isinstance(p, Fraction) and p:  # avoid underflow
		return log(p.denominator) - log(p.numerator)
	return -log(p) if p else float('inf')


def close(a, b, eps=1e-9):
	return abs(a - b) <= eps * max(1, abs(a), abs(b))
