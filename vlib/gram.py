"""Bounded families of small binarized grammars, and helpers to run them."""
from itertools import combinations, product
from . import pars

CFG = [
	('S', ('A', ), '0'), ('S', ('A', 'B'), '01'), ('S', ('B', 'A'), '01'),
	('A', ('A', 'B'), '01'), ('A', ('A', 'A'), '01'), ('A', ('B', ), '0'),
	('B', ('A', ), '0'), ('B', ('B', 'A'), '01')]
DISC = [
	('S', ('C', 'A'), '010'), ('C', ('A', 'B'), '0,1'),
	('C', ('B', 'A'), '0,1'), ('A', ('C', 'B'), '010'),
	('C', ('C', 'A'), '01,0'), ('C', ('C', ), '0,0'),
	('C', ('C', 'B'), '0,10'), ('S', ('C', 'D'), '0101'),
	('D', ('B', 'B'), '0,1'), ('D', ('C', 'A'), '10,0'),
	('E', ('C', 'A'), '0,1,0'), ('S', ('E', 'D'), '01010')]
WEIGHTS = (2, 3, 1, 2, 5, 1, 4, 1)
LEX = [('A', 'a'), ('A', 'b'), ('B', 'a'), ('B', 'b')]
LEXICONS = ((0, 3), (0, 1, 2), (0, 1, 2, 3))


def valid(rules, lexlabels):
	"""Every label must occur as LHS; the start symbol must be among them."""
	lhs = {r[0] for r in rules}
	return 'S' in lhs and all(
			a in lhs or a in lexlabels for r in rules for a in r[1])


def grammars(pool, size, need=None, lexicons=LEXICONS):
	"""All valid grammars with up to size rules of a pool."""
	for n in range(1, size + 1):
		for rules in combinations(pool, n):
			if need is not None and not any(r in need for r in rules):
				continue
			for lex in lexicons:
				lexicon = [LEX[a] for a in lex]
				if valid(rules, {a for a, _ in lexicon}):
					yield ([(r, WEIGHTS[m]) for m, r in enumerate(rules)],
							[(a, WEIGHTS[m]) for m, a in zip(lex, lexicon)])


def sents(words, maxlen, minlen=1):
	for n in range(minlen, maxlen + 1):
		for a in product(words, repeat=n):
			yield list(a)


def compare(got, want, k=None):
	"""Compare the k best derivations with all derivations.

	:param got: a list of (derivation, -logprob).
	:param want: a dictionary of all derivations with their probability.
	:returns: a message, or None."""
	if len({a for a, _ in got}) != len(got):
		return 'duplicate derivations: %r' % (got, )
	for a, b in got:
		if a not in want:
			return 'not a derivation: %s' % a
		elif not pars.close(b, pars.neglog(want[a])):
			return 'derivation %s has -logprob %r, not %r' % (
					a, b, pars.neglog(want[a]))
	num = len(want) if k is None else min(k, len(want))
	if len(got) != num:
		return '%d derivations instead of %d: %r; missing e.g. %r' % (
				len(got), num, got, sorted(set(want) - {a for a, _ in got})[:2])
	best = sorted(map(pars.neglog, want.values()))
	for n, ((a, b), c) in enumerate(zip(got, best)):
		if not pars.close(b, c):
			return 'derivation no. %d has -logprob %r, not %r: %r' % (
					n, b, c, got)
	return None


def subsets(n):
	"""All non-empty subsets of range(n)."""
	return [[a for a in range(n) if mask >> a & 1] for mask in range(1, 1 << n)]
