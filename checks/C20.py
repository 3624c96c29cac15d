"""C20: random generation follows the grammar: every choice is explored."""
import contextlib
import io
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from math import gcd
from itertools import product, combinations
from collections import Counter, defaultdict
from vlib import build, core, scratch
build.activate(None)
from discodop import gen as G  # noqa: E402
from discodop.grammar import writegrammar  # noqa: E402
scratch.folder()

# candidates for rules, with their weights; A_2 and B_2 are discontinuous
RULES = [
	(('S', 'A', 'B'), ((0, 1), ), 2),
	(('S', 'A'), ((0, ), ), 1),
	(('S', 'A_2', 'B'), ((0, 1, 0), ), 1),
	(('S', 'A_2', 'B_2'), ((0, 1, 0, 1), ), 1),
	(('S', 'B', 'A_2'), ((1, 0, 1), ), 1),
	(('A_2', 'A', 'B'), ((0, ), (1, )), 2),
	(('A_2', 'A_2', 'A'), ((0, 1), (0, )), 1),
	(('B_2', 'A_2', 'B'), ((0, ), (0, 1)), 2),
	(('B_2', 'A_2'), ((0, ), (0, )), 1),
	(('A', 'A', 'B'), ((0, 1), ), 1),
	(('A', 'B', 'B'), ((0, 1), ), 1),
	(('B', 'A'), ((0, ), ), 1),
	]
LEXICON = [(('A', 'Epsilon'), 'a', 1), (('B', 'Epsilon'), 'b', 1),
		(('B', 'Epsilon'), 'a', 1), (('A', 'Epsilon'), '.', 1)]


class Choices(object):
	"""A replacement of random() which goes through all choices, one per run.

	The interval from 0 to 1 is divided in N parts; each run repeats a prefix
	of choices and then always takes the first part."""

	def __init__(self, points, prefix):
		self.points = points
		self.prefix = prefix
		self.taken = []

	def __call__(self):
		n = len(self.taken)
		i = self.prefix[n] if n < len(self.prefix) else 0
		self.taken.append(i)
		if len(self.taken) > 40:
			raise Deep
		return self.points[i]

	def next(self, depth):
		"""The next prefix in depth-first order (or None)."""
		taken = self.taken[:depth]
		while taken and taken[-1] == len(self.points) - 1:
			taken.pop()
		if not taken:
			return None
		taken[-1] += 1
		return taken


class Deep(Exception):
	pass


def derivations(grammar, start, depth, limit):
	"""Words and probability per sequence of the rules used (in pre-order)."""
	rules = defaultdict(list)
	for nts, yf, w in grammar:
		rules[nts[0]].append((nts, yf, w))
	mass = {a: sum(w for _, _, w in rules[a]) for a in rules}

	def rec(label, depth, budget):
		"""(number of choices, probability, components)."""
		for nts, yf, w in rules[label]:
			p = Fraction(w) / mass[label]
			if nts[1] == 'Epsilon':
				yield (1, p, [[yf]])
				continue
			if depth == 0:
				continue
			for n, q, first in rec(nts[1], depth - 1, budget - 1):
				if len(nts) == 2:
					if n + 1 <= budget:
						yield (n + 1, p * q, first)
					continue
				for m, r, second in rec(nts[2], depth - 1, budget - 1 - n):
					if n + m + 1 > budget:
						continue
					parts = [list(first), list(second)]
					yield (n + m + 1, p * q * r, [[x for a in arg
							for x in parts[a].pop(0)] for arg in yf])
	return [(p, comps) for _, p, comps in rec(start, depth, limit)]


def usable(rules):
	"""Whether all labels are used and can be rewritten to words."""
	made = {'A', 'B'} | {a[0][0] for a in rules}
	done = {'A', 'B'}
	while True:
		new = {a[0][0] for a in rules if set(a[0][1:]) <= done} - done
		if not new:
			break
		done |= new
	reach = {'S'}
	while True:
		new = {b for a in rules if a[0][0] in reach for b in a[0][1:]} - reach
		if not new:
			break
		reach |= new
	return 'S' in done and all(b in done for a in rules for b in a[0]) and all(
			a[0][0] in reach for a in rules) and made


def gen_grammars(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for idx in combinations(range(len(RULES)), n):
			if usable([RULES[a] for a in idx]):
				yield idx


def generating(case, rec):
	rules = [RULES[a] for a in case]
	lex = [a for a in LEXICON if a[0][0] in {'A', 'B'}]
	grammar = rules + lex
	mass = Counter()
	for nts, _, w in grammar:
		mass[nts[0]] += w
	gram = G.splitgrammar([((nts, yf if nts[1] != 'Epsilon' else (yf, )),
			w / mass[nts[0]]) for nts, yf, w in grammar])
	# all boundaries between rules are multiples of 1/lcm of masses (<= 12)
	lcm = 1
	for a in mass.values():
		lcm = lcm * a // gcd(lcm, a)
	points = [(2 * n + 1) / (2 * lcm) for n in range(lcm)]
	limit = 5
	want = Counter()
	for p, comps in derivations(grammar, 'S', limit, limit):
		want[tuple(map(tuple, comps)), p] += p
	got = Counter()
	prefix = []
	runs = 0
	while prefix is not None:
		choose = Choices(points, prefix)
		old, G.random = G.random, choose
		try:
			p, words = G.gen(gram, start=gram.toid['S'], discount=1)
		except (Deep, RecursionError):
			p = None
		finally:
			G.random = old
		runs += 1
		rec.step()
		if p is not None and len(choose.taken) <= limit:
			q = Fraction(p).limit_denominator(10 ** 7)
			match = [w for (c, w) in want if c == tuple(map(tuple, words))
					and abs(w - q) < Fraction(1, 10 ** 6)]
			if not match:
				rec.fail('%r with p=%s is not a derivation of %r' % (
						words, p, grammar))
				return
			got[tuple(map(tuple, words)), match[0]] += Fraction(
					1, lcm ** len(choose.taken))
		elif p is not None:
			choose.taken = choose.taken[:limit]
		prefix = choose.next(limit)
		if runs > 1000000:
			rec.fail('too many runs')
			return
	rec.expect('probability of each derivation in %r' % (grammar, ),
			sorted(got.items()), sorted(want.items()))
	rec.state(case)
	rec.outcome(len(want))
	rec.trace()


# --- discount for rules that are being used ----------------------------------
def discounts(case, rec):
	"""The weight of a rule is discounted by its number of uses in ancestors."""
	rules = [RULES[a] for a in case]
	lex = [a for a in LEXICON if a[0][0] in {'A', 'B'}]
	gram = G.splitgrammar([((nts, yf if nts[1] != 'Epsilon' else (yf, )), w)
			for nts, yf, w in rules + lex])
	path, bad = [], []
	oldgen, oldrandom, oldchoose = G.gen, G.random, G.chooserule

	def walk(*args, **kwds):
		path.append(None)
		if len(path) > 6:
			raise Deep
		result = oldgen(*args, **kwds)
		path.pop()
		return result

	def choose(candidates, discount, counts):
		for r in candidates:
			uses = sum(a is r for a in path[:-1])
			first = counts[r.no]
			if not isinstance(r, G.LexicalRule) and first != 1 + uses:
				bad.append((r.no, first, 1 + uses, discount))
		result = oldchoose(candidates, discount, counts)
		path[-1] = result
		return result

	points = (.01, .3, .6, .99)
	prefix, runs = [], 0
	while prefix is not None:
		pick = Choices(points, prefix)
		del path[:]
		G.random, G.gen, G.chooserule = pick, walk, choose
		try:
			walk(gram, start=gram.toid['S'], discount=.75)
		except (Deep, RecursionError):
			pass
		finally:
			G.gen, G.random, G.chooserule = oldgen, oldrandom, oldchoose
		rec.step()
		runs += 1
		if bad:
			rec.fail('uses of rule %d: got %d, expected %d' % bad[0][:3])
			return
		prefix = pick.next(5)
	rec.state(case)
	rec.outcome(runs)
	rec.trace()


# --- choices at the edges of intervals --------------------------------------------
def gen_choice(tier):
	for n in range(1, 5 if tier == 'quick' else 6):
		for weights in product((1, 2, .1, .7, 1e-9), repeat=n):
			yield weights


def choice(case, rec):
	rules = [G.LexicalRule(1, 0, 0, 'w%d' % n, w, n)
			for n, w in enumerate(case)]
	for counts in product((0, 1, 2), repeat=min(len(case), 2)):
		counts = list(counts) + [1] * (len(case) - len(counts))
		for discount in (1, .75):
			weights = [w * discount ** c for w, c in zip(case, counts)]
			total = sum(weights)
			edges = [0.0]
			for a in weights:
				edges.append(edges[-1] + a / total)
			edges[-1] = 1.0
			points = {0.0, 1 - 2 ** -53, 1 - 2 ** -40, .5}
			for a in edges[1:-1]:
				points.update((a, a - 1e-12, a + 1e-12))
			for a, b in zip(edges, edges[1:]):
				points.add((a + b) / 2)
			for x in points:
				old, G.random = G.random, lambda x=x: x
				try:
					got = G.chooserule(rules, discount, counts)
				finally:
					G.random = old
				rec.step()
				ok = [n for n, (a, b) in enumerate(zip(edges, edges[1:]))
						if a - 1e-11 <= x <= b + 1e-11]
				rec.expect('choice at %r from %r' % (x, weights),
						got.no in ok, True)
	rec.state(case)
	rec.trace()


# --- grammar files ----------------------------------------------------------------
def gen_files(tier):
	yield ()
	for idx in gen_grammars(tier):
		yield idx


def files(case, rec):
	rules = [RULES[a] for a in case]
	if not case:
		rules = [(('S', 'A', 'B'), ((0, 1), ), 1)]
	for scale in (1, .5, Fraction(1, 3)):
		for bitpar in (False, True):
			if bitpar and scale == Fraction(1, 3):
				continue
			if bitpar and any(len(yf) > 1 or len(yf[0]) > 2
					or yf == ((1, 0), ) for _, yf, _ in rules):
				continue
			grammar = [((nts, yf if nts[1] != 'Epsilon' else (yf, )),
					w * scale) for nts, yf, w in rules + LEXICON]
			if isinstance(scale, Fraction):  # weights such as 2/3
				text = ''.join('%s\t%s\t%s\n' % ('\t'.join(nts), ','.join(
						''.join(map(str, a)) for a in yf), w)
						for (nts, yf), w in grammar if nts[1] != 'Epsilon')
				lexicon = ''.join('%s\t%s %s\n' % (yf[0], nts[0], w)
						for (nts, yf), w in grammar if nts[1] == 'Epsilon')
			else:
				text, lexicon = writegrammar(grammar, bitpar=bitpar)
			mass = Counter()
			for (nts, _), w in grammar:
				mass[nts[0]] += w
			norm = mass if not bitpar or scale == 1 else Counter(
					{a: 1 for a in mass})
			want = sorted((r, w / norm[r[0][0]]) for r, w in grammar)
			read = G.read_bitpar_grammar if bitpar else G.read_lcfrs_grammar
			got = read(io.StringIO(text), io.StringIO(lexicon))
			rec.step()
			rec.expect('rules', sorted(a for a, _ in got), [a for a, _ in want])
			for (a, x), (_, y) in zip(sorted(got), want):
				if abs(x - y) > 1e-6:
					rec.expect('weight of %r' % (a, ), x, y)
			command(text, lexicon, grammar, mass, bitpar, rec)
	rec.state(case)
	rec.trace()


def command(text, lexicon, grammar, mass, bitpar, rec):
	"""The command prints 20 sentences of the grammar."""
	names = [scratch.write('rules', text), scratch.write('lex', lexicon)]
	old, argv = G.random, sys.argv
	state = [0]

	def lcg():
		state[0] = (state[0] * 1103515245 + 12345) % 2 ** 31
		return state[0] / 2 ** 31
	out = io.StringIO()
	sys.argv = ['discodop', 'gen', '-s', 'S'] + names
	G.random = lcg
	try:
		with contextlib.redirect_stdout(out):
			G.main()
	except RecursionError:
		return
	finally:
		G.random, sys.argv = old, argv
	lines = out.getvalue().splitlines()
	rec.expect('number of sentences', len(lines), 20)
	words = {r[1][0] for r, _ in grammar if r[0][1] == 'Epsilon'}
	# NB: non-integral weights in bitpar format are not normalized
	limit = 10 if bitpar and any(w % 1 for _, w in grammar) else 1 + 1e-6
	for line in lines:
		p, sent = line[1:].split('] ')
		rec.expect('a sentence', 0 < float(p) <= limit and set(sent.split())
				<= words, True)


SPACES = [
	core.Space('derivations', gen_grammars, generating, {
		'quick': 'all grammars of <=3 of 12 rules in which all labels are '
		'useful; all sequences of <=5 random choices',
		'thorough': '<=4 rules'}),
	core.Space('discounts', gen_grammars, discounts, {
		'quick': 'grammars of <=3 of 12 rules; all sequences of 5 choices '
		'among 4 values of random()', 'thorough': '<=4 rules'}),
	core.Space('choice', gen_choice, choice, {
		'quick': 'all sequences of <=4 of 5 weights; values of random() at, '
		'just before, just after, and between all boundaries',
		'thorough': '<=5 weights'}),
	core.Space('files', gen_files, files, {
		'quick': 'grammars of <=3 of 12 rules, in both formats',
		'thorough': '<=4 rules'}),
	]
ASSUMPTIONS = [
	'random() is replaced by an enumeration of values; it is assumed to be '
	'uniform.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C20', SPACES, ASSUMPTIONS))
