"""C19: priority queue, merging, ordered sets: equal to their simple models."""
import copy
import heapq
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations
from vlib import build, core
build.activate(None)
from discodop.util import (PyAgenda, graphemecenter, graphemelength, OrderedSet, merge,  # noqa: E402
		slice_bounds, tokenize, workerfunc)
from discodop.grammar import ranges, rangeheads, cartpi, UniqueIDs  # noqa: E402


# --- agenda ----------------------------------------------------------------
class Model(object):
	"""A dictionary with values and the order in which keys were added."""

	def __init__(self, items=()):
		self.d = {}
		self.n = 0
		for k, v in items:
			if k not in self.d or v < self.d[k][0]:
				self.set(k, v)

	def set(self, k, v):
		if k in self.d:
			self.d[k] = (v, self.d[k][1])
		else:
			self.n += 1
			self.d[k] = (v, self.n)

	def order(self):
		return [(k, v[0]) for k, v in
				sorted(self.d.items(), key=lambda x: x[1])]

	def copy(self):
		new = Model()
		new.d, new.n = dict(self.d), self.n
		return new


def duplicate(agenda):
	new = copy.copy(agenda)
	memo = {}
	new.__dict__ = copy.deepcopy(agenda.__dict__, memo)
	return new


def attempt(func):
	try:
		return func()
	except (KeyError, IndexError) as err:
		return type(err).__name__


def apply(op, agenda, model, rec, where):
	"""Run op on both and compare what is returned."""
	name, args = op[0], op[1:]
	if name == 'set':
		agenda[args[0]] = args[1]
		model.set(*args)
	elif name == 'update':
		agenda.update([args[:2], args[2:]])
		model.set(*args[:2])
		model.set(*args[2:])
	elif name == 'pop':
		want = model.d.pop(args[0])[0] if args[0] in model.d else 'KeyError'
		rec.expect(where + ' pop', attempt(lambda: agenda.pop(args[0])), want)
	elif name == 'popnone':
		want = 'IndexError'
		if model.d:
			k, want = model.order()[0]
			del model.d[k]
		rec.expect(where + ' pop(None)', attempt(lambda: agenda.pop(None)),
				want)
	elif name == 'del':
		want = 'KeyError' if args[0] not in model.d else None
		model.d.pop(args[0], None)
		rec.expect(where + ' del',
				attempt(lambda: agenda.__delitem__(args[0])), want)
	elif name == 'popitem':
		want = 'IndexError'
		if model.d:
			want = model.order()[0]
			del model.d[want[0]]
		rec.expect(where + ' popitem', attempt(agenda.popitem), want)
	elif name == 'peek':
		want = model.order()[0] if model.d else 'IndexError'
		rec.expect(where + ' peekitem', attempt(agenda.peekitem), want)
	elif name == 'clear':
		agenda.clear()
		model.d.clear()
	rec.step()


def compare(agenda, model, rec, where):
	rec.expect(where + ' len', len(agenda), len(model.d))
	rec.expect(where + ' bool', bool(agenda), bool(model.d))
	rec.expect(where + ' keys', list(agenda.keys()), list(model.d))
	rec.expect(where + ' iter', list(agenda), list(model.d))
	rec.expect(where + ' values', list(agenda.values()),
			[v for v, _ in model.d.values()])
	rec.expect(where + ' items', dict(agenda.items()),
			{k: v for k, (v, _) in model.d.items()})
	for k in KEYS:
		rec.expect(where + ' in', k in agenda, k in model.d)
		rec.expect(where + ' get', attempt(lambda: agenda[k]),
				model.d[k][0] if k in model.d else 'KeyError')
	text = repr(agenda)
	rec.expect(where + ' repr', eval(text[text.index('(') + 1:-1]),
			{k: v for k, (v, _) in model.d.items()})
	rec.expect(where + ' str', str(agenda), text)
	new = duplicate(agenda)
	got = []
	for _ in range(len(model.d)):
		got.append(attempt(new.popitem))
	rec.expect(where + ' order', got, model.order())
	rec.expect(where + ' drained', attempt(new.popitem), 'IndexError')
	rec.state(tuple(model.d.items()))


KEYS = 'abcd'
OPS = [('set', k, v) for k in 'abc' for v in (1, 2)] + [
		('pop', 'a'), ('pop', 'b'), ('del', 'a'), ('del', 'c'), ('popitem', ),
		('popnone', ), ('peek', ), ('clear', ), ('update', 'd', 1, 'a', 3)]
SETS = [('set', k, v) for k in 'abc' for v in (1, 2)] + [('popitem', )]


def gen_agenda(tier):
	for n in range(4):
		for keys in product('ab', repeat=n):
			for vals in product((1, 2, 3), repeat=n):
				yield ('init', tuple(zip(keys, vals)), (), 3, 0)
	for first in product(range(len(OPS)), repeat=2):
		yield ('ops', (), first, 5 if tier == 'quick' else 6, 0)
	for first in product(range(len(SETS)), repeat=3):
		yield ('ops', (), first, 7 if tier == 'quick' else 8, 1)


def agenda(case, rec):
	_, init, first, depth, which = case
	ops = SETS if which else OPS
	todo = [(PyAgenda(list(init)) if init else PyAgenda(), Model(init), ())]
	if init:
		compare(todo[0][0], todo[0][1], rec, 'init %r' % (init, ))
	while todo:
		a, m, hist = todo.pop()
		if len(hist) == depth:
			rec.trace()
			continue
		for n, op in enumerate(ops):
			if len(hist) < len(first) and n != first[len(hist)]:
				continue
			a1, m1 = duplicate(a), m.copy()
			where = ' '.join('-'.join(map(str, ops[x])) for x in hist + (n, ))
			apply(op, a1, m1, rec, where)
			if len(hist) + 1 < len(first):
				pass
			elif which and len(hist) + 1 < depth:
				pass
			elif which:
				got = []
				for _ in range(len(m1.d)):
					got.append(attempt(a1.popitem))
				rec.expect(where + ' order', got, m1.order())
				rec.trace()
				continue
			else:
				compare(a1, m1, rec, where)
			if rec.fails:
				return
			todo.append((a1, m1, hist + (n, )))


# --- merging ----------------------------------------------------------------
def gen_merge(tier):
	n = 3 if tier == 'quick' else 4
	seqs = [a for k in range(n + 1) for a in product((0, 1, 2), repeat=k)
			if list(a) == sorted(a)]
	for k in range(4):
		for a in seqs:
			if k > 0:
				yield (k, a)
		if k == 0:
			yield (0, ())


def merging(case, rec):
	k, first = case
	n = max(3, len(first))
	seqs = [a for m in range(n + 1) for a in product((0, 1, 2), repeat=m)
			if list(a) == sorted(a)]
	for rest in product(seqs, repeat=k - 1) if k else ((), ):
		its = ((first, ) + rest) if k else ()
		rec.expect('merge %r' % (its, ), list(merge(*its)),
				list(heapq.merge(*its)))
		# with key; items are distinct so that the order of ties is visible
		tagged = [[(v, m, i) for i, v in enumerate(a)]
				for m, a in enumerate(its)]
		want = list(heapq.merge(*tagged, key=lambda x: x[0]))
		got = list(merge(*tagged, key=lambda x: x[0]))
		rec.expect('merge with key %r' % (tagged, ), got, want)
		rec.expect('merge of iterators', list(merge(*map(iter, tagged),
				key=lambda x: x[0])), want)
		down = [a[::-1] for a in tagged]
		rec.expect('descending', list(merge(*down, key=lambda x: -x[0])),
				list(heapq.merge(*down, key=lambda x: -x[0])))
		rec.step(4)
	rec.trace()


# --- ordered sets, slices, small helpers -----------------------------------
def gen_small(tier):
	n = 3 if tier == 'quick' else 4
	for k in range(n + 1):
		for a in product('xyz', repeat=k):
			yield ('set', a)
	for n in range(6):
		yield ('slice', n)
	for bits in range(1 << (11 if tier == 'quick' else 14)):
		yield ('ranges', bits)
	for sizes in product(range(4), repeat=3):
		yield ('cartpi', sizes)
	for seq in product('ab-', repeat=4):
		yield ('ids', seq)
	for n in range(4):
		yield ('worker', n)
	for n in range(4):
		for seq in product(('a', 'e\u0301', '\u2588', '\U0001F1F3\U0001F1F1'),
				repeat=n):
			yield ('center', seq)


def small(case, rec):
	kind, a = case
	rec.trace()
	if kind == 'set':
		s = OrderedSet(a)
		uniq = list(dict.fromkeys(a))
		rec.expect('len', len(s), len(uniq))
		rec.expect('iter', list(s), uniq)
		rec.expect('reversed', list(reversed(s)), uniq[::-1])
		rec.expect('index', [s[i] for i in range(len(uniq))], uniq)
		rec.expect('slice', list(s[1:]), uniq[1:])
		rec.expect('from iterator', list(OrderedSet(iter(a))), uniq)
		rec.expect('eval', eval(repr(s)), s)
		for x in 'wxyz':
			rec.expect('in', x in s, x in uniq)
		for k in range(4):
			for b in permutations('wxy', k):
				t = OrderedSet(b)
				rec.step()
				rec.expect('and', list(s & t), [x for x in uniq if x in b])
				rec.expect('and list', list(s & list(b)),
						[x for x in uniq if x in b])
				rec.expect('or', list(s | t),
						uniq + [x for x in b if x not in uniq])
				rec.expect('minus', list(s - t),
						[x for x in uniq if x not in b])
				rec.expect('xor', set(s ^ t), set(a) ^ set(b))
				for other in (t, set(b), frozenset(b)):
					rec.expect('eq', s == other, set(a) == set(b))
					rec.expect('ne', s != other, set(a) != set(b))
					rec.expect('le', s <= other, set(a) <= set(b))
					rec.expect('lt', s < other, set(a) < set(b))
					rec.expect('ge', s >= other, set(a) >= set(b))
				rec.expect('disjoint', s.isdisjoint(t),
						set(a).isdisjoint(b))
				if s == t:
					rec.expect('hash', hash(s), hash(t))
				rec.state((uniq, b))
	elif kind == 'slice':
		seq = list(range(a))
		points = [None] + list(range(-a - 2, a + 3))
		for start, stop in product(points, repeat=2):
			for step in (None, 1):
				sl = slice(start, stop, step)
				x, y, z = slice_bounds(seq, sl)
				rec.step()
				rec.expect('bounds %r' % sl, 0 <= x <= y <= a, True)
				rec.expect('slice %r' % sl, seq[x:y:z], seq[sl])
			for step in (2, -1, 0):
				try:
					slice_bounds(seq, slice(start, stop, step))
				except ValueError:
					pass
				else:
					rec.fail('slice with step %d accepted' % step)
			for step in (None, 1, 2, 3):
				sl = slice(start, stop, step)
				x, y, z = slice_bounds(seq, sl, allow_step=True)
				rec.expect('step %r' % sl, seq[x:y:z], seq[sl])
			rec.state((a, start, stop))
	elif kind == 'ranges':
		seq = [n for n in range(a.bit_length()) if a >> n & 1]
		want = []
		for n in seq:
			if n - 1 in seq:
				want[-1].append(n)
			else:
				want.append([n])
		rec.expect('ranges', list(map(list, ranges(seq))), want)
		rec.expect('rangeheads', rangeheads(seq), [b[0] for b in want])
		rec.expect('rangeheads', rangeheads(tuple(seq)), [b[0] for b in want])
		rec.state(a)
	elif kind == 'cartpi':
		seqs = [range(n) for n in a]
		for k in range(4):
			rec.expect('cartpi', list(cartpi(seqs[:k])),
					list(product(*seqs[:k])))
	elif kind == 'ids':
		for prefix in ('', 'p'):
			ids = UniqueIDs(prefix)
			seen, n = {}, 0
			for x in a:
				if x == '-':
					rec.expect('next', next(ids), '%s%d' % (prefix, n))
					n += 1
				else:
					if x not in seen:
						seen[x] = '%s%d' % (prefix, n)
						n += 1
					rec.expect('get', ids[x], seen[x])
	elif kind == 'center':
		text = ''.join(a)
		rec.expect('length', graphemelength(text), len(a))
		for width in range(8):
			got = graphemecenter(text, width, '.')
			extra = max(width - len(a), 0)
			left, right = extra // 2, extra - extra // 2
			rec.expect('centered', got in ('.' * left + text + '.' * right,
					'.' * right + text + '.' * left), True)
			rec.step()
	elif kind == 'worker':
		@workerfunc
		def func(*args, **kwargs):
			if len(args) == 2:
				raise ValueError('problem 42')
			return args, kwargs
		args = tuple(range(a))
		try:
			rec.expect('result', func(*args, x=1), (args, {'x': 1}))
			rec.expect('raised', a == 2, False)
		except Exception as err:
			rec.expect('raised', a == 2 and 'problem 42' in str(err)
					and 'ValueError' in str(err), True)


# --- tokenization ---------------------------------------------------------
PIECES = ("a", "Bc", " ", ".", ",", "'", "n't", "can", "not", "3", "(", "qu",
		"’", "-", "d'")


def gen_tokens(tier):
	n = 4 if tier == 'quick' else 5
	for first in PIECES:
		yield (first, n)


def tokens(case, rec):
	first, n = case
	for k in range(n + 1):
		for rest in product(PIECES, repeat=k):
			text = first + ''.join(rest)
			got = tokenize(text)
			rec.step()
			rec.outcome(len(got))
			rec.expect('characters of %r' % text, ''.join(got),
					''.join(text.split()))
			rec.expect('no empty tokens of %r' % text,
					all(a and not a.isspace() for a in got), True)
			# a space always separates
			want = 0
			for part in text.split():
				want += len(part)
				cnt = 0
				for a in got:
					cnt += len(a)
					if cnt == want:
						break
				else:
					rec.fail('tokens of %r across a space: %r' % (text, got))
	rec.trace()


SPACES = [
	core.Space('agenda', gen_agenda, agenda, {
		'quick': 'all sequences of <=5 of 15 operations over 4 keys; all '
		'sequences of 7 insertions, changes and removals of 3 keys; all '
		'initial contents of <=3 items followed by <=3 operations',
		'thorough': 'sequences of <=6; 8 insertions'}),
	core.Space('merge', gen_merge, merging, {
		'quick': 'all combinations of <=3 sorted sequences of <=3 items',
		'thorough': '<=4 items'}),
	core.Space('small', gen_small, small, {
		'quick': 'ordered sets of all sequences of <=3 over 3 items and all '
		'pairs; all slices of sequences of <=5; all sets of <=11 numbers',
		'thorough': 'sequences of <=4; sets of <=14 numbers'}),
	core.Space('tokenize', gen_tokens, tokens, {
		'quick': 'all texts of <=5 of 15 pieces', 'thorough': '<=6'}),
	]
ASSUMPTIONS = [
	'Operation sequences up to the stated lengths; the heap of the agenda then '
	'has at most 8 entries.',
	'The reference for merging is heapq.merge from the standard library.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C19', SPACES, ASSUMPTIONS))
