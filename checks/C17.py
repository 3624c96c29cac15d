"""C17: grammar files: what is written is what is read, and merging adds up."""
import contextlib
import gzip
import io
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, combinations
from collections import defaultdict
from vlib import build, core, scratch
build.activate(None)
from discodop.grammar import (writegrammar, splitweight,  # noqa: E402
		convertweight, stripweight, sumrules, sumlex, sumfrags, merge,
		grammarstats, addindices, printrule)
from discodop import gen as gengen  # noqa: E402
scratch.folder()

EXACT = {'1': 1, '2': 2, '10': 10, '123456': 123456, '0.5': .5, '.25': .25,
		'3.': 3, '1e+06': 1e6, '1.5e+06': 1.5e6, '2e-05': 2e-5, '1E-05': None,
		'1.23457e+06': 1234570, '0.333333': .333333,
		'0x1.8000000000000p+1': 3, '0x1p-1': .5, '1/2': .5, '3/4': .75,
		'5/1': 5, '10/40': .25, '2.5/5': .5}
# spelled as they occur in the wild; labels which resemble parts of numbers
LABELS = ['S', 'NP', 'e', '.', '-', '1', '-e', '$.', 'e10', '0x', 'A_2', '/',
		'X|<a,b>', 'é', '1/2', 'S}<0>', 'a@b=c', '-LRB-']


# --- weights and rules without weight -------------------------------------------
def gen_weights(tier):
	for w in EXACT:
		if EXACT[w] is not None:
			for n in (1, 2):
				yield (w, n)


def weights(case, rec):
	w, n = case
	want = EXACT[w]
	rec.expect('convertweight', convertweight(w), want)
	got = splitweight(w)
	if '/' in w:
		rec.expect('splitweight', got, tuple(map(float, w.split('/'))))
	else:
		rec.expect('splitweight', got, want)
		rec.expect('parsefrac', gengen.parsefrac(w) if 'x' not in w else want,
				want)
	if '/' in w and 'x' not in w:
		rec.expect('parsefrac', gengen.parsefrac(w), want)
	yfs = ['0', '0,0'] if n == 1 else ['01', '0,1', '010', '0,10,1']
	for lhs in LABELS:
		for rhs in product(LABELS, repeat=n):
			rule = '\t'.join((lhs, ) + rhs)
			rec.step()
			for yf in yfs:
				line = '%s\t%s' % (rule, yf)
				for end in ('', '\n'):
					rec.expect('rule of %r' % line,
							stripweight('%s\t%s%s' % (line, w, end)), line)
			if '/' in w or rhs[-1] == '1' and (n == 1 or rhs[0] == '1'):
				continue  # could be taken for a yield function and weight
			if n == 2 and rhs[1] == '1/2' and rhs[0] == '1':
				continue
			rec.expect('bitpar rule', stripweight('%s\t%s\n' % (w, rule)), rule)
	rec.state(case)
	rec.trace()


# --- writing and reading ----------------------------------------------------------
RULES = [(('S', 'A', 'B'), ((0, 1), )), (('S', 'B'), ((0, ), )),
		(('S', 'e', '.'), ((0, 1), )), (('A_2', 'A', 'B'), ((0, ), (1, ))),
		(('S', 'A_2', 'B'), ((0, 1, 0), )), (('S}<0>', 'A_2'), ((0, ), (0, ))),
		(('A', 'Epsilon'), ('a', )), (('B', 'Epsilon'), ('a', )),
		(('B', 'Epsilon'), ('#LRB#', )), (('.', 'Epsilon'), ('.', )),
		(('A', 'Epsilon'), ('a b', )), (('A', 'Epsilon'), ('10\xa0000', )),
		(('A@a', 'Epsilon'), ('a', )), (('B', 'Epsilon'), ('b', ))]
WEIGHTS = [1, 2, .5, 1 / 3, 1234567, 1e-7]
UNESC = {'#LRB#': '('}


def gen_write(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for rules in combinations(range(len(RULES)), n):
			yield rules


def writing(case, rec):
	for turn in range(len(case)):
		order = case[turn:] + case[:turn]
		for shift in range(len(WEIGHTS)):
			grammar = [(RULES[n], WEIGHTS[(m + shift) % len(WEIGHTS)])
					for m, n in enumerate(order)]
			for bitpar in (False, True):
				write1(grammar, bitpar, rec)
	rec.state(case)
	rec.trace()


def write1(grammar, bitpar, rec):
	rules, lexicon = writegrammar(grammar, bitpar=bitpar)
	rec.step()
	what = ' of %r %s' % (grammar, bitpar)
	got = []
	rec.expect('last line' + what, rules[-1:] in ('', '\n')
			and lexicon[-1:] in ('', '\n'), True)
	for line in rules.split('\n')[:-1]:
		fields = line.split('\t')
		if bitpar:
			got.append((tuple(fields[1:]), float(fields[0])))
		else:
			got.append(((tuple(fields[:-2]), tuple(tuple(map(int, a))
					for a in fields[-2].split(','))), float(fields[-1])))
	want = [(r if not bitpar else r[0], w) for r, w in grammar
			if r[0][1] != 'Epsilon']
	close(rec, 'rules' + what, got, want)
	gotlex, words = [], []
	for line in lexicon.split('\n')[:-1]:
		word, *tags = line.split('\t')
		words.append(word)
		for a in tags:
			tag, w = a.split(' ')
			gotlex.append(((tag, word), float(w)))
	close(rec, 'lexicon' + what, sorted(gotlex), sorted(((r[0][0],
			UNESC.get(r[1][0], r[1][0])), w) for r, w in grammar
			if r[0][1] == 'Epsilon'))
	rec.expect('words' + what, len(words), len(set(words)))
	for word in words:  # in the order of the grammar
		close(rec, 'tags' + what, [a for a in gotlex if a[0][1] == word],
				[((r[0][0], word), w) for r, w in grammar
				if r[0][1] == 'Epsilon'
				and UNESC.get(r[1][0], r[1][0]) == word])


def close(rec, what, got, want):
	if [a for a, _ in got] != [a for a, _ in want] or any(
			abs(a - b) > 1e-5 * abs(b)
			for (_, a), (_, b) in zip(got, want)):
		rec.expect(what, got, want)


# --- merging -------------------------------------------------------------------
LINES = {
	'rules': [('A\tB\t0', ), ('A\tB\tC\t01', ), ('A\tC\t0', ), ('A_2\tB\t0,0', ),
			('B\t.\t0', ), ('S\tA\t0', )],
	'bitpar': [('A\tB', ), ('A\tB\tC', ), ('A\tC', ), ('A_2\t.', ), ('S\te', )],
	'fragments': [('(S (A 0= 2=) (B 1=b))', ), ('(S (A ) (B b))', ),
			('(S 0=\xa0a)', ), ('(A 0=a)', )],
	'lexicon': [('a', 'A'), ('a', 'B'), ('b', 'A'), ('10\xa0000', 'A'), ('#', '#')],
	}
FREQS = ['1', '2', '0.5', '1e+06', '0x1p-1']
SUMS = {'rules': sumrules, 'bitpar': sumrules, 'fragments': sumfrags,
		'lexicon': sumlex}


def gen_merge(tier):
	for kind in LINES:
		n = len(LINES[kind])
		masks = range(1 << n)
		for mask in masks:
			for order in range(3):
				for gz in (0, 1):
					yield (kind, mask, order, gz)


def content(kind, mask, order, shift):
	"""Lines in a file, and the weights; sorted by LHS only, if order > 0."""
	items = [a for n, a in enumerate(LINES[kind]) if mask >> n & 1]
	if order == 1 and kind in ('rules', 'bitpar'):
		# by lhs, but other order for each lhs
		items = sorted(items[::-1], key=lambda a: a[0].split('\t')[0])
	elif order:
		items = items[::-1] if order == 1 else items[1::2] + items[::2]
	vals = {a: FREQS[(n + shift) % len(FREQS)] for n, a in enumerate(items)}
	if kind == 'lexicon':
		words = defaultdict(list)
		for a in items:
			words[a[0]].append('%s %s' % (a[1], vals[a]))
		text = ''.join('%s\t%s\n' % (a, '\t'.join(words[a])) for a in words)
	elif kind == 'bitpar':
		text = ''.join('%s\t%s\n' % (vals[a], a[0]) for a in items)
	else:
		text = ''.join('%s\t%s\n' % (a[0], vals[a]) for a in items)
	return text, vals


def merging(case, rec):
	kind, mask, order, gz = case
	full = (1 << len(LINES[kind])) - 1
	key = {'lexicon': lambda x: x.split('\t', 1)[0], 'fragments':
			lambda x: x.rsplit('\t', 1)[0]}.get(kind, stripweight)
	seconds = range(full + 1) if not gz else (0, mask, full, full & ~mask)
	for other in seconds:
		for third in ((None, full) if other in (0, mask) else (None, )):
			files, total = [], defaultdict(float)
			for n, m in enumerate((mask, other, third)):
				if m is None:
					continue
				text, vals = content(kind, m, order if n else 0, n)
				if gz and n != 1:
					files.append(scratch.path('%d.gz' % n))
					with gzip.open(files[-1], 'wb') as out:
						out.write(text.encode('utf8'))
				else:
					files.append(scratch.write(str(n), text))
				for a, w in vals.items():
					total[a] += convertweight(w)
			out = scratch.path('out.gz' if gz else 'out')
			merge(files, out, SUMS[kind], key)
			with (gzip.open if gz else open)(out, 'rb') as inp:
				text = inp.read().decode('utf8')
			rec.step()
			what = 'sum of %r' % (files and [(gzip.open if a.endswith('.gz')
					else open)(a, 'rb').read() for a in files])
			got = []
			for line in text.split('\n')[:-1]:
				if kind == 'lexicon':
					word, *tags = line.split('\t')
					for a in tags:
						got.append(((word, ) + (a.split(' ')[0], ),
								float(a.split(' ')[1])))
				elif kind == 'bitpar':
					w, rule = line.split('\t', 1)
					got.append(((rule, ), float(w)))
				else:
					rule, w = line.rsplit('\t', 1)
					got.append(((rule, ), float(w)))
			if kind == 'lexicon':
				rec.expect('words once', len(text.split('\n')) - 1,
						len({a for a, _ in total}))
			if kind in ('rules', 'bitpar'):
				lhs = [a[0].split('\t')[0] for a, _ in got]
				rec.expect('order by LHS', lhs, sorted(lhs))
				if got:
					stats(out, got, rec)
			close(rec, what, sorted(got), sorted((a, w / len(files))
					for a, w in total.items()))
			rec.state((kind, sorted(total.items())))
	rec.trace()


def stats(filename, rules, rec):
	"""Frequencies by LHS as printed."""
	want = {}
	for (rule, ), w in rules:
		lhs = rule.split('\t')[0]
		a, b = want.get(lhs, (0, 0))
		want[lhs] = a + 1, b + w
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		grammarstats(filename)
	got = [a.split('\t') for a in out.getvalue().splitlines()]
	rec.expect('header', got[0][0], 'LHS')
	close(rec, 'statistics', [(tuple(a[:2]), float(a[2])) for a in got[1:]],
			[((a, str(n)), w) for a, (n, w) in sorted(want.items())])


# --- other notations ---------------------------------------------------------------
def gen_other(tier):
	toks = ['(A a)', '(B )', '(C (A a) (B b))', '(D (A a))', '(B #LRB#)']
	for n in (1, 2, 3):
		for kids in product(range(len(toks)), repeat=n):
			yield tuple(toks[a] for a in kids)


def other(case, rec):
	frag = '(S %s)' % ' '.join(case)
	want, n = '', 0
	i = 0
	while i < len(frag):
		if frag[i] == ' ' and frag[i + 1] != '(':
			want += ' %d=' % n
			n += 1
		else:
			want += frag[i]
		i += 1
	rec.expect('indices of ' + frag, addindices(frag), want)
	for (nts, yf) in RULES:
		text = printrule(nts, yf, 0.5)
		rec.expect('label in rule', all(a in text for a in nts), True)
		rec.step()
	rec.state(case)
	rec.trace()


SPACES = [
	core.Space('weights', gen_weights, weights,
		'19 spellings of weights x all rules over 18 labels that resemble parts '
		'of numbers, in both formats'),
	core.Space('write', gen_write, writing, {
		'quick': 'all sets of <=3 of 14 rules, all rotations, 6 weights, both '
		'formats', 'thorough': 'sets of <=4'}),
	core.Space('merge', gen_merge, merging,
		'all pairs (some triples) of files with any subset of 4-6 entries; 3 '
		'orders; 4 kinds; compressed or not'),
	core.Space('notation', gen_other, other,
		'all sequences of <=3 of 5 subtrees'),
	]
ASSUMPTIONS = [
	'Weights are written with 6 significant digits and compared as such.',
	'Bitpar rules of which the last two labels look like a yield function and '
	'a weight are ambiguous and left out.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C17', SPACES, ASSUMPTIONS))
