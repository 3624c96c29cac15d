"""C30: treebank search gives exactly the matches, whatever was asked before."""
import os
import re
import sys
import gc
import csv
import io
import shutil
import stat
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, OrderedDict
from itertools import combinations, product
from vlib import build, core, gen, dop, run, scratch
build.activate('full')
import C27 as F  # noqa: E402
from discodop import treesearch as TS  # noqa: E402
from discodop.tree import (Tree, ParentedTree, DrawTree,  # noqa: E402
		DiscTree)
from discodop.treebank import writetree  # noqa: E402
from discodop.treetransforms import binarize, handledisc  # noqa: E402

COUNT = [0]


def newfolder():
	"""An empty folder; remove the previous one of this process."""
	old = scratch.path('search%d' % COUNT[0])
	shutil.rmtree(old, ignore_errors=True)
	COUNT[0] += 1
	new = scratch.path('search%d' % COUNT[0])
	os.mkdir(new)
	return new


def put(folder, name, data):
	path = os.path.join(folder, name)
	with open(path, 'wb') as out:
		out.write(data.encode('utf8'))
	return path


# --- regular expressions -----------------------------------------------------
# text files: lines are separated by newlines; empty lines do not count.
TEXTS = [
	'ab b\nb ab ab\n\nc a\nAb\n',
	'\n\nab\n \n\nb c\n',
	'b\n\nab ab\n\nab\n\n',
	'\u00e9ab c\u00e9\nab \u00e9 ab',
	'c',
	'\n',
	'',
	'c\nc\nc\nc\nc\nc\nab\n',
	 'x' * 70000 + '\nb ab\nab\n',  # more than 2 ** 16 bytes
]
REGEXES = ['ab', '^ab', 'ab$', 'b', '[ac]b?', '(a)b', '(a)(b)', 'a(?:b|B)',
		'(?:^| )ab(?:$| )', 'nomatch', 'c\u00e9', '\u00e9', '(?i)AB', r'\bb\b',
		r'a{1,3}b']
SLICES = ((None, None), (1, None), (2, None), (3, None), (None, 1), (None, 2),
		(1, 2), (2, 3), (2, 2), (3, 99), (5, None), (99, None), (3, 2),
		(None, 99), (4, 5), (6, 7), (7, 7))
LIMITS = (1, 2, 3, 100, None)


def regexref(text, query, flags=0, start=None, end=None):
	"""Matches as list of (lineno, line, start, end)."""
	lines = [a for a in text.split('\n') if a.strip()]
	result = []
	for n, line in enumerate(lines, 1):
		if (start or 1) <= n and (end is None or n <= end):
			for m in re.finditer(query, line, flags):
				result.append((n, line, m.start(), m.end()))
	return result


def gen_regex(tier):
	for n in range(len(TEXTS)):
		for q in range(len(REGEXES)):
			yield (n, ), q, False, False
			if tier != 'quick' or n < 4:
				yield (n, ), q, True, False
				yield (n, ), q, False, True
	yield (3, ), None, False, False
	for a in [(0, 1), (1, 0, 3), (2, 4), (0, 5), (0, 6), (7, 8), (8, 1)]:
		for q in range(len(REGEXES)):
			yield a, q, False, False
			yield a, q, True, True


def regex(case, rec):
	ids, q, inmemory, ignorecase = case
	folder = newfolder()
	texts = OrderedDict((put(folder, '%d.txt' % n, TEXTS[n]), TEXTS[n])
			for n in ids)
	query = '^.ab|c[\u00e9]$' if q is None else REGEXES[q]
	flags = re.IGNORECASE if ignorecase else 0
	what = ' (%r, %r%s%s)' % (query, [a[:20] for a in texts.values()],
			' in memory' if inmemory else '', ' ignore case' if ignorecase
			else '')
	if inmemory and not all(texts.values()):
		return
	searcher = TS.RegexSearcher(list(texts), numproc=1, inmemory=inmemory,
			ignorecase=ignorecase)
	if q is None:
		with searcher:
			rec.expect('counts of ^.ab|c[\u00e9]$', dict(searcher.counts(
					query)), {a: len(regexref(b, query))
					for a, b in texts.items()}, key='regex-nonascii')
		return
	with searcher:
		for start, end in SLICES:
			ref = OrderedDict((a, regexref(b, query, flags, start, end))
					for a, b in texts.items())
			x = ' in sentences %s:%s%s' % (start, end, what)
			rec.step(5)
			rec.expect('counts' + x, dict(searcher.counts(
					query, start=start, end=end)),
					{a: len(b) for a, b in ref.items()})
			rec.expect('indices' + x, {a: list(b) for a, b in searcher.counts(
					query, start=start, end=end, indices=True).items()},
					{a: [n for n, _, _, _ in b] for a, b in ref.items()})
			rec.expect('breakdown' + x, {a: dict(b) for a, b
					in searcher.counts(query, start=start, end=end,
					breakdown=True).items()}, {a: dict(Counter(
						line[m:n] for _, line, m, n in b))
						for a, b in ref.items()})
			got = searcher.batchcounts([query, 'b', query], start=start,
					end=end)
			other = {a: len(regexref(b, 'b', flags, start, end))
					for a, b in texts.items()}
			rec.expect('batch of counts' + x, [(a, list(b)) for a, b in got],
					[(a, [len(b), other[a], len(b)]) for a, b in ref.items()])
			for limit in LIMITS:
				for a, b in ref.items():
					got = searcher.sents(query, [a], start, end, limit)
					rec.expect('at most %s sentences%s' % (limit, x), list(map(
							sentence, got)), [(a, n, line, set(range(s, e)),
								set()) for n, line, s, e in b[:limit]])
					got = list(searcher.batchsents([query, query], [a], start,
							end, limit))
					rec.expect('at most %s sentences in batch%s' % (limit, x),
							[(b, [sentence((a, ) + tuple(c)) for c in d])
								for b, d in got], [(a, 2 * [(a, n, line,
									set(range(s, e)), set())
									for n, line, s, e in b[:limit]])])
		for a, b in texts.items():
			lines = [c for c in b.split('\n') if c.strip()]
			for num in range(len(lines) + 1):
				idx = list(range(1, num + 1))[::-1]
				rec.expect('extracted sentences' + what, searcher.extract(
						a, idx, sents=True), [lines[n - 1] for n in idx])
			for n in (0, -1, len(lines) + 1):
				try:
					got = searcher.extract(a, [n], sents=True)
				except IndexError:
					pass
				else:
					rec.fail('sentence %d should not exist: %r%s'
							% (n, got, what))
			info = searcher.getinfo(a)
			rec.expect('size' + what, info.len, len(lines))
			if not re.search(r'\n\s', b) and b[:1] not in '\n':
				rec.expect('number of words' + what, info.numwords,
						len(b.split()))
	rec.state(case)
	rec.trace()
	gc.collect(0)


def sentence(a):
	"""Normalize sequences of character indices."""
	return a[:3] + (set(a[3]), set(a[4]))


# --- sequences of queries ----------------------------------------------------
def gen_history(tier):
	for kind in ('regex', 'frag'):
		ops = range(len(operations(kind)))
		for a in ops:
			for b in ops:
				yield kind, (a, b)
		if tier != 'quick':
			for a in ops[::2]:
				for b in ops[::3]:
					for c in ops[::5]:
						yield kind, (a, b, c)


def operations(kind):
	if kind == 'regex':
		queries = ['ab', '[bc]']
	else:
		queries = ['(A (X a) (Y ))', '(B x)\n(C y)']
	result = []
	for q in queries:
		for s in ((None, None), (2, 3), (None, 2)):
			result.append(('counts', q, s, {}))
			result.append(('counts', q, s, {'indices': True}))
		result.append(('counts', q, (None, None), {'breakdown': True}))
		for s in ((None, None), (2, 4), (1, 1)):
			for limit in (1, 2, 100, None):
				result.append(('sents', q, s, {'maxresults': limit}))
		if kind == 'frag':
			for limit in (1, 2, None):
				result.append(('trees', q, (None, None),
						{'maxresults': limit}))
				result.append(('sents', q, (None, None),
						{'maxresults': limit, 'brackets': True}))
			result.append(('trees', q, (2, None), {'nofunc': True}))
			result.append(('trees', q, (None, None), {'nomorph': True}))
	return result


def history(case, rec):
	"""The result of a query does not depend on previous queries."""
	kind, seq = case
	key = 'history', kind
	if key not in F.CACHE:
		folder = scratch.path('history' + kind)
		os.mkdir(folder)
		if kind == 'regex':
			files = [put(folder, 'x%d.txt' % n, TEXTS[n]) for n in (0, 2, 3)]
		else:
			files = [os.path.join(folder, 'x%d.mrg' % n) for n in range(2)]
			for n, a in enumerate(files):
				os.rename(F.makebank(BANKS[n], 'bracket')[0], a)
		cls = TS.RegexSearcher if kind == 'regex' else TS.FragmentSearcher
		F.CACHE[key] = (cls, files, [normal(apply(cls(files, numproc=1), a))
				for a in operations(kind)])
	cls, files, want = F.CACHE[key]
	searcher = cls(files, numproc=1)
	ops = operations(kind)
	for n in seq:
		got = normal(apply(searcher, ops[n]))
		rec.step()
		rec.expect('%s after %s' % (ops[n], [ops[m] for m in seq]), got,
				want[n])
	rec.outcome(repr(want[seq[-1]]))
	rec.state(case)
	rec.trace()
	gc.collect(0)


def apply(searcher, op):
	func, query, (start, end), kwargs = op
	return getattr(searcher, func)(query, start=start, end=end, **kwargs)


def normal(result):
	if isinstance(result, dict):
		return {a: sorted(b) if not isinstance(b, (int, dict)) else b
				for a, b in result.items()}
	return sorted(repr(tuple(sorted(map(str, b)) if not isinstance(b,
			(str, int, Tree)) else str(b) for b in a)) for a in result)


# --- fragments ---------------------------------------------------------------
BANKS = [F.BANKS[0] + F.BANKS[3], F.BANKS[1], F.BANKS[2], F.BANKS[5],
		F.DISCBANKS[0], F.DISCBANKS[1], F.DISCBANKS[2]]
EXT = {'bracket': 'mrg', 'discbracket': 'dbr', 'export': 'export'}
FSLICES = ((None, None), (2, None), (None, 2), (2, 3), (1, 1), (99, None),
		(3, 2), (None, 99))


def gen_fragments(tier):
	for fmt, ids in (('bracket', (0, 1, 2, 3)), ('discbracket', (4, 5, 6, 0)),
			('export', (4, 5))):
		for n in ids:
			for m in ids:
				other = {(n, ), (n, m)}
				for a in sorted(other):
					yield fmt, a, False
					yield fmt, a, True


def absolute(tree, sent, disc=True):
	if isinstance(tree[0], int):
		return '(%s %s)' % (tree.label, '%d=%s' % (tree[0], escaped(
				sent[tree[0]])) if disc else escaped(sent[tree[0]]))
	return '(%s %s)' % (tree.label, ' '.join(absolute(a, sent, disc)
			for a in tree))


def escaped(word):
	return dop.escaped(word)


def prepared(fmt, ids, folder):
	"""{filename: [(tree, sent, derivation), ...]}"""
	result = OrderedDict()
	for n, i in enumerate(ids):
		path, ds = F.makebank(BANKS[i], fmt)
		new = os.path.join(folder, 'f%d.%s' % (n, EXT[fmt]))
		os.rename(path, new)
		items = []
		for j, d in zip(BANKS[i], ds):
			tree = ParentedTree(F.TREES[j][0])
			if fmt == 'export':
				tree.label = 'ROOT'
			tree = binarize(handledisc(tree), dot=True)
			items.append((tree, F.TREES[j][1].split(), d))
		result[new] = items
	return result


def findall(d, items, disc, start=None, end=None):
	"""Matches of query as (sentence number, node)."""
	result = []
	for n, (tree, sent, whole) in enumerate(items, 1):
		if n < (start or 1) or end is not None and n > end:
			continue
		for path, sub in F.occurrences(whole):
			if matching(d, sub):
				node = tree
				for a in path:
					node = node[a]
				result.append((n, node))
	return result


def matching(f, d):
	if isinstance(f, str):
		return f == d[0][0][0]
	return f[0] == d[0] and all(matching(a, b) for a, b in zip(f[1], d[1]))


def queriesfor(files, disc):
	"""Some fragments that occur in these files, and some others."""
	found = Counter()
	for items in files.values():
		for _, _, d in items[:2]:
			found.update(dop.allfragments([d]))
	found = sorted((a for a in found if dop.depth(a) < 7), key=repr)
	# every production, and then a selection of larger ones
	small = [a for a in found if all(b is None for b in a[1])]
	large = [a for a in found if any(b is not None for b in a[1])]
	result = [(F.text(a, disc), a) for a in small + large[::max(1,
			len(large) // 25)]]
	for a in F.QUERIES['discbracket' if disc else 'bracket']:
		result.append((a, F.wanted(a, disc)))
	return result


def nones(f):
	"""Replace None with labels."""
	return (f[0], tuple(f[0][0][n + 1] if a is None else
			a if isinstance(a, str) else nones(a) for n, a in enumerate(f[1])))


def fragments(case, rec):
	fmt, ids, inmemory = case
	folder = newfolder()
	files = prepared(fmt, ids, folder)
	disc = fmt != 'bracket'
	queries = [(a, nones(b)) for a, b in queriesfor(files, disc)]
	searcher = TS.FragmentSearcher(list(files), numproc=1, inmemory=inmemory)
	what0 = ' (%s%s)' % (case, '')
	with searcher:
		for n, (query, d) in enumerate(queries):
			if n % 3 == 2:  # several fragments
				other = queries[n - 2]
				query, ds = query + '\n' + other[0], [d, other[1]]
			else:
				ds = [d]
			for start, end in FSLICES if n % 5 == 0 else FSLICES[:3]:
				asking(searcher, query, ds, files, disc, start, end, rec,
						' for %r in sentences %s:%s%s' % (query, start, end,
							what0))
		texts = [a for a, _ in queries]
		for start, end in FSLICES:
			got = searcher.batchcounts(texts, start=start, end=end)
			rec.expect('batch of counts' + what0, [(a, list(b))
					for a, b in got], [(a, [len(findall(d, b, disc, start,
						end)) for _, d in queries])
						for a, b in files.items()])
		for a, items in files.items():
			idx = list(range(len(items), 0, -1))
			rec.expect('extracted trees' + what0, [(str(t), s) for t, s
					in searcher.extract(a, idx)], [(str(items[m - 1][0]),
						items[m - 1][1]) for m in idx])
			rec.expect('extracted sentences' + what0, searcher.extract(a, idx,
					sents=True), [' '.join(items[m - 1][1]) for m in idx])
			info = searcher.getinfo(a)
			sizes = [len(list(t.subtrees())) for t, _, _ in items]
			rec.expect('size' + what0, tuple(info), (len(items), sum(
					len(s) for _, s, _ in items), sum(sizes), max(sizes)))
	rec.state(case)
	rec.trace()
	gc.collect(0)


def asking(searcher, query, ds, files, disc, start, end, rec, what):
	rec.step(6)
	ref = OrderedDict((a, [findall(d, b, disc, start, end) for d in ds])
			for a, b in files.items())
	rec.expect('counts' + what, dict(searcher.counts(query, start=start,
			end=end)), {a: sum(map(len, b)) for a, b in ref.items()})
	rec.expect('indices' + what, {a: list(b) for a, b in searcher.counts(
			query, start=start, end=end, indices=True).items()},
			{a: [n for c in b for n, _ in c] for a, b in ref.items()})
	rec.expect('breakdown' + what, {a: dict(b) for a, b in searcher.counts(
			query, start=start, end=end, breakdown=True).items()},
			{a: {q: len(c) for q, c in zip(query.splitlines(), b)}
				for a, b in ref.items()})
	for a, b in ref.items():
		items = files[a]
		for limit in (None, 1, 2, 1, 100):
			want = [(n, node, m) for m, c in enumerate(b) for n, node in c]
			# order of matches in a sentence is undefined
			for brackets in (True, False):
				got = list(searcher.sents(query, [a], start, end, limit,
						brackets))
				compare('sents' + what, got, [result1(a, n, items, node, ds[m],
						brackets, disc) for n, node, m in want],
						[(m, n) for n, _, m in want], limit, rec)
			got = list(searcher.trees(query, [a], start, end, limit))
			compare('trees' + what, [(a, n, str(t), tuple(s), leaves(high))
					for a, n, t, s, high in got],
					[(a, n, str(items[n - 1][0]), tuple(items[n - 1][1]),
						leaves(list(node.subtrees()) + node.leaves()))
						for n, node, m in want],
					[(m, n) for n, _, m in want], limit, rec)
	got = [(a, sorted(map(repr, (plain(c) for c in b))))
			for a, b in searcher.batchsents(query.splitlines(), None, start,
			end, None)]
	want = [(a, sorted(repr(plain(result1(a, n, files[a], node, ds[m], False,
			disc)[1:])) for m, c in enumerate(b) for n, node in c))
			for a, b in ref.items()]
	rec.expect('batch of sentences' + what, got, want)


def plain(a):
	return tuple(sorted(b) if isinstance(b, (set, frozenset, range)) else b
			for b in a)


def leaves(high):
	return (sorted(a for a in high if isinstance(a, int)),
			sorted(str(a) for a in high if not isinstance(a, int)))


def result1(filename, n, items, node, d, brackets, disc):
	tree, sent, _ = items[n - 1]
	if brackets:
		return (filename, n, absolute(tree, sent, disc),
				absolute(node, sent, disc), '')
	words = set()

	def collect(d):
		if not isinstance(d, str):
			if d[0][0][1] == 'Epsilon':
				words.add(d[0][1][0])
			else:
				for a in d[1]:
					collect(a)
	collect(d)
	# words of the fragment, and all words of the matching subtree
	return (filename, n, ' '.join(sent), chars(sent, [a for a in node.leaves()
			if sent[a] in words]), chars(sent, node.leaves()))


def chars(sent, idx):
	"""Indices of characters of words, and the following space."""
	result = set()
	pos = 0
	for n, a in enumerate(sent):
		if n in idx:
			result.update(range(pos, pos + len(a)
					+ (1 if n < len(sent) - 1 else 0)))
		pos += len(a) + 1
	return result


def compare(what, got, want, order, limit, rec):
	"""Matches in the same sentence can be in any order."""
	got, want = [repr(plain(a)) for a in got], [repr(plain(a)) for a in want]
	if limit is None or limit >= len(want):
		rec.expect(what, sorted(got), sorted(want))
		rec.expect('order of ' + what, blocks(got, order),
				blocks(want, order))
	else:
		rec.expect('number of ' + what, len(got), limit)
		last = order[limit - 1]
		sure = [a for a, b in zip(want, order) if b < last]
		maybe = Counter(a for a, b in zip(want, order) if b == last)
		rec.expect('first %d %s' % (limit, what), sorted(got[:len(sure)]),
				sorted(sure))
		if Counter(got[len(sure):]) - maybe:
			rec.fail('unexpected match among first %d %s: %s; should be among '
					'%s' % (limit, what, got[len(sure):], list(maybe)))


def blocks(seq, order):
	result = []
	for n, a in enumerate(seq):
		if n == 0 or order[n] != order[n - 1]:
			result.append([])
		result[-1].append(a)
	return [sorted(a) for a in result]


# --- indexed files -----------------------------------------------------------
def gen_index(tier):
	steps = [('open', a) for a in ((0, ), (1, ), (0, 1), (1, 0), (0, 2),
			(0, 1, 2))] + [('change', 0), ('change', 1)]
	num = 3 if tier == 'quick' else 4
	for kind in ('regex', 'frag', 'mixed'):
		for n in range(1, num + 1):
			for seq in product(steps, repeat=n):
				if seq[-1][0] == 'open' and ('open', ) != tuple(
						a for a, _ in seq):
					yield kind, seq


def index(case, rec):
	"""Indexed files are updated when the files or list of files change."""
	kind, seq = case
	folder = newfolder()
	what = ' (%s)' % (case, )
	files, contents = [], []
	for n in range(3):
		if kind == 'regex':
			files.append(put(folder, '%d.txt' % n, TEXTS[n]))
			contents.append(TEXTS[n])
		else:
			fmt = 'bracket' if kind == 'frag' or n == 0 else 'discbracket'
			files.append(os.path.join(folder, '%d.%s' % (n, EXT[fmt])))
			contents.append(())
			update(files, contents, n, BANKS[n][:2])
	for step, arg in seq:
		rec.step()
		if step == 'change':
			if kind == 'regex':
				new = {0: 'c\n\nab\nb ab\n', 1: 'ab\nc\nab\n'}[arg]
				if contents[arg] == new:
					new = TEXTS[arg]
				put(folder, '%d.txt' % arg, new)
				contents[arg] = new
			else:
				new = BANKS[3] if contents[arg] != BANKS[3] else BANKS[arg]
				update(files, contents, arg, new)
			continue
		names = [files[n] for n in arg]
		if kind == 'regex':
			with TS.RegexSearcher(names, numproc=1) as searcher:
				for q in ('ab', 'b'):
					got = searcher.counts(q, indices=True)
					rec.expect('indices of %s%s' % (q, what), {a: list(b)
							for a, b in got.items()}, {files[n]: [a for a, _,
								_, _ in regexref(contents[n], q)]
								for n in arg})
		else:
			disc = any(not a.endswith('mrg') for a in names)
			with TS.FragmentSearcher(names, numproc=1,
					inmemory=len(seq) % 2 == 0) as searcher:
				for q in ('(A (X ) (Y b))', '(X a)', '(Y b)', '(B x)', '(C y)',
						'(Y "b")'):
					d = nones(F.wanted(q, False))
					got = searcher.counts(q, indices=True)
					want = {files[n]: [a for a, _ in findall(d, [(None, None,
							c) for c in derivs(contents[n])], disc)]
							for n in arg} if False else {files[n]: [
								m for m, c in enumerate(derivs(contents[n]), 1)
								for _, sub in F.occurrences(c)
								if matching(d, sub)] for n in arg}
					rec.expect('indices of %s%s' % (q, what), {a: list(b)
							for a, b in got.items()}, want)
				for n in arg:
					rec.expect('sentences' + what, searcher.extract(files[n],
							range(1, len(contents[n]) + 1), sents=True),
							[F.TREES[a][1] for a in contents[n]])
	rec.state(case)
	rec.trace()
	gc.collect(0)


def derivs(ids):
	result = []
	for i in ids:
		if ('deriv', i) not in F.CACHE:
			tree = binarize(handledisc(ParentedTree(F.TREES[i][0])), dot=True)
			F.CACHE['deriv', i] = dop.derivation(gen.totuple(tree),
					F.TREES[i][1].split())
		result.append(F.CACHE['deriv', i])
	return result


def update(files, contents, n, ids):
	fmt = 'bracket' if files[n].endswith('mrg') else 'discbracket'
	os.rename(F.makebank(ids, fmt)[0], files[n])
	contents[n] = ids


# --- auxiliary functions -----------------------------------------------------
def gen_aux(tier):
	n = 6 if tier == 'quick' else 7
	for limit in range(0, 4):
		for a in product(range(6), repeat=n):
			yield 'fifo', limit, a
	for n in range(1, 6):
		for high in product((0, 1, 2), repeat=n):
			yield 'highlight', n, high
	for words in product(('a', 'bcd', '\u00e9'), repeat=3):
		yield 'chars', words, None
	for a in LABELS:
		for b in LABELS:
			yield 'labels', a, b


LABELS = ['NP', 'NP-SBJ', 'NP-SBJ-1', 'N[case=nom]', 'N[case=nom]-HD', 'V/x',
		'NP*2', 'NP-SBJ*0']


def auxiliary(case, rec):
	kind, a, b = case
	if kind == 'fifo':
		# set keys 0-2, or look up
		cache = TS.FIFOOrederedDict(a)
		order, values = [], {}
		for n, op in enumerate(b):
			if op < 3:
				cache[op] = n
				if a:
					if op in order:
						order.remove(op)
					elif len(order) == a:
						order.pop(0)
					order.append(op)
					values[op] = n
			else:
				rec.expect('value in cache %s' % (case, ), cache.get(op - 3),
						values[op - 3] if op - 3 in order else None)
		rec.expect('cache %s' % (case, ), list(cache.items()),
				[(x, values[x]) for x in order])
	elif kind == 'highlight':
		sent = 'vwxyz'[:a]
		high1 = {n for n, x in enumerate(b) if x == 1}
		high2 = {n for n, x in enumerate(b) if x == 2}
		for reset in (False, True):
			got = TS.applyhighlight(sent, high1, high2 | high1, reset=reset)
			rec.expect('highlighted %s' % (b, ), screen(got), [
					(x, {0: None, 1: 'red', 2: 'blue'}[n])
					for x, n in zip(sent, b)])
	elif kind == 'chars':
		sent = list(a)
		for n in range(4):
			for idx in combinations(range(3), n):
				rec.expect('characters %s' % (a, ), TS.charindices(sent,
						set(idx)), chars(sent, idx))
				rec.expect('characters %s' % (a, ), TS.charindices(sent,
						set(idx), {0}), (chars(sent, idx), chars(sent, {0})))
	elif kind == 'labels':
		line = '(%s (%s 0=e-mail) (%s 1=well-to-do))' % (a, b, a)
		for nofunc in (True, False):
			for nomorph in (True, False):
				rec.expect('labels of ' + line, TS.filterlabels(line, nofunc,
						nomorph), '(%s (%s 0=e-mail) (%s 1=well-to-do))' % (
						filtered(a, nofunc, nomorph),
						filtered(b, nofunc, nomorph),
						filtered(a, nofunc, nomorph)))
	rec.step()
	rec.state(case)


def filtered(label, nofunc, nomorph):
	if nomorph:
		label = re.sub(r'\[.*\]', '', label)
	if nofunc:
		label = re.sub(r'-\w+', '', label)
	return label


def screen(text):
	"""Colors of characters according to ANSI codes."""
	color, result = None, []
	for a in re.findall('\x1b\\[[0-9;]*m|.', text):
		if a == '\x1b[0m':
			color = None
		elif a == '\x1b[31;1m':
			color = 'red'
		elif a == '\x1b[34;1m':
			color = 'blue'
		else:
			assert len(a) == 1, a
			result.append((a, color))
	assert color is None, text
	return result


# --- command line ------------------------------------------------------------
FRAGS = {'bracket': ['(A (X a) (Y ))', '(B x)', '(Z (B x) (C y))',
			'(A (A ) (Y ))'],
		'discbracket': ['(A (X 0=) (Y 2=))', '(X 0=a)', '(A (X 0=a) (Y 2=x))',
			'(Z 0=a)']}
RE = ['ab', '[ac]b?', 'nomatch', '(?:^| )ab']


def gen_cli(tier):
	modes = [('-c', ), ('-c', '--csv'), ('-c', '--breakdown'),
			('-c', '--breakdown', '--csv'), ('--indices', ),
			('-c', '--indices')]
	flags = [tuple(a for n, a in enumerate(('-o', '-n', '-h')) if m >> n & 1)
			for m in range(8)]
	modes += [('-s', ) + a for a in flags] + [(), ('-s', '--breakdown')]
	trees = [('-t', ) + a for a in flags] + [('-b', ) + a for a in flags] + [
			('-t', '--breakdown'), ('-b', '--breakdown')]
	for kind in ('bracket', 'discbracket', 'regex'):
		for num in (1, 2):
			for qs in ((0, ), (1, ), (2, ), (0, 1), (1, 3), (2, 0, 1)):
				for mode in modes + (trees if kind != 'regex' else []):
					for slice in (None, '2:3', ':2', '2:', '9:'):
						for limit in (None, '1', '2', '0'):
							if limit and (slice or '-c' in mode
									or '--indices' in mode) and (
									tier == 'quick'):
								continue
							for extra in ((), ('-f', ), ('-M', ), ('-i', )):
								if extra == ('-i', ) and kind != 'regex' or (
										extra and tier == 'quick'
										and (limit or slice)):
									continue
								yield kind, num, qs, mode, slice, limit, extra


def clifiles(kind, num):
	"""Create files once; return {filename: contents}."""
	if ('cli', kind) not in F.CACHE:
		folder = scratch.path('searchcli' + kind)
		os.mkdir(folder)
		if kind == 'regex':
			files = OrderedDict((put(folder, '%d.txt' % n, TEXTS[n]), TEXTS[n])
				for n in (0, 2))
		else:
			files = prepared(kind, (0, 1) if kind == 'bracket' else (4, 5),
					folder)
		F.CACHE['cli', kind] = files
	files = F.CACHE['cli', kind]
	return OrderedDict(list(files.items())[:num])


def commandline(case, rec):
	kind, num, qs, mode, slc, limit, extra = case
	what = ' %s' % (case, )
	files = clifiles(kind, num)
	queries = [(RE if kind == 'regex' else FRAGS[kind])[n] for n in qs]
	several = len(queries) > 1
	if several and '--indices' in mode or (several and kind == 'regex'
			and '-c' in mode and '--breakdown' in mode):
		return
	disc = kind == 'discbracket'
	given = list(queries)
	args = list(mode) + ['--numproc=1']
	if '-M' in extra:
		given[0] = '{name}' if kind == 'regex' else '(%s{name}' % (
				given[0][1])
		args.append('--macros=' + scratch.write('macros', 'other=x\nname=%s\n'
				% (queries[0] if kind == 'regex' else queries[0][2:])))
	if '-i' in extra:
		args.append('-i')
	if kind == 'regex':
		args.extend(['-e', 'regex'])
	if slc:
		args.append('--slice=' + slc)
	if limit:
		args.append('-m' + limit)
	if '-f' in extra:
		args.append('-f')
		query = scratch.write('queries', '\n'.join(given) + '\n')
	else:
		query = '\n'.join(given)
	start, end = [int(a) if a else None for a in (slc or ':').split(':')]
	flags = re.IGNORECASE if '-i' in extra else 0
	# reference: a list for each file and query of (sentence, node / match)
	if kind == 'regex':
		ref = OrderedDict((a, [regexref(b, q, flags, start, end)
				for q in queries]) for a, b in files.items())
	else:
		ds = [nones(F.wanted(q, disc)) for q in queries]
		ref = OrderedDict((a, [findall(d, b, disc, start, end) for d in ds])
				for a, b in files.items())

	def main(argv):
		sys.argv, saved = argv, sys.argv
		try:
			TS.main()
		finally:
			sys.argv = saved
	error, out, err = run.captured(main, ['discodop', 'treesearch'] + args + [
			query] + list(files))
	rec.step()
	rec.trace()
	rec.state(case)
	what = ' %s %s: %s' % (case, queries, err[-300:])
	if not rec.expect('error' + what, error, None):
		return
	lines = out.decode('utf8').replace('\r\n', '\n').split('\n')
	rec.outcome(tuple(lines))
	rec.expect('last line' + what, lines.pop(), '')
	prefix = num > 1 and '-h' not in mode
	if '-c' in mode or '--indices' in mode:
		return clicounts(lines, mode, files, given, ref, kind, rec, what)
	maxresults = {None: 100, '0': None}.get(limit, int(limit or 0))
	if '--breakdown' in mode:
		if maxresults in (1, 2):
			return  # could be any of the matches
		return clibreakdown(lines, mode, files, ds if kind != 'regex' else
				None, ref, kind, rec, what)
	want = []
	for a, b in ref.items():
		for n, c in enumerate(b):
			# in the same sentence any order, if more than one fragment
			for m in c:
				want.append((a, n, m))
	if '-t' in mode:
		text = '\n'.join(lines)
		blocks = clitrees(want, files, mode, prefix)
		if maxresults not in (1, 2):
			rec.expect('number of characters' + what, len(text),
					sum(map(len, blocks)) + max(0, len(blocks) - 1))
			for a in set(blocks):
				if text.count(a) < blocks.count(a):
					rec.fail('missing tree:\n%s\n\nin:\n%s%s' % (
							a, text, what))
		elif not blocks:
			rec.expect('no trees' + what, text, '')
		return
	got = [clicolors(a) for a in lines]
	match = '-o' in mode
	expected = []
	for a, n, m in want:
		line = []
		if prefix:
			line += [(x, 'magenta') for x in a] + [(':', None)]
		if '-n' in mode:
			line += [(x, 'green') for x in str(m[0])] + [(':', None)]
		if kind == 'regex':
			_, sent, s, e = m
			high1, high2 = set(range(s, e)), set()
		else:
			_, _, sent, high1, high2 = result1(a, m[0], files[a], m[1], ds[n],
					'-b' in mode, disc)
		if '-b' in mode:
			if match:
				line += [(x, None) for x in high1]
			else:
				pos = 0
				while pos < len(sent):
					if sent.startswith(high1, pos):
						line += [(x, 'red') for x in high1]
						pos += len(high1)
					else:
						line.append((sent[pos], None))
						pos += 1
		elif match:
			line += [(x, None) for y, x in enumerate(sent)
					if y in (high2 or high1)]
		else:
			line += [(x, 'red' if y in high1 else 'blue' if y in high2
					else None) for y, x in enumerate(sent)]
		expected.append((a, n, line))
	if maxresults is None or maxresults >= 100:
		rec.expect('output' + what, sorted(map(repr, got)), sorted(repr(a)
				for _, _, a in expected))
	else:
		# this many matches for each file and query
		groups = OrderedDict()
		for a, n, line in expected:
			groups.setdefault((a, n), []).append(repr(line))
		rec.expect('number of results' + what, len(got), sum(min(maxresults,
				len(a)) for a in groups.values()))
		pos = 0
		for key, group in groups.items():
			size = min(maxresults, len(group))
			part = list(map(repr, got[pos:pos + size]))
			pos += size
			if Counter(part) - Counter(group):
				rec.fail('unexpected results: %s, expected: %s%s' % (
						part, group, what))


def clicounts(lines, mode, files, queries, ref, kind, rec, what):
	if '--breakdown' in mode:
		if kind == 'regex':
			table = OrderedDict((a, Counter(line[m:n] for _, line, m, n
					in b[0])) for a, b in ref.items())
		else:
			table = OrderedDict((a, dict(zip(queries, map(len, b))))
					for a, b in ref.items())
	else:
		table = OrderedDict((a, dict(zip(queries, map(len, b))))
				for a, b in ref.items())
	if '--csv' in mode:
		rows = list(csv.reader(io.StringIO('\n'.join(lines), newline='')))
		if '--breakdown' in mode:
			header = ['filename'] + sorted({c for b in table.values()
					for c in b})
		else:
			header = ['filename'] + queries
		rec.expect('table' + what, rows, [header] + [[a] + [str(b.get(c, 0))
				for c in header[1:]] for a, b in table.items()])
	elif '--breakdown' in mode or len(queries) > 1:
		got, new = [], True
		for line in lines:
			if new:
				got.append((line, []))
				new = False
			elif not line:
				new = True
			else:
				got[-1][1].append(line)
		rec.expect('counts' + what, [(a, sorted(b)) for a, b in got],
				[(a, sorted('%s\t%d' % c for c in b.items() if c[1]))
				for a, b in table.items()])
	else:
		rec.expect('counts' + what, lines, [
				('\x1b[35m%s\x1b[0m:' % a if len(files) > 1 else '')
				+ str([c[0] for c in b[0]] if '--indices' in mode
				else len(b[0])) for a, b in ref.items()])


def clibreakdown(lines, mode, files, ds, ref, kind, rec, what):
	if '-t' in mode:
		text = '\n'.join(lines)
		got = re.findall(r'count: +(\d+)\n(.*?)\n\n(?:\n|$)', text + '\n\n',
				flags=re.DOTALL)
		want = OrderedDict()
		for a, b in ref.items():
			for c in b:
				for m, node in c:
					sent = files[a][m - 1][1]
					key = dop.derivation(gen.totuple(renumbered(node)),
							[sent[x] for x in sorted(node.leaves())])
					draw = flat(DrawTree(node, sent).text(unicodelines=True,
							ansi=True))
					want.setdefault((key, tuple(relative(node))), []).append(
							draw)
		rec.expect('number of trees' + what, len(got), len(want))
		rest = list(want.values())
		for cnt, draw in got:
			draw = flat(draw)
			for n, a in enumerate(rest):
				if draw in a and int(cnt) == len(a):
					rest.pop(n)
					break
			else:
				rec.fail('unexpected tree %s times:\n%r%s %r' % (cnt, draw, what, rest))
		rec.expect('sorted by count' + what, [int(a) for a, _ in got],
				sorted((int(a) for a, _ in got), reverse=True))
		return
	want = Counter()
	for a, b in ref.items():
		for n, c in enumerate(b):
			for m in c:
				if kind == 'regex':
					want[spaced(m[1], set(range(m[2], m[3])))] += 1
				else:
					_, _, sent, high1, high2 = result1(a, m[0], files[a], m[1],
							ds[n], '-b' in mode, kind == 'discbracket')
					want[high1 if '-b' in mode else spaced(sent,
							high1 | high2)] += 1
	rec.expect('breakdown' + what, sorted(lines), sorted('%5d %s' % (b, a)
			for a, b in want.items()))
	rec.expect('sorted by count' + what, [int(a.split()[0]) for a in lines],
			sorted((int(a.split()[0]) for a in lines), reverse=True))


def flat(text):
	return '\n'.join(x.rstrip() for x in text.rstrip('\n').split('\n'))


def spaced(sent, high):
	return re.sub(' {2,}', ' ... ', ''.join(a if n in high else ' '
			for n, a in enumerate(sent)))


def renumbered(node):
	"""Copy of node with consecutive indices."""
	idx = {a: n for n, a in enumerate(sorted(node.leaves()))}

	def copy(a):
		return a.__class__(a.label, [copy(b) if isinstance(b, Tree) else idx[b]
				for b in a])
	return copy(node)


def relative(node):
	"""Positions of words, where all gaps have the same size."""
	result, last, new = [], None, 0
	for a in sorted(node.leaves()):
		if last is not None:
			new += 1 if a == last + 1 else 2
		result.append(new)
		last = a
	return result


def clitrees(want, files, mode, prefix):
	"""The expected drawings of trees."""
	result = []
	for a, _, (m, node) in want:
		tree, sent, _ = files[a][m - 1]
		high = list(node.subtrees()) + node.leaves()
		if '-o' in mode:
			tree = node
		block = ''
		if prefix:
			block += '\x1b[35m%s\x1b[0m:' % a
		if '-n' in mode:
			block += '\x1b[32m%d\x1b[0m:' % m
		if block:
			block += '\n'
		result.append(block + DrawTree(tree, sent, highlight=high).text(
				unicodelines=True, ansi=True))
	return result


def clicolors(text):
	names = {31: 'red', 32: 'green', 34: 'blue', 35: 'magenta'}
	color, result = None, []
	for a in re.findall('\x1b\\[[0-9;]*m|.', text):
		if a == '\x1b[0m':
			color = None
		elif a[0] == '\x1b':
			color = names[int(re.match('\x1b\\[([0-9]+)(?:;1)?m', a).group(1))]
		else:
			result.append((a, color))
	return result


SPACES = [
	core.Space('regex', gen_regex, regex, {
		'quick': '16 regular expressions, 9 texts, 17 slices, 5 limits',
		'thorough': '16 regular expressions, 9 texts, 17 slices, 5 limits; '
		'all in memory'}),
	core.Space('fragments', gen_fragments, fragments,
		'fragments from and not from 10 treebanks in 3 formats'),
	core.Space('history', gen_history, history, {
		'quick': 'all pairs of queries', 'thorough': 'triples'}),
	core.Space('index', gen_index, index, {
		'quick': 'all sequences of up to 3 steps: open a set of files, change '
		'a file', 'thorough': 'up to 4 steps'}),
	core.Space('commandline', gen_cli, commandline, {
		'quick': 'combinations of options for 3 types of files, 6 queries',
		'thorough': 'all combinations of options'}),
	core.Space('auxiliary', gen_aux, auxiliary, {
		'quick': 'sequences of 6 operations on caches, all highlights of 5 '
		'characters', 'thorough': 'sequences of 7 operations'}),
	]
ASSUMPTIONS = [
	'Regular expressions are matched per line with the re module.',
	'tgrep2 itself is not available.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C30', SPACES, ASSUMPTIONS))
