"""C07: the incremental reader finds exactly the trees in a stream."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen, scratch
build.activate('bit')
from discodop.tree import ParentedTree, brackettree  # noqa: E402
from discodop.treebank import (incrementaltreereader, writetree,  # noqa: E402
		NegraCorpusReader, AlpinoCorpusReader)
scratch.folder()


def read(lines, **kw):
	return [(t if t is None else gen.totuple(t), s, r)
			for t, s, r in incrementaltreereader(lines, **kw)]


def splitlines(text, endings):
	lines = text.split('\n')
	if endings:
		lines = [a + '\n' for a in lines[:-1]] + lines[-1:]
	if lines and not lines[-1]:
		lines.pop()
	return lines


# --- reference ------------------------------------------------------------------

def groups(text):
	"""Top-level bracketed groups: (start, end, depth)."""
	depth = maxdepth = 0
	start = None
	for i, a in enumerate(text):
		if a == '(':
			if depth == 0:
				start, maxdepth = i, 0
			depth += 1
			maxdepth = max(depth, maxdepth)
		elif a == ')' and depth:
			depth -= 1
			if depth == 0:
				yield start, i + 1, maxdepth


def parse(text):
	"""(tree, sent) of a group in bracket or discbracket notation."""
	toks = text.replace('(', ' ( ').replace(')', ' ) ').split()
	words = []
	disc = True

	def node(p):
		label = ''
		p += 1
		if toks[p] not in '()':
			label = toks[p]
			p += 1
		kids = []
		while toks[p] != ')':
			if toks[p] == '(':
				kid, p = node(p)
				kids.append(kid)
			else:
				kids.append(toks[p])
				p += 1
		return (label, ) + tuple(kids), p + 1
	t, _ = node(0)
	disc = all(a.split('=', 1)[0].isdigit() and '=' in a
			for a in gen.leaves(t))
	sent = {}

	def sub(a):
		if isinstance(a, tuple):
			return (a[0], ) + tuple([sub(b) for b in a[1:]])
		if disc:
			i, w = a.split('=', 1)
			sent[int(i)] = w
			return int(i)
		i = len(sent)
		sent[i] = a
		return i
	t = sub(t)
	return t, [sent[a] for a in range(len(sent))]


def reference(text, robust=True):
	found = [g for g in groups(text) if g[2] > 1 or not robust]
	result = []
	for n, (start, end, _) in enumerate(found):
		stop = found[n + 1][0] if n + 1 < len(found) else len(text)
		t, s = parse(text[start:end])
		result.append((t, s, text[end:stop].rstrip()))
	return result


# --- brackets -------------------------------------------------------------------

def brackets(case, rec):
	text = ''.join(case)
	want = reference(text)
	for endings in (True, False):
		lines = splitlines(text, endings)
		got = read(lines)
		rec.expect('trees (line endings: %r)' % endings,
				[a[:2] for a in got], [a[:2] for a in want])
		if endings and not any(g[2] == 1 and '\n' in text[g[0]:g[1]]
				for g in groups(text)):
			# text after a tree on the same line goes with that tree
			rec.expect('text after tree', [a[2].split('\n')[0].rstrip()
					for a in got], [a[2].split('\n')[0].rstrip()
					for a in want])
		other = read(lines, othertext=True)
		rec.expect('trees (othertext)', [a[:2] for a in other
				if a[0] is not None], [a[:2] for a in want])
		if endings:
			# text is not lost, unless in front of a tree on the same line
			rest = [a for a in ' '.join(a[2] for a in other).split()
					if a in SURE]
			must, may = outside(text)
			rec.expect('other text is lost', [a for a in must
					if a not in rest], [])
			rec.expect('other text %r' % rest, subseq(must, rest)
					and subseq(rest, may), True)
		rec.step(3)
	rec.outcome(got)
	rec.trace()


SURE = ('foo', 'bar')


def subseq(a, b):
	b = iter(b)
	return all(x in b for x in a)


def outside(text):
	"""Words that must and may be reported, in order."""
	masked = list(text)
	for start, end, depth in groups(text):
		if depth > 1:
			masked[start:end] = ['T' if a != '\n' else 'T\nT'
					for a in text[start:end]]
	must, may = [], []
	for line in ''.join(masked).split('\n'):
		may += [a for a in line.replace('T', ' ').split() if a in SURE]
		must += [a for a in line[line.rfind('T') + 1:].split() if a in SURE]
	return must, may


CHUNKS = ('(S (A x) (B y))', '\n', ' ', 'foo', '(S (NP (N z)) )',
		'(S (A 1=x) (B 0=y))', '(y)', 'x) ',
		'\t', 'bar')
SPLIT = ('(S', '\n', ' ', '(A x)', ')', '(S (B z) )')


def gen_brackets(tier):
	k = 5 if tier == 'quick' else 6
	for n in range(1, k + 1):
		for a in product(CHUNKS[:8] if n == k else CHUNKS, repeat=n):
			if any(x.startswith('(S') for x in a):
				yield a
	# trees over several lines: every way to break lines
	for n in range(1, 8 if tier == 'quick' else 9):
		for a in product(SPLIT, repeat=n):
			text = ''.join(a)
			if a[0][0] == '(' and text.count('(') == text.count(')') \
					and balanced(text):
				yield a


def balanced(text):
	depth = 0
	for a in text:
		depth += (a == '(') - (a == ')')
		if depth < 0:
			return False
	return depth == 0 and all(ok(g, text) for g in groups(text))


def ok(g, text):
	"""Every group is a proper tree, nodes have children."""
	if g[2] == 1:
		return True
	t, _ = parse(text[g[0]:g[1]])
	return all(len(a) > 1 and a[0] for a in gen.nodes(t))


# --- breaks at every white space ------------------------------------------------

def breaks(case, rec):
	t, fmt, kind = case
	n = len(gen.leaves(t))
	sent = ['w%d' % a for a in range(n)]
	text = writetree(gen.build(ParentedTree, t), sent, '1', fmt).strip()
	spaces = [i for i, a in enumerate(text) if a == ' '
			and text[i + 1] == '(']
	for choice in product((' ', '\n', '\n\n', '\n  '), repeat=len(spaces)) \
			if kind == 'all' else [('\n', ) * len(spaces)]:
		out = list(text)
		for i, a in zip(spaces, choice):
			out[i] = a
		one = ''.join(out)
		for endings in (True, False):
			got = read(splitlines(one + '\n' + one + '\n', endings))
			rec.expect('trees', [a[:2] for a in got], [(t, sent)] * 2)
			rec.step()
	rec.outcome(text)
	rec.trace()


def gen_breaks(tier):
	for n in range(1, 5 if tier == 'quick' else 7):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0,
				labels=('NP', )):
			fmts = ['discbracket'] + (['bracket'] if
					gen.leaves(t) == list(range(n)) else [])
			if n == 1 and gen.nodes(t) and len(list(gen.nodes(t))) < 2:
				continue
			for fmt in fmts:
				yield t, fmt, 'all' if n < 4 else 'one'


# --- export and alpino ------------------------------------------------------------

def blocks(case, rec):
	"""Sentences in one format, with other text in between."""
	fmt, parts = case
	want, text = [], []
	for n, a in enumerate(parts):
		if isinstance(a, str):
			text.append(a)
			continue
		sent = ['w%d' % b for b in range(len(gen.leaves(a)))]
		tree = gen.build(ParentedTree, a)
		text.append(writetree(tree, sent, str(n), fmt, comment='c%d' % n
				if fmt == 'export' else None))
		want.append((a, sent, 'c%d' % n if fmt == 'export' else str(n)))
	text = ''.join(text)
	if fmt == 'alpino':
		want = [(low(a), b, c) for a, b, c in want]
	for endings in (True, False):
		got = [(gen.canon(t), s, c) for t, s, c in
				read(splitlines(text, endings))]
		rec.expect('trees', got, [(gen.canon(t), s, c) for t, s, c in want])
		rec.step()
	got = read(splitlines(text, True), othertext=True)
	rec.expect('trees', [gen.canon(t) for t, _, _ in got if t is not None],
			[gen.canon(t) for t, _, _ in want])
	if fmt == 'export':
		fname = scratch.write('c7', text)
		rec.expect('corpus reader', [(gen.canon(gen.totuple(a.tree)), a.sent,
				a.comment) for _, a in NegraCorpusReader(fname).itertrees()],
				[(gen.canon(t), s, c) for t, s, c in want])
	rec.outcome(got)
	rec.trace()


def low(t):
	"""Alpino has upper case categories and lower case tags."""
	if not isinstance(t, tuple):
		return t
	if isinstance(t[1], tuple):
		return (t[0].upper(), ) + tuple([low(a) for a in t[1:]])
	return (t[0].lower(), t[1])


def gen_blocks(tier):
	ts = [t for n in (1, 2, 3) for t in gen.sentencetrees(n, True,
			1 if n < 3 else 0, labels=('NP', ), root='ROOT')]
	for t in ts:
		yield 'export', (t, )
		yield 'alpino', (t, )
	some = (ts[0], ts[-1])
	for fmt, texts in (('export', ('foo\n', '\n', '%% x\n', '#FORMAT 4\n',
				'#BOT WORDTAG\n0 Y NN (x (y))\n#EOT WORDTAG\n',
				'  bar\n')), ('alpino', ('foo\n', '\n', '  bar\n',
				'<?xml version="1.0" encoding="UTF-8"?>\n'))):
		for n in range(1, 5 if tier == 'quick' else 6):
			for parts in product(some + texts, repeat=n):
				if any(isinstance(a, tuple) for a in parts):
					yield fmt, parts


# --- options --------------------------------------------------------------------

def options(case, rec):
	"""Function tags and morphology, in the same way as the corpus readers."""
	t, fmt, functions, morphology = case
	sent = list('abc'[:len(gen.leaves(t))])
	tree = gen.build(ParentedTree, t)
	if fmt == 'export':
		for n, a in enumerate(tree.subtrees()):
			a.source = ['w', '--', a.label, '--' if a.children and isinstance(
					a[0], ParentedTree) else 'm%d' % n, 'F%d' % n, '0']
	text = writetree(tree, sent, '1', fmt)
	got = read(text.splitlines(True) * 2, functions=functions,
			morphology=morphology)
	if fmt == 'export':
		scratch.write('opts', text)
		want = NegraCorpusReader(scratch.path('opts'), functions=functions,
				morphology=morphology).trees().popitem()[1]
		want = gen.canon(gen.totuple(want))
	else:
		def cut(a):
			if not isinstance(a, tuple):
				return a
			label = a[0]
			for char in '-=':
				x = label.find(char)
				if x > 0 and functions == 'remove':
					label = label[:x]
			return (label, ) + tuple(map(cut, a[1:]))
		want = gen.canon(cut(t))
	rec.expect('trees', [(gen.canon(a[0]), a[1]) for a in got],
			2 * [(want, sent)])
	rec.outcome(want)
	rec.step()
	rec.trace()


def gen_options(tier):
	for fmt in ('bracket', 'discbracket', 'export'):
		for n in (1, 2, 3):
			for t in gen.sentencetrees(n, fmt != 'bracket', 1, labels=(
					'NP-X', '-Y', 'Z=2-B'), root='ROOT', pos=None):
				for functions in (None, 'leave', 'remove') + (
						('add', 'replace', 'between')
						if fmt == 'export' else ()):
					for m in (None, ) + (('add', 'replace', 'between')
							if fmt == 'export' else ()):
						if n + len(list(gen.nodes(t))) > 3:
							yield t, fmt, functions, m


SPACES = [
	core.Space('brackets', gen_brackets, brackets, {
		'quick': 'all streams of <=4 of 10 chunks, 5 of 8 chunks (trees, text, '
		'unmatched brackets, line ends); all balanced streams of <=7 of 6 tree parts',
		'thorough': 'one more chunk'}),
	core.Space('breaks', gen_breaks, breaks, {
		'quick': 'all trees over <=4 words; <=3 words: all combinations of 4 '
		'kinds of breaks',
		'thorough': 'all trees over <=6 words'}),
	core.Space('options', gen_options, options,
		'all trees over <=3 words, 3 formats, 6 function and 4 morphology '
		'options'),
	core.Space('blocks', gen_blocks, blocks, {
		'quick': 'all trees over <=3 words; all files of <=4 items from 2 '
		'trees and 4-5 other lines',
		'thorough': 'files of <=5 items'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C07', SPACES))
