"""C05: text notations of trees can be read back without loss."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, combinations
from vlib import build, core, gen, scratch
build.activate('bit')
from discodop.tree import (Tree, ParentedTree, ImmutableTree,  # noqa: E402
		ImmutableParentedTree, brackettree, discbrackettree, writebrackettree,
		writediscbrackettree, escape, unescape, ptbescape, ptbunescape)
from discodop.treebank import (BracketCorpusReader,  # noqa: E402
		DiscBracketCorpusReader, writetree)
scratch.folder()

CLASSES = (Tree, ParentedTree, ImmutableTree, ImmutableParentedTree)
WORDS = ('a', '(', ')', 'x(y)z', None, '0', '1=2', '=', '#', '/', '&amp;',
		'%%', '"', '\xe9', '-LRB-', '0=a', 'A|<B>', '\u3042', '()', '12')
LABELS = ('NP', 'A|<B,C>', '0', 'NP-SBJ', '1=x', '$.', '#x', '-X', '=', '\xc9',
		'NP=2', 'X*0', '@', ';')


def sig(tree):
	return gen.totuple(tree)


def linked(tree):
	"""All parent pointers are right."""
	for a in tree.subtrees():
		for b in a:
			if isinstance(b, Tree) and b.parent is not a:
				return False
	return tree.parent is None


# --- readers and writers ----------------------------------------------------

def roundtrip(case, rec):
	t, sent = case
	sent = list(sent)
	tree = gen.build(ParentedTree, t)
	orig = gen.canon(t)
	n = len(sent)
	dbl = writediscbrackettree(tree, sent)
	rec.expect('discbracket has one line', dbl.count('\n'), 1)
	rec.expect('writetree discbracket', writetree(tree, sent, '1',
			'discbracket'), dbl)
	for what, func in (('brackettree', brackettree),
			('discbrackettree', discbrackettree)):
		got, gotsent = func(dbl)
		rec.expect('%s of discbracket' % what, (sig(got), gotsent), (t, sent))
		rec.expect('parents', linked(got), True)
		rec.step()
	got, gotsent = discbrackettree(
			writediscbrackettree(tree, sent, pretty=True))
	rec.expect('pretty discbracket', (sig(got), gotsent), (t, sent))
	fname = scratch.write('a.dbr', dbl + writetree(tree, sent, '2',
			'discbracket', comment='a (b c) 0=d'))
	items = list(DiscBracketCorpusReader(fname).itertrees())
	rec.expect('discbracket corpus', [(k, sig(a.tree), a.sent, a.comment)
			for k, a in items],
			[(1, t, sent, None), (2, t, sent, 'a (b c) 0=d')])
	rec.step(3)
	if gen.leaves(t) == list(range(n)):
		brl = writebrackettree(tree, sent)
		rec.expect('bracket has one line', brl.count('\n'), 1)
		rec.expect('writetree bracket', writetree(tree, sent, '1', 'bracket'),
				brl)
		rec.expect('with sentence ID', writetree(tree, sent, 'k9', 'bracket',
				sentid=True), 'k9|' + brl)
		got, gotsent = brackettree(brl, detectdisc=False)
		rec.expect('brackettree of bracket', (sig(got), gotsent), (t, sent))
		if not all(w is not None and w[:1].isdigit() and '=' in w
				for w in sent):
			got, gotsent = brackettree(brl)
			rec.expect('brackettree, detect', (sig(got), gotsent), (t, sent))
		fname = scratch.write('a.mrg', brl + brl)
		items = list(BracketCorpusReader(fname).itertrees())
		rec.expect('bracket corpus', [(k, sig(a.tree), a.sent)
				for k, a in items], [(1, t, sent), (2, t, sent)])
		rec.step(3)
	rec.outcome(dbl)
	rec.state(orig)
	rec.trace()


def gen_round(tier):
	# all shapes with plain words and labels
	for n in range(1, 7 if tier == 'quick' else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 5 else 0,
				labels=('NP', )):
			yield t, tuple('abcdefg'[:n])
	# all orders of children for small trees
	for n in range(1, 4):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', )):
			for u in orders(t):
				if u != t:
					yield u, tuple('abc'[:n])
	# every assignment of odd words, tags and labels to small trees
	words = WORDS
	for n in (1, 2, 3):
		shapes = list(gen.sentencetrees(n, True, 1 if n < 3 else 0,
				labels=('NP', )))
		for t in shapes:
			for sent in product(words if n < 3 or tier != 'quick'
					else words[:7], repeat=n):
				if sent[-1] is not None or True:
					yield t, sent
			for lab in LABELS:
				for which in range(len(list(gen.nodes(t)))):
					yield relabel(t, which, lab), tuple('abc'[:n])
	for t in gen.large(gen.MANY):
		yield t, tuple('w%d' % a for a in range(len(gen.leaves(t))))


def relabel(t, which, lab):
	cnt = [0]

	def rec(a):
		if not isinstance(a, tuple):
			return a
		mine = cnt[0]
		cnt[0] += 1
		return (lab if mine == which else a[0], ) + tuple(map(rec, a[1:]))
	return rec(t)


def orders(t):
	"""All child orders."""
	from itertools import permutations
	if not isinstance(t, tuple):
		yield t
		return
	for kids in product(*[list(orders(a)) for a in t[1:]]):
		for perm in permutations(kids):
			yield (t[0], ) + perm


# --- generic notation --------------------------------------------------------

def mapped(label, leaf):
	def rec(t):
		return (label(t[0]), ) + tuple(map(rec, t[1:])) if isinstance(
				t, tuple) else leaf(t)
	return rec


PARSERS = (
	(mapped(str, lambda a: -a), dict(parse_leaf=lambda a: -abs(int(a)))),
	(mapped(str, str), dict(parse_leaf=None)),
	(mapped(str, lambda a: 'w%d' % a),
		dict(parse_leaf=lambda a: 'w' + a.strip('w'))),
	(mapped(lambda a: a.lower() + '*', int), dict(
		parse_label=lambda a: a.lower() + '*')),
	(mapped(str, int), dict(label_pattern='[A-Za-z0-9-]+')),
	(mapped(str, int), dict(leaf_pattern='[0-9]+')),
	)


def oneline(line):
	"""Where a constituent with children on a single line ends."""
	n = 0
	for i, a in enumerate(line):
		n += {'(': 1, ')': -1}.get(a, 0)
		if n == 0 and a == ')':
			return 0 if line[i - 1] in ' (' or ' ' not in line.strip() \
					else i + 1
	return 0


def notation(case, rec):
	t = case
	for cls in CLASSES:
		tree = gen.build(cls, t)
		for text in [str(tree)] + [tree.pprint(margin=m, indent=i)
				for m in (1, 8, 20) for i in (0, 3)]:
			got = cls.parse(text)
			rec.expect('parse(%r)' % text, sig(got), t)
			rec.expect('class', all(type(a) is cls for a in got.subtrees()),
					True)
			rec.step()
		for m, i in product((1, 8, 12, 20), (0, 3)):
			text = tree.pprint(margin=m, indent=i)
			wide = [a for a in text.split('\n')[1:] if oneline(a) >= m]
			rec.expect('constituents beyond margin %d' % m, wide, [])
			if i + len(str(tree)) < m:
				rec.expect('on one line', text, str(tree))
		rec.expect('constructor', sig(cls(str(tree))), t)
		rec.expect('repr', sig(eval(repr(tree))), t)
		rec.expect('class', type(eval(repr(tree))), cls)
		for m in (1, 12, 99):
			rec.expect('brackets', cls.parse(tree.pprint(margin=m,
					brackets='[]').replace('[', '(').replace(']', ')')), tree)
		# user-defined leaves and labels
		for n, (func, args) in enumerate(PARSERS):
			if n < 3 and cls in CLASSES[2:]:  # leaves must be indices
				continue
			got = cls.parse(str(tree), **args)
			rec.expect('parse(%s)' % sorted(args), sig(got), func(t))
			rec.expect('class', all(type(a) is cls for a in got.subtrees()),
					True)
			for m in (1, 12, 99):
				# only strings and integers look the same again
				again = cls.parse(got.pprint(margin=m), **dict(args,
						parse_label=None))
				rec.expect('written', sig(again), sig(got))
			rec.step(2)
	rec.outcome(str(tree))
	rec.trace()


def gen_notation(tier):
	for size in range(1, 7 if tier == 'quick' else 8):
		for shape in gen.trees(size):
			yield gen.dress(shape, 'ABCDEFGHI', range(9))
			if size < 5:
				n, k = gen.numnodes(shape), gen.numleaves(shape)
				for labels in product(('', 'A', 'x-1', '0'), repeat=n):
					for leaves in product((0, 12), repeat=k):
						t = gen.dress(shape, labels, leaves)
						# an empty label before a leaf cannot be expressed
						if not any(a[0] == '' and len(a) > 1
								and not isinstance(a[1], tuple)
								for a in gen.nodes(t)):
							yield t


# --- malformed input ----------------------------------------------------------

def refparse(s):
	"""Recursive descent; returns nested tuple or None when malformed."""
	toks, i = [], 0
	while i < len(s):
		if s[i] in '()':
			toks.append(s[i])
			i += 1
		elif s[i].isspace():
			i += 1
		else:
			j = i
			while j < len(s) and not s[j].isspace() and s[j] not in '()':
				j += 1
			toks.append(s[i:j])
			i = j

	def node(p):
		# toks[p] == '('
		p += 1
		label = ''
		if p < len(toks) and toks[p] not in '()':
			label = toks[p]
			p += 1
		kids = []
		while p < len(toks):
			if toks[p] == ')':
				return (label, ) + tuple(kids), p + 1
			elif toks[p] == '(':
				kid, p = node(p)
				if p is None:
					return None, None
				kids.append(kid)
			else:
				kids.append(int(toks[p]))
				p += 1
		return None, None
	if not toks or toks[0] != '(':
		return None
	t, p = node(0)
	return t if p == len(toks) else None


def problem(s):
	"""Position of the first token which cannot be part of a single tree."""
	depth = done = i = 0
	label = False
	while i < len(s):
		j = i + 1
		if s[i].isspace():
			pass
		elif s[i] == '(':
			if done and not depth:
				return i
			depth, label, done = depth + 1, True, True
			i = j
			continue
		elif s[i] == ')':
			if not depth:
				return i
			depth -= 1
			label = False
		else:
			while j < len(s) and not s[j].isspace() and s[j] not in '()':
				j += 1
			if not depth:
				return i
			if not label and not s[i:j].isdigit():
				return None  # an invalid number
			label = False
		i = j
	return len(s) if depth or not done else None


def malformed(case, rec):
	try:
		want = refparse(case)
	except ValueError:  # leaf is not a number
		want = None
	for cls in (Tree, ParentedTree):
		try:
			got = sig(cls.parse(case))
		except ValueError as err:
			got = None
			where = problem(case)
			if where is not None:
				rec.expect('position of error in %r' % case,
						'at index %d.' % where in str(err)
						and str(err).startswith(cls.__name__ + '.')
						and str(err).endswith(case), True)
		rec.expect('parse(%r)' % case, got, want)
		rec.step()
	rec.outcome(want)
	rec.trace()


def gen_malformed(tier):
	for n in range(1, 9 if tier == 'quick' else 10):
		for s in product('() 1', repeat=n):
			yield ''.join(s)
	for n in range(1, 6 if tier == 'quick' else 7):
		for s in product(('(', ')', '\n', 'A', '2', '\t'), repeat=n):
			if 'A' in s or '\n' in s or '\t' in s:
				yield ''.join(s)


# --- white space ---------------------------------------------------------------

def spaces(case, rec):
	t, ws = case
	n = len(gen.leaves(t))
	words = ['w%d' % a for a in range(n)]

	def show(a, fmt):
		if not isinstance(a, tuple):
			return '%d=%s' % (a, words[a]) if fmt else words[a]
		if isinstance(a[1], tuple):
			return '(%s%s%s%s)' % (a[0], ws[0], ws[1].join(
					[show(b, fmt) for b in a[1:]]), ws[2])
		return '(%s %s)' % (a[0], show(a[1], fmt))
	for fmt in (True, False):
		if not fmt and gen.leaves(t) != list(range(n)):
			continue
		text = show(t, fmt)
		got, sent = brackettree(text)
		rec.expect('brackettree(%r)' % text, (sig(got), sent), (t, words))
		if '\n' not in text and '\t' not in text:
			cls = DiscBracketCorpusReader if fmt else BracketCorpusReader
			fname = scratch.write('b', text + '\n')
			rec.expect('reader %r' % text, [(sig(a.tree), a.sent)
					for _, a in cls(fname).itertrees()], [(t, words)])
		rec.step(2)
	rec.outcome(text)
	rec.trace()


def gen_spaces(tier):
	opts = (' ', '  ', '\n', '\t ')
	for n in range(1, 4):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', )):
			for a in opts:
				for b in opts:
					for c in ('', ' ', '\n', '  '):
						yield t, (a, b, c)


# --- escaping ------------------------------------------------------------------

PIECES = ('(', ')', '[', ']', '{', '}', '/', 'a', '-', '=', '#', '\\')


def escaping(case, rec):
	word = case
	esc = escape(word)
	rec.expect('no bracket left', '(' in esc or ')' in esc, False)
	rec.expect('unescape', unescape(esc), word)
	esc = ptbescape(word)
	rec.expect('no bracket left (ptb)', any(a in esc for a in '()')
			or esc in tuple('[]{}'), False)
	rec.expect('ptbunescape', ptbunescape(esc), word)
	rec.step(2)
	rec.outcome(esc)
	rec.trace()


def gen_escaping(tier):
	for n in range(1, 6 if tier == 'quick' else 7):
		for s in product(PIECES, repeat=n):
			yield ''.join(s)


# --- whole corpora -------------------------------------------------------------

def corpora(case, rec):
	"""Numbering, order, ranges, several files, blank lines."""
	fmt, files, blank = case
	cls = DiscBracketCorpusReader if fmt == 'discbracket' \
			else BracketCorpusReader
	base = scratch.path('corpus')
	want, key = [], 0
	names = []
	for m, k in enumerate(files):
		lines = []
		for i in range(k):
			key += 1
			t = ('S', ('A', 0), ('B%d' % key, 1))
			sent = ['x%d' % key, 'y']
			want.append((key, t, sent))
			if blank and i == blank - 1:
				lines.append('\n')
			lines.append(writetree(gen.build(ParentedTree, t), sent, key, fmt))
		names.append('%s-%d.txt' % (base, [2, 10, 11][m]))
		with open(names[-1], 'w') as out:
			out.writelines(lines)
	try:
		pattern = base + '-*.txt'
		reader = cls(pattern)
		got = [(k, sig(a.tree), a.sent) for k, a in reader.itertrees()]
		rec.expect('itertrees', got, want)
		rec.expect('trees', [(k, sig(a)) for k, a in reader.trees().items()],
				[a[:2] for a in want])
		rec.expect('sents', list(reader.sents().items()),
				[(a, c) for a, _, c in want])
		rec.expect('tagged', list(reader.tagged_sents().items()),
				[(a, [(c[0], 'A'), (c[1], b[2][0])]) for a, b, c in want])
		rec.expect('blocks', [(k, (v.split())) for k, v
				in reader.blocks().items()],
				[(a, writetree(gen.build(ParentedTree, b), c, a, fmt).split())
				for a, b, c in want])
		for start in (None, 0, 1, 2, -1, -2, -5):
			for end in (None, 0, 1, 2, 5, -1, -2, -5):
				rec.expect('range %r:%r' % (start, end), [(k, sig(a.tree))
						for k, a in cls(pattern).itertrees(start, end)],
						[a[:2] for a in want[start:end]])
				rec.step()
	finally:
		for a in names:
			os.unlink(a)
	rec.outcome(got)
	rec.trace()


def flat(case, rec):
	"""Words and tags without the tree; identifiers; comments."""
	t, sent, comment = case
	sent = list(sent)
	tree = gen.build(ParentedTree, t)
	tags = dict((a[1], a[0]) for a in gen.nodes(t) if isinstance(a[1], int))
	tags = [tags[n] for n in range(len(sent))]
	want = {'tokens': ' '.join(sent), 'wordpos': ' '.join('%s/%s' % a
			for a in zip(sent, tags))}
	for fmt in ('tokens', 'wordpos', 'discbracket', 'bracket'):
		if fmt == 'bracket' and gen.leaves(t) != list(range(len(sent))):
			continue
		line = writetree(tree, sent, 'k7', fmt, comment=comment)
		if fmt in want:
			rec.expect(fmt, line, want[fmt] + '\n')
		rec.expect('%s with id' % fmt, writetree(tree, sent, 'k7', fmt,
				comment=comment, sentid=True), 'k7|' + line)
		rec.step()
		if fmt in want:
			continue
		reader = (DiscBracketCorpusReader if fmt == 'discbracket'
				else BracketCorpusReader)(scratch.write('a.txt', line))
		rec.expect('tagged sentences', list(reader.tagged_sents().items()),
				[(1, list(zip(sent, tags)))])
		rec.expect('sentences', list(reader.sents().items()), [(1, sent)])
		(_, item), = reader.itertrees()
		rec.expect('tree, words and comment', (sig(item.tree), item.sent,
				item.comment), (t, sent, comment
				if fmt == 'discbracket' else None))
	rec.expect('export with id', writetree(tree, sent, 'k7', 'export',
			sentid=True), writetree(tree, sent, 'k7', 'export'))
	rec.outcome(want['wordpos'])
	rec.trace()


def gen_flat(tier):
	for n in range(1, 5 if tier == 'quick' else 6):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0,
				labels=('NP', )):
			for t1 in gen.orders(t) if n < 4 else (t, ):
				yield t1, tuple('abcde'[:n]), None
			yield t, ('a/b', 'x=y', '\xe9', '//', 'b')[:n], 'x'
			for comment in ('a b', 'a\tb', '(x) 1=y', 'k|'):
				yield t, tuple('edcba'[:n]), comment


def gaps(case, rec):
	"""Trees of only part of a sentence."""
	t, sent = case
	present = gen.leaves(t)
	want = [w if n in present else None
			for n, w in enumerate(sent)][:max(present) + 1]
	dbl = writediscbrackettree(gen.build(ParentedTree, t), list(sent))
	for what, func in (('brackettree', brackettree),
			('discbrackettree', discbrackettree)):
		got, gotsent = func(dbl)
		rec.expect(what, (sig(got), gotsent), (t, want))
	fname = scratch.write('a.dbr', dbl)
	for _, item in DiscBracketCorpusReader(fname).itertrees():
		rec.expect('corpus', (sig(item.tree), item.sent), (t, want))
		again = writetree(item.tree, item.sent, '1', 'discbracket')
		rec.expect('rewritten', again, dbl)
	rec.outcome(dbl)
	rec.step(3)
	rec.trace()


def gen_gaps(tier):
	def drop(t, which):
		if not isinstance(t, tuple):
			return t if t not in which else None
		kids = [a for a in (drop(b, which) for b in t[1:]) if a is not None]
		return (t[0], ) + tuple(kids) if kids else None

	for n in range(2, 5 if tier == 'quick' else 6):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0,
				labels=('NP', )):
			for m in range(1, n):
				for which in combinations(range(n), m):
					yield drop(t, which), tuple('abcde'[:n])
	yield ('S', ('A', 10), ('B', ('C', 2), ('D', 12))), tuple(
			'abcdefghijklm')


def gen_corpora(tier):
	for fmt in ('bracket', 'discbracket'):
		for n in (1, 2, 3):
			for files in product((1, 2, 3), repeat=n):
				for blank in (0, 1, 2):
					yield fmt, files, blank


SPACES = [
	core.Space('roundtrip', gen_round, roundtrip, {
		'quick': 'fixed large shapes of 9-129 words; '
		'all trees over <=6 words (discontinuous, 1 unary), all '
		'child orders for <=3 words; 20 odd words^2 (7^3), 14 odd labels at '
		'every node for <=3 words',
		'thorough': 'all trees over <=7 words; 20 odd words^3'}),
	core.Space('gaps', gen_gaps, gaps, {
		'quick': 'all trees over <=4 words, all subsets of words left out',
		'thorough': '<=5 words'}),
	core.Space('flat', gen_flat, flat, {
		'quick': 'all trees over <=4 words, all child orders for <=3; 5 '
		'comments; as words, tagged words, with identifiers',
		'thorough': '<=5 words'}),
	core.Space('notation', gen_notation, notation, {
		'quick': 'all ordered trees with <=6 nodes and leaves, 4 classes, 7 '
		'layouts, 6 ways to handle labels and leaves; 4 labels and 2 leaves in all combinations up to size 4',
		'thorough': 'up to 7 nodes and leaves'}),
	core.Space('malformed', gen_malformed, malformed, {
		'quick': 'all strings over "() 1" up to length 8, and over '
		'"() A2 newline tab" up to length 5',
		'thorough': 'up to length 9 and 6'}),
	core.Space('whitespace', gen_spaces, spaces,
		'all trees over <=3 words with 4x4x4 kinds of white space'),
	core.Space('escaping', gen_escaping, escaping, {
		'quick': 'all words of up to 5 of 12 characters',
		'thorough': 'up to 6'}),
	core.Space('corpora', gen_corpora, corpora,
		'1-3 files with 1-3 trees each, blank lines, every range'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C05', SPACES))
