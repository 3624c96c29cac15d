"""C06: treebank files in export and XML formats are read and written without
loss; functions, morphology and lemmas end up where they were asked for."""
import contextlib
import gzip
import io
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import combinations, product
from xml.etree import ElementTree
from xml.sax.saxutils import quoteattr, escape as xmlescape
from vlib import build, core, gen, scratch
build.activate('bit')
from discodop.tree import ParentedTree  # noqa: E402
from discodop.treebank import (NegraCorpusReader, writetree,  # noqa: E402
		exporttree, exportsplit, TigerXMLCorpusReader, AlpinoCorpusReader,
		DiscBracketCorpusReader, BracketCorpusReader, handlefunctions,
		AlpinoCompactCorpusReader, FTBXMLCorpusReader)
from discodop.treebank import handlemorphology  # noqa: E402
from discodop.util import (openread, readbytes, which,  # noqa: E402
		genericcompressor, genericdecompressor)
scratch.folder()
NOSRC = None
WORDS = ('a', '(', ')', 'x(y)', '#', '=', '--', '#4', '"', '\xe9', '%', '#x500',
		'0', '#50', '<&>')


# Nodes in this file: (label, source, child, ...); leaves are integers;
# source = (lemma, morph, func, secedges)  with secedges ((label, target), ...)
# where target is the pre-order number of a phrasal node.

def phrasal(t):
	"""Phrasal nodes below the root, pre-order."""
	return [a for a in allnodes(t)[1:] if isinstance(a[2], tuple)]


def allnodes(t):
	result = [t]
	for a in t[2:]:
		if isinstance(a, tuple):
			result += allnodes(a)
	return result


def leaves(t):
	return [t] if not isinstance(t, tuple) else [
			b for a in t[2:] for b in leaves(a)]


def plain(t):
	return (t[0], ) + tuple(plain(a) if isinstance(a, tuple) else a
			for a in t[2:])


def refexport(t, sent, key, comment=None, order=None):
	"""Independent writer of the export format; returns list of lines."""
	ph = phrasal(t)
	order = order or list(range(len(ph)))
	ids = {id(ph[a]): 500 + n for n, a in enumerate(order)}
	parent = {}
	for a in allnodes(t):
		for b in a[2:]:
			if isinstance(b, tuple):
				parent[id(b)] = a
	pre = {b[2]: b for b in allnodes(t) if not isinstance(b[2], tuple)}

	def line(first, a):
		lemma, morph, func, sec = a[1] or ('--', '--', '--', ())
		cols = [first, lemma, a[0], morph, func,
				str(ids.get(id(parent[id(a)]), 0))]
		for lab, target in sec:
			cols += [lab, str(ids[id(ph[target])])]
		return '\t'.join(cols)
	return (['#BOS %s%s' % (key, ' %% ' + comment if comment else '')]
			+ [line(w, pre[n]) for n, w in enumerate(sent)]
			+ [line('#%d' % ids[id(ph[a])], ph[a]) for a in order]
			+ ['#EOS %s' % key])


def full(tree):
	"""Tree object to canonical description, with sources and secondary edges
	expressed in terms of the yields of their targets."""
	byid = {}
	for a in tree.subtrees():
		if a is not tree and a.source and a.source[0].startswith('#') \
				and isinstance(a[0], ParentedTree):
			byid[a.source[0][1:]] = a

	def rec(a):
		if isinstance(a, int):
			return a
		src = ()
		if a is not tree:
			src = (a.source[1], a.source[3], a.source[4], tuple(
					(x, byid[y].label, tuple(sorted(byid[y].leaves()))
						if y in byid else y)
					for x, y in zip(a.source[6::2], a.source[7::2])))
		return (a.label, src) + tuple(sorted([rec(b) for b in a.children],
				key=key))
	return rec(tree)


def key(a):
	return min(leaves(a)), 0, 0


def wantfull(t):
	ph = phrasal(t)

	def rec(a, top):
		if not isinstance(a, tuple):
			return a
		src = ()
		if not top:
			lemma, morph, func, sec = a[1] or ('--', '--', '--', ())
			src = (lemma, morph, func, tuple((x, ph[y][0], tuple(sorted(
					leaves(ph[y])))) for x, y in sec))
		return (a[0], src) + tuple(sorted([rec(b, False) for b in a[2:]],
				key=key))
	return rec(t, True)


def read(text, cls=NegraCorpusReader, name='x.export', **kw):
	fname = scratch.write(name, text)
	return list(cls(fname, **kw).itertrees())


# --- export ------------------------------------------------------------------

def export(case, rec):
	t, sent, comment = case
	sent = list(sent)
	lines = refexport(t, sent, '7', comment)
	t = nobrackets(t)
	want = wantfull(t)
	nph = len(phrasal(t))
	texts = ['\n'.join(lines) + '\n']
	if nph > 1:  # other numbering
		texts.append('\n'.join(refexport(t, sent, '7', comment,
				list(range(nph))[::-1])) + '\n')
	if all(not a[1] or a[1][0] == '--' for a in allnodes(t)):
		# four columns and edges: no lemma
		texts.append('\n'.join([lines[0]] + ['\t'.join(a.split('\t')[:1]
				+ a.split('\t')[2:]) for a in lines[1:-1]]
				+ [lines[-1]]) + '\n')
	texts.append('#FORMAT 4\n%% word\n' + '\n'.join([lines[0]]
			+ [a + ' %% remark %% x' for a in lines[1:-1]]
			+ [lines[-1] + ' %% done'])
			+ '\n%% end\n')
	for text in texts:
		(k, item), = read(text)
		rec.expect('key', k, '7')
		rec.expect('tree', full(item.tree), want)
		rec.expect('sent', item.sent, sent)
		rec.expect('comment', item.comment, comment)
		rec.expect('children in order', [min(leaves(a)) for a in walk(
				item.tree)], sorted_order(item.tree))
		rec.step()
	# write what was read, and read that
	out = writetree(item.tree, item.sent, 'k2', 'export',
			comment=item.comment)
	(k, again), = read(out)
	rec.expect('written key', k, 'k2')
	rec.expect('written tree', (full(again.tree), again.sent, again.comment),
			(want, sent, comment))
	check_ids(out, rec)
	# unknown attributes
	for a in item.tree.subtrees():
		if a.source:
			a.source = [('' if b == '--' else b) if n in (1, 3, 4) else b
					for n, b in enumerate(a.source)]
	rec.expect('empty attributes', writetree(item.tree, item.sent, 'k2',
			'export', comment=item.comment), out)
	# a tree without sources
	tree = gen.build(ParentedTree, plain(t))
	out = writetree(tree, sent, 'k', 'export')
	(k, again), = read(out)
	rec.expect('fresh tree', (gen.canon(gen.totuple(again.tree)), again.sent),
			(gen.canon(plain(t)), sent))
	check_ids(out, rec)
	# nodes removed after reading: secondary edges to them are not written
	if any(a[1] and a[1][3] for a in allnodes(t)):
		for n, x in enumerate(phrasal(t)):
			(k, item), = read(texts[0])
			node, = [a for a in item.tree.subtrees() if a is not item.tree
					and a.source[0] == '#%d' % (500 + n)]
			parent = node.parent
			below = list(node)
			node[:] = []
			parent.remove(node)
			parent.extend(below)
			with contextlib.redirect_stderr(io.StringIO()):
				out = writetree(item.tree, item.sent, 'k', 'export')
			(k, again), = read(out)
			rec.expect('tree without node %s' % (plain(x), ),
					(full(again.tree), again.sent),
					(wantfull(without(t, n)), sent))
			rec.step()
	rec.step(2)
	rec.outcome(out)
	rec.trace()


def nobrackets(t):
	"""Parentheses have a meaning in other formats."""
	if not isinstance(t, tuple):
		return t
	return (t[0].replace('(', '[').replace(')', ']'), t[1]) + tuple(
			map(nobrackets, t[2:]))


def without(t, n):
	"""Splice out a phrasal node, with the secondary edges to it."""
	victim = phrasal(t)[n]

	def children(a):
		return [c for b in a[2:] for c in (children(b) if b is victim
				else [rec(b)])]

	def rec(a):
		if not isinstance(a, tuple):
			return a
		src = a[1] and a[1][:3] + (tuple((x, y - (y > n))
				for x, y in a[1][3] if y != n), )
		return (a[0], src) + tuple(children(a))
	return rec(t)


def check_ids(out, rec):
	"""Phrasal nodes numbered from 500 without gaps, children before their
	parents; words come first."""
	lines = out.splitlines()[1:-1]
	ids = [a.split('\t')[0] for a in lines]
	k = [i for i, a in enumerate(ids) if a[:1] == '#' and a[1:].isdigit()
			and len(a) == 4]
	rec.expect('node numbers', [ids[i] for i in k],
			['#%d' % (500 + i) for i in range(len(k))])
	for i in k:
		cols = lines[i].split('\t')
		if not (cols[5] == '0' or int(cols[5]) > int(cols[0][1:])):
			rec.fail('parent numbered before child: %s' % out)
	rec.expect('words first', k, list(range(len(ids) - len(k), len(ids))))


def walk(tree):
	return [gen_tuple(a) for a in tree.subtrees()]


def gen_tuple(a):
	if not hasattr(a, 'label'):
		return a
	return (a.label, None) + tuple([gen_tuple(b) for b in a.children])


def sorted_order(tree):
	"""First words of all nodes when all children come in order."""
	def rec(a):
		if not isinstance(a, tuple):
			return []
		kids = sorted(a[2:], key=lambda b: min(leaves(b)))
		return [min(leaves(a))] + [c for b in kids for c in rec(b)]
	return rec(gen_tuple(tree))


def source(t, fill):
	"""Add sources; fill(n, node) returns one."""
	cnt = [0]

	def rec(a):
		if not isinstance(a, tuple):
			return a
		n = cnt[0]
		cnt[0] += 1
		src = None if n == 0 else fill(n, a)
		if src and isinstance(a[1], tuple):  # no lemma
			src = ('--', ) + src[1:]
		return (a[0], src) + tuple([rec(b) for b in a[1:]])
	return rec(t)


def gen_export(tier):
	for n in range(1, 7 if tier == 'quick' else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 5 else 0,
				labels=('NP', ), root='ROOT'):
			yield source(t, lambda n, a: None), tuple('abcdefg'[:n]), None
			yield source(t, lambda n, a: ('l%d' % n, 'm%d' % n, 'F%d' % n,
					())), tuple('abcdefg'[:n]), 'c1 (x)'
	for t in gen.large((9, 10, 11, 12, 33, 65, 100, 101, 129)):
		sent = tuple('w%d' % a for a in range(len(gen.leaves(t))))
		t = ('ROOT', ) + t[1:]
		yield source(t, lambda n, a: None), sent, None
		yield source(t, lambda n, a: ('l%d' % n, 'm%d' % n, 'F%d' % n,
				())), sent, None
	# odd words, labels
	for n in (1, 2):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', ), root='ROOT'):
			for sent in product(WORDS, repeat=n):
				yield source(t, lambda n, a: None), sent, None
			for lab in ('A|<B,C>', '$.', 'NP-SBJ', '0', '=', '$,', '[', '#NP',
					'\xc9', '$(', '(A)(B'):
				for which in range(1, len(list(gen.nodes(t)))):
					yield source(relabel(t, which, lab), lambda n, a: None), \
							tuple('ab'[:n]), None
			for comment in ('a', '%', 'a %% b', '#BOS 1', 'a\tb', '1 2'):
				yield source(t, lambda n, a: None), tuple('ab'[:n]), comment
	# secondary edges: every source and target
	for n in (2, 3):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', ), root='ROOT'):
			total = len(list(gen.nodes(t)))
			targets = len([a for a in list(gen.nodes(t))[1:]
					if isinstance(a[1], tuple)])
			for src in range(1, total):
				for tgts in list(product(range(targets), repeat=1)) + (
						list(product(range(targets), repeat=2))):
					yield source(t, lambda n, a: ('--', 'm', 'F', tuple(
							('E%d' % i, x) for i, x in enumerate(tgts)))
							if n == src else None), tuple('abc'[:n]), None


def relabel(t, which, lab):
	cnt = [0]

	def rec(a):
		if not isinstance(a, tuple):
			return a
		mine = cnt[0]
		cnt[0] += 1
		return (lab if mine == which else a[0], ) + tuple(map(rec, a[1:]))
	return rec(t)


# --- options -------------------------------------------------------------------

FUNCTIONS = (None, 'leave', 'add', 'replace', 'remove', 'between')
MORPH = (None, 'no', 'add', 'replace', 'between')
LEMMAS = (None, 'no', 'add', 'replace', 'between')


def model(t, sent, functions, morphology, lemmas):
	"""Reference for the effect of the options."""
	sent = list(sent)

	def cut(label):
		for char in '-=':
			x = label.find(char)
			if x > 0:
				label = label[:x]
		return label

	def rec(a, top):
		label, src = a[0], a[1]
		lemma, morph, func, _ = src or ('--', '--', '--', ())
		kids = list(a[2:])
		if isinstance(kids[0], tuple):
			kids = [rec(b, False) for b in kids]
			added = []
		else:
			n = kids[0]
			morph = morph.replace('(', '[').replace(')', ']').replace(' ', '_')
			lemma = lemma.replace('(', '[').replace(')', ']').replace(' ', '_')
			if lemmas == 'add':
				sent[n] += '/' + lemma
			elif lemmas == 'replace':
				sent[n] = lemma
			elif lemmas == 'between':
				kids = [(cut(lemma) if functions == 'remove' else lemma, n)]
			if morphology == 'add':
				label = '%s/%s' % (label, morph)
			elif morphology == 'replace':
				label = morph
			elif morphology == 'between':
				kids = [(cut(morph) if functions == 'remove' else morph,
						kids[0])]
		result = None
		if functions == 'remove':
			label = cut(label)
		elif top:
			pass
		elif functions == 'add' and func != '--':
			label = '%s-%s' % (label, func)
		elif functions == 'replace':
			label = func
		elif functions == 'between':
			return ('-' + func, (label, ) + tuple(kids))
		return (label, ) + tuple(kids)
	return rec(t, True), sent


def options(case, rec):
	t, sent, functions, morphology, lemmas = case
	text = '\n'.join(refexport(t, list(sent), '1')) + '\n'
	(_, item), = read(text, functions=functions, morphology=morphology,
			lemmas=lemmas)
	want, wsent = model(t, sent, functions, morphology, lemmas)
	rec.expect('tree', gen.canon(gen.totuple(item.tree)), gen.canon(want))
	rec.expect('sent', item.sent, wsent)
	for a in item.tree.subtrees():
		for b in a:
			if isinstance(b, ParentedTree):
				rec.expect('parent', b.parent is a, True)
	rec.outcome(want)
	rec.step()
	rec.trace()


def gen_options(tier):
	fills = [
		lambda n, a: ('l(%d)' % n, 'm.(%d)' % n, 'F%d' % n, ()),
		lambda n, a: ('l-%d' % n, 'm=%d' % n, '--', ()),
		lambda n, a: ('--', '--', 'F-A' if n % 2 else '--', ())]
	for n in (1, 2, 3):
		for t in gen.sentencetrees(n, True, 1, labels=('NP-X', '-Y', 'Z=2'),
				root='ROOT', pos=None):
			for fill in fills[:None if n < 3 else 1]:
				for f, m, l in product(FUNCTIONS, MORPH, LEMMAS):
					if l == 'between' and f in ('add', 'replace', 'between'):
						# no function is defined for the extra nodes
						continue
					yield source(t, fill), tuple('abc'[:n]), f, m, l


def functiontags(case, rec):
	"""The function by itself, on nodes that are not from a file."""
	t, action, pos, root, morphology = case
	tree = gen.build(ParentedTree, strip(t))
	for node, (_, src) in zip(tree.subtrees(), [a[:2] for a in allnodes(t)]):
		if src is not None:
			node.source = ['w', 'x', 'tag', 'm', src, '0']

	def rec1(a, top):
		label, src = a[:2]
		kids = list(a[2:])
		isphrase = isinstance(kids[0], tuple)
		kids = [rec1(b, False) if isphrase else b for b in kids]
		func = None if src in ('', '--') else src
		if action == 'remove':
			for char in '-=':
				x = label.find(char)
				if x > 0:
					label = label[:x]
		elif action in (None, 'leave') or (top and (action == 'between'
				or not root)) or (not isphrase and (not pos
				or morphology == 'between')):
			pass
		elif action == 'add':
			label += '-' + func if func else ''
		elif action == 'replace':
			label = func or '--'
		elif action == 'between':
			return ('-' + (func or '--'), (label, ) + tuple(kids))
		return (label, ) + tuple(kids)
	handlefunctions(action, tree, pos=pos, root=root, morphology=morphology)
	got = gen.totuple(tree)
	rec.expect('labels', got, rec1(t, True))
	for a in tree.subtrees():
		for b in a:
			if isinstance(b, ParentedTree):
				rec.expect('parent', b.parent is a, True)
	rec.state(case)
	rec.outcome(got)
	rec.step()


# --- function tags in the labels of bracketed trees -------------------------------

def labelfunctions(case, rec):
	"""NP-SBJ-1 has function SBJ; both are removed from labels on request."""
	cls, t, action = case
	want, plainlabels = [], []

	def rec1(a, top=True):
		if not isinstance(a, tuple):
			return str(a) + '=w' if cls is DiscBracketCorpusReader else 'w'
		base, tags, suffix = a[0]
		want.append(list(tags))
		label = base + ''.join('-' + b for b in tags) + suffix
		plainlabels.append(base if action == 'remove' else label)
		return '(%s %s)' % (label, ' '.join(map(rec1, a[1:])))

	text = rec1(t)
	name = scratch.write('c6.lf', (text + '\n') * 2)
	for item in cls(name, functions=action).itertrees():
		tree = item[1].tree
		nodes = list(tree.subtrees())
		rec.expect('labels', [a.label for a in nodes], plainlabels)
		rec.expect('functions of %r' % text, [a.source[4] for a in nodes],
				['-'.join(b) or '--' for b in want])
		rec.step()
	# the annotation arrives in the function field of other formats
	lines = writetree(tree, ['w'] * len(tree.leaves()), '1', 'export'
			).splitlines()
	field = {}
	for line in lines[1:-1]:
		a = line.split()
		field.setdefault(a[2], []).append(a[4])
	expect = {}
	for a, b in list(zip(plainlabels, want))[1:]:
		expect.setdefault(a, []).append('-'.join(b) or '--')
	rec.expect('export', {a: sorted(b) for a, b in field.items()},
			{a: sorted(b) for a, b in expect.items()})
	rec.outcome((plainlabels, want))
	rec.trace()


LABELPARTS = [(a, b, c) for a in ('NP', 'X') for b in ((), ('SBJ', ),
		('LOC', 'PRD')) for c in ('', '-1', '=2', '-12', '-1=2')] + [
		('-NONE-', (), '')]


def gen_labelfunctions(tier):
	for cls in (BracketCorpusReader, DiscBracketCorpusReader):
		for action in (None, 'leave', 'remove'):
			for a, b in product(LABELPARTS, repeat=2):
				yield cls, (('S', (), ''), (a, (b, 0))), action
				yield cls, (('S', ('TPC', ), '-3'), (a, 0), (b, 1)), action
	if tier != 'quick':
		for cls in (BracketCorpusReader, DiscBracketCorpusReader):
			for a, b, c in product(LABELPARTS, repeat=3):
				yield cls, (('S', (), ''), (a, (b, 0)), (c, 1)), 'remove'


def strip(a):
	return (a[0], ) + tuple(strip(b) if isinstance(b, tuple) else b
			for b in a[2:])


def gen_functiontags(tier):
	for n in (1, 2, 3):
		for t in gen.sentencetrees(n, True, 1, labels=('NP-X', '-Y', 'Z=2-B'),
				root='S-A', pos=None):
			for srcs in ((None, ), ('F', ), ('F', '--', '', 'G-H', None)):
				count = [0]

				def add(a):
					if not isinstance(a, tuple):
						return a
					count[0] += 1
					return (a[0], srcs[count[0] % len(srcs)]) + tuple(
							map(add, a[1:]))
				t1 = add(t)
				for action in FUNCTIONS:
					for pos, root, m in product((True, False), (True, False),
							(None, 'add', 'between')):
						yield t1, action, pos, root, m


def ensureroot(case, rec):
	t, root, kind = case
	sent = list('abcd'[:len(gen.leaves(t))])
	tree = gen.build(ParentedTree, t)
	fmt, cls = {'export': ('export', NegraCorpusReader),
			'discbracket': ('discbracket', DiscBracketCorpusReader),
			'bracket': ('bracket', BracketCorpusReader)}[kind]
	text = writetree(tree, sent, '1', fmt)
	(_, item), = read(text, cls, ensureroot=root)
	label = 'ROOT' if kind == 'export' else t[0]
	want = (label, ) + t[1:]
	if not label:
		want = (root, ) + t[1:]
	elif label != root:
		want = (root, want)
	rec.expect('tree', (gen.canon(gen.totuple(item.tree)), item.sent),
			(gen.canon(want), sent))
	for a in item.tree.subtrees():
		for b in a:
			if isinstance(b, ParentedTree):
				rec.expect('parent', b.parent is a, True)
	rec.outcome(want)
	rec.step()
	rec.trace()


def gen_ensureroot(tier):
	for n in (1, 2, 3):
		for kind in ('export', 'discbracket', 'bracket'):
			for label in ('', 'S', 'ROOT', 'TOP', 'ROOT-X', 'TOPS', 'TO'):
				for t in gen.sentencetrees(n, kind != 'bracket', 1,
						labels=('NP', ), root='x'):
					for root in ('ROOT', 'TOP'):
						yield (label, ) + t[1:], root, kind


# --- files with several sentences ----------------------------------------------

def segments(case, rec):
	"""A file as a sequence of lines; compare with a reference automaton."""
	lines, twofiles = case
	text = '\n'.join(lines) + '\n'
	want, cur, bad = [], None, False
	seen = set()
	split = 0
	for n, a in enumerate(lines):
		if cur is None and n <= len(lines) // 2:
			split = n
		if a.startswith('#BOS '):
			if cur is not None:
				bad = True
				break
			cur = (a.split()[1], [a])
		elif a.startswith('#EOS '):
			if cur is None or cur[0] != a.split()[1] or cur[0] in seen:
				bad = True
				break
			cur[1].append(a)
			seen.add(cur[0])
			want.append((cur[0], '\n'.join(cur[1]) + '\n'))
			cur = None
		elif cur is not None:
			cur[1].append(a)
	if twofiles:
		for a, b in enumerate((lines[:split], lines[split:])):
			fname = scratch.write('y%d.export' % a, ''.join(
					'%s\n' % c for c in b))
		fname = fname.replace('y1', 'y?')
	else:
		fname = scratch.write('z.export', text)
	try:
		got = list(NegraCorpusReader(fname).blocks().items())
	except ValueError:
		got = 'error'
	rec.expect('blocks', got, 'error' if bad else want)
	if not bad and not any('%%' in b for _, b in want):
		items = [(k, a.sent) for k, a in NegraCorpusReader(fname).itertrees()]
		words = [(k, [c.split('\t')[0] for c in b.splitlines()[1:-1]
				if c.startswith('w')]) for k, b in want]
		rec.expect('sentences', items, words)
		for start, end in ((0, 1), (1, None), (1, 2), (2, 9)):
			rec.expect('range', [k for k, _ in NegraCorpusReader(fname
					).itertrees(start, end)], [k for k, _ in want][start:end])
	rec.outcome(repr(got))
	rec.step()
	rec.trace()


def gen_segments(tier):
	alpha = ('#BOS 1', '#EOS 1', '#BOS 2 x', '#EOS 2',
			'w\t--\tN\t--\t--\t0', '%% remark')
	for n in range(1, 7 if tier == 'quick' else 8):
		for a in product(alpha, repeat=n):
			if a[0].startswith('#BOS') or n < 4:
				yield a, False
				yield a, True


# --- French treebank XML ---------------------------------------------------------

def ftbxml(t, sent, nb):
	"""Phrases are elements; words and compounds are w elements."""
	def rec(a, top):
		lemma, morph, func, _ = a[1] or ('', '', '', ())
		attr = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in (
				('lemma', lemma), ('ee', morph), ('fct', func)) if v)
		if not isinstance(a[2], tuple):
			if a[2] % 4 == 0:  # the other kind of tag is not used
				attr += ' catint="ZZ"'
			return '<w %s=%s%s>%s</w>' % (('cat', 'catint')[a[2] % 2],
					quoteattr(a[0]), attr, xmlescape(sent[a[2]]))
		kids = '\n'.join(rec(b, False) if len(b) > 2 else '<%s />' % b[0]
				for b in a[2:])
		if a[0].startswith('MW'):
			return '<w compound="yes" cat="%s"%s>\n%s</w>' % (a[0][2:], attr,
					kids)
		return '<%s%s%s>\n%s\n</%s>' % (a[0], ' nb="%s" date="1992"' % nb
				if top else '', attr, kids, a[0])
	return rec(t, True)


def ftb(case, rec):
	t, sent, functions, morphology, lemmas = case
	fname = scratch.write('f.xml', '<?xml version="1.0" encoding="utf-8"?>\n'
			'<text>\n%s\n</text>' % ftbxml(t, sent, '7'))
	(k, item), = FTBXMLCorpusReader(fname, functions=functions,
			morphology=morphology, lemmas=lemmas).itertrees()

	def drop(a):
		"""Without empty constituents."""
		if not isinstance(a, tuple):
			return a
		return a[:2] + tuple([drop(b) for b in a[2:]
				if not isinstance(b, tuple) or len(b) > 2])
	t = drop(t)
	want, wsent = model(t, [''.join(a.split()) for a in sent], functions,
			morphology, lemmas)
	rec.expect('key', k, os.path.basename(fname)[:-4] + '-7')
	rec.expect('tree', gen.canon(gen.totuple(item.tree)), gen.canon(want))
	rec.expect('sent', item.sent, wsent)
	rec.expect('comment', item.comment.split()[0], "nb='7'")
	t = under(t)
	if (functions, morphology, lemmas) == (None, None, None):
		def shown(a):
			return a if isinstance(a, int) else (a.label, (a.source[1],
					a.source[3], a.source[4], ())) + tuple(map(shown, a))

		def wanted(a):
			return a if isinstance(a, int) else (a[0], a[1]
					or ('', '', '', ())) + tuple(map(wanted, a[2:]))
		rec.expect('annotation', shown(item.tree), wanted(t))
	rec.outcome(want)
	rec.step()
	rec.trace()


def gen_ftb(tier):
	def compounds(t, top=True):
		"""All ways to mark constituents of words as compounds."""
		if not isinstance(t, tuple):
			yield t
			return
		for kids in product(*[compounds(a, False) for a in t[1:]]):
			yield (t[0], ) + kids
			if not top and all(isinstance(a, tuple) and isinstance(a[1], int)
					for a in kids):
				yield ('MWN', ) + kids

	fill = lambda n, a: ('l%d' % n, 'm%d' % n, 'F%d' % n, ())  # noqa: E731
	some = lambda n, a: (('', 'x', '', ()), ('y', '', '', ()),  # noqa: E731
			('', '', 'MOD', ()))[n % 3]
	for n in range(1, 5 if tier == 'quick' else 6):
		for t in gen.sentencetrees(n, False, 1 if n < 4 else 0,
				labels=('NP', ), root='SENT'):
			for t1 in compounds(t):
				for f in (fill, some, lambda n, a: ('', '', '', ())):
					yield (source(t1, f), tuple('abcde'[:n]), None, None, None)
				if n < 3:
					yield (source(t1, fill), ('a b', ' <&> ')[:n],
							None, None, None)
					# an empty constituent in front, in between, at the end
					for i in range(len(t1)):
						t2 = source(t1, fill)
						yield (t2[:2 + i] + (('VN', None), ) + t2[2 + i:],
								tuple('abc'[:n]), None, None, None)
					for opts in product(FUNCTIONS, (None, 'add', 'replace',
							'between'), (None, 'add', 'replace', 'between')):
						if not (opts[0] in ('add', 'replace', 'between')
								and opts[2] == 'between'):
							yield (source(t1, fill), tuple('abc'[:n])) + opts
							if n == 2:
								yield (source(t1, lambda n, a: ('a b c',
										'N(x, y z)', 'F', ())),
										tuple('abc'[:n])) + opts


# --- corpora in XML formats --------------------------------------------------------

TREES = [('VROOT', None, ('NP', ('l', 'm', 'SB', ()), ('N', ('l', 'm', 'HD',
		()), 0)), ('V', ('l', 'm', 'HD', ()), 1)),
		('VROOT', None, ('NP', ('l', 'm', 'OA', ()), ('N', ('l', 'm', 'HD',
		()), 0), ('N', ('l', 'm', 'NK', ()), 1)), ('V', ('l', 'm', 'HD',
		()), 2))]


def xmlcorpora(case, rec):
	"""Keys, order, ranges and all methods for the readers of XML formats."""
	kind, files, gz = case
	want, raw = [], []
	names = []
	key = 0
	for m, parts in enumerate(files):
		out = []
		stem = os.path.basename(scratch.path('z-%d' % (2, 10, 11)[m]))
		for i, b in enumerate(parts):
			key += 1
			t = TREES[b]
			sent = ['w%d' % key] + ['x', 'y'][:len(leaves(t)) - 1]
			if kind == 'tiger':
				out.append(tigerxml(t, sent, 's%d' % key))
				k = 's%d' % key
			elif kind == 'ftb':
				t = ('SENT', ) + t[1:]
				out.append(ftbxml(t, sent, str(key)))
				k = '%s-%d' % (stem, key)
			else:
				t = ('TOP', ) + t[1:]
				out.append(alpinoxml(t, sent).replace('<sentence>',
						'<sentence sentid="%d">' % key))
				k = '%s/%d' % (stem, key)
				if kind == 'alpino':
					k = '%s/%d' % (os.path.basename(scratch.path('z%d' % m)),
							(2, 10, 11)[i])
			raw.append(out[-1])
			want.append((k, gen.canon(gen.totuple(gen.build(ParentedTree,
					plain(t)))), sent))
		if kind == 'alpino':
			os.makedirs(scratch.path('z%d' % m), exist_ok=True)
			for i, a in zip((2, 10, 11), out):
				names.append('%s/%d.xml' % (scratch.path('z%d' % m), i))
				with open(names[-1], 'w') as f:
					f.write(a)
			continue
		text = ''.join(out)
		if kind == 'tiger':
			text = ('<?xml version="1.0" encoding="utf-8"?>\n<corpus id="x">'
					'<head><x/></head>\n<body>\n%s\n</body></corpus>\n' % text)
		elif kind == 'ftb':
			text = '<text>\n%s\n</text>\n' % text
		ext = '.data.dz' if kind == 'compact' else '.xml'
		if gz and kind != 'compact':
			ext += '.gz'
		names.append(os.path.join(scratch.folder(), stem + ext))
		with (gzip.open if gz or kind == 'compact' else open)(
				names[-1], 'wb') as f:
			f.write(text.encode('utf8'))
		if kind == 'compact':
			names.append(os.path.join(scratch.folder(), stem + '.index'))
			open(names[-1], 'w').close()
	cls, pattern = {'tiger': (TigerXMLCorpusReader, 'z*.xml*'),
			'ftb': (FTBXMLCorpusReader, 'z*.xml*'),
			'alpino': (AlpinoCorpusReader, 'z*/*.xml'),
			'compact': (AlpinoCompactCorpusReader, 'z*.index')}[kind]
	pattern = scratch.path(pattern)
	try:
		for order in ('trees sents tagged blocks', 'blocks tagged sents trees',
				'sents trees blocks tagged', 'tagged blocks trees sents'):
			reader = cls(pattern)
			for what in order.split():
				if what == 'trees':
					rec.expect('trees', [(k, gen.canon(gen.totuple(t)))
							for k, t in reader.trees().items()],
							[a[:2] for a in want])
				elif what == 'sents':
					rec.expect('sents', list(reader.sents().items()),
							[(k, s) for k, _, s in want])
				elif what == 'tagged':
					rec.expect('tagged sents', list(
							reader.tagged_sents().items()), [(k, list(zip(s,
							[p for _, p in sorted(postags(t))])))
							for k, t, s in want])
				else:
					got = list(reader.blocks().items())
					rec.expect('keys of blocks', [k for k, _ in got],
							[a[0] for a in want])
					rec.expect('blocks', [canonxml(b) for _, b in got],
							[canonxml(b) for b in raw])
				rec.step()
		for start in (None, 0, 1, 2, -1, -2):
			for end in (None, 0, 1, 3, -1):
				rec.expect('range %r:%r' % (start, end), [(k, gen.canon(
						gen.totuple(a.tree)), a.sent) for k, a
						in cls(pattern).itertrees(start, end)],
						want[start:end])
				rec.step()
	finally:
		for a in names:
			os.unlink(a)
	rec.outcome([a[1:] for a in want])
	rec.trace()


def postags(t):
	return [(a[1], a[0]) for a in gen.nodes(t) if isinstance(a[1], int)]


def canonxml(text):
	return [(a.tag, sorted(a.items()), (a.text or '').strip())
			for a in ElementTree.fromstring(text).iter()]


def gen_xmlcorpora(tier):
	quick = tier == 'quick'
	one = [a for n in range(1, 4) for a in product((0, 1), repeat=n)]
	for kind in ('tiger', 'alpino', 'compact', 'ftb'):
		for gz in (False, True) if kind == 'tiger' else (False, ):
			for a in one:
				yield kind, (a, ), gz
				for b in one[:6 if quick else None]:
					yield kind, (a, b), gz
			yield kind, ((0, ), (1, ), (0, 1)), gz


# --- Tiger XML -----------------------------------------------------------------

def tigerxml(t, sent, sid, ntfirst=False):
	ph = phrasal(t)
	ids = {id(a): '%s_%d' % (sid, 500 + n) for n, a in enumerate(ph)}
	ids[id(t)] = '%s_VROOT' % sid
	pre = {b[2]: b for b in allnodes(t) if not isinstance(b[2], tuple)}
	for n, b in pre.items():
		ids[id(b)] = '%s_%d' % (sid, n + 1)
	sec = {}
	for a in allnodes(t):
		for lab, target in (a[1][3] if a[1] else ()):
			sec.setdefault(id(ph[target]), []).append((lab, ids[id(a)]))
	out = ['<s id="%s">\n<graph root="%s">\n<terminals>' % (sid, ids[id(t)])]
	for n, w in enumerate(sent):
		b = pre[n]
		src = b[1] or ('--', '--', '--', ())
		out.append('<t id=%s word=%s lemma=%s pos=%s morph=%s />' % tuple(map(
				quoteattr, (ids[id(b)], w, src[0], b[0], src[1]))))
	out.append('</terminals>\n<nonterminals>')
	for a in ph + [t]:
		out.append('<nt id=%s cat=%s>' % (quoteattr(ids[id(a)]),
				quoteattr(a[0])))
		for b in a[2:]:
			src = b[1] or ('--', '--', '--', ())
			out.append('<edge label=%s idref=%s />' % (quoteattr(src[2]),
					quoteattr(ids[id(b)])))
		for lab, source in sec.get(id(a), ()):
			out.append('<secedge label=%s idref=%s />' % (
					quoteattr(lab), quoteattr(source)))
		out.append('</nt>')
	out.append('</nonterminals>\n</graph>\n</s>')
	return '\n'.join(out)


def tiger(case, rec):
	ts = case
	if len(ts) == 1 and len(ts[0][1]) == 1:  # a word without phrases
		text = tigerxml(('VROOT', None) + ts[0][0][2:3], ts[0][1], 's1')
		pre, = [a for a in allnodes(ts[0][0]) if not isinstance(a[2], tuple)]
		text = '<corpus><body>%s</nonterminals>\n</graph>\n</s></body></corpus>' % (
				text.split('<nt ')[0].replace('s1_VROOT', 's1_1')
				if len(ts[0][0][2]) > 2 and ts[0][0][2] is pre else '')
		if 's1_1' in text:
			(k, item), = read(text, TigerXMLCorpusReader, 't1.xml')
			rec.expect('single word', (k, item.sent, [(a.label, list(a))
					for a in item.tree], item.tree[0].source[1],
					item.tree[0].source[3]),
					('s1', list(ts[0][1]), [(pre[0], [0])])
					+ (pre[1] or ('--', '--'))[:2])
	body = ['<?xml version="1.0" encoding="utf-8"?>\n<corpus id="x">\n<body>']
	want = []
	for n, (t, sent) in enumerate(ts, 1):
		body.append(tigerxml(t, sent, 's%d' % n))
		want.append(('s%d' % n, wantfull(t), list(sent)))
	body.append('</body>\n</corpus>\n')
	fname = scratch.write('t.xml', '\n'.join(body))
	got = [(k, full(a.tree), a.sent) for k, a in
			TigerXMLCorpusReader(fname).itertrees()]
	# phrasal nodes: the format has no morphology and lemma for them
	want = [(k, blank(t), s) for k, t, s in want]
	rec.expect('tiger', [(k, blank(t), s) for k, t, s in got], want)
	rec.outcome(got)
	rec.step(len(ts))
	rec.trace()


def blank(t):
	"""No lemma and morphology for phrasal nodes."""
	if not isinstance(t, tuple):
		return t
	src = t[1]
	if src and isinstance(t[2], tuple):
		src = ('--', '--') + src[2:]
	return (t[0], src) + tuple([blank(a) for a in t[2:]])


def gen_tiger(tier):
	fill = lambda n, a: ('l%d' % n, 'm%d' % n, 'F%d' % n, ())  # noqa: E731
	for n in range(1, 7 if tier == 'quick' else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0,
				labels=('NP', ), root='VROOT'):
			yield ((source(t, fill), tuple('abcdefg'[:n])), )
			if n < 4:
				yield ((source(t, fill), tuple('"<&é'[:n])),
						(source(t, lambda n, a: None), tuple('abcdefg'[:n])))
	for n in (2, 3):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', ), root='VROOT'):
			total = len(list(gen.nodes(t)))
			targets = len([a for a in list(gen.nodes(t))[1:]
					if isinstance(a[1], tuple)])
			for src in range(1, total):
				for tgt in range(targets):
					yield ((source(t, lambda n, a: ('--', 'm', 'F', (
							('E', tgt), ) if n == src else ())),
							tuple('abc'[:n])), )
	for t in gen.large((9, 10, 11, 12, 33, 101)):
		yield ((source(('VROOT', ) + t[1:], fill), tuple(['w%d' % a
				for a in range(len(gen.leaves(t)))])), )


# --- Alpino XML ----------------------------------------------------------------

def alpinoxml(t, sent, comment=None, kind=0):
	cnt = [0]
	ph = phrasal(t)
	index = {id(a): n for n, a in enumerate(allnodes(t), 1)
			if a[1] and a[1][3]}
	refs = {}  # empty nodes
	for a in allnodes(t):
		for lab, target in a[1][3] if a[1] else ():
			refs.setdefault(id(ph[target]), []).append((lab, index[id(a)]))

	def empty(lab, n, depth):
		cnt[0] += 1
		return '%s<node id="%d" begin="0" end="1" rel=%s index="%d" />' % (
				'  ' * depth, cnt[0] - 1, quoteattr(lab), n)

	def rec(a, depth):
		lemma, morph, func, _ = a[1] or ('--', '--', '--', ())
		n = cnt[0]
		cnt[0] += 1
		ys = leaves(a)
		attr = 'id="%d" begin="%d" end="%d" rel=%s' % (n, min(ys),
				max(ys) + 1, quoteattr(func))
		if id(a) in index:
			attr += ' index="%d"' % index[id(a)]
		if isinstance(a[2], tuple):
			return '%s<node %s cat=%s>\n%s\n%s</node>' % ('  ' * depth, attr,
					quoteattr(a[0].lower()), '\n'.join([empty(x, y, depth + 1)
					for x, y in refs.get(id(a), ())[:1]] + [rec(b, depth + 1)
					for b in a[2:]] + [empty(x, y, depth + 1)
					for x, y in refs.get(id(a), ())[1:]]), '  ' * depth)
		# two kinds of tags, lemmas and morphology; one is preferred
		values = {'pos': a[0], 'lemma': lemma, 'postag': morph}
		if kind == 1:
			values = {'pt': a[0], 'pos': 'Z', 'root': 'z', 'lemma': lemma,
					'frame': 'zz(z)', 'postag': morph}
		elif kind == 2:
			values = {'pt': a[0], 'root': lemma, 'frame': morph}
		return '%s<node %s word=%s %s />' % ('  ' * depth, attr,
				quoteattr(sent[a[2]]), ' '.join('%s=%s' % (x, quoteattr(y))
				for x, y in values.items()))
	return ('<?xml version="1.0" encoding="UTF-8"?>\n'
			'<alpino_ds version="1.3">\n%s\n  <sentence>%s</sentence>\n'
			'%s</alpino_ds>\n' % (rec(t, 1), xmlescape(' '.join(sent)),
			'  <comments><comment>%s</comment></comments>\n' % comment
			if comment else ''))


def under(t):
	"""Annotation does not have spaces after reading."""
	if not isinstance(t, tuple):
		return t
	return (t[0], t[1] and tuple([a.replace(' ', '_') for a in t[1][:3]])
			+ t[1][3:]) + tuple(map(under, t[2:]))


def alpino(case, rec):
	t, sent, comment, functions, morphology, lemmas = case[:6]
	fname = scratch.write('alp.v1.xml', alpinoxml(t, list(sent), comment,
			case[6] if len(case) > 6 else 0))
	(k, item), = AlpinoCorpusReader(fname, functions=functions,
			morphology=morphology, lemmas=lemmas).itertrees()
	want, wsent = model(t, sent, functions, morphology, lemmas)
	t = under(t)
	rec.expect('key', k, '%s/%s' % (os.path.basename(scratch.folder()),
			os.path.basename(fname)[:-4]))
	rec.expect('tree', gen.canon(gen.totuple(item.tree)), gen.canon(want))
	rec.expect('sent', (item.sent, item.comment), (wsent, comment))
	if (functions, morphology, lemmas) == (None, None, None):
		def shown(a):
			if isinstance(a, int):
				return a
			return (a.label, tuple(a.source[i] for i in (1, 3, 4)
					) if isinstance(a[0], int) else a.source[4], ) + tuple(
					sorted([shown(b) for b in a.children],
					key=lambda b: min(leaves(b))))

		def wanted(a):
			if not isinstance(a, tuple):
				return a
			src = a[1] or ('--', '--', '--', ())
			return (a[0], src[:3] if not isinstance(a[2], tuple)
					else src[2]) + tuple(sorted([wanted(b) for b in a[2:]],
					key=lambda b: min(leaves(b))))
		rec.expect('sources', shown(item.tree), wanted(t))
		out = writetree(item.tree, item.sent, 'k', 'export')
		(_, again), = read(out)
		rec.expect('as export', sortedges(blank(full(again.tree))),
				sortedges(blank(wantfull(('ROOT', ) + t[1:]))))
		# what the writer makes of it can be read again
		if not gen.isdisc(plain(t)) or True:
			out = writetree(item.tree, item.sent, 'k', 'alpino',
					comment=comment)
			fname = scratch.write('alp2.xml', out)
			(_, again), = AlpinoCorpusReader(fname).itertrees()
			rec.expect('rewritten', (shown(again.tree), again.sent,
					again.comment), (wanted(lowpos(t)), list(sent),
					'k|' + comment if comment else 'k'))
			rec.expect('nodes as written', sorted((int(a.get('begin')),
					int(a.get('end')), a.get('cat') or a.get('pos'),
					a.get('lemma') or '') for a
					in ElementTree.fromstring(out).iter('node')),
					sorted((min(leaves(a)), max(leaves(a)) + 1, a[0].lower(),
					'' if isinstance(a[2], tuple) else (a[1] or ('--', ))[0])
					for a in allnodes(t)))
		# a tree without annotation, or with empty annotation
		tree = gen.build(ParentedTree, gen.mirrored(plain(t)))
		for empty in (None, ['', '', '', '', '', '']):
			for a in tree.subtrees():
				a.source = empty and list(empty)
			out = writetree(tree, list(sent), 'k', 'alpino')
			(_, again), = read(out, AlpinoCorpusReader, 'alp3.xml')
			rec.expect('without annotation', (gen.canon(gen.totuple(
					again.tree)), again.sent), (gen.canon(lowplain(plain(t))),
					list(sent)))
			rec.expect('attributes', sorted(str([a.get(x) or '' for x
					in ('begin', 'end', 'cat', 'pos', 'lemma', 'postag',
					'word')] + [a.get('rel') or '--']) for a
					in ElementTree.fromstring(out).iter('node')),
					sorted(str([str(min(leaves(a))), str(max(leaves(a)) + 1)]
					+ ([a[0].lower(), '', '', '', '']
						if isinstance(a[2], tuple) else ['', a[0].lower(),
						'--', '--', sent[a[2]]]) + ['--'])
					for a in allnodes(t)))
	rec.outcome(want)
	rec.step(2)
	rec.trace()


def lowplain(t):
	if not isinstance(t, tuple):
		return t
	return (t[0] if isinstance(t[1], tuple) else t[0].lower(), ) + tuple(map(
			lowplain, t[1:]))


def sortedges(t):
	"""Secondary edges are found in the order of their targets."""
	if not isinstance(t, tuple):
		return t
	return (t[0], t[1][:3] + tuple(map(sorted, t[1][3:]))) + tuple(
			map(sortedges, t[2:]))


def lowpos(t):
	"""The format has lower case tags."""
	if not isinstance(t, tuple):
		return t
	if not isinstance(t[2], tuple):
		return (t[0].lower(), ) + t[1:]
	return t[:2] + tuple([lowpos(a) for a in t[2:]])


def gen_alpino(tier):
	fill = lambda n, a: ('l%d' % n, 'm%d' % n, 'F%d' % n, ())  # noqa: E731
	for n in range(1, 7 if tier == 'quick' else 8):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0,
				labels=('NP', ), root='TOP'):
			yield source(t, fill), tuple('"<&é'[:n]) if n < 5 else tuple(
					'abcdefg'[:n]), 'Q#x|y', None, None, None
			if n < 4:
				for kind in (1, 2):
					yield source(t, fill), tuple('abc'[:n]), None, None, \
							None, None, kind
			if n < 3:
				for f, m, l in product(FUNCTIONS, MORPH, LEMMAS):
					if l == 'between' and f in ('add', 'replace', 'between'):
						continue
					yield source(t, fill), tuple('abc'[:n]), None, f, m, l
					if n == 2:
						yield source(t, lambda n, a: ('a b c', 'N(x, y z)', 'F',
								())), tuple('abc'[:n]), None, f, m, l
	for t in gen.large((9, 10, 11, 12, 33, 101)):
		yield source(('TOP', ) + t[1:], fill), tuple(['w%d' % a
				for a in range(len(gen.leaves(t)))]), 'x', None, None, None
	for n in (2, 3):
		for t in gen.sentencetrees(n, True, 1, labels=('NP', ), root='TOP'):
			total = len(list(gen.nodes(t)))
			targets = len([a for a in list(gen.nodes(t))[1:]
					if isinstance(a[1], tuple)])
			for src in range(1, total):
				for tgts in [a for m in (1, 2)
						for a in product(range(targets), repeat=m)]:
					yield source(t, lambda n, a: ('--', 'm', 'F', tuple(
							('E%d' % i, x) for i, x in enumerate(tgts))
							if n == src else ())), tuple('abc'[:n]), None, \
							None, None, None


# --- compressed files ---------------------------------------------------------------

CTREES = [('ROOT', None) + a[2:] for a in TREES] + [('ROOT', None, ('NP', None,
		('N', None, 0), ('N', None, 2)), ('V', None, 1))]
CSENTS = (('a', 'é'), ('x', '\u20ac1', 'y'), ('ÿ', 'b', 'c'))


def packed(data, how):
	"""The bytes of a file compressed by the command line tool."""
	if how == '.gz':
		return gzip.compress(data, mtime=0)
	elif how == '.zst':
		return subprocess.run(['zstd', '-q', '-c'], input=data,
				stdout=subprocess.PIPE, check=True).stdout
	return data


def plaintext(fmt, items, newline):
	"""Independent writers of the plain file."""
	def rec(a, sent):
		if isinstance(a, int):
			return ('%d=%s' % (a, sent[a]) if fmt == 'discbracket'
					else sent[a])
		return '(%s %s)' % (a[0], ' '.join(rec(b, sent) for b in a[2:]))
	out = []
	for key, t, sent in items:
		if fmt == 'export':
			out += ['#BOS %s' % key] + [a for a in refexport(t, sent, key)
					if not a.startswith('#')
					or a[1:4].isdigit()] + ['#EOS %s' % key]
		elif fmt == 'tiger':
			out.append(tigerxml(t, sent, 's%s' % key))
		else:
			out.append(rec(t, sent))
	if fmt == 'tiger':
		out = ['<?xml version="1.0" encoding="utf-8"?>', '<corpus id="x">',
				'<body>'] + out + ['</body></corpus>']
	return newline.join(out) + newline


CREADERS = {'export': NegraCorpusReader, 'bracket': BracketCorpusReader,
		'discbracket': DiscBracketCorpusReader, 'tiger': TigerXMLCorpusReader}


def compressed(case, rec):
	"""What is read does not depend on the compression of the files."""
	fmt, files, newline, encoding, copies, damage = case
	want, names, key = [], [], 0
	for m, (how, trees) in enumerate(files):
		items = []
		for a in trees * copies:
			sent = CSENTS[a]
			if encoding == 'iso-8859-1':
				sent = [b.replace('\u20ac', 'q') for b in sent]
			key += 1
			items.append((str(key), CTREES[a], list(sent)))
			want.append((str(key) if fmt != 'tiger' else 's%d' % key,
					gen.canon((('VROOT', ) if fmt == 'tiger' else ('ROOT', ))
					+ plain(CTREES[a])[1:]), list(sent)))
		data = packed(plaintext(fmt, items, newline).encode(encoding), how)
		if damage is not None:
			data = data[:max(1, int(len(data) * damage))]
		names.append(scratch.path('q%d.mrg%s' % (m, how)))
		with open(names[-1], 'wb') as f:
			f.write(data)
	try:
		cls = CREADERS[fmt]
		got = error = None
		try:
			reader = cls(scratch.path('q*'), encoding=encoding)
			got = [(str(k), gen.canon(gen.totuple(a.tree)), a.sent)
					for k, a in reader.itertrees()]
		except Exception as err:
			error = err
		if damage is None:
			if error is not None:
				rec.fail('not read: %r' % error)
			rec.expect('trees', got, want)
			rec.expect('sents', list(cls(scratch.path('q*'),
					encoding=encoding).sents().values()),
					[a[2] for a in want])
		elif error is None:
			rec.fail('a damaged file was read without an error')
		for fname in names:
			if damage is None:
				with open(fname, 'rb') as f:
					data = f.read()
				if fname.endswith('.gz'):
					data = gzip.decompress(data)
				elif fname.endswith('.zst'):
					data = subprocess.run(['zstd', '-dqc', fname],
							stdout=subprocess.PIPE, check=True).stdout
				rec.expect('bytes', readbytes(fname) == data, True)
				lines = data.decode(encoding).split('\n')[:-1]
				for n in (0, 1, 2):  # stop reading before the end
					with openread(fname, encoding=encoding) as inp:
						got = [line.rstrip() for line, _ in zip(inp, range(n))]
					rec.expect('first lines', got, [a.rstrip()
							for a in lines[:n]])
	finally:
		for a in names:
			os.unlink(a)
	rec.outcome((len(want), type(error)))
	rec.step()
	rec.trace()


def gen_compressed(tier):
	quick = tier == 'quick'
	hows = ('', '.gz', '.zst')
	for fmt in CREADERS:
		encodings = ('utf8', ) if fmt == 'tiger' else (
				'utf8', 'iso-8859-1', 'utf-16')
		seqs = [(0, ), (2, 1)] if fmt != 'bracket' else [(0, ), (0, 1)]
		for newline in ('\n', '\r\n'):
			for encoding in encodings:
				for how in product(hows, repeat=2):
					for parts in product(seqs, repeat=2):
						yield (fmt, tuple(zip(how, parts)), newline,
								encoding, 1, None)
				for how in hows:
					for a in seqs:
						yield fmt, ((how, a), ), newline, encoding, 1, None
					# more than fits in the buffers of pipes
					yield (fmt, ((how, seqs[1]), ), newline, encoding,
							400 if quick else 4000, None)
		for how in hows[1:]:
			for n in range(1, 10 if quick else 100):
				yield (fmt, ((how, seqs[1]), ), '\n', 'utf8', 1,
						n / (10 if quick else 100))
			yield fmt, ((how, seqs[1]), ), '\n', 'utf8', 400, 0.6


# --- values of options which do not exist ------------------------------------------

VALUES = {'functions': (None, 'leave', 'add', 'replace', 'remove', 'between'),
		'morphology': (None, 'no', 'add', 'replace', 'between'),
		'lemmas': (None, 'no', 'add', 'replace', 'between'),
		'punct': (None, 'no', 'move', 'moveall', 'remove', 'removeall', 'prune',
			'root')}


def gen_values(tier):
	values = sorted({a for b in VALUES.values() for a in b if a}) + [
			'', 'x', 'Add', 'ad', 'no ', None]
	for name in VALUES:
		for value in values:
			for cls in ('export', 'bracket', 'discbracket', 'tiger'):
				yield name, value, cls
	for action in values:
		for lemma in values:
			for withsent in (True, False):
				yield None, (action, lemma, withsent), None


def values(case, rec):
	"""An option with an unknown value is an error, never ignored."""
	name, value, fmt = case
	rec.step()
	error = result = None
	if name is None:
		action, lemma, withsent = value
		node = ParentedTree('T', [0])
		sent = ['w'] if withsent else None
		try:
			handlemorphology(action, lemma, node,
					['w', 'l', 'T', 'm', '--', '0'], sent)
		except ValueError as err:
			error = err
		ok = (action in VALUES['morphology'] and lemma in VALUES['lemmas']
				and (withsent or lemma not in ('add', 'replace')))
		result = error or (gen.totuple(node), sent)
		if ok and error is None:
			leaf = (('m' if action == 'between' else 'l'), 0)
			if 'between' not in (action, lemma):
				leaf = 0
			label = {'add': 'T/m', 'replace': 'm'}.get(action, 'T')
			want = (label, leaf)
			if lemma == 'between' and action == 'between':
				want = (label, ('m', ('l', 0)))
			rec.expect('node', gen.totuple(node), want)
			if withsent:
				rec.expect('word', sent, [{'add': 'w/l', 'replace': 'l'}.get(
						lemma, 'w')])
	else:
		path = scratch.path('values')
		with open(path, 'w', encoding='utf8'):
			pass
		try:
			CREADERS[fmt](path, **{name: value})
		except ValueError as err:
			error = err
		ok = value in VALUES[name]
		result = type(error)
	rec.expect('accepted: %r' % (case, ), error is None, ok)
	rec.outcome(repr(result))
	rec.state(case)


# --- compression by external commands -------------------------------------------

PIECES = ('', 'a\n', '\u20ac\xff', '\n', 'x y' * 9, 'z' * 70000)
EXTERNAL = {'gzip': '.gz', 'zstd': '.zst', 'bzip2': '.bz2'}


def gen_pipes(tier):
	for cmd in EXTERNAL:
		for encoding in ('utf8', 'utf-16-le', None):
			for level in (1, 8):
				for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
					if level == 1 and k == 2 and tier == 'quick':
						continue
					for pieces in product(range(len(PIECES)), repeat=k):
						yield cmd, encoding, level, pieces
	yield 'false', 'utf8', 8, ()  # a command which fails
	yield 'nosuchcommand', 'utf8', 8, ()


def pipes(case, rec):
	"""What is written through a compressor is read by the decompressor."""
	cmd, encoding, level, pieces = case
	parts = [PIECES[a] for a in pieces]
	data = ''.join(parts).encode(encoding or 'utf8')
	fname = scratch.path('pipe%s' % EXTERNAL.get(cmd, ''))
	rec.step(4)
	rec.trace()
	try:
		if cmd not in EXTERNAL:
			rec.expect('in path', which(cmd, exception=False) is None,
					cmd != 'false')
			for func in (genericcompressor, genericdecompressor):
				with open(fname, 'wb'):
					pass
				try:
					with func(cmd, fname):
						pass
				except ValueError:
					rec.outcome((cmd, func.__name__))
				else:
					rec.fail('no error for command %r' % cmd)
			return
		with genericcompressor(cmd, fname, encoding=encoding,
				compresslevel=level) as out:
			for a in parts:
				out.write(a if encoding else a.encode('utf8'))
		rec.expect('contents', subprocess.run([cmd, '-dc', fname],
				stdout=subprocess.PIPE, check=True).stdout == data, True)
		with genericdecompressor(cmd, fname, encoding=encoding) as inp:
			got = inp.read()
		rec.expect('read back', got == (data if encoding is None
				else ''.join(parts)), True)
		if cmd != 'bzip2':
			rec.expect('bytes', readbytes(fname) == data, True)
			with openread(fname, encoding=encoding) as inp:
				got = inp.read()
			rec.expect('opened', got == (data if encoding is None
					else ''.join(parts)), True)
		rec.outcome((cmd, encoding, len(data)))
		# cut off
		with open(fname, 'rb') as inp:
			data = inp.read()
		with open(fname, 'wb') as out:
			out.write(data[:-3])
		try:
			with genericdecompressor(cmd, fname, encoding=None) as inp:
				inp.read()
		except ValueError:
			pass
		else:
			rec.fail('a damaged file was read without an error')
	finally:
		if os.path.exists(fname):
			os.unlink(fname)


# --- names of files; morphology when writing ----------------------------------------

STEMS = ('2', '10', 'a', 'b', 'a2', 'a10', 'a-2', 'a-10', 'a_2_b', 'a.10.b',
		'a 3', 'b-1', '02', '10-x', '2-x', '-')


def gen_filenames(tier):
	for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
		for stems in combinations(STEMS, k):
			yield stems


def filenames(case, rec):
	"""Files are in numerical order, if possible."""
	path = scratch.path('order') + '+'
	names = [path + a + '.x' for a in case]
	for a in names:
		with open(a, 'w') as out:
			out.write('(S (A %s))\n' % a[len(path):].replace(' ', '~'))

	def parts(a):
		return [int(b) if b.isdigit() else b
				for b in re.split('[-., _]', os.path.basename(path) + a)]
	try:
		want = sorted(case, key=parts)
	except TypeError:
		want = sorted(case)
	try:
		reader = BracketCorpusReader(path + '*.x')
		got = [b[0] for b in reader.sents().values()]
		rec.expect('order', got, [a.replace(' ', '~') + '.x' for a in want])
	finally:
		for a in names:
			os.unlink(a)
	rec.outcome(got)
	rec.step()
	rec.trace()


def gen_writemorph(tier):
	labels = ('N', 'N/m', 'N/m/x', '/', '$[', '')
	for n in (1, 2) if tier == 'quick' else (1, 2, 3):
		for t in gen.sentencetrees(n, True, 0, labels=('NP', )):
			for tags in product(labels, repeat=n):
				for morph in product((None, '--', 'q', ''), repeat=n):
					for words in product(('a', None, ''), repeat=n):
						yield t, tags, morph, words


def writemorph(case, rec):
	"""Morphology is taken from POS tags as requested; absent words."""
	t, tags, morph, words = case
	for option in (None, 'no', 'add', 'replace', 'between'):
		tree = gen.build(ParentedTree, t)
		want = []
		pre = sorted(tree.subtrees(lambda x: isinstance(x[0], int)),
				key=lambda x: x[0])
		for a, tag, m, w in zip(pre, tags, morph, words):
			a.label = tag
			if m is not None:
				a.source = ['x', 'l', tag, m, 'f', '0']
			tag = tag.replace('$[', '$(') or '--'
			mm = m or '--'
			if mm == '--' and option == 'replace':
				mm = tag
			elif mm == '--' and option == 'add' and '/' in tag:
				tag, mm = tag.split('/', 1)
			want.append((w or '...', 'l' if m is not None else '--', tag, mm,
					'f' if m is not None else '--'))
		out = writetree(tree, list(words), '1', 'export', morphology=option)
		got = [tuple(a.split('\t')[:5]) for a in out.splitlines()
				if a[0] != '#']
		rec.expect('morphology=%r' % option, got, want)
		rec.expect('parents', [a.split('\t')[0] for a in out.splitlines()
				if a[0] == '#' and a[1:4].isdigit()], ['#%d' % (500 + i)
				for i in range(len(list(gen.nodes(t))) - len(tags) - 1)])
		rec.step()
	rec.outcome(want)
	rec.trace()


SPACES = [
	core.Space('export', gen_export, export, {
		'quick': 'fixed large shapes of 9-129 words; '
		'all trees over <=6 words (discontinuous, 1 unary) with and '
		'without annotation; 15 odd words^2; 9 odd labels at every node; '
		'secondary edges between all pairs of nodes, one or two',
		'thorough': 'all trees over <=7 words'}),
	core.Space('options', gen_options, options,
		'all trees over <=3 words x 6 function x 5 morphology x 5 lemma '
		'options'),
	core.Space('functiontags', gen_functiontags, functiontags,
		'all trees over <=3 words, 6 actions, POS tags or not, root or not'),
	core.Space('labelfunctions', gen_labelfunctions, labelfunctions, {
		'quick': 'bracketed trees with 31 kinds of labels at 2 nodes, below '
		'or next to each other, 2 readers, 3 options',
		'thorough': 'at 3 nodes'}),
	core.Space('ensureroot', gen_ensureroot, ensureroot,
		'all trees over <=3 words with one of 4 root labels (or none), two '
		'requested root labels, 3 formats'),
	core.Space('segments', gen_segments, segments, {
		'quick': 'all sequences of <=6 of 6 kinds of lines, in 1 or 2 files',
		'thorough': 'all sequences of <=7'}),
	core.Space('ftb', gen_ftb, ftb, {
		'quick': 'all trees over <=4 words, all compounds; all options for <=2 '
		'words; empty constituents', 'thorough': '<=5 words'}),
	core.Space('xmlcorpora', gen_xmlcorpora, xmlcorpora, {
		'quick': '4 XML readers, 1-3 files with 1-3 of 2 trees, 4 orders of '
		'the methods, 30 ranges', 'thorough': 'more combinations of files'}),
	core.Space('values', gen_values, values,
		'17 values of each of 4 options, 4 readers; all pairs of values for '
		'morphology and lemmas, with and without words'),
	core.Space('pipes', gen_pipes, pipes, {
		'quick': '3 commands, 3 encodings, 2 levels, texts of up to 2 parts '
		'(the longest 70,000 characters)', 'thorough': 'up to 3 parts'}),
	core.Space('filenames', gen_filenames, filenames, {
		'quick': 'all sets of <=3 of 16 file names', 'thorough': '<=4'}),
	core.Space('writemorph', gen_writemorph, writemorph, {
		'quick': 'trees over <=2 words, 6 tags, 4 kinds of morphology, 3 kinds '
		'of words for each; 5 options', 'thorough': '<=3 words'}),
	core.Space('compressed', gen_compressed, compressed, {
		'quick': '4 formats, 1-2 files each plain, gzip or zstd, 3 encodings, '
		'2 kinds of line endings, small and beyond the pipe buffer; files cut '
		'off at 9 points', 'thorough': 'larger files, 99 points'}),
	core.Space('tiger', gen_tiger, tiger, {
		'quick': 'fixed large shapes of 9-101 words; '
		'all trees over <=6 words; secondary edges between all pairs',
		'thorough': 'all trees over <=7 words'}),
	core.Space('alpino', gen_alpino, alpino, {
		'quick': 'fixed large shapes of 9-101 words; '
		'all trees over <=6 words; all options for <=2 words; coindexed '
		'nodes: all pairs of nodes for <=3 words',		'thorough': 'all trees over <=7 words'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C06', SPACES))
