"""C13: head finding, and the dependencies that follow from heads."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations
from collections import Counter
from vlib import build, core, gen, scratch
build.activate('cont')
from discodop.tree import (Tree, ParentedTree, HEAD, COMPLEMENT,  # noqa: E402
		MODIFIER)
from discodop import heads as H  # noqa: E402
from discodop.treebank import (dependencies, deplen, writetree,  # noqa: E402
		writedependencies, NegraCorpusReader, EXPORTHEADER)
from discodop.treetransforms import binarize, unbinarize  # noqa: E402
from discodop.punctuation import PUNCTTAGS, PUNCTUATION  # noqa: E402

DIRS = ('LEFT-TO-RIGHT', 'RIGHT-TO-LEFT', 'LEFT', 'RIGHT', 'LEFTDIS',
		'RIGHTDIS')
LABELS = ('A', 'b', 'C[x]', 'CC', '$,')


def base(label):
	return label.split('[')[0].upper()


def findhead(labels, rules):
	"""Index of the head according to a list of (direction, labels)."""
	n = len(labels)
	order = list(range(n))
	for direction, want in rules:
		left = direction.startswith('LEFT')
		order = list(range(n)) if left else list(reversed(range(n)))
		if direction.endswith('DIS'):  # first child that is in the set
			hits = [i for i in order if base(labels[i]) in want]
		else:  # first label that is present
			hits = [i for a in want for i in order if base(labels[i]) == a]
		if hits:
			head = hits[0]
			if head >= 2 and labels[head - 1] in ('CC', 'CONJP'):
				for i in range(head - 2, -1, -1):
					if labels[i] not in PUNCTTAGS | PUNCTUATION:
						return i
			return head
	for i in order:
		if labels[i] not in PUNCTTAGS:
			return i
	return order[0]


def rules(case, rec):
	labels, rule = case
	for parent in ('NP', 'np', 'XP'):
		children = [(a, i) for i, a in enumerate(labels)]
		want = findhead(labels, rule if parent != 'XP' else [])
		table = {'NP': [(a, list(b)) for a, b in rule]}
		for cls in (Tree, ParentedTree):
			tree = gen.build(cls, (parent, ) + tuple(children))
			got = H.headfinder(tree, table)
			rec.expect('head of %s' % parent, got is tree[want], True)
			rec.step()
	tree = gen.build(Tree, ('S', ('np', ) + tuple(children)))
	H.applyheadrules(tree, table)
	want = findhead(labels, rule)
	rec.expect('marked', [a.type == HEAD for a in tree[0]],
			[i == want for i in range(len(labels))])
	rec.expect('marked', tree[0].type == HEAD, True)
	rec.expect('position', H.getheadpos(tree) is tree[0, want], True)
	rec.outcome((labels, want))
	rec.trace()


def gen_rules(tier):
	quick = tier == 'quick'
	wants = [()] + [(a, ) for a in 'ABC'] + list(permutations('ABC', 2))
	single = [((d, w), ) for d in DIRS for w in wants]
	some = [(d, w) for d in ('LEFT', 'RIGHT-TO-LEFT', 'LEFTDIS', 'RIGHTDIS')
			for w in (('A', ), ('C', 'B'))]
	double = list(product(some, repeat=2)) + list(product(some,
			[('RIGHT', ()), ('LEFT', ())]))
	for n in range(1, 5 if quick else 6):
		for labels in product(LABELS, repeat=n):
			for rule in single:
				yield labels, rule
			if n < 4 or not quick and n < 5:
				for rule in double:
					yield labels, rule
	for n in (3, 4, 5):  # labels which look like punctuation
		for labels in product(('A', 'B', 'CC', ';') if n < 5 else (
				'A', 'CC', ';'), repeat=n):
			if 'CC' in labels and ';' in labels:
				for rule in single[::2]:
					yield labels, rule
	for labels in product(LABELS, repeat=4 if quick else 5):
		for rule in double[::7]:
			yield labels, rule


def given(case, rec):
	"""Heads that are known take precedence; function tags over rules."""
	n, marked, func, rulehead = case
	tree = gen.build(ParentedTree, ('NP', ) + tuple([('A%d' % i, i)
			for i in range(n)]))
	for i in range(n):
		if marked is not None and i in marked:
			tree[i].type = HEAD
		tree[i].source = ['w', '--', 'A%d' % i, '--', func[i], '0']
	table = {'NP': [('LEFT', ['A%d' % rulehead])]}
	hd = [i for i in range(n) if 'HD' in func[i].upper().split('-')]
	want = min(marked) if marked else hd[0] if hd else rulehead
	rec.expect('head', H.headfinder(tree, table) is tree[want], True)
	rec.step()
	rec.expect('other head label', H.headfinder(tree, table,
			frozenset({'Q'})) is tree[min(marked) if marked else rulehead],
			True)
	before = [a.type for a in tree]
	H.applyheadrules(tree, table)
	rec.expect('marked', [a.type == HEAD for a in tree], [b == HEAD
			or i == want for i, b in enumerate(before)])
	rec.outcome((n, want))
	rec.trace()


def gen_given(tier):
	for n in range(1, 5):
		for func in product(('--', 'HD', 'hd', 'X-HD', 'HDX'), repeat=n):
			for rulehead in range(n):
				yield n, None, func, rulehead
				for i in range(n):
					yield n, (i, ), func, rulehead
				if n > 1:
					yield n, (0, n - 1), func, rulehead


LINES = (('s right-to-left vmfin VAFIN', 'S', 'RIGHT-TO-LEFT', ['VMFIN',
			'VAFIN']), ('S left NP', 'S', 'LEFT', ['NP']),
		('  vp\tleftdis\ta b  ', 'VP', 'LEFTDIS', ['A', 'B']),
		('VP rightdis x', 'VP', 'RIGHTDIS', ['X']),
		('frag right', 'FRAG', 'RIGHT', []), ('x left % $,', 'X', 'LEFT',
			['%', '$,']), ('cs like s', 'CS', None, 'S'),
		('% comment here x', None, None, None), ('', None, None, None),
		('vp left-to-right c', 'VP', 'LEFT-TO-RIGHT', ['C']))


def rulefile(case, rec):
	want = {}
	for i in case:
		_, label, direction, labels = LINES[i]
		if direction:
			want.setdefault(label, []).append((direction, labels))
		elif label:
			want.setdefault(label, []).extend(want[labels])
	name = scratch.write('c13.rules', '\n'.join(LINES[i][0] for i in case)
			+ '\n')
	rec.expect('rules', H.readheadrules(name), want)
	rec.outcome(sorted(want))
	rec.step()
	rec.trace()


def gen_rulefile(tier):
	for n in range(1, 5 if tier == 'quick' else 6):
		for case in product(range(len(LINES)), repeat=n):
			if all(i != 6 or {0, 1} & set(case[:j])
					for j, i in enumerate(case)):
				yield case


MODS = (('NP', ('PP', )), ('NP', ('PP-MOD', 'A')), ('*', ('*-MOD', )),
		('*', ('A', )), ('X', ('A', )), ('NP', ('*-*', )), ('NP', ('PP-*', )))


def modifiers(case, rec):
	chosen, kids, head = case
	lines = [MODS[i] for i in chosen]
	name = scratch.write('c13.mods', '% comment\n\n' + ''.join('%s %s\n' % (
			a.lower(), ' '.join(b)) for a, b in lines))
	table = H.readmodifierrules(name)
	rec.expect('rules', table, {a: list(b) for a, b in lines})
	for parent in ('NP', 'np', 'NP-SBJ'):
		tree = gen.build(ParentedTree, ('S', (parent, ) + tuple([(label, i)
				for i, (label, _) in enumerate(kids)])))
		for node, (_, func) in zip(tree[0], kids):
			node.source = ['w', '--', 'x', '--', func, '0']
		tree[0, head].type = HEAD
		H.applyheadrules(tree, {}, table)
		want, prev = [], None
		for i, (label, func) in enumerate(kids):
			if i == head:
				want.append(HEAD)
				continue
			f = 'MOD' if func == 'MOD' else ''
			if '-' in label:
				label0, f2 = label.split('-')
			else:
				label0, f2 = label, ''
			mod = prev == label
			for a, b in lines:
				if a in ('NP', '*'):
					for m in b:
						cat, _, fun = m.partition('-')
						if cat in ('*', label0.upper()) and (not fun
								or fun == '*' or f == fun):
							mod = True
			want.append(MODIFIER if mod else COMPLEMENT)
			prev = label
		rec.expect('types', [a.type for a in tree[0]], want)
		rec.step()
	rec.outcome(want)
	rec.trace()


def gen_modifiers(tier):
	kids = [('PP', '--'), ('pp', 'MOD'), ('A', 'MOD'), ('A', '--'),
			('B', '--')]
	chosen = [(), ] + [(i, ) for i in range(len(MODS))] + [
			(i, j) for i in range(len(MODS)) for j in range(len(MODS))
			if MODS[i][0] != MODS[j][0]]
	for n in range(1, 4 if tier == 'quick' else 5):
		for seq in product(kids, repeat=n):
			for head in range(n):
				for c in chosen:
					yield c, seq, head


def phrasal(t, pos=()):
	if isinstance(t[1], tuple):
		yield pos, t
		for n, a in enumerate(t[1:]):
			for b in phrasal(a, pos + (n, )):
				yield b


def mark(tree, hd):
	for pos, i in hd.items():
		tree[pos][i].type = HEAD
	return tree


def deps(case, rec):
	t, assign, funcs = case
	hd = {pos: i for (pos, _), i in zip(phrasal(t), assign)}
	tree = mark(gen.build(ParentedTree, t), hd)
	n = len(gen.leaves(t))
	sent = ['w%d' % i for i in range(n)]
	fn = {}
	for k, a in enumerate(tree.subtrees()):
		f = funcs[k % len(funcs)]
		a.source = None if f is None else ['w', '--', 'x', '--', f, '0']
		fn[tuple(sorted(a.leaves())), a.label, id(a)] = f

	def lexhead(a):
		while isinstance(a[0], Tree):
			a = [b for b in a if b.type == HEAD][0]
		return a[0] + 1
	want = {}
	for a in tree:
		want[lexhead(a)] = ('root', 0)
	for a in tree.subtrees(lambda x: x is not tree
			and isinstance(x[0], Tree)):
		for b in a:
			if b.type != HEAD:
				f = b.source[4] if b.source else None
				want[lexhead(b)] = (f if f and f != '--' else '-', lexhead(a))
		rec.expect('head word', H.getheadpos(a)[0] + 1, lexhead(a))
	got = dependencies(tree)
	rec.expect('dependencies', got, [(i + 1, ) + want[i + 1]
			for i in range(n)])
	rec.step()
	# every word leads to the root
	head = {a: b for a, _, b in got}
	for a in range(1, n + 1):
		steps = 0
		while a and steps <= n:
			a, steps = head[a], steps + 1
		rec.expect('reaches the root', a, 0)
	inner = [abs(a - b) for a, _, b in got if b]
	rec.expect('length', deplen(got), (sum(inner), len(inner)))
	tags = [b for _, b in sorted(tree.pos())]
	conll = writetree(tree, sent, '1', 'conll')
	rec.expect('conll', [a.split('\t') for a in conll.rstrip('\n').split('\n')],
			[[str(i), w, '_', tag, tag, '_', str(b), rel, '_', '_']
			for w, tag, (i, rel, b) in zip(sent, tags, got)])
	rec.expect('conll ends with blank line', conll.endswith('\n\n'), True)
	mst = writetree(tree, sent, '1', 'mst')
	rec.expect('mst', mst, '\n'.join('\t'.join(a) for a in (sent, tags,
			[rel for _, rel, _ in got], [str(b) for _, _, b in got]))
			+ '\n\n')
	# statistics
	heads, unknown, pos1, pos2 = H.headstats([tree, tree])
	expect = Counter()
	for a in tree.subtrees(lambda x: len(x) > 1):
		for i, b in enumerate(a):
			if b.type == HEAD:
				expect['h', a.label, b.label] += 2
				expect['1', a.label, i] += 2
				expect['2', a.label, len(a) - (i + 2)] += 2
	real = Counter({('h', a, b): c for a in heads for b, c in heads[a].items()})
	real.update({('1', a, b): c for a in pos1 for b, c in pos1[a].items()})
	real.update({('2', a, b): c for a in pos2 for b, c in pos2[a].items()})
	rec.expect('statistics', real, expect)
	rec.expect('no head', dict(unknown), {})
	rec.outcome(got)
	rec.step(3)
	rec.trace()


def gen_deps(tier):
	quick = tier == 'quick'
	for n in range(1, 5 if quick else 6):
		for t in gen.sentencetrees(n, True, {1: 2, 2: 2, 3: 1}.get(n, 0),
				labels='A'):
			for assign in product(*[range(len(a) - 1) for _, a
					in phrasal(t)]):
				for funcs in ((None, ), ('SB', '--', None, 'OA', 'MO')):
					yield t, assign, funcs
			if n > 1:  # children in another order than their words
				for u in gen.orders(t) if n < 4 else (gen.mirrored(t), ):
					if u != t:
						for assign in product(*[range(len(a) - 1)
								for _, a in phrasal(u)]):
							yield u, assign, ('SB', '--', None, 'OA', 'MO')
	for t in gen.large((9, 10, 11, 12, 33)):
		for k in (0, 1, 2):
			assign = tuple([(0, len(a) - 2, (len(a) - 1) // 2)[k]
					for _, a in phrasal(t)])
			yield t, assign, ('SB', '--', None, 'OA', 'MO')


def saved(case, rec):
	t, assign, opts = case
	hd = {pos: i for (pos, _), i in zip(phrasal(t), assign)}
	tree = mark(gen.build(Tree, t), hd)
	binarize(tree, headoutward=True, rightmostunary=True, **dict(opts))
	bare = gen.build(Tree, gen.totuple(tree))  # as when read from a string
	H.saveheads(bare, dict(opts).get('tailmarker'))
	unbinarize(bare, expandunary=False)
	rec.step()
	threshold = dict(opts).get('threshold', 2)
	rec.expect('tree', gen.canon(gen.totuple(bare)), gen.canon(t))
	for pos, a in phrasal(t):
		got = [b.type == HEAD for b in bare[pos]]
		want = [i == hd[pos] and len(a) - 1 > threshold
				for i in range(len(a) - 1)]
		rec.expect('heads of %r in %s' % (pos, tree), got, want)
	rec.outcome(str(tree))
	rec.trace()


def gen_saved(tier):
	quick = tier == 'quick'
	for n in range(1, 6 if quick else 7):
		for t in gen.sentencetrees(n, n < 5, 1 if n < 4 else 0, labels='A'):
			if quick and n > 4 and len(list(phrasal(t))) > 2:
				continue
			for pos in ((None, ) if n > 4 else (None, '$,')):
				tt = t
				if pos:
					tt = retag(t, pos)
				for assign in product(*[range(len(a) - 1) for _, a
						in phrasal(t)]):
					for tail in ('', '$'):
						for opts in ((), (('horzmarkov', 1), ), (('markhead',
								True), ('direction', True)), (('leftmostunary',
								True), ('vertmarkov', 2))):
							yield tt, assign, (('tailmarker', tail), ) + opts


def retag(t, tag):
	if isinstance(t[1], tuple):
		return (t[0], ) + tuple([retag(a, tag) for a in t[1:]])
	return (tag, t[1])


def gen_partial(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for t in gen.sentencetrees(n, True, 1, labels=('A', 'B') if n < 3
				else ('A', )):
			sizes = [len(a) - 1 for a in gen.nodes(t)
					if isinstance(a[1], tuple)]
			# any subset of the children can have been marked as head
			for marks in product(*[range(1 << k) for k in sizes]):
				yield t, marks


def partial(case, rec):
	"""Nodes without a head, or with several (the first counts)."""
	t, marks = case
	tree = gen.build(ParentedTree, t)
	inner = [a for a in tree.subtrees() if isinstance(a[0], Tree)]
	heads = {}
	for a, mark in zip(inner, marks):
		for i, b in enumerate(a):
			if mark >> i & 1:
				b.type = HEAD
				heads.setdefault(id(a), b)
	want = {name: Counter() for name in ('heads', 'unknown', 'first', 'last')}

	def word(a):
		while a is not None and isinstance(a[0], Tree):
			a = heads.get(id(a))
		return a
	for a in tree.subtrees():
		rec.expect('head word', H.getheadpos(a) is word(a), True)
		if len(a) > 1 and id(a) in heads:
			b = heads[id(a)]
			want['heads'][a.label, b.label] += 1
			want['first'][a.label, b.parent_index] += 1
			want['last'][a.label, len(a) - b.parent_index - 2] += 1
		elif len(a) > 1:
			for b in a:
				want['unknown'][a.label, b.label] += 1
	got = H.headstats([tree])
	for name, a in zip(('heads', 'unknown', 'first', 'last'), got):
		rec.expect(name, {(x, y): c for x in a for y, c in a[x].items()},
				dict(want[name]))
	rec.outcome(marks)
	rec.step()
	rec.trace()


SPACES = [
	core.Space('partial', gen_partial, partial, {
		'quick': 'all trees over <=3 words (1 unary), all subsets of the '
		'children of every node marked as head', 'thorough': '<=4 words'}),
	core.Space('rules', gen_rules, rules, {
		'quick': 'all label sequences of <=4 over 5 labels, 60 single rules; '
		'pairs of 8-10 rules', 'thorough': 'sequences of <=5'}),
	core.Space('given', gen_given, given,
		'all combinations of 5 function tags and marked heads for <=4 children'),
	core.Space('rulefile', gen_rulefile, rulefile, {
		'quick': 'all files of <=4 of 10 lines', 'thorough': '<=5'}),
	core.Space('modifiers', gen_modifiers, modifiers, {
		'quick': 'all sequences of <=3 of 5 children, heads, 0-2 of 7 rules',
		'thorough': '<=4 children'}),
	core.Space('dependencies', gen_deps, deps, {
		'quick': 'fixed large shapes of 9-33 words; '
		'all trees over <=4 words, all head assignments',
		'thorough': '<=5 words'}),
	core.Space('saveheads', gen_saved, saved, {
		'quick': 'all trees over <=4 words (5: <=2 phrases), all head '
		'assignments, 8 binarizations', 'thorough': '<=6 words'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C13', SPACES))
