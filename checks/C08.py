"""C08: binarization can be undone and does what its options say."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen
build.activate('bit')
from discodop.tree import Tree, ParentedTree, HEAD  # noqa: E402
from discodop.treetransforms import (binarize, unbinarize,  # noqa: E402
		collapseunary, handledisc, introducepreterminals, binarizetree,
		optimalbinarize)
from discodop.grammar import UniqueIDs  # noqa: E402

NAMES = ('factor', 'horzmarkov', 'vertmarkov', 'revhorzmarkov', 'markhead',
		'headoutward', 'leftmostunary', 'rightmostunary', 'threshold', 'artpa',
		'ids', 'filterlabels', 'dot', 'direction', 'tailmarker')
DEFAULT = dict(factor='right', horzmarkov=999, vertmarkov=1, revhorzmarkov=0,
		markhead=False, headoutward=False, leftmostunary=False,
		rightmostunary=False, threshold=2, artpa=True, ids=False,
		filterlabels=(), dot=False, direction=False, tailmarker='')


def make(cls, t, heads):
	"""heads: index of head child for every node, pre-order, or None."""
	it = iter(heads)

	def rec(a):
		if not isinstance(a, tuple):
			return a
		head = next(it)
		node = cls(a[0], [rec(b) for b in a[1:]])
		if head is not None and isinstance(a[1], tuple):
			node[head].type = HEAD
		return node
	return rec(t)


# --- reference: right factored, no head-outward switch ---------------------------

def model(t, o, heads):
	"""Right-factored binarization by recursion over the children."""
	it = iter(heads)

	def rec(a, anc):
		if not isinstance(a, tuple):
			return a
		head = next(it)
		label, kids = a[0], list(a[1:])
		phrasal = isinstance(kids[0], tuple)
		parents, passed = '', anc
		new = label
		if o['vertmarkov'] > 1 and anc and phrasal:
			parents = '^<%s>' % ','.join(anc)
			new += parents
			passed = [label] + anc[:o['vertmarkov'] - 2]
			if not o['artpa']:
				parents = ''
		elif not anc:
			passed = [label]
		done = [rec(b, passed) for b in kids]
		n = len(kids)
		if n <= o['threshold']:
			return (new, ) + tuple(done)
		labels = [b[0] for b in kids] if phrasal else []
		keep = lambda seq: [x for x in seq  # noqa: E731
				if x.split('/')[0] not in o['filterlabels']]
		headmark = (labels[head] + ';' if o['markhead']
				and head is not None and phrasal else '')
		dirmark = 'l:' if o['direction'] else ''
		h = o['horzmarkov']

		def art(ctx, rest, tail=''):
			return ('%s|<%s%s%s>%s%s' % (label, dirmark, headmark, ctx,
					parents, tail), ) + tuple(rest)
		if n <= 2:
			ctx = ','.join(keep(labels[:h])) + ('.' if o['dot'] else '')
			if not phrasal:
				return (new, done[0], ('%s|<%s>%s' % (label,
						'.' if o['dot'] else '', parents), done[1]))
			return (new, done[0], art(ctx, done[1:]))

		def suffix(i):
			"""Artificial node for children i and further."""
			ctx = ''
			if o['dot']:
				ctx += ','.join(keep(labels[:i])) + '.'
			if o['revhorzmarkov']:
				ctx += ','.join(keep(labels[max(i - o['revhorzmarkov'], 0):i])
						) + ';'
			ctx += ','.join(keep(labels[i:])[:h])
			last = i == n - 1
			if last:
				rest = done[i:]
			elif i == n - 2 and not o['rightmostunary']:
				rest = done[i:]
			else:
				rest = [done[i], suffix(i + 1)]
			return art(ctx, rest, o['tailmarker'] if last else '')
		result = [done[0], suffix(1)]
		if o['leftmostunary']:
			ctx = ('.' if o['dot'] else '') + ','.join(
					keep(labels[:h]))
			result = [art(ctx, result)]
		return (new, ) + tuple(result)
	return rec(t, [])


def leftmodel(t, o, limit):
	"""Left-factored binarization without heads; each artificial node has the
	first children and the labels of the last of these.

	:param limit: whether only labels of its own children (known finding)."""
	def rec(a, anc):
		if not isinstance(a, tuple):
			return a
		label, kids = a[0], list(a[1:])
		phrasal = isinstance(kids[0], tuple)
		parents, passed, new = '', anc, label
		if o['vertmarkov'] > 1 and anc and phrasal:
			parents = '^<%s>' % ','.join(anc)
			new += parents
			passed = [label] + anc[:o['vertmarkov'] - 2]
			if not o['artpa']:
				parents = ''
		elif not anc:
			passed = [label]
		done = [rec(b, passed) for b in kids]
		n, h = len(kids), o['horzmarkov']
		if n <= o['threshold']:
			return (new, ) + tuple(done)
		labels = [b[0] for b in kids] if phrasal else []
		dirmark = 'r:' if o['direction'] else ''

		def art(ctx, rest, tail=''):
			return ('%s|<%s%s>%s%s' % (label, dirmark if phrasal or n > 2
					else '', ctx, parents, tail), ) + tuple(rest)
		dot = '.' if o['dot'] else ''
		if n <= 2:
			return (new, art(','.join(labels[:h]) + dot, done[:1])) + tuple(
					done[1:])

		def prefix(k):
			"""Artificial node for the first k children."""
			start, end = max(k - h, 0), k
			ctx = ','.join(labels[:start]) + dot if dot else ''
			if o['revhorzmarkov']:
				ctx += ','.join(labels[end:end + o['revhorzmarkov']]) + ';'
			ctx += ','.join(labels[start:end] if limit else labels[start:][:h])
			if k == 1 or (k == 2 and not o['rightmostunary']):
				return art(ctx, done[:k], o['tailmarker'] if k == 1 else '')
			return art(ctx, [prefix(k - 1), done[k - 1]])
		result = [prefix(n - 1), done[-1]]
		if o['leftmostunary']:
			result = [art(dot + ','.join(labels[max(n - h, 0):]), result)]
		return (new, ) + tuple(result)
	return rec(t, [])


def flat(t):
	"""Structure without artificial labels: head-outward reference."""
	if not isinstance(t, tuple):
		return t
	label = t[0].split('^<')[0] if '|<' not in t[0] else '*'
	return (label, ) + tuple([flat(a) for a in t[1:]])


def outward(t, o, heads):
	"""Structure of a head-outward, initially right-factored binarization."""
	it = iter(heads)

	def rec(a):
		if not isinstance(a, tuple):
			return a
		head = next(it)
		kids = [rec(b) for b in a[1:]]
		if not isinstance(a[1], tuple):
			head = None
		n = len(kids)
		if n <= o['threshold']:
			return (a[0], ) + tuple(kids)
		if n <= 2:
			return (a[0], kids[0], ('*', kids[1]))

		def peel(items):
			"""items: (is head, child)."""
			if len(items) == 1 or (len(items) == 2
					and not o['rightmostunary']):
				return tuple([b for _, b in items])
			if items[0][0]:
				return (('*', ) + peel(items[:-1]), items[-1][1])
			rest = ('*', ) + peel(items[1:])
			if items[1][0] and o['direction'] and len(items) > 2:
				rest = ('*', rest)
			return (items[0][1], rest)
		result = peel([(i == head, b) for i, b in enumerate(kids)])
		if o['leftmostunary']:
			result = (('*', ) + result, )
		return (a[0], ) + result
	return rec(t)


def check(case, rec):
	t, heads, opts = case
	o = dict(DEFAULT, **dict(opts))
	kw = dict(o)
	kw['ids'] = UniqueIDs() if o['ids'] else None
	for cls in (Tree, ParentedTree):
		tree = make(cls, t, heads)
		result = binarize(tree, **kw)
		got = gen.totuple(result)
		if cls is ParentedTree:
			for a in result.subtrees():
				for b in a:
					if isinstance(b, Tree):
						rec.expect('parent', b.parent is a, True)
		for a in gen.nodes(got):
			if len(a) > 3:
				rec.fail('more than two children: %r' % (a, ))
			if '|<' in a[0] and len(a) < 2:
				rec.fail('empty artificial node: %r' % (got, ))
		if o['factor'] == 'right' and not o['ids']:
			if not o['headoutward']:
				rec.expect('binarized', got, model(t, o, heads))
			else:
				rec.expect('structure', flat(got), outward(t, o, heads))
				if not o['markhead'] and all(a is None for a in heads):
					rec.expect('binarized', got, model(t, o, heads))
		elif (o['factor'] == 'left' and not o['ids'] and not
				o['filterlabels'] and (not (o['headoutward'] or o['markhead'])
				or all(a is None for a in heads))):
			want = leftmodel(t, o, False)
			if got != want:
				rec.expect('binarized', got, leftmodel(t, o, True))
		if o['ids']:  # the same, with a number for each context
			plain = gen.totuple(binarize(make(cls, t, heads),
					**dict(kw, ids=None)))
			names, numbers = {}, {}
			for (_, a), (_, b) in zip(labelsof(got), labelsof(plain)):
				m = re.match(r'(.*)\|<([0-9]+)>(\$?)$', a)
				if m is None:
					rec.expect('label without number', a, b)
					continue
				tail = m.group(3)
				rec.expect('label and tail of %s' % a, (
						b.startswith(m.group(1) + '|<'), b.endswith('$')),
						(True, tail == '$'))
				context = b[len(m.group(1)):len(b) - len(tail)]
				rec.expect('number of %s' % b, names.setdefault(context,
						m.group(2)), m.group(2))
				rec.expect('context of %s' % a, numbers.setdefault(m.group(2),
						context), context)
			rec.expect('structure with numbers', [a for a, _ in labelsof(got)],
					[a for a, _ in labelsof(plain)])
		back = gen.totuple(unbinarize(result))
		rec.expect('unbinarize(%s)' % gen.show(got), back, t)
		rec.step()
	rec.outcome(got)
	rec.trace()


def labelsof(t, path=()):
	"""Positions and labels of nodes; positions and leaves."""
	result = [(path, t[0])]
	for n, a in enumerate(t[1:]):
		result += labelsof(a, path + (n, )) if isinstance(a, tuple) else [
				(path + (n, a), '')]
	return result


def headings(t):
	"""All assignments of heads."""
	sizes = [len(a) - 1 if isinstance(a[1], tuple) else 0
			for a in gen.nodes(t)]
	return product(*[[None] + list(range(k)) if k else [None]
			for k in sizes])


FLAT = [('S', ) + tuple([('ABCDEFG'[i], i) for i in range(k)])
		for k in range(1, 8)]


def gen_options(tier):
	"""Every combination of options on a few trees."""
	trees = [(FLAT[2], (1, None, None, None)),
		(('S', ('A', ('B', 0), ('C', 1), ('D', 3)), ('E', 2), ('B/x', 4)),
			(2, 0, None, None, None, None, None)),
		(('S', ('A', ('B', 0), ('C', 1))), (None, ) * 4),
		(('S', ('A', ('B', 0), ('C', 1))), (0, 1, None, None))]
	if tier != 'quick':
		trees += [(('S', ('B/', 0), ('/B', 1), ('B', 2), ('B/B/A', 3), ('C', 4)),
				(1, ) + (None, ) * 5), (FLAT[3], (2, ) + (None, ) * 4),
			(FLAT[4], (0, ) + (None, ) * 5),
			(('S', ('A', ('B', ('B', 0), ('B', 1)), ('C', 2), ('A', 3))),
				(0, 1) + (None, ) * 5)]
	domains = (('right', 'left'), (0, 1, 2, 999), (1, 2, 3), (0, 1, 2),
			(False, True), (False, True), (False, True), (False, True),
			(1, 2), (True, False), (False, True), ((), ('B', )),
			(False, True), (False, True), ('', '$'))
	for opts in product(*domains):
		pairs = tuple((a, b) for a, b in zip(NAMES, opts) if b != DEFAULT[a])
		for t, heads in trees:
			yield t, heads, pairs


def gen_trees(tier):
	"""Many trees and all heads; some options."""
	some = []
	for factor in ('right', 'left'):
		for h in (0, 1, 2, 3, 999):
			for v in (1, 2, 3):
				for lr in (0, 1, 2, 3):
					for thr in (1, 2):
						some.append((('factor', factor), ('horzmarkov', h),
							('vertmarkov', v), ('leftmostunary', bool(lr & 1)),
							('rightmostunary', bool(lr & 2)),
							('threshold', thr)))
	def nohead(t):
		return (None, ) * len(list(gen.nodes(t)))
	for t in FLAT:
		for o in some:
			yield t, nohead(t), o
	few = [a for a in some if ('vertmarkov', 3) not in a
			and ('horzmarkov', 3) not in a]
	for n in range(1, 5):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0, labels='AB'):
			for o in few:
				yield t, nohead(t), o
			# children in another order than their words
			for u in gen.orders(t) if n < 4 else (gen.mirrored(t), ):
				if u != t:
					for o in few[len(t)::11]:
						yield u, nohead(u), o
	for n in (5, ) if tier == 'quick' else (5, 6):
		for t in gen.sentencetrees(n, True, 0, labels='A'):
			for o in few[::7]:
				yield t, nohead(t), o
	for t in gen.large((9, 10, 11, 12, 33, 101)):
		for o in few[::5]:
			yield t, nohead(t), o
	# head-outward, every head
	for n in range(1, 5 if tier == 'quick' else 6):
		for t in list(gen.sentencetrees(n, True, 0, labels='A')) + FLAT[4:6] + [
				u for t in gen.sentencetrees(min(n, 4), True, 0, labels='A')
				for u in (gen.mirrored(t), ) if n < 4 or t[1] != u[-1]]:
			for heads in headings(t):
				for factor in ('right', 'left'):
					for rest in ((), (('direction', True), ), (
							('markhead', True), ('leftmostunary', True),
							('rightmostunary', True), ('horzmarkov', 1)), (
							('rightmostunary', True), ('tailmarker', '$')), (
							('rightmostunary', True), ('direction', True)), (
							('threshold', 1), ('dot', True))):
						yield t, heads, (('headoutward', True),
								('factor', factor)) + rest


# --- no new generalizations --------------------------------------------------------

def context(case, rec):
	"""Two artificial nodes have the same label only if the same constituents
	remain to be generated below the same parent."""
	t, factor = case
	got = gen.totuple(binarize(gen.build(Tree, t), factor=factor))
	seen = {}
	below = {tuple(sorted(gen.leaves(a))): a[0] for a in gen.nodes(t)}

	def children(a):
		"""Labels of the original children covered by artificial node."""
		result = []
		for b in a[1:]:
			result += children(b) if isinstance(b, tuple) and '|<' in b[0] \
					else [b[0]]
		return tuple(result)
	for a in gen.nodes(got):
		if '|<' in a[0]:
			mine = (a[0].split('|<')[0], children(a))
			if seen.setdefault(a[0], mine) != mine:
				rec.fail('%s used for %r and %r' % (a[0], seen[a[0]], mine),
						key='left-context' if factor == 'left' else None)
			rec.step()
	rec.outcome(got)
	rec.state(below)
	rec.trace()


def gen_context(tier):
	for n in range(1, 6 if tier == 'quick' else 7):
		for tags in product('AB', repeat=n):
			t = ('S', ) + tuple([(a, i) for i, a in enumerate(tags)])
			yield t, 'right'
	for n in (3, 4, 5):
		for t in gen.sentencetrees(n, True, 0, labels='AB' if n < 5 else 'A'):
			yield t, 'right'
	yield ('S', ('A', 0), ('B', 1), ('C', 2), ('D', 3)), 'left'


# --- unary nodes ----------------------------------------------------------------

def unary(case, rec):
	t, collapsepos, collapseroot, bina = case
	tree = gen.build(ParentedTree, t)
	result = collapseunary(tree, collapsepos, collapseroot)
	got = gen.totuple(result)

	def model(a, top):
		if not isinstance(a, tuple):
			return a
		label, kids = a[0], a[1:]
		if not (top and not collapseroot):
			while len(kids) == 1 and isinstance(kids[0], tuple) and (
					collapsepos or isinstance(kids[0][1], tuple)):
				label += '+' + kids[0][0]
				kids = kids[0][1:]
		return (label, ) + tuple([model(b, False) for b in kids])
	rec.expect('collapsed', got, model(t, len(t) == 2))
	if bina:
		result = binarize(result, vertmarkov=2)
	rec.expect('restored', gen.totuple(unbinarize(result)), t)
	same = gen.build(ParentedTree, got)
	rec.expect('expandunary=False', gen.totuple(unbinarize(
			binarize(same), expandunary=False)), got)
	rec.outcome(got)
	rec.step()
	rec.trace()


def gen_unary(tier):
	for n in range(1, 5):
		for t in gen.sentencetrees(n, True, 3 if n < 3 else 2 if n == 3 else 1,
				labels='AB' if n < 3 else 'A'):
			if len(list(gen.nodes(t))) < 3 and n == 1 and len(t) == 2 \
					and not isinstance(t[1][1], tuple):
				pass
			for a in (False, True):
				for b in (False, True):
					for c in (False, True):
						yield t, a, b, c


# --- words without their own preterminal ------------------------------------------

def words(case, rec):
	t, sent = case
	sent = list(sent)
	tree = gen.build(ParentedTree, t)
	got = gen.totuple(introducepreterminals(tree, sent))

	def model(a):
		if not isinstance(a, tuple):
			return a
		return (a[0], ) + tuple([model(b) if isinstance(b, tuple)
				else ('%s/%s' % (a[0], sent[b] or ''), b) if len(a) > 2
				else b for b in a[1:]])
	rec.expect('introducepreterminals', got, model(t))
	cnt = iter('abcdefgh')
	again = gen.totuple(introducepreterminals(gen.build(Tree, t), sent, cnt))
	new = [a[0] for a in gen.nodes(again) if '/' in a[0]]
	rec.expect('fresh labels', len(set(new)), len(new))
	rec.expect('yield', gen.leaves(again), gen.leaves(t))
	# discontinuous frontier nodes
	if all(isinstance(b, tuple) == isinstance(a[1], tuple)
			for a in gen.nodes(t) for b in a[1:]):
		tree = handledisc(gen.build(Tree, t))
		for a in tree.subtrees():
			rec.expect('at most one word per node', sum(
					isinstance(b, int) for b in a) <= 1, True)
		rec.expect('undone', gen.totuple(unbinarize(tree)), t)
	rec.outcome(got)
	rec.step()
	rec.trace()


def gen_words(tier):
	for size in range(2, 8 if tier == 'quick' else 9):
		for shape in gen.trees(size, False):
			n = gen.numleaves(shape)
			yield gen.dress(shape, 'SABCDEFGH', range(n)), tuple(
					['a', 'b', None, '/', 'e', 'f', 'g', 'h'][:n])


# --- settings of experiment --------------------------------------------------------

class Setting(object):
	def __init__(self, **kw):
		self.__dict__.update(kw)


SETTREES = [
	(('S', ('A', ('B', 0), ('C', 1), ('D', 3)), ('E', 2), ('B/x', 4), ('F', 5)),
		(2, 0) + (None, ) * 6),
	(('S', ('A', 0), ('SBJ', 1), ('ADJ', 2), ('X', 3)),
		(1, ) + (None, ) * 4)]
FUNS = [None, lambda n: n.label[:1]]
RR = dict(adjunctionlabel='ADJ', ignorefunctions=('SBJ', 'x'))


def gen_settings(tier):
	for i in range(len(SETTREES)):
		for case in product(('right', 'left'), ('', '$'), (1, 999), (1, 2),
				(0, 1), (False, True), (False, True), (False, True),
				(None, 'rules'), (False, True), (False, True), ((), ('B', )),
				(0, 1), (False, True)):
			yield i, 'default', case
		for method in ('optimal', 'optimalhead', None):
			for h in (None, 1, 2):
				for v in (1, 2):
					yield i, method, (h, v)


def settings(case, rec):
	"""binarizetree() passes the right settings to the right function."""
	i, method, vals = case
	t, heads = SETTREES[i]
	rec.step()
	rec.trace()
	if method == 'default':
		(factor, tail, h, v, revh, left, right, markhead, rules, direction, dot,
				filt, fun, rr) = vals
		b = Setting(method=method, factor=factor, tailmarker=tail, h=h, v=v,
				revh=revh, leftmostunary=left, rightmostunary=right,
				markhead=markhead, headrules=rules, direction=direction,
				dot=dot, filterlabels=filt, labelfun=FUNS[fun])
		got = gen.totuple(binarizetree(make(Tree, t, heads), b,
				RR if rr else {}))
		want = gen.totuple(binarize(make(Tree, t, heads), factor=factor,
				horzmarkov=h, vertmarkov=v, revhorzmarkov=revh,
				markhead=markhead, headoutward=rules is not None,
				tailmarker=tail, leftmostunary=left, rightmostunary=right,
				filterlabels=('SBJ', 'x', 'ADJ') if rr else filt,
				direction=direction and rules is not None, dot=dot,
				labelfun=FUNS[fun]))
	else:
		h, v = vals
		b = Setting(method=method, h=h, v=v)
		tree = make(Tree, t, heads)
		result = binarizetree(tree, b, {})
		if method is None:
			rec.expect('same object', result is tree, True)
			want = t
		elif method == 'optimal':
			want = gen.totuple(optimalbinarize(make(Tree, t, heads)))
		else:
			want = gen.totuple(optimalbinarize(make(Tree, t, heads),
					headdriven=True, h=h, v=v))
		rec.expect('type', type(result), Tree)
		got = gen.totuple(result)
	rec.expect('binarized', got, want)
	rec.outcome(got)


SPACES = [
	core.Space('options', gen_options, check, {
		'quick': 'all combinations of 15 options (147456) on 3 trees',
		'thorough': 'on 7 trees'}),
	core.Space('trees', gen_trees, check, {
		'quick': 'fixed large shapes of 9-101 words; '
		'flat trees of <=7 children, all trees of <=5 words, all '
		'assignments of heads for <=4 words, with option subsets',
		'thorough': 'all trees of <=6 words, heads for <=5'}),
	core.Space('context', gen_context, context, {
		'quick': 'all flat trees of <=5 children with 2 labels; all trees of '
		'<=5 words', 'thorough': '<=6 children'}),
	core.Space('unary', gen_unary, unary,
		'all trees of <=4 words with up to 3 unary nodes, 8 option sets'),
	core.Space('settings', gen_settings, settings,
		'all combinations of 14 settings of an experiment with default '
		'binarization, 18 of others, 2 trees'),
	core.Space('words', gen_words, words, {
		'quick': 'all ordered trees with <=7 nodes and leaves',
		'thorough': '<=8'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C08', SPACES))
