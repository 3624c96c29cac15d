"""C03: immutable trees never change; copies and frozen trees are independent."""
import copy
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen
build.activate('bit')
from discodop.tree import (Tree, ParentedTree, ImmutableTree,  # noqa: E402
		ImmutableParentedTree, DiscTree)

KINDS = {'ImmutableTree': ImmutableTree,
		'ImmutableParentedTree': ImmutableParentedTree}


def image(t):
	"""Everything observable about a tree."""
	return [(id(a), a.label, [id(b) if isinstance(b, Tree) else b for b in a],
			list(a.leaves()), a.height(), str(a),
			getattr(a, 'bitset', None),
			hash(a) if isinstance(a, ImmutableTree) else None,
			(id(a.parent), a.parent_index, a.treeposition)
			if isinstance(a, ParentedTree) else None)
			for a in t.subtrees()]


def attempts(node, other):
	"""Every way in which a mutable tree can be changed."""
	n = len(node)

	def iadd():
		nonlocal node
		node += [other]

	def imul():
		nonlocal node
		node *= 2

	def setitem(i, v):
		node[i] = v

	def delitem(i):
		del node[i]
	result = [
		('append', lambda: node.append(other)),
		('append leaf', lambda: node.append(99)),
		('extend', lambda: node.extend([other])),
		('insert', lambda: node.insert(0, other)),
		('insert leaf', lambda: node.insert(n, 99)),
		('insert end', lambda: node.insert(-1, other)),
		('pop', lambda: node.pop()),
		('pop 0', lambda: node.pop(0)),
		('setslice', lambda: setitem(slice(0, 1), [other])),
		('setslice all', lambda: setitem(slice(None), [])),
		('delslice', lambda: delitem(slice(None))),
		('iadd', iadd), ('imul', imul),
		]
	for i in range(n):
		result += [('set %d' % i, lambda i=i: setitem(i, other)),
			('set (%d,)' % i, lambda i=i: setitem((i, ), other)),
			('del %d' % i, lambda i=i: delitem(i)),
			('del (%d,)' % i, lambda i=i: delitem((i, ))),
			('remove %d' % i, lambda i=i: node.remove(node[i])),
			]
		if isinstance(node[i], Tree):
			for j in range(len(node[i])):
				result += [('set (%d, %d)' % (i, j),
						lambda i=i, j=j: setitem((i, j), 99)),
					('del (%d, %d)' % (i, j),
						lambda i=i, j=j: delitem((i, j)))]
	if isinstance(node, ParentedTree):
		result.append(('splicebelow', lambda: node.splicebelow('X')))
		if n:
			result.append(('disown', lambda: node.disown()))
		if node.parent is not None:
			result += [('detach', lambda: node.detach()),
				('prune', lambda: node.prune()),
				('spliceabove', lambda: node.spliceabove('X'))]
	return result


def gen_mut(tier):
	for size in range(1, 8 if tier == 'quick' else 9):
		for shape in gen.trees(size):
			t = gen.dress(shape, 'SABCDEFGHIJ', range(100))
			for kind in sorted(KINDS):
				yield kind, t


def mutate(case, rec):
	kind, t = case
	cls = KINDS[kind]
	tree = gen.build(cls, t)
	other = cls('Z', [50])
	before = image(tree)
	for k, node in enumerate(list(tree.subtrees())):
		for name, action in attempts(node, other):
			rec.step()
			try:
				action()
			except Exception:  # pylint: disable=broad-except
				raised = True
			else:
				raised = False
			if image(tree) != before:
				rec.fail('%s on node %d changed the immutable tree: %s' % (
						name, k, tree))
				return
			if not raised:
				rec.fail('%s on node %d: no exception' % (name, k))
			if list(other) != [50] or (isinstance(other, ParentedTree)
					and other.parent is not None):
				rec.fail('%s on node %d changed its argument' % (name, k))
				return
	rec.outcome(str(tree))
	rec.trace()


def gen_pairs(tier):
	"""Pairs of small trees, with repeated labels and leaves."""
	small = []
	for size in range(1, 5 if tier == 'quick' else 6):
		for shape in gen.trees(size):
			n, k = gen.numnodes(shape), gen.numleaves(shape)
			for labels in product('AB', repeat=n):
				for leaves in product((0, 1), repeat=k):
					small.append(gen.dress(shape, labels, leaves))
	if tier == 'thorough':
		small = small[::3]
	for a in small:
		for b in small:
			yield a, b


def equality(case, rec):
	a, b = case
	x, y = gen.build(ImmutableTree, a), gen.build(ImmutableParentedTree, b)
	z = gen.build(Tree, b)
	rec.expect('equality', (x == y, x != y, x == z, z == x),
			(a == b, a != b, a == b, a == b))
	rec.step(4)
	if a == b:
		rec.expect('equal trees have equal hashes', hash(x), hash(y))
		rec.expect('membership', (x in {y}, {x: 1}.get(y)), (True, 1))
	rec.outcome((a == b, x == y))
	rec.trace()


def gen_copy(tier):
	for size in range(1, 6 if tier == 'quick' else 7):
		for shape in gen.trees(size):
			t = gen.dress(shape, 'SABCDEFGHIJ', range(100))
			for kind in ('Tree', 'ParentedTree'):
				for how in ('copy', 'convert', 'freeze', 'deepcopy', 'pickle',
						'convert2', 'freezer'):
					yield kind, how, t


def plus(t):
	return (t[0], ) + tuple([plus(a) if isinstance(a, tuple) else a + 1000
			for a in t[1:]])


def copies(case, rec):
	"""Editing a copy does not change the original, and vice versa."""
	kind, how, t = case
	cls = {'Tree': Tree, 'ParentedTree': ParentedTree}[kind]
	orig = gen.build(cls, t)
	for i, node in enumerate(orig.subtrees()):
		node.source = ['a%d' % i, 'b', 'c', 'd', 'e', 'f']
		node.type = i % 4
	attrs = [(a.source[0], a.type) for a in orig.subtrees()]
	if how == 'copy':
		new = orig.copy(deep=True)
	elif how == 'convert':
		new = Tree.convert(orig)
	elif how == 'convert2':
		new = ParentedTree.convert(orig)
	elif how == 'freeze':
		new = orig.freeze()
	elif how == 'freezer':
		new = orig.freeze(lambda a: a + 1000)
		rec.expect('original leaves', gen.totuple(orig), t)
		rec.expect('new leaves', new.leaves(), [a + 1000
				for a in gen.leaves(t)])
		t = plus(t)
	elif how == 'deepcopy':
		new = copy.deepcopy(orig)
	else:
		new = pickle.loads(pickle.dumps(orig, protocol=-1))
	rec.expect('same structure', gen.totuple(new), t)
	rec.expect('attributes', [(a.source[0], a.type)
			for a in new.subtrees()], attrs)
	want = {'copy': cls, 'convert': Tree, 'convert2': ParentedTree,
			'deepcopy': cls, 'pickle': cls}.get(how, ImmutableTree if
			cls is Tree else ImmutableParentedTree)
	rec.expect('class', {type(a) for a in new.subtrees()}, {want})
	if isinstance(new, ParentedTree):
		rec.expect('parents', [a for a in new.subtrees() for b in a
				if isinstance(b, Tree) and b.parent is not a], [])
		rec.expect('root', new.parent, None)
	# now edit the original everywhere; the copy must not change
	before = image(new)
	for node in list(orig.subtrees()):
		node.label = 'changed'
		node.type = None
		node.source[0] = 'changed'
		rec.step()
		node.append(7)
	rec.expect('copy after editing the original', image(new), before)
	rec.expect('attributes after editing the original',
			[(a.source[0], a.type) for a in new.subtrees()], attrs)
	if not how.startswith('freeze'):
		before = image(orig)
		for node in list(new.subtrees()):
			node[:] = [3]
			rec.step()
		rec.expect('original after editing the copy', image(orig), before)
	rec.trace()


def gen_disc(tier):
	words = ('x', 'y')
	for n in range(1, 4):
		ts = [t for t in gen.sentencetrees(n, labels='AB', unary=1 if n < 3 else 0,
				pos='PQ'
				if n < 3 or tier == 'thorough' else 'P')]
		if tier == 'quick' and n == 3:
			ts = ts[::2]
		for a in ts:
			for b in ts:
				for s in product(words, repeat=n):
					yield a, b, s


def disctrees(case, rec):
	"""Trees wrapped with a sentence: equality of words and relative order."""
	a, b, sent = case
	n = len(sent)
	sent2 = ['x'] * n
	x = DiscTree(gen.build(ImmutableTree, a), sent)
	y = DiscTree(gen.build(ImmutableTree, b), sent2)

	def words(t, s):
		if not isinstance(t, tuple):
			return s[t]
		return (t[0], ) + tuple([words(c, s) for c in t[1:]])

	def places(t):
		seq = sorted(gen.leaves(t))
		return ([seq.index(x) for x in gen.leaves(t)],
				[q == p + 1 for p, q in zip(seq, seq[1:])])
	same = words(a, sent) == words(b, sent2) and places(a) == places(b)
	rec.expect('equality', (x == y, y == x), (same, same))
	if same:
		rec.expect('hash', hash(x), hash(y))
	rec.expect('equal to something else', (x == 'x', x == None, x == sent,  # noqa
			x != y), (False, False, False, not same))
	rec.step(2)
	rec.outcome((same, x == y))
	rec.trace()


SPACES = [
	core.Space('mutations', gen_mut, mutate, {
		'quick': 'every mutating operation on every node of all trees with up '
		'to 7 nodes and leaves, both immutable classes',
		'thorough': 'up to 8 nodes and leaves'}),
	core.Space('equality', gen_pairs, equality,
		'all pairs of trees with up to 4 nodes and leaves over 2 labels and 2 '
		'leaf values (thorough: every third of those with up to 5)'),
	core.Space('copies', gen_copy, copies, 'seven ways of copying all trees '
		'with up to 5 (6) nodes and leaves; then edit every node'),
	core.Space('disctrees', gen_disc, disctrees, 'all pairs of discontinuous '
		'trees over up to 3 words (2 labels)'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C03', SPACES, [
		'attributes are not assigned to directly, as the documentation says']))
