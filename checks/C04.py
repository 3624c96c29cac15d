"""C04: tree queries agree with the structure of the tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations
from vlib import build, core, gen
build.activate('bit')
from discodop.tree import (Tree, ParentedTree, ImmutableTree,  # noqa: E402
		ImmutableParentedTree)

CLASSES = {a.__name__: a for a in (Tree, ParentedTree, ImmutableTree,
		ImmutableParentedTree)}


# --- reference on nested tuples ---------------------------------------------

def preorder(t, pos=()):
	"""All (position, value), nodes before their children."""
	yield pos, t
	if isinstance(t, tuple):
		for i, a in enumerate(t[1:]):
			for b in preorder(a, pos + (i, )):
				yield b


def post(t, pos=()):
	if isinstance(t, tuple):
		for i, a in enumerate(t[1:]):
			for b in post(a, pos + (i, )):
				yield b
	yield pos, t


def both(t, pos=()):
	yield pos
	if isinstance(t, tuple):
		for i, a in enumerate(t[1:]):
			for b in both(a, pos + (i, )):
				yield b
		yield pos


def height(t):
	if not isinstance(t, tuple):
		return 1
	return 1 + max([height(a) for a in t[1:]], default=0)


def tags(t):
	"""(leaf, label of the node above it); siblings stay together, top down."""
	result = []
	for _, a in preorder(t):
		if isinstance(a, tuple):
			result += [(b, a[0]) for b in a[1:] if not isinstance(b, tuple)]
	return result


def check(case, rec):
	kind, t = case
	cls = CLASSES[kind]
	tree = gen.build(cls, t)
	pre = [(p, a) for p, a in preorder(t)]
	nodes = [p for p, a in pre if isinstance(a, tuple)]
	leafpos = [p for p, a in pre if not isinstance(a, tuple)]
	leaves = [a for p, a in pre if not isinstance(a, tuple)]
	obj = {}

	def walk(a, p):
		obj[p] = a
		if isinstance(a, Tree):
			for i, b in enumerate(a.children):
				walk(b, p + (i, ))
	walk(tree, ())
	byid = {id(a): p for p, a in obj.items() if isinstance(a, Tree)}
	rec.expect('leaves', tree.leaves(), leaves)
	rec.expect('height', tree.height(), height(t))
	rec.expect('number of children, truth', (len(tree), bool(tree)),
			(len(t) - 1, len(t) > 1))
	rec.expect('subtrees', [byid[id(a)] for a in tree.subtrees()], nodes)
	rec.expect('postorder', [byid[id(a)] for a in tree.postorder()],
			[p for p, a in post(t) if isinstance(a, tuple)])
	rec.expect('subtrees with condition', [byid[id(a)] for a in
			tree.subtrees(lambda n: n.label != 'A')],
			[p for p, a in pre if isinstance(a, tuple) and a[0] != 'A'])
	rec.expect('postorder with condition', [byid[id(a)] for a in
			tree.postorder(lambda n: len(n) > 1)],
			[p for p, a in post(t) if isinstance(a, tuple) and len(a) > 2])
	rec.expect('positions', tree.treepositions(), [p for p, _ in pre])
	rec.expect('positions, postorder', tree.treepositions('postorder'),
			[p for p, _ in post(t)])
	rec.expect('positions, both', tree.treepositions('bothorder'),
			list(both(t)))
	rec.expect('positions, leaves', tree.treepositions('leaves'), leafpos)
	rec.step(11)
	for p in obj:
		if tree[p] is not obj[p] or (len(p) == 1 and tree[p[0]] is not obj[p]):
			rec.fail('indexing with %r' % (p, ))
		if p and tree[list(p)] is not obj[p]:
			rec.fail('indexing with %r' % (list(p), ))
		rec.step()
	for i in range(len(leafpos)):
		rec.expect('leaf position %d' % i, tree.leaf_treeposition(i),
				leafpos[i])
		for j in range(i + 1, len(leafpos) + 1):
			a, b = leafpos[i], leafpos[j - 1]
			k = 0
			while k < min(len(a), len(b)) and a[k] == b[k]:
				k += 1
			rec.step()
			rec.expect('lowest node above leaves %d:%d' % (i, j),
					tree.treeposition_spanning_leaves(i, j), a[:k])
	for i in (-1, len(leafpos), len(leafpos) + 1):
		try:
			got = tree.leaf_treeposition(i)
		except IndexError:
			got = IndexError
		rec.expect('leaf position %d' % i, got, IndexError)
	for i, j in ((0, 0), (1, 0)):
		try:
			got = tree.treeposition_spanning_leaves(i, j)
		except ValueError:
			got = ValueError
		rec.expect('empty span', got, ValueError)
	rec.expect('pos', tree.pos(), tags(t))
	rec.expect('pos nodes', [byid[id(a)] for a in tree.pos(nodes=True)],
			[p for p, a in pre if isinstance(a, tuple)
				and any(not isinstance(b, tuple) for b in a[1:])])
	first = [i for i, a in enumerate(t[1:]) if isinstance(a, tuple)]
	got = tree.find(lambda n: isinstance(n, Tree))
	rec.expect('find', got is (tree[first[0]] if first else None), True)
	for i, a in enumerate(t[1:]):
		rec.expect('index', tree.index(tree[i]), t[1:].index(a))
	rec.expect('iteration', [id(a) for a in tree],
			[id(a) for a in tree.children])
	# text
	text = str(tree)
	rec.expect('text', gen.totuple(cls.parse(text)), t)
	rec.expect('constructor', cls(text), tree)
	for margin in (0, 10, 25):
		rec.expect('pretty-printed', gen.totuple(cls.parse(
				tree.pprint(margin=margin))), t)
		rec.step()
	rec.expect('repr', eval(repr(tree), dict(CLASSES)),  # pylint: disable=W0123
			tree)
	if isinstance(tree, ImmutableTree):
		if len(set(leaves)) == len(leaves):
			rec.expect('bitset', [a.bitset for a in tree.subtrees()],
					[sum(1 << b for b in gen.leaves(a))
					for _, a in pre if isinstance(a, tuple)])
	rec.outcome(text)
	rec.trace()


def gen_queries(tier):
	kinds = sorted(CLASSES)
	for size in range(1, 9 if tier == 'quick' else 10):
		for shape in gen.trees(size):
			n, k = gen.numnodes(shape), gen.numleaves(shape)
			for labels in {('S', ) * n, tuple('SABCDEFGHI'[:n]),
					tuple('SAABBAABB'[:n])}:
				t = gen.dress(shape, labels, range(k))
				for kind in kinds if size < 9 else kinds[-1:]:
					yield kind, t
			if size <= 5:
				for leaves in permutations(range(k)):
					yield 'ParentedTree', gen.dress(shape, 'SABCDE', leaves)
				for leaves in product((0, 1, 10), repeat=k):
					yield 'Tree', gen.dress(shape, 'SABCDE', leaves)
					yield 'ParentedTree', gen.dress(shape, 'SAAAAA', leaves)
	for t in gen.large((9, 10, 11, 12, 33, 65)):
		for kind in ('Tree', 'ImmutableParentedTree'):
			yield kind, t


def gen_order(_tier):
	small = []
	for size in range(1, 5):
		for shape in gen.trees(size):
			n, k = gen.numnodes(shape), gen.numleaves(shape)
			for labels in product('AB', repeat=n):
				for leaves in product((0, 1), repeat=k):
					small.append(gen.dress(shape, labels, leaves))
	return product(small, repeat=2)


def key(t):
	"""Total order: leaves before nodes; label first, then the children."""
	if not isinstance(t, tuple):
		return (0, t, ())
	return (1, t[0], tuple([key(a) for a in t[1:]]))


def order(case, rec):
	a, b = case
	for cls in (Tree, ImmutableTree):
		x, y = gen.build(cls, a), gen.build(cls, b)
		got = (x < y, x <= y, x > y, x >= y, x == y, x != y)
		k, m = key(a), key(b)
		rec.expect('<, <=, >, >=, ==, !=', got,
				(k < m, k <= m, k > m, k >= m, k == m, k != m))
		if a is b or a == b:
			rec.expect('with itself', (x < x, x <= x, x > x, x >= x, x == x,
					x != x), (False, True, False, True, True, False))
		rec.step(6)
	rec.outcome(got)
	rec.trace()


SPACES = [
	core.Space('queries', gen_queries, check, {
		'quick': 'fixed large shapes of 9-65 words; '
		'all trees with up to 8 nodes and leaves, 3 labelings, 4 '
		'classes; all leaf orders up to size 5',
		'thorough': 'all trees with up to 9 nodes and leaves'}),
	core.Space('order', gen_order, order,
		'all pairs of trees with up to 4 nodes and leaves, 2 labels, 2 leaf '
		'values'),
	]

if __name__ == '__main__':
	sys.exit(core.main('C04', SPACES))
