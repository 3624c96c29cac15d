"""Enumerations of trees.  Trees are nested tuples ``(label, child, ...)`` with
integers as leaves; shapes are nested tuples without labels."""
from functools import lru_cache
from itertools import combinations, product, permutations


# ---- arbitrary ordered trees ---------------------------------------------

@lru_cache(maxsize=None)
def forests(size, empty=True):
	"""All sequences of items with ``size`` nodes and leaves in total.

	Items: None (a leaf) or a tuple of items (a node)."""
	if size == 0:
		return ((), )
	result = []
	for first in range(1, size + 1):
		heads = []
		if first == 1:
			heads.append(None)
		if first > 1 or empty:
			heads.extend(forests(first - 1, empty))
		for head in heads:
			for tail in forests(size - first, empty):
				result.append((head, ) + tail)
	return tuple(result)


def trees(size, empty=True):
	"""All ordered tree shapes with ``size`` nodes and leaves in total."""
	return forests(size - 1, empty)


def numnodes(shape):
	return 0 if not isinstance(shape, tuple) else 1 + sum(map(numnodes, shape))


def numleaves(shape):
	return 1 if not isinstance(shape, tuple) else sum(map(numleaves, shape))


def dress(shape, labels, leaves):
	"""Assign labels (pre-order) and leaves (left to right) to a shape."""
	labels, leaves = iter(labels), iter(leaves)

	def rec(a):
		if not isinstance(a, tuple):
			return next(leaves)
		label = next(labels)
		return (label, ) + tuple([rec(b) for b in a])
	return rec(shape)


# ---- hierarchies over sentence positions ----------------------------------

def partitions(s):
	"""All set partitions of a sorted tuple; blocks ordered by first element."""
	if not s:
		yield ()
		return
	first, rest = s[0], s[1:]
	for k in range(len(rest) + 1):
		for more in combinations(rest, k):
			remaining = tuple(a for a in rest if a not in more)
			for p in partitions(remaining):
				yield ((first, ) + more, ) + p


def isint(block):
	return all(b == a + 1 for a, b in zip(block, block[1:]))


@lru_cache(maxsize=None)
def hierarchies(s, disc=True):
	"""All hierarchies over the indices ``s`` without unary nodes.

	A leaf is an index, a node a tuple of at least two items."""
	if len(s) == 1:
		return (s[0], )
	result = []
	for p in partitions(s):
		if len(p) == 1 or (not disc and not all(map(isint, p))):
			continue
		for kids in product(*[hierarchies(a, disc) for a in p]):
			result.append(tuple(kids))
	return tuple(result)


def leafset(shape):
	return (shape, ) if not isinstance(shape, tuple) else tuple(sorted(
			a for b in shape for a in leafset(b)))


def internal(shape):
	"""Number of nodes of a hierarchy."""
	return 0 if not isinstance(shape, tuple) else 1 + sum(map(internal, shape))


def unaries(shape, budget):
	"""Add up to ``budget`` unary nodes above nodes or leaves; each variant
	once."""
	def rec(a, k):
		"""Variants of ``a`` using exactly k unary nodes."""
		if isinstance(a, tuple):
			for ks in compositions(k, len(a) + 1):
				for kids in product(*[list(rec(b, c))
						for b, c in zip(a, ks[1:])]):
					node = tuple(kids)
					for _ in range(ks[0]):
						node = (node, )
					yield node
		else:
			node = a
			for _ in range(k):
				node = (node, )
			yield node
	for k in range(budget + 1):
		for a in rec(shape, k):
			yield a


def compositions(n, parts):
	if parts == 1:
		yield (n, )
		return
	for a in range(n + 1):
		for b in compositions(n - a, parts - 1):
			yield (a, ) + b


def sentencetrees(n, disc=True, unary=0, labels='AB', root='S', pos=None,
		flatpos=False):
	"""Trees over positions 0..n-1 with preterminals, as nested tuples.

	:param labels: phrasal labels to choose from for every non-root node.
	:param pos: list of tags to choose from (default: one tag T per position
		named after the position)."""
	for h in hierarchies(tuple(range(n)), disc):
		for u in unaries(h, unary) if unary else (h, ):
			shape = u if isinstance(u, tuple) else (u, )
			k = internal(shape) - 1
			tagsets = product(pos, repeat=n) if pos else [
					['T%d' % i for i in range(n)]]
			for tags in tagsets:
				for labs in product(labels, repeat=k):
					yield withpos(shape, [root] + list(labs), tags)


def withpos(shape, labels, tags):
	labels = iter(labels)

	def rec(a):
		if not isinstance(a, tuple):
			return (tags[a], a)
		label = next(labels)
		return (label, ) + tuple([rec(b) for b in a])
	return rec(shape)


# ---- nested tuples as trees ------------------------------------------------

def show(t):
	"""Nested tuple to bracket notation."""
	if not isinstance(t, tuple):
		return str(t)
	return '(%s %s)' % (t[0], ' '.join(map(show, t[1:])))


def totuple(tree):
	"""Tree object (anything with label and children) to nested tuple."""
	if not hasattr(tree, 'label'):
		return tree
	return (tree.label, ) + tuple([totuple(a) for a in tree.children])


def build(cls, t):
	"""Nested tuple to Tree object."""
	if not isinstance(t, tuple):
		return t
	return cls(t[0], [build(cls, a) for a in t[1:]])


def leaves(t):
	if not isinstance(t, tuple):
		return [t]
	return [a for b in t[1:] for a in leaves(b)]


def nodes(t):
	"""Pre-order."""
	if isinstance(t, tuple):
		yield t
		for a in t[1:]:
			for b in nodes(a):
				yield b


def comps(s):
	s = set(s)
	return sum(1 for a in s if a - 1 not in s)


def isdisc(t):
	return any(comps(leaves(a)) > 1 for a in nodes(t))


def canon(t):
	"""Children sorted by leftmost leaf, recursively."""
	if not isinstance(t, tuple):
		return t
	return (t[0], ) + tuple(sorted([canon(a) for a in t[1:]],
			key=lambda a: min(leaves(a), default=-1)))


def orders(t):
	"""All orders of the children of all nodes; the original is among them."""
	if not isinstance(t, tuple):
		yield t
		return
	for kids in product(*[list(orders(a)) for a in t[1:]]):
		for p in permutations(kids):
			yield (t[0], ) + p


def mirrored(t):
	"""The children of each node in reverse."""
	if not isinstance(t, tuple):
		return t
	return t[:1] + tuple(map(mirrored, t[:0:-1]))


def brackets(t):
	"""Multiset of (label, yield) of all nodes, sorted."""
	return sorted((a[0], tuple(sorted(leaves(a)))) for a in nodes(t))


def large(sizes, disc=True, unary=True):
	"""Trees with many children, components, levels or words.

	A few shapes for each size; with sizes around powers of ten and two, what
	is compared or formatted as digits, or stored in machine words, is as well.
	"""
	for n in sizes:
		word = [('X', a) for a in range(3 * n)]
		yield ('S', ) + tuple(word[:n])
		right, left = ('A', word[n - 1]), ('A', word[0])
		for a in range(1, n):
			right = ('AB'[a % 2], word[n - 1 - a], right)
			left = ('AB'[a % 2], left, word[a])
		yield right
		yield left
		if unary:
			chain = word[0]
			for a in range(n):
				chain = ('ABC'[a % 3], chain)
			yield ('S', chain, word[1])
		if disc:
			yield ('S', ('A', ) + tuple(word[0:2 * n:2]),
					('B', ) + tuple(word[1:2 * n:2]))
			yield ('S', ('A', ) + tuple(word[0:2 * n - 1:2])
					) + tuple(word[1:2 * n - 1:2])
			yield ('S', ('A', ('C', ) + tuple(word[0:2 * n - 1:2]), word[2 * n]),
					('B', ) + tuple(word[1:2 * n:2]))
			yield ('S', ('A', ) + tuple(word[0::3]),
					('A', ) + tuple(word[1::3]), ('B', ) + tuple(word[2::3]))
			# many discontinuous constituents
			yield ('S', ) + tuple([('AB'[a % 2], word[a], word[a + n])
					for a in range(n)])


MANY = (9, 10, 11, 12, 13, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 129)
