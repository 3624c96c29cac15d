"""C10: splitting discontinuous nodes can be undone; raising keeps heads."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen
build.activate('bit')
from discodop.tree import Tree, ParentedTree, HEAD, isdisc  # noqa: E402
from discodop.treetransforms import (splitdiscnodes,  # noqa: E402
		mergediscnodes, raisediscnodes, addbitsets, canonicalize)


def blocks(s):
	"""Maximal runs of consecutive positions, from left to right."""
	result = []
	for a in sorted(s):
		if result and result[-1][-1] == a - 1:
			result[-1].append(a)
		else:
			result.append([a])
	return result


def heads(t, assign):
	"""Positions of head children, by object identity of the tuple node."""
	it = iter(assign)
	return {pos: next(it) for pos, _ in phrasal(t)}


def phrasal(t, pos=()):
	if isinstance(t[1], tuple):
		yield pos, t
		for n, a in enumerate(t[1:]):
			for b in phrasal(a, pos + (n, )):
				yield b


def make(cls, t, hd):
	"""Real tree with heads marked."""
	def rec(a, pos):
		if not isinstance(a, tuple):
			return a
		node = cls(a[0], [rec(b, pos + (n, )) for n, b in enumerate(a[1:])])
		node.source = ['src%s' % (pos, )]
		if pos in hd and hd[pos] is not None:
			node[hd[pos]].type = HEAD
		return node
	return rec(t, ())


def view(tree):
	"""(label, is head, source, children)"""
	if not isinstance(tree, Tree):
		return tree
	return (tree.label, tree.type == HEAD, (tree.source or [None])[0],
			tuple(view(a) for a in tree.children))


def modelview(t, hd, pos=(), ishead=False):
	if not isinstance(t, tuple):
		return t
	kids = sorted(enumerate(t[1:]), key=lambda a: min(gen.leaves(a[1])))
	return (t[0], ishead, 'src%s' % (pos, ), tuple(modelview(a, hd, pos + (n, ),
			pos in hd and hd[pos] == n) for n, a in kids))


def first(v):
	return v if not isinstance(v, tuple) else min(first(a) for a in v[3])


def split(t, hd, mark, pos=(), ishead=False, root=True):
	"""List of (block, view, contains lexical head path) for one node."""
	if not isinstance(t, tuple):
		return [([t], t)]
	kids = []
	for n, a in enumerate(t[1:]):
		kids += split(a, hd, mark, pos + (n, ),
				pos in hd and hd[pos] == n, False)
	result = []
	parts = blocks(gen.leaves(t))
	for k, block in enumerate(parts):
		inside = sorted([v for b, v in kids if b[0] in block], key=first)
		if len(parts) == 1 or root:
			return [(sorted(gen.leaves(t)), (t[0], ishead,
					'src%s' % (pos, ), tuple(inside)))]
		result.append((block, (t[0] + '*' + (str(k) if mark else ''),
				ishead and any(isinstance(v, tuple) and v[1] for v in inside),
				'src%s' % (pos, ), tuple(inside))))
	return result


def ambiguous(t):
	"""Two discontinuous siblings have the same label."""
	for a in gen.nodes(t):
		labels = [b[0] for b in a[1:] if isinstance(b, tuple)
				and gen.comps(gen.leaves(b)) > 1]
		if len(labels) != len(set(labels)):
			return True
	return False


def check(case, rec):
	t, assign = case
	hd = heads(t, assign) if assign else {}
	for cls in (Tree, ParentedTree):
		for mark in (False, True):
			tree = make(cls, t, hd)
			rec.expect('isdisc', {a.label for a in tree.subtrees(isdisc)},
					{a[0] for a in gen.nodes(t)
					if gen.comps(gen.leaves(a)) > 1})
			result = splitdiscnodes(tree, markorigin=mark)
			rec.step()
			rec.expect('split', view(result), split(t, hd, mark)[0][1])
			for a in result.subtrees():
				if len(blocks(a.leaves())) > 1:
					rec.fail('still discontinuous: %s' % a)
			rec.outcome(view(result))
			if not ambiguous(t):
				back = mergediscnodes(result)
				rec.step()
				rec.expect('merged', view(back), modelview(t, hd))
			elif sorted(mergediscnodes(result).leaves()) != sorted(
					gen.leaves(t)):
				rec.fail('merging loses words: %s' % result)
			if cls is ParentedTree:
				parents(result, rec)
	rec.trace()


def parents(tree, rec):
	for a in tree.subtrees():
		for n, b in enumerate(a):
			if isinstance(b, Tree) and (b.parent is not a
					or b.parent_index != n):
				rec.fail('parent of %s in %s' % (b, tree))


def relabel(t, labels):
	"""Give phrasal nodes below the root the labels."""
	it = iter(labels)

	def rec(a, root=False):
		if not isinstance(a[1], tuple):
			return a
		label = a[0] if root else next(it)
		return (label, ) + tuple([rec(b) for b in a[1:]])
	return rec(t, True)


def numphrasal(t):
	return sum(1 for a in gen.nodes(t) if isinstance(a[1], tuple))


def headassignments(t):
	return product(*[range(len(a) - 1) for _, a in phrasal(t)])


def shapes(top, disc=True, unary=None):
	for n in range(1, top + 1):
		for t in gen.sentencetrees(n, disc, (unary or {}).get(n, 0),
				labels='A'):
			k = numphrasal(t) - 1
			yield relabel(t, ['N%d' % i for i in range(k)])
			if k > 1:
				yield relabel(t, ['N'] * k)


def gen_split(tier):
	quick = tier == 'quick'
	for t in shapes(6 if quick else 7, unary={1: 2, 2: 2, 3: 2, 4: 1}
			if quick else {1: 2, 2: 2, 3: 2, 4: 2, 5: 1}):
		yield t, None
	for t in shapes(4 if quick else 5, unary={1: 1, 2: 1, 3: 1}):
		for a in headassignments(t):
			yield t, a
	for t in gen.large(gen.MANY):
		yield t, None
	# children in another order than their words
	for t in shapes(5 if quick else 6, unary={2: 1, 3: 1}):
		n = len(gen.leaves(t))
		for u in gen.orders(t) if n < (4 if quick else 5) else (
				gen.mirrored(t), ):
			if u != t:
				yield u, None
				if n < 4:
					for a in headassignments(u):
						yield u, a
	# labels that look like those of split nodes
	for n in range(2, 5):
		for t in gen.sentencetrees(n, True, 0, labels=['X*Y', 'X-1', '*T*0x']):
			yield t, None


def raised(t, hd, pos=(), root=True):
	"""Reference: list of (first position, view, is head piece)."""
	if not isinstance(t, tuple):
		return [(t, t, False)]
	kids = []
	for n, a in enumerate(t[1:]):
		for p, v, h in raised(a, hd, pos + (n, ), False):
			kids.append((p, v, h and pos in hd and hd[pos] == n))
	kids.sort(key=lambda a: a[0])
	parts = [gen.leaves(t)] if root else blocks(gen.leaves(t))
	result = []
	for block in parts:
		mine = [(p, v, h) for p, v, h in kids if p in block]
		if len(parts) == 1 or any(h for _, _, h in mine):
			result.append((min(block), (t[0], tuple(v for _, v, _ in mine)),
					True))
		else:
			result.extend((p, v, False) for p, v, _ in mine)
	return result


def labelview(tree):
	return (tree.label, tuple(labelview(a) for a in tree.children)
			) if isinstance(tree, Tree) else tree


def raising(case, rec):
	t, assign = case
	hd = heads(t, assign)
	for cls in (Tree, ParentedTree):
		result = raisediscnodes(make(cls, t, hd))
		rec.step()
		rec.expect('raised', labelview(result), raised(t, hd)[0][1])
		rec.outcome(labelview(result))
		if cls is ParentedTree:
			parents(result, rec)
	# one node without a head
	for pos, a in phrasal(t):
		tree = make(Tree, t, hd)
		tree[pos][hd[pos]].type = None
		try:
			raisediscnodes(tree)
		except ValueError:
			rec.step()
		else:
			rec.fail('no error without head information at %r' % (pos, ))
	rec.trace()


def gen_raise(tier):
	quick = tier == 'quick'
	for t in shapes(5 if quick else 6, unary={1: 2, 2: 1, 3: 1, 4: 0 if quick
			else 1}):
		if quick and numphrasal(t) > 4:
			continue
		for a in headassignments(t):
			yield t, a
	for t in shapes(4 if quick else 5, unary={2: 1}):
		for u in gen.orders(t) if len(gen.leaves(t)) < 4 else (
				gen.mirrored(t), ):
			if u != t:
				for a in headassignments(u):
					yield u, a


SPACES = [
	core.Space('split', gen_split, check, {
		'quick': 'fixed large shapes of 9-129 words; '
		'all trees over <=6 words with distinct or equal labels, all '
		'head assignments for <=4 words; 2 classes, both markings',
		'thorough': '<=7 words, heads for <=5 words'}),
	core.Space('raise', gen_raise, raising, {
		'quick': 'all trees over <=5 words with <=4 phrases, all head '
		'assignments', 'thorough': 'all trees over <=6 words'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C10', SPACES))
