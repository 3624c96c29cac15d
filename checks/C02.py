"""C02: parent links of parented trees after any sequence of edits."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, core
build.activate('bit')
from discodop.tree import Tree, ParentedTree  # noqa: E402

# initial forests: name -> (label, children); children: names or leaf integers
INIT = {
	'flat': {'r': ('S', ['a', 'b', 1]), 'a': ('A', [0]), 'b': ('A', [0]),
		'x': ('X', [7])},
	'deep': {'r': ('S', ['a']), 'a': ('A', ['b', 2]), 'b': ('A', [0, 1])},
	'equal': {'r': ('S', ['a', 'b', 'c']), 'a': ('A', [0]), 'b': ('A', [0]),
		'c': ('A', [0])},
	'forest': {'r': ('S', ['a']), 'a': ('A', []), 'x': ('X', ['y']),
		'y': ('A', [])},
	'wide': {'r': ('S', ['a', 0, 'b', 1, 'c']), 'a': ('A', [2]),
		'b': ('B', ['d', 3]), 'c': ('A', [2]), 'd': ('D', [])},
	}


class Model(object):
	"""Reference: plain lists, parents derived by looking for the node."""

	def __init__(self, init):
		self.label = {n: l for n, (l, _) in init.items()}
		self.kids = {n: list(k) for n, (_, k) in init.items()}

	def parent(self, n):
		for a, kids in self.kids.items():
			if n in [b for b in kids if isinstance(b, str)]:
				return a
		return None

	def index(self, n):
		return self.kids[self.parent(n)].index(n)

	def below(self, n):
		result = [n]
		for a in self.kids[n]:
			if isinstance(a, str):
				result += self.below(a)
		return result

	def root(self, n):
		while self.parent(n) is not None:
			n = self.parent(n)
		return n

	def pos(self, n):
		if self.parent(n) is None:
			return ()
		return self.pos(self.parent(n)) + (self.index(n), )

	def same(self, a, b):
		if isinstance(a, int) or isinstance(b, int):
			return a == b and isinstance(a, int) == isinstance(b, int)
		return (self.label[a] == self.label[b]
				and len(self.kids[a]) == len(self.kids[b])
				and all(self.same(c, d)
					for c, d in zip(self.kids[a], self.kids[b])))

	def free(self, xs):
		"""Whether these can all be added: no parent, no repetition."""
		xs = [a for a in xs if isinstance(a, str)]
		return len(set(xs)) == len(xs) and all(
				self.parent(a) is None for a in xs)

	def apply(self, op):
		"""Return ('ok', result) or ('err', class)."""
		name, n = op[0], op[1]
		kids = self.kids[n]
		if name == 'append':
			if not self.free([op[2]]):
				return 'err', ValueError
			kids.append(op[2])
		elif name == 'extend':
			for x in op[2]:
				if not self.free([x]):
					return 'err', ValueError
				kids.append(x)
		elif name == 'insert':
			if not self.free([op[3]]):
				return 'err', ValueError
			kids.insert(op[2], op[3])
		elif name == 'pop':
			try:
				return 'ok', kids.pop(*op[2:])
			except IndexError:
				return 'err', IndexError
		elif name == 'remove':
			for i, a in enumerate(kids):
				if self.same(a, op[2]):
					del kids[i]
					return 'ok', None
			return 'err', ValueError
		elif name == 'del':
			if not -len(kids) <= op[2] < len(kids):
				return 'err', IndexError
			del kids[op[2]]
		elif name == 'delslice':
			del kids[op[2]:op[3]]
		elif name == 'set':
			if not -len(kids) <= op[2] < len(kids):
				return 'err', IndexError
			if isinstance(op[3], str) and kids[op[2]] == op[3]:
				return 'ok', None
			if not self.free([op[3]]):
				return 'err', ValueError
			kids[op[2]] = op[3]
		elif name == 'setslice':
			old = list(kids)
			kids[op[2]:op[3]] = []
			if not self.free(op[4]):
				kids[:] = old
				return 'err', ValueError
			kids[:] = old
			kids[op[2]:op[3]] = op[4]
		elif name in ('setpos', 'delpos'):
			if op[2] == ():
				return 'err', IndexError
			node = n
			for i in op[2][:-1]:
				if not 0 <= i < len(self.kids[node]):
					return 'err', IndexError
				node = self.kids[node][i]
				if isinstance(node, int):
					return 'err', TypeError
			if name == 'setpos':
				return self.apply(('set', node, op[2][-1], op[3]))
			return self.apply(('del', node, op[2][-1]))
		elif name == 'detach':
			p = self.parent(n)
			if p is not None:
				self.kids[p].remove(n)
			return 'ok', n
		elif name == 'disown':
			result = list(kids)
			kids[:] = []
			return 'ok', result
		elif name == 'spliceabove':
			p, i = self.parent(n), self.index(n)
			self.label[op[2]] = op[2]
			self.kids[op[2]] = [n]
			self.kids[p][i] = op[2]
			return 'new', op[2]
		elif name == 'splicebelow':
			self.label[op[2]] = op[2]
			self.kids[op[2]] = list(kids)
			kids[:] = [op[2]]
			return 'new', op[2]
		elif name == 'prune':
			p, i = self.parent(n), self.index(n)
			new = list(kids)
			kids[:] = []
			self.kids[p][i:i + 1] = new
		elif name == 'construct':
			if not self.free(op[3]):
				return 'err', ValueError
			self.label[op[2]] = op[2]
			self.kids[op[2]] = list(op[3])
			return 'new', op[2]
		else:
			raise AssertionError(name)
		return 'ok', None

	def ops(self, rich, fresh):
		"""All operations enabled in this state.

		rich: True: all indices; False: fewer; None: a core alphabet."""
		if rich is None:
			for op in self.ops(False, fresh):
				if op[0] in ('insert', 'set', 'pop', 'del') and len(op) > 2 \
						and op[2] not in (0, -1):
					continue
				elif op[0] == 'setslice' and ((op[2], op[3]) not in (
						(None, None), (0, 1), (1, 0)) or len(op[4]) == 1):
					continue
				elif op[0] == 'delslice' and (op[2], op[3]) not in (
						(0, 1), (None, None)):
					continue
				elif op[0] == 'extend' and len(op[2]) < 2:
					continue
				elif op[0] in ('delpos', 'setpos') and len(op[2]) != 2:
					continue
				yield op
			return
		names = sorted(self.kids)
		roots = [a for a in names if self.parent(a) is None]
		used = [a for a in names if self.parent(a) is not None]
		for n in names:
			kids = self.kids[n]
			size = len(kids)
			# nodes that may be added without creating a cycle
			adds = [a for a in roots if a != self.root(n)]
			busy = used[:1] + [a for a in used if a in kids][-1:]
			busy = [a for i, a in enumerate(busy) if n not in self.below(a)
					and a not in busy[:i]]
			vals = adds + busy + [8]
			for x in vals:
				yield 'append', n, x
				for i in sorted({0, 1, -1, size, -size - 1, size + 1}
						if rich else {0, 1, -1}):
					yield 'insert', n, i, x
				for i in range(-size - 1, size + 1):
					yield 'set', n, i, x
			for i in range(-size - 1, size + 1):
				yield 'pop', n, i
				yield 'del', n, i
			if size:
				yield 'pop', n
			pairs = [()] + [(x, ) for x in vals] + [(8, 9)] + [
					(x, x) for x in adds[:1]] + [(x, 8) for x in vals[:2]] + [
					tuple(adds[:2])] + [(adds[0], b) for b in busy[:1] if adds]
			for xs in pairs:
				if xs:
					yield 'extend', n, xs
			for a in (None, 0, 1, -1):
				for b in (None, 0, 1, 2, -1):
					yield 'delslice', n, a, b
					for xs in pairs if rich or (a, b) in (
							(None, None), (0, 1), (1, 2), (1, 0), (-1, None)
							) else pairs[1:2]:
						yield 'setslice', n, a, b, xs
			treekids = [a for a in kids if isinstance(a, str)]
			if len(treekids) > 1:  # reordering the existing children
				yield 'setslice', n, None, None, tuple(kids[::-1])
				yield 'setslice', n, 0, 2, tuple(kids[1::-1])
			for x in sorted(set(map(str, treekids))) + [0, 8]:
				yield 'remove', n, x
			yield 'detach', n
			yield 'disown', n
			if self.parent(n) is not None:
				yield 'prune', n
				yield 'spliceabove', n, fresh
			yield 'splicebelow', n, fresh
		r = 'r'
		pos = [()]
		for i, a in enumerate(self.kids[r]):
			pos.append((i, ))
			if isinstance(a, str):
				for j, b in enumerate(self.kids[a]):
					pos.append((i, j))
					if isinstance(b, str):
						pos += [(i, j, k) for k in range(len(self.kids[b]) + 1)]
				pos.append((i, len(self.kids[a])))
		for q in pos:
			yield 'delpos', r, q
			for x in [a for a in roots if a != self.root('r')][:1] + [8]:
				yield 'setpos', r, q, x
		free = [a for a in roots]
		for xs in [(), (8, )] + [(a, ) for a in names] + [
				(a, b) for a in free[:2] for b in free[:2]] + [
				(a, b) for a in free[:2] for b in used[:1]]:
			yield 'construct', r, fresh, xs

	def copy(self):
		new = Model({})
		new.label = dict(self.label)
		new.kids = {a: list(b) for a, b in self.kids.items()}
		return new


class Real(object):
	def __init__(self, init):
		self.nodes = {}
		done = set()

		def make(n):
			label, kids = init[n]
			done.add(n)
			self.nodes[n] = ParentedTree(label, [make(a)
					if isinstance(a, str) else a for a in kids])
			return self.nodes[n]
		kids = {a for _, k in init.values() for a in k if isinstance(a, str)}
		for n in sorted(init):
			if n not in kids:
				make(n)

	def val(self, x):
		return self.nodes[x] if isinstance(x, str) else x

	def apply(self, op):
		name, n = op[0], self.nodes[op[1]]
		if name == 'append':
			return n.append(self.val(op[2]))
		elif name == 'extend':
			return n.extend([self.val(x) for x in op[2]])
		elif name == 'insert':
			return n.insert(op[2], self.val(op[3]))
		elif name == 'pop':
			return n.pop(*op[2:])
		elif name == 'remove':
			return n.remove(self.val(op[2]))
		elif name == 'del':
			del n[op[2]]
		elif name == 'delslice':
			del n[op[2]:op[3]]
		elif name == 'set':
			n[op[2]] = self.val(op[3])
		elif name == 'setslice':
			n[op[2]:op[3]] = [self.val(x) for x in op[4]]
		elif name == 'setpos':
			n[op[2]] = self.val(op[3])
		elif name == 'delpos':
			del n[op[2]]
		elif name == 'detach':
			return n.detach()
		elif name == 'disown':
			return n.disown()
		elif name == 'spliceabove':
			self.nodes[op[2]] = n.spliceabove(op[2])
			return self.nodes[op[2]]
		elif name == 'splicebelow':
			self.nodes[op[2]] = n.splicebelow(op[2])
			return self.nodes[op[2]]
		elif name == 'prune':
			return n.prune()
		elif name == 'construct':
			self.nodes[op[2]] = ParentedTree(op[2],
					(self.val(x) for x in op[3]))
			return self.nodes[op[2]]


def compare(model, real, rec, history):
	"""Check every link of every node, dead or alive."""
	names = {id(b): a for a, b in real.nodes.items()}

	def name(x):
		if isinstance(x, Tree):
			return names.get(id(x), 'unknown node %s' % x)
		return x
	for n, node in real.nodes.items():
		if n not in model.kids:
			continue
		want = model.kids[n]
		got = [name(a) for a in node]
		if got != want or node.label != model.label[n]:
			rec.fail('%r: children of %s: got %r, expected %r' % (
					history, n, got, want))
			return False
	for n, node in real.nodes.items():
		if n not in model.kids:
			continue
		p = model.parent(n)
		if p is None:
			want = (None, None, None, None, n, ())
		else:
			i, kids = model.index(n), model.kids[p]
			want = (p, i, kids[i - 1] if i else None,
					kids[i + 1] if i + 1 < len(kids) else None,
					model.root(n), model.pos(n))
		try:
			got = (name(node.parent), node.parent_index,
					name(node.left_sibling), name(node.right_sibling),
					name(node.root), node.treeposition)
		except Exception as err:  # pylint: disable=broad-except
			got = repr(err)
		if got != want:
			rec.fail('%r: parent, index, left and right sibling, root, '
					'position of %s: got %r, expected %r' % (
					history, n, got, want))
			return False
		if node.root[node.treeposition] is not node:
			rec.fail('%r: root[treeposition] is not the node' % history)
			return False
	return True


def run(case, rec):
	initname, history = case
	model, real = Model(INIT[initname]), Real(INIT[initname])
	compare(model, real, rec, ())
	for i, op in enumerate(history):
		kind, want = model.apply(op)
		rec.step()
		names = {id(b): a for a, b in real.nodes.items()}
		try:
			got = real.apply(op)
		except Exception as err:  # pylint: disable=broad-except
			if kind != 'err' or not isinstance(err, want):
				rec.fail('%r: raised %r, expected %s %r' % (
						history[:i + 1], err, kind, want))
				return
		else:
			if kind == 'err':
				rec.fail('%r: expected %s' % (history[:i + 1], want.__name__))
				return
			elif kind == 'ok' and op[0] in ('pop', 'detach', 'disown'):
				if isinstance(got, list):
					got = [names.get(id(a), a) for a in got]
				else:
					got = names.get(id(got), got)
				if got != want:
					rec.fail('%r: returned %r, expected %r' % (
							history[:i + 1], got, want))
					return
		if not compare(model, real, rec, history[:i + 1]):
			return
	rec.state(('forest', sorted(model.kids.items())))
	rec.outcome(sorted((model.label[a], str(b)) for a, b in model.kids.items()))
	rec.trace()


def sequences(initname, depth, rich):
	def walk(model, history):
		yield initname, history
		if len(history) == depth:
			return
		for op in list(model.ops(rich, 'n%d' % len(history))):
			new = model.copy()
			new.apply(op)
			for a in walk(new, history + (op, )):
				yield a
	return walk(Model(INIT[initname]), ())


def gen_two(tier):
	for name in sorted(INIT):
		for a in sequences(name, 1, True):
			yield a
	for name in sorted(INIT) if tier == 'thorough' else ('deep', 'equal', 'flat'):
		for a in sequences(name, 2, tier == 'thorough'):
			yield a


def gen_three(_tier):
	for name in ('forest', 'deep'):
		for a in sequences(name, 3, None):
			yield a


SPACES = [
	core.Space('edits', gen_two, run, {
		'quick': 'all single edits from 5 initial forests of 3 to 5 nodes, '
		'all pairs of edits (fewer slice bounds) from 3 of them',
		'thorough': 'all sequences of up to 2 edits from 5 initial forests'}),
	core.Space('edits3', gen_three, run,
		'all sequences of 3 edits from a core alphabet from 2 initial forests of 3 and 4 nodes',
		tiers=('thorough', )),
	]

if __name__ == '__main__':
	sys.exit(core.main('C02', SPACES, [
		'a node is never inserted below itself',
		'splicing above and pruning are only applied to nodes with a parent',
		'slices have no step']))
