"""C21: a drawing of a tree shows exactly that tree."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import html
import unicodedata
import xml.etree.ElementTree as ET
from collections import defaultdict
from itertools import combinations, product
from vlib import build, core, gen
build.activate(None)
from discodop.tree import (Tree, ParentedTree, DrawTree, frontier,  # noqa: E402
		latexlabel, DrawDependencies, writediscbrackettree)

ASCII = str.maketrans('\u2500\u250c\u2510\u252c\u2534\u253c\u2502', '_  _|||')
LINES = set('\u2500\u250c\u2510\u252c\u2534\u253c\u2502 ')
ANSI = re.compile('\x1b\\[[0-9;]*m')

# how labels and words are chosen: by pre-order number resp. index
STYLES = {
	'short': (['S', 'A', 'B', 'C'], ['x', 'y', 'z']),
	'wide': (['ROOT', 'A', 'NP-SBJ', 'LONGLABEL', 'BB'],
		['x', 'longword', 'yy', 'three']),
	'widenodes': (['ROOTROOTROOT', 'NP-SBJ-1', 'V'], ['x', 'y']),
	'special': (['S', '-LRB-', 'A<b>&', 'NP-SB', 'A-B-C', '--a', 'X"'],
		['<', '(', '&amp;', "o'", 'e\u0301', None, '-', '#']),
	'frontier': (['S', 'N', 'V'], [None, 'b', None]),
}


def dressed(shape, style):
	"""Give a hierarchy labels; return (tree, sent)."""
	labels, words = STYLES[style]
	cnt = [0]

	def rec(a):
		if not isinstance(a, tuple):
			return a
		label = labels[cnt[0] % len(labels)]
		cnt[0] += 1
		return (label, ) + tuple([rec(b) for b in a])
	t = rec(shape)
	n = len(gen.leaves(t))
	return t, [words[i % len(words)] for i in range(n)]


def addtags(shape):
	if not isinstance(shape, tuple):
		return (shape, )
	return tuple([addtags(a) for a in shape])


def gen_shapes(tier):
	deep = tier == 'thorough'
	for n in range(1, 8 if deep else 7):
		unary = {1: 3, 2: 3, 3: 2, 4: 2 if deep else 1, 5: 1 if deep else 0}
		for h in gen.hierarchies(tuple(range(n))):
			for shape in gen.unaries(h, unary.get(n, 0)):
				if not isinstance(shape, tuple):
					shape = (shape, )
				for tags in (False, True):
					if tags and n > (6 if deep else 5):
						continue
					for style in STYLES:
						if n > 4 and not deep and style not in (
								'short', 'widenodes'):
							continue
						if n > 5 and style != 'short':
							continue
						yield shape, tags, style

	def bare(a):
		return tuple(map(bare, a[1:])) if isinstance(a, tuple) else a
	for t in gen.large((9, 10, 11, 12, 26)):
		for style in STYLES:
			yield bare(t), False, style


def reference(tree):
	"""Nodes in the pre-order of the tree with sorted children.

	:returns: list of (label or None, leaf or None, parent, yield)"""
	result = []

	def rec(t, parent):
		me = len(result)
		if not isinstance(t, tuple):
			result.append((None, t, parent, (t, )))
			return
		result.append((t[0], None, parent, tuple(sorted(gen.leaves(t)))))
		for a in t[1:]:
			rec(a, me)
	rec(gen.canon(tree), None)
	return result


def graphemes(line):
	result = []
	for ch in line:
		if result and unicodedata.combining(ch):
			result[-1] += ch
		else:
			result.append(ch)
	return result


def layout(case, rec):
	shape, tags, style = case
	t, sent = dressed(addtags(shape) if tags else shape, style)
	tree = gen.build(Tree, t)
	d = DrawTree(tree, sent)
	ref = reference(t)
	rec.step(len(ref))
	rec.state((t, style))
	names = [w[0] if w[0] is not None else
			'...' if sent[w[1]] is None else sent[w[1]] for w in ref]
	if not rec.expect('nodes', sorted(d.nodes), list(range(len(ref)))):
		return
	for n, (label, leaf, parent, _) in enumerate(ref):
		node = d.nodes[n]
		got = node.label if isinstance(node, Tree) else node
		rec.expect('node %d' % n, got, names[n])
		rec.expect('label of node %d' % n, d.labels[n], names[n])
		rec.expect('parent of node %d' % n, d.edges.get(n), parent)
	rec.expect('number of edges', len(d.edges), len(ref) - 1)
	if rec.fails:
		return
	checkcoords(d.coords, ref, rec)
	rec.outcome(sorted(d.coords.items()))
	if rec.fails:
		return
	text = d.text(unicodelines=True, maxwidth=None)
	widths = defaultdict(lambda: 3)
	for n, (_, col) in d.coords.items():
		widths[col] = max(widths[col], len(graphemes(names[n])))
	decoded(text, d.coords, widths, ref, names, rec)
	# the same picture in other forms
	rec.expect('ascii', d.text(maxwidth=None), text.translate(ASCII))
	for funcsep in (None, '-'):
		out = d.text(unicodelines=True, ansi=True, maxwidth=None,
				funcsep=funcsep)
		rec.expect('ansi', ANSI.sub('', out), text)
		out = d.text(unicodelines=True, html=True, maxwidth=None,
				funcsep=funcsep)
		rec.expect('html', html.unescape(re.sub('</?font[^>]*>', '', out)),
				text)
		rec.step(2)
	checksvg(d, ref, names, rec)
	checktikz(d, ref, names, style, rec)


def checkcoords(coords, ref, rec):
	rec.expect('nodes with coordinates', sorted(coords),
			list(range(len(ref))))
	rec.expect('distinct coordinates', len(set(coords.values())), len(ref))
	rows = max(r for r, _ in coords.values())
	cols = max(c for _, c in coords.values())
	rec.expect('rows in use', {r for r, _ in coords.values()},
			set(range(rows + 1)))
	rec.expect('columns in use', {c for _, c in coords.values()},
			set(range(cols + 1)))
	rec.expect('row of root', coords[0][0], 0)
	leaves = sorted((leaf, coords[n]) for n, (_, leaf, _, _) in enumerate(ref)
			if leaf is not None)
	rec.expect('row of words', {r for _, (r, _) in leaves}, {rows})
	order = [c for _, (_, c) in leaves]
	rec.expect('order of words', order, sorted(set(order)))
	children = defaultdict(list)
	for n, (_, _, parent, _) in enumerate(ref):
		if parent is not None:
			children[parent].append(n)
			if coords[n][0] <= coords[parent][0]:
				rec.fail('node %d is not below its parent: %r' % (n, coords))
	spans = defaultdict(list)
	for n in range(len(ref)):
		r, c = coords[n]
		x = [coords[m][1] for m in children[n]]
		if x and not min(x) <= c <= max(x):
			rec.fail('node %d is not above its children: %r' % (n, coords))
		spans[r].append((min(x + [c]), max(x + [c]), n))
	for r in spans:
		spans[r].sort()
		for (_, b, m), (a, _, n) in zip(spans[r], spans[r][1:]):
			if a <= b:
				rec.fail('branches of %d and %d overlap: %r' % (m, n, coords))
	for n, (_, _, parent, _) in enumerate(ref):
		if parent is not None:
			for m in range(len(ref)):
				if m != n and coords[m][1] == coords[n][1] and (
						coords[parent][0] < coords[m][0] < coords[n][0]):
					rec.fail('edge from %d passes through %d: %r' % (
							n, m, coords))


def decoded(text, coords, widths, ref, names, rec):
	"""Read the tree from the picture: follow the line up from each node."""
	lines = text.rstrip('\n').split('\n')
	rows = max(r for r, _ in coords.values()) + 1
	cols = max(c for _, c in coords.values()) + 1
	if not rec.expect('number of lines', len(lines), 2 * rows - 1):
		return
	lines = [graphemes(a) for a in lines]
	start = [sum(widths[b] + 1 for b in range(c)) for c in range(cols)]
	mid = [start[c] + (widths[c] + 1) // 2 - 1 for c in range(cols)]
	width = start[-1] + widths[cols - 1]
	at = {c: n for n, c in coords.items()}
	used = set()

	def char(y, x):
		return lines[y][x] if x < len(lines[y]) else ' '
	for y, a in enumerate(lines):
		rec.expect('width of line %d' % y, len(a) <= width + 1, True)
	for n, (r, c) in coords.items():
		cell = ''.join(lines[2 * r][start[c]:start[c] + widths[c]])
		rec.expect('text at %r' % ((r, c), ), cell.strip(' '), names[n])
		used.update((2 * r, x) for x in range(start[c], start[c] + widths[c]))
	for n, (_, _, parent, _) in enumerate(ref):
		if parent is None:
			continue
		r, c = coords[n]
		found = None
		while r > 0 and found is None:
			y = 2 * r - 1
			ch = char(y, mid[c])
			used.add((y, mid[c]))
			if ch == '\u2502':  # vertical line
				if (r - 1, c) in at:
					found = at[r - 1, c]
				else:
					if char(y - 1, mid[c]) != '\u2502':
						rec.fail('no line above node %d:\n%s' % (n, text))
						return
					used.add((y - 1, mid[c]))
					r -= 1
			elif ch in '\u250c\u2510\u252c\u253c':
				# find both ends and the column below the parent
				left = right = mid[c]
				while char(y, left) != '\u250c' and left > 0:
					left -= 1
				while char(y, right) != '\u2510' and right < width:
					right += 1
				above = [x for x in range(left, right + 1)
						if char(y, x) in '\u2534\u253c']
				if not above:  # the parent is above its first or last child
					above = [x for x in (left, right)
							if x in mid and (r - 1, mid.index(x)) in at]
				used.update((y, x) for x in range(left, right + 1))
				if len(above) != 1 or above[0] not in mid:
					rec.fail('branch of node %d:\n%s' % (n, text))
					return
				line = ''.join([char(y, x) for x in range(left, right + 1)])
				# a branch may be interrupted by vertical lines
				rest = re.sub(' ?\u2502 ?| +(?=\u2502)', '', line)
				if not set(rest) <= set(
						'\u2500\u252c\u253c\u2534\u250c\u2510'):
					rec.fail('gap in branch of node %d:\n%s' % (n, text))
					return
				p = mid.index(above[0])
				if (r - 1, p) not in at:
					rec.fail('branch without node:\n%s' % text)
					return
				found = at[r - 1, p]
			else:
				rec.fail('no line above node %d:\n%s' % (n, text))
				return
		if not rec.expect('line from node %d leads to' % n, found, parent):
			return
		rec.step()
	for y, a in enumerate(lines):
		for x, ch in enumerate(a):
			if ch != ' ' and (y, x) not in used:
				rec.fail('superfluous %r at line %d, %d:\n%s' % (
						ch, y, x, text))
				return


def checksvg(d, ref, names, rec):
	for funcsep in (None, '-'):
		root = ET.fromstring(d.svg(funcsep=funcsep))
		found = defaultdict(list)
		for el in root.iter('{http://www.w3.org/2000/svg}text'):
			x, y = float(el.get('x')), float(el.get('y'))
			found[(y - 20) / 25., (x - 20) / 40.].append(
					''.join(el.itertext()))
		rec.expect('svg texts', dict(found),
				{d.coords[n]: [names[n]] for n in range(len(ref))})
		vert = set()
		horiz = set()
		for el in root.iter('{http://www.w3.org/2000/svg}polyline'):
			if 'stroke:white' in el.get('style'):
				continue
			(x1, y1), (x2, y2) = [tuple(map(float, a.split(',')))
					for a in el.get('points').split()]
			if y1 == y2:
				horiz.add(((y1 - 26) / 25., (x1 - 20) / 40., (x2 - 20) / 40.))
			elif abs(y1 - y2) != 4:
				vert.add(((x1 - 20) / 40., (y1 - 8) / 25., (y2 - 26) / 25.))
		rec.expect('svg vertical lines', vert, {
				(d.coords[n][1], d.coords[n][0], d.coords[p][0])
				for n, (_, _, p, _) in enumerate(ref) if p is not None})
		want = set()
		for n in range(len(ref)):
			x = [d.coords[m][1] for m, a in enumerate(ref) if a[2] == n]
			if x:
				want.add((d.coords[n][0], min(x), max(x)))
		rec.expect('svg horizontal lines', horiz, want)
		rec.step(2 * len(ref))


def checktikz(d, ref, names, style, rec):
	if style in ('special', 'frontier'):  # no escaping of words in LaTeX
		return
	edges = {(p, n) for n, (_, _, p, _) in enumerate(ref) if p is not None}
	out = d.tikznode()
	bottom = max(r for r, _ in d.coords.values())
	got = {int(n): (bottom - int(y), int(x), lab) for x, y, n, lab in re.findall(
			r'\((\d+), (\d+)\) node \(n(\d+)\) \{ \\textcolor\{\w+\}\{(.*?)\} \}',
			out)}
	rec.expect('tikz nodes', got, {n: d.coords[n] + (names[n], )
			for n in range(len(ref))})
	rec.expect('tikz edges', {(int(a), int(b)) for a, b in re.findall(
			r'draw \(n(\d+)\) -- .*? -\| \(n(\d+)\);', out)}, edges)
	out = d.tikzmatrix()
	lines = out.split('\\matrix')[1].split(';]')[0].split('\n};')[0]
	grid = {}
	for y, line in enumerate(lines.split('\n')[1:]):
		for x, cell in enumerate(line.rstrip('\\ ').split('&')):
			m = re.search(r'\\node \(n(\d+)\) \{ \\textcolor\{\w+\}\{(.*?)\} \};',
					cell)
			if m:
				grid[int(m.group(1))] = (y, x, m.group(2))
	rec.expect('tikzmatrix nodes', grid, {n: d.coords[n] + (names[n], )
			for n in range(len(ref))})
	rec.expect('tikzmatrix edges', {(int(a), int(b)) for a, b in re.findall(
			r'draw \(n(\d+)\) -- .*? -\| \(n(\d+)\);', out)}, edges)
	if all(gen.comps(y) == 1 for _, _, _, y in ref):
		tree = gen.canon(gen.totuple(d.tree))

		def show(t):
			if not isinstance(t, tuple):
				return d.sent[t]
			return '[.%s %s ]' % (t[0], ' '.join(map(show, t[1:])))
		if gen.totuple(d.tree) == tree:
			# the tree itself is in the last \Tree command
			got = d.tikzqtree().split('\\Tree')[1].split('\\end')[0]
			rec.expect('tikz-qtree', ' '.join(got.split()), show(tree))
	rec.step(3)


# ---- different ways of passing a tree ------------------------------------

def gen_inputs(tier):
	deep = tier == 'thorough'
	for size in range(2, 9 if deep else 8):
		for shape in gen.trees(size):
			n = gen.numleaves(shape)
			for style in ('short', 'wide'):
				yield shape, n, style


def inputs(case, rec):
	"""Continuous trees with words, empty nodes; with and without words."""
	shape, n, style = case
	labels, words = STYLES[style]
	k = gen.numnodes(shape)
	lab = [labels[i % len(labels)] for i in range(k)]
	sent = [words[i % len(words)] for i in range(n)]
	withwords = gen.dress(shape, lab, sent)
	# empty nodes get a placeholder
	want, wsent = [], []

	def rec1(t):
		if not isinstance(t, tuple):
			wsent.append(t)
			return len(wsent) - 1
		if len(t) == 1:
			wsent.append(None)
			return (t[0], len(wsent) - 1)
		return (t[0], ) + tuple([rec1(a) for a in t[1:]])
	want = rec1(withwords)
	ref = DrawTree(gen.build(Tree, want), wsent)
	orig = gen.build(Tree, withwords)
	objs = [('tree', lambda: DrawTree(orig))]
	if n:
		text = gen.show(withwords)
		objs.append(('text', lambda: DrawTree(text)))
		itree = gen.build(Tree, want)
		objs.append(('parented', lambda: DrawTree(
				gen.build(ParentedTree, want), wsent)))
		objs.append(('string and words', lambda: DrawTree(
				gen.show(want), wsent)))
		if None not in wsent:
			objs.append(('discbracket', lambda: DrawTree(
					re.sub(r' (\d+)(?=[ )])', lambda m: ' %s=%s' % (
						m.group(1), wsent[int(m.group(1))]), gen.show(want)))))
			numbers = [str(a) for a in range(len(wsent))]
			num = DrawTree(gen.build(Tree, want), numbers)
			got = DrawTree(itree)
			rec.expect('indices only', got.text(), num.text())
	if len(withwords) == 1:
		objs = objs[:1]
	for name, func in objs:
		if n == 0 and name != 'tree':
			continue
		d = func()
		rec.expect(name, (d.text(unicodelines=True), d.coords),
				(ref.text(unicodelines=True), ref.coords))
		rec.step()
	rec.expect('argument after drawing', gen.totuple(orig), withwords)
	if n and None not in sent:
		full = [t for t in [want] if all(len(a) > 1 for a in gen.nodes(t))]
		for t in full:
			high(t, wsent, rec)


def high(t, sent, rec):
	"""Only selected nodes are coloured; frontier in colour; abbreviations."""
	tree = gen.build(Tree, t)
	ref = reference(t)
	base = DrawTree(tree, sent).text(unicodelines=True)
	for n in range(len(ref)):
		pick = []
		pos = [0]

		def find(a):
			if pos[0] == n:
				pick.append(a)
			pos[0] += 1
			if isinstance(a, Tree):
				for b in a:
					find(b)
		find(tree)
		d = DrawTree(tree, sent, highlight=pick)
		want = {m for m in range(len(ref)) if sub(t, m) == sub(t, n)
				and (ref[m][1] is None or sent[ref[m][1]] is not None)}
		rec.expect('highlighted', d.highlight, want)
		out = d.text(unicodelines=True, ansi=True)
		rec.expect('coloured text', ANSI.sub('', out), base)
		rec.expect('number of colours', out.count('\x1b[0m'), len(want))
		leaf = len([m for m in want if ref[m][0] is None])
		rec.expect('colours', [out.count('\x1b[%d;1m' % a) for a in (34, 31)],
				[len(want) - leaf, leaf])
		out = d.text(unicodelines=True, html=True, nodecolor='green',
				leafcolor='cyan')
		rec.expect('html colours', [out.count('<font color="%s">' % a)
				for a in ('green', 'cyan')], [len(want) - leaf, leaf])
		root = ET.fromstring(d.svg(nodecolor='green', leafcolor='cyan'))
		colors = {}
		for el in root.iter('{http://www.w3.org/2000/svg}text'):
			colors[(float(el.get('y')) - 20) / 25., (float(el.get('x')) - 20)
					/ 40.] = re.search(r'fill: (\w+)', el[0].get('style')).group(1)
		rec.expect('svg colours', colors, {d.coords[m]:
				'black' if m not in want else 'cyan' if ref[m][0] is None
				else 'green' for m in range(len(ref))})
		colors = re.findall(r'\\textcolor\{(\w+)\}', d.tikznode(
				nodecolor='green', leafcolor='cyan'))
		rec.expect('tikz colours', [colors.count(a)
				for a in ('green', 'cyan', 'black')], [len(want) - leaf, leaf,
				len(ref) - len(want)])
		rec.step()
	d = DrawTree(tree, sent, abbr=True)
	rec.expect('abbreviated', [d.labels[n] for n in range(len(ref))],
			[(a[0] if len(a[0]) < 6 else a[0][:4] + '\u2026')
				if a[0] is not None else sent[a[1]] or '...' for a in ref])
	rec.expect('tree after abbreviation', gen.totuple(tree), t)
	tags = [('T%d' % i, i) for i in range(len(sent))]
	out = frontier(gen.build(Tree, ('S', ) + tuple(tags)), sent)
	rec.expect('frontier', ANSI.sub('', out), ' '.join(
			[a or 'T%d' % n for n, a in enumerate(sent)]))


def sub(t, n):
	"""n-th node in pre-order."""
	pos = [0]

	def rec(a):
		if pos[0] == n:
			return a, True
		pos[0] += 1
		if isinstance(a, tuple):
			for b in a[1:]:
				r, ok = rec(b)
				if ok:
					return r, True
		return None, False
	return rec(t)[0]


# ---- long labels -----------------------------------------------------------

def gen_wrap(tier):
	deep = tier == 'thorough'
	for k in range(1, 6 if deep else 5):
		for lens in product((1, 4, 9, 17), repeat=k):
			for sep in (' ', '-'):
				for maxwidth in (6, 16):
					yield lens, sep, maxwidth


def wrap(case, rec):
	lens, sep, maxwidth = case
	label = sep.join('abcdefghijklmnopqrstuvwxyz'[:a] for a in lens)
	for t in (('S', (label, 0)), ('S', (label, 0, 1), ('B', 2)),
			('S', (label, 0, 2), ('B', 1))):
		n = len(gen.leaves(t))
		sent = ['w', 'x', 'y'][:n]
		d = DrawTree(gen.build(Tree, t), sent)
		out = d.text(unicodelines=True, maxwidth=maxwidth)
		rec.step()
		# cut out the column of the label
		words = [w for line in out.split('\n') for w in re.findall(
				'[a-z]+', line)]
		words = [w for w in words if w not in sent]
		if sum(lens) and 'a' not in sent:
			rec.expect('letters of label', ''.join(words),
					''.join('abcdefghijklmnopqrstuvwxyz'[:a] for a in lens))
		if sep == '-':
			rec.expect('separators', out.count('-'), label.count('-'))
		longest = max(len(a.rstrip('-')) for a in re.findall('[a-z-]+', out))
		if longest > maxwidth:
			rec.fail('line of %d characters: %s' % (longest, out))
		whole = d.text(unicodelines=True, maxwidth=None)
		if len(label) > 0:
			rec.expect('unwrapped', label in whole, True)
		for opts in (dict(ansi=True), dict(html=True)):
			for funcsep in (None, sep):
				o = d.text(unicodelines=True, maxwidth=maxwidth,
						funcsep=funcsep, **opts)
				o = html.unescape(re.sub('</?font[^>]*>', '',
						ANSI.sub('', o)))
				rec.expect('wrapped %r %r' % (opts, funcsep), o, out)
	rec.expect('latex', latexlabel('NP_2-$'), r'NP\_2-\$')


# ---- colours of functions --------------------------------------------------------

def gen_functions(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for t in gen.sentencetrees(n, True, 1 if n < 3 else 0,
				labels=('NP', ), root='S'):
			total = len(list(gen.nodes(t)))
			for mask in range(1 << total):  # which nodes have a function
				for high in range(-1, total):
					for func in range(-1, total):
						if bin(mask).count('1') in (1, 2, total):
							yield t, mask, high, func


def functions(case, rec):
	t, mask, high, func = case
	tree = gen.build(ParentedTree, t)
	nodes = list(tree.subtrees())
	for i, a in enumerate(nodes):
		a.label = 'X%d' % i + ('-f%d' % i if mask >> i & 1 else '')
	labels = [a.label for a in nodes]
	sent = ['w%d' % n for n in range(len(gen.leaves(t)))]
	d = DrawTree(tree, sent, highlight=[nodes[high]] if high >= 0 else (),
			highlightfunc=[nodes[func]] if func >= 0 else ())
	names = labels + sent
	incat = {labels[high]} if high >= 0 else set(names)
	infunc = {labels[func]} if func >= 0 else incat
	want = []
	for a in names:
		cat, _, f = a.partition('-')
		leaf = a in sent
		want.append((cat, a in incat and ('cyan' if leaf else 'green'),
				f, bool(f) and a in infunc and 'magenta'))
	colours = dict(nodecolor='green', leafcolor='cyan', funccolor='magenta',
			funcsep='-')
	root = ET.fromstring(d.svg(**colours))
	got = []
	for el in root.iter('{http://www.w3.org/2000/svg}text'):
		parts = [(a.text, re.search('fill: ([a-z]+)', a.get('style')).group(1))
				for a in el]
		parts = [(a, b != 'black' and b) for a, b in parts]
		got.append(parts[0] + (parts[1] if len(parts) > 1 else ('', False)))
		rec.expect('separator', el[0].tail, '-' if len(parts) > 1 else None)
	rec.expect('svg', sorted(got), sorted(want))
	# everything is inside of the picture
	x, y, w, h = map(float, root.get('viewBox').split())
	for el in root.iter('{http://www.w3.org/2000/svg}text'):
		rec.expect('in picture', x <= float(el.get('x')) <= x + w
				and y <= float(el.get('y')) <= y + h, True)

	def marked(a, c, number):
		return a if not c else fmt % ((c if number is None else number[c]), a)
	for name, opts, fmt, number in (
			('html', dict(html=True), '<font color="%s">%s</font>', None),
			('ansi', dict(ansi=True), '\x1b[%s;1m%s\x1b[0m',
				{'green': 32, 'cyan': 36, 'magenta': 35})):
		out = d.text(unicodelines=True, maxwidth=None, **dict(colours, **opts))
		tags = re.sub(r'<font color="?([a-z]+)"?>', r'<font_color="\1">', out)
		tags = re.sub('(<font[^>]*>|\x1b[^m]*[1-9]m)( +)', r'\2\1', tags)
		tags = re.sub('( +)(</font>|\x1b.0m)', r'\2\1', tags)
		rec.expect(name, sorted(a.replace('_', ' ') for a in re.split(
				'[ \u2500-\u257f\n]+', tags) if a), sorted(
				marked(a, b, number) + ('-' + marked(f, g, number) if f else '')
				for a, b, f, g in want))
		rec.expect('without colours', ANSI.sub('', re.sub('</?font[^>]*>', '',
				out)), d.text(unicodelines=True, maxwidth=None, funcsep='-'))
	for name in ('tikznode', 'tikzmatrix'):
		out = getattr(d, name)(**colours)
		got = re.findall(r'textcolor\{(\w+)\}\{(\w+)\}(?:(-)'
				r'\\textcolor\{(\w+)\}\{(\w+)\})?', out)
		rec.expect(name, sorted(got), sorted((b or 'black', a,
				'-' if f else '', 'magenta' if f else '', f)
				for a, b, f, _ in want))
		first, rest = out.split('\n', 1)
		rec.expect('bracketing', first, '% '
				+ writediscbrackettree(tree, sent).rstrip())
	rec.outcome(want)
	rec.step(5)
	rec.trace()


# ---- secondary edges, interactive HTML, dependencies -------------------------

def gen_secondary(tier):
	for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
		for t in gen.sentencetrees(n, True, 1 if n < 4 else 0, labels=(
				'NP', 'VP')[:1 if n == 3 else 2], root='S'):
			total = len(list(gen.nodes(t)))
			phrases = [i for i, a in enumerate(gen.nodes(t))
					if i and isinstance(a[1], tuple)]
			edges = [(a, b) for a in range(1, total) for b in phrases + [99]]
			for k in (0, 1, 2):
				for some in combinations(edges, k):
					yield t, some


def secondary(case, rec):
	"""A node with a secondary edge names the label and the target; that
	target has the same number."""
	t, edges = case
	tree = gen.build(ParentedTree, t)
	sent = ['w%d' % n for n in range(len(gen.leaves(t)))]
	nodes = list(tree.subtrees())
	sec, targets = defaultdict(list), set()
	for a, b in edges:
		if b != 99:
			targets.add(b)
			sec[a].append('E%d:%d' % (a, b + 7))
	for i, a in enumerate(nodes):
		a.source = ['#%d' % (507 + i) if isinstance(a[0], Tree) else 'w', '--',
				a.label, '--', '--', '0']
		for x, y in edges:
			if x == i:
				a.source += ['E%d' % x, '%d' % (507 + y)]
	d = DrawTree(tree, sent, secedge=True)
	want = sorted([a.label + ('=%d' % (i + 7) if i in targets else '')
			+ ('[%s]' % ','.join(sec[i]) if sec[i] else '')
			for i, a in enumerate(nodes)] + sent)
	rec.expect('labels', sorted(d.labels.values()), want)
	rec.expect('text', sorted(re.findall(r'[^ _|\n]+', d.text(
			maxwidth=None))), want)
	plain = DrawTree(tree, sent)
	rec.expect('coordinates', (d.coords, d.edges), (plain.coords, plain.edges))
	rec.expect('default', sorted(plain.labels.values()),
			sorted([a.label for a in nodes] + sent))
	rec.outcome(want)
	rec.step()
	rec.trace()


PARTS = ('NP', 'NP-SBJ', 'NP/sg', 'NP-SBJ/sg', 'A&B-C', '$,')
SPAN = re.compile('<span class=([npfm]) data-id="([^"_]*)_([0-9]+)" '
		'data-s="([^"]*)">([^<]*)')


def gen_interactive(tier):
	for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
		for t in gen.sentencetrees(n, True, 1 if n < 3 else 0, labels=PARTS):
			for funcsep, morphsep in ((None, None), ('-', None), ('-', '/'),
					(None, '/')):
				yield t, funcsep, morphsep
			for i in range(len(PARTS)):
				yield relabel(t, i), '-', '/'


def relabel(t, i):
	"""Labels of phrases and tags from the list."""
	cnt = [i - 1]

	def rec1(a):
		if not isinstance(a, tuple):
			return a
		cnt[0] += 1
		return (PARTS[cnt[0] % len(PARTS)], ) + tuple(map(rec1, a[1:]))
	return rec1(t)


def interactive(case, rec):
	"""HTML with properties of nodes: same picture, right spans and parts."""
	t, funcsep, morphsep = case
	n = len(gen.leaves(t))
	sent = ['x', '<y>', 'z&'][:n] + ['v'] * (n - 3)
	tree = gen.build(ParentedTree, t)
	d = DrawTree(tree, sent)
	base = d.text(unicodelines=True)
	out = d.text(unicodelines=True, html=True, funcsep=funcsep,
			morphsep=morphsep, nodeprops='t7')
	rec.expect('picture', html.unescape(re.sub('</?(span|font)[^>]*>', '',
			out)), base)
	rec.expect('tags', (out.count('<span'), out.count('<font')),
			(out.count('</span>'), n))
	want = []
	for a in tree.subtrees():
		label, func, morph = a.label, '', ''
		leaves = sorted(a.leaves())
		spans, rng = [], []
		for b in leaves + [None]:
			if rng and b != rng[-1] + 1:
				spans.append('%d-%d' % (rng[0], rng[-1]) if len(rng) > 1
						else str(rng[0]))
				rng = []
			rng.append(b)
		where = '%s %s' % (a.label, ','.join(spans))
		if morphsep and morphsep in label:
			label, morph = label.split(morphsep)
		if funcsep and funcsep in label:
			label, func = label.split(funcsep)
		want.append((('p' if isinstance(a[0], int) else 'n'), where, label))
		if func:
			want.append(('f', where, func))
		if morph:
			want.append(('m', where, morph))
	got = []
	for m in SPAN.finditer(out):
		kind, _, _, where, text = m.groups()
		text = html.unescape(text).strip()
		if out[m.end():].startswith('<span class=') and text[-1:] in (
				funcsep, morphsep):
			text = text[:-1]
		got.append((kind, where, text))
	rec.expect('parts of nodes', sorted(got), sorted(want))
	# numbers identify nodes
	for _, name, num, where, _ in SPAN.findall(out):
		rec.expect('name', name, 't7')
		node = d.nodes[int(num)]
		rec.expect('number', (node.label, min(node.leaves())), (
				where.rsplit(' ', 1)[0], min(map(int, re.split('[-,]',
				where.rsplit(' ', 1)[1])))))
	rec.outcome(want)
	rec.step()
	rec.trace()


def gen_dependencies(tier):
	for n in range(1, 6 if tier == 'quick' else 7):
		for heads in product(range(n + 1), repeat=n):
			if all(h != i + 1 for i, h in enumerate(heads)) \
					and heads.count(0) == 1 and tree1(heads):
				yield heads


def tree1(heads):
	for i in range(len(heads)):
		seen = set()
		while i >= 0:
			if i in seen:
				return False
			seen.add(i)
			i = heads[i] - 1
	return True


def depdrawing(case, rec):
	"""Words and tags from left to right, one arrow per dependency from head
	to dependent, arrows over other arrows are higher."""
	heads = case
	n = len(heads)
	sent = ['x', '<y>', 'long-word', 'z&', 'u', 't'][:n]
	pos = ['N', 'V<', 'ADJ', 'X', 'P', 'Q'][:n]
	labels = ['l%d' % a for a in range(n - 1)] + ['a&b']
	deps = [(i + 1, labels[i], h) for i, h in enumerate(heads)]
	conll = ''.join('%d\t%s\t_\t%s\t%s\t_\t%d\t%s\n' % (i + 1, sent[i],
			*((pos[i], '-') if i % 2 else ('COARSE', pos[i])), h, labels[i])
			for i, h in enumerate(heads))
	for d in (DrawDependencies(sent, pos, deps),
			DrawDependencies.fromconll(conll)):
		svg = d.svg()
		size = [int(a) for a in re.search('width=([0-9]+) height=([0-9]+)',
				svg).groups()]
		xpos = {}
		for kind, want in (('word', ['ROOT'] + sent), ('tag', pos)):
			got = [(int(a), int(b), int(c), html.unescape(e)) for a, b, c, e
					in re.findall('<text class="%s w([0-9]+)" x=([0-9]+) '
					'y=([0-9]+)[^>]*>([^<]*)</text>' % kind, svg)]
			rec.expect(kind, [e for _, _, _, e in got], want)
			rec.expect('numbers', [a for a, _, _, _ in got],
					list(range(len(want) == n, n + 1)))
			rec.expect('from left to right', [b for _, b, _, _ in got],
					sorted({b for _, b, _, _ in got}))
			rec.expect('one row', len({c for _, _, c, _ in got}), 1)
			if kind == 'word':
				xpos = {a: b for a, b, _, _ in got}
			else:
				rec.expect('tags below words', {a: b for a, b, _, _ in got},
						{a: b for a, b in xpos.items() if a})
			rec.expect('inside', all(0 <= b <= size[0] and 0 <= c <= size[1]
					for _, b, c, _ in got), True)
		arcs = re.findall("class='edge w([0-9]+) w([0-9]+)' d='M([-0-9]+),"
				"([-0-9]+) C([-0-9]+),([-0-9]+) ([-0-9]+),([-0-9]+) "
				"([-0-9]+),([-0-9]+)'", svg)
		rec.expect('arrows', sorted((int(a[1]), int(a[0])) for a in arcs),
				sorted((a, h) for a, _, h in deps))
		top = {}
		for a in arcs:
			head, dep, x1, _, _, y, _, y2, x2, _ = map(int, a)
			rec.expect('start of arrow %d-%d' % (head, dep),
					0 <= x1 - xpos[head] <= 20, True)
			rec.expect('end of arrow %d-%d' % (head, dep),
					-2 <= x2 - xpos[dep] <= 2, True)
			rec.expect('top', (y == y2, 0 <= y <= size[1]), (True, True))
			top[head, dep] = y
		for a, b in product(top, repeat=2):
			if a != b and min(b) <= min(a) and max(a) <= max(b):
				rec.expect('%r is higher than %r' % (b, a), top[b] < top[a],
						True)
		got = re.findall('<text class="dependency w([0-9]+) w([0-9]+)"[^>]*>'
				'([^<]*)</text>', svg)
		rec.expect('labels', sorted((int(b), html.unescape(c), int(a))
				for a, b, c in got), sorted(deps))
		rec.step()
	rec.outcome(sorted(top.values()))
	rec.trace()


# ---- trees with indices only; invalid trees; labels in LaTeX ----------------

def gen_indices(tier):
	deep = tier == 'thorough'
	for n in range(1, 6 if deep else 5):
		for h in gen.hierarchies(tuple(range(n))):
			for shape in gen.unaries(h, 1 if n < 4 else 0):
				if not isinstance(shape, tuple):
					shape = (shape, )
				# every choice of up to 6 or 7 indices
				for idx in combinations(range(n + 2), n):
					yield shape, idx


def relabeled(shape, idx):
	def rec(a):
		if isinstance(a, tuple):
			return ('L%d' % len(a), ) + tuple(map(rec, a))
		return idx[a]
	return rec(shape)


def indices(case, rec):
	"""A tree without words shows its indices; indices may be missing."""
	shape, idx = case
	t = relabeled(shape, idx)
	tree = gen.build(Tree, t)
	ref = reference(t)
	names = [w[0] if w[0] is not None else str(w[1]) for w in ref]
	words = ['w%d' % a for a in range(max(idx) + 1)]
	rec.step(3)
	d = DrawTree(tree)
	rec.expect('labels', [d.labels[n] for n in range(len(ref))], names)
	rec.expect('edges', {n: d.edges.get(n) for n in range(len(ref))},
			{n: p for n, (_, _, p, _) in enumerate(ref)})
	if rec.fails:
		return
	checkcoords(d.coords, ref, rec)
	rec.outcome(sorted(d.coords.items()))
	if rec.fails:
		return
	text = d.text(unicodelines=True, maxwidth=None)
	widths = defaultdict(lambda: 3)
	for n, (_, col) in d.coords.items():
		widths[col] = max(widths[col], len(names[n]))
	decoded(text, d.coords, widths, ref, names, rec)
	rec.expect('draw()', tree.draw(), DrawTree(tree).text())
	rec.expect('svg of tree', tree._repr_svg_(), d.svg())
	rec.expect('str()', str(d), d.text(unicodelines=True))
	checksvg(d, ref, names, rec)
	ptree = gen.build(ParentedTree, t)
	rec.expect('draw() of ParentedTree', ptree.draw(), tree.draw())
	# the order of the children makes no difference
	if idx == tuple(range(len(idx))):
		for u in gen.orders(t) if len(idx) < 4 else (gen.mirrored(t), ):
			two = gen.build(Tree, u)
			e = DrawTree(two)
			rec.expect('children in another order %r' % (u, ), (
					e.text(unicodelines=True, maxwidth=None), e.coords),
					(text, d.coords))
			rec.expect('children afterwards', gen.totuple(two), u)
			rec.step()
	# the words of a longer sentence
	d = DrawTree(tree, words)
	rec.expect('words', [d.labels[n] for n in range(len(ref))],
			[w[0] if w[0] is not None else 'w%d' % w[1] for w in ref])
	rec.expect('tree afterwards', gen.totuple(tree), t)
	try:
		DrawTree(tree, words[:-1])
	except ValueError:
		pass
	else:
		rec.fail('sentence is too short: %r' % (t, ))
	if len(idx) > 1:
		for n in range(len(idx) - 1):
			dup = relabeled(shape, idx[:n + 1] + (idx[n], ) + idx[n + 2:])
			invalid('duplicate index', dup, words, rec)
	for n in range(len(idx)):
		invalid('negative index', relabeled(
				shape, idx[:n] + (-1, ) + idx[n + 1:]), words, rec)
		invalid('leaf which is not an index', relabeled(
				shape, idx[:n] + ('x', ) + idx[n + 1:]), words, rec)
		invalid('empty node', relabeled(
				shape, idx[:n] + (None, ) + idx[n + 1:]), words, rec)


def invalid(what, t, words, rec):
	def make(a):
		if a is None:
			return Tree('X', [])
		return Tree(a[0], list(map(make, a[1:]))) if isinstance(
				a, tuple) else a
	rec.step()
	try:
		DrawTree(make(t), words)
	except ValueError:
		rec.outcome(what)
	else:
		rec.fail('%s: no error for %r' % (what, t))


def gen_latex(tier):
	cats = ['A', 'NP-SBJ', 'X_2', '$,']
	sibs = [(), ('B', ), ('B', 'NP-OA'), ('$.', 'C_1', 'DD')]
	pars = [None, (), ('P', ), ('P_1', 'QQ')]
	for cat in cats:
		yield cat, None, None
		for s in sibs:
			for p in pars:
				yield cat, s, p


def latex(case, rec):
	"""A label of a binarized tree is shown with sub- and superscript."""
	cat, sibs, pars = case

	def esc(a):
		return a.replace('$', '\\$').replace('_', '\\_')
	label, want = cat, esc(cat)
	if sibs is not None:
		label += '|<%s>' % ','.join(sibs)
		want = '\\textsf{%s}_\\textsf{%s}' % (want, esc(','.join(sibs)))
		if pars is not None:
			label += '^<%s>' % ','.join(pars)
			want += '^\\textsf{%s}' % esc(','.join(pars))
		want = '$ %s $' % want
	rec.step()
	rec.outcome(want)
	rec.expect('latexlabel(%r)' % label, latexlabel(label), want)
	d = DrawTree(Tree(label, [Tree('T', [0])]), ['w'])
	for out in (d.tikznode(), d.tikzmatrix()):
		rec.expect('label in drawing of %r' % label,
				'{%s}' % want in out, True)


SPACES = [
	core.Space('layout', gen_shapes, layout, {
		'quick': 'fixed large shapes of 9-26 words; '
		'trees with up to 6 leaves (discontinuous; up to 3 unary '
			'nodes for <=2 leaves), with and without preterminals, 5 styles',
		'thorough': 'same, up to 7 leaves'}),
	core.Space('inputs', gen_inputs, inputs, {
		'quick': 'ordered trees of up to 7 nodes and words, 2 styles, all '
			'choices of a highlighted node',
		'thorough': 'up to 8 nodes and words'}),
	core.Space('indices', gen_indices, indices, {
		'quick': 'all trees over <=4 words with all choices of indices out of '
		'2 more; all orders of the children; all positions of an invalid leaf',
		'thorough': '<=5 words'}),
	core.Space('latex', gen_latex, latex,
		'labels with 4 categories, 4 sequences of siblings, 4 of parents'),
	core.Space('functions', gen_functions, functions, {
		'quick': 'all trees over <=3 words, 1, 2 or all nodes with functions, '
		'all choices of a highlighted node and a node with highlighted '
		'function', 'thorough': '<=4 words'}),
	core.Space('secondary', gen_secondary, secondary, {
		'quick': 'all trees over <=3 words, all sets of up to 2 secondary edges',
		'thorough': '<=4 words'}),
	core.Space('interactive', gen_interactive, interactive, {
		'quick': 'all trees over <=4 words, 6 kinds of labels, 4 ways to '
		'separate parts', 'thorough': '<=5 words'}),
	core.Space('dependencies', gen_dependencies, depdrawing, {
		'quick': 'all dependency trees over <=5 words',
		'thorough': '<=6 words'}),
	core.Space('wrap', gen_wrap, wrap, {
		'quick': 'labels of up to 4 parts of 4 lengths',
		'thorough': 'up to 5 parts'}),
]

ASSUMPTIONS = [
	'the decoder of pictures follows lines from each node to its parent',
	'special characters in LaTeX output are not covered',
	'a separator at the end of a wrapped line may exceed the maximum width']
if __name__ == '__main__':
	sys.exit(core.main('C21', SPACES, ASSUMPTIONS))
