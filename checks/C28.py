"""C28: evaluation counts exactly the brackets, tags and tokens that match."""
import contextlib
import io
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from functools import lru_cache
from itertools import combinations, product, permutations
from vlib import build, core, gen, scratch
build.activate('cont')
from discodop import eval as ev  # noqa: E402
from discodop.tree import Tree, ParentedTree, HEAD  # noqa: E402
from discodop.heads import readheadrules, applyheadrules  # noqa: E402
from discodop.treedist import treedist  # noqa: E402

DEFAULT = ev.readparam(None)
PARAMS = {
	'default': {},
	'delete root': dict(DELETE_LABEL={'ROOT'}),
	'punct': dict(DELETE_LABEL={'ROOT', '.'}, DELETE_LABEL_FOR_LENGTH={'.'}),
	'delete A': dict(DELETE_LABEL={'A'}),
	'words': dict(DELETE_WORD={'b', 'c'}),
	'root preterms': dict(DELETE_ROOT_PRETERMS=1),
	'equal': dict(EQ_LABEL={'A': 'A', 'B': 'A'}),
	'equal root': dict(EQ_LABEL={'ROOT': 'TOP', 'TOP': 'TOP', 'A': 'TOP'}),
	'disc': dict(DISC_ONLY=1),
	'unlabeled': dict(LABELED=0),
	'all': dict(DELETE_LABEL={'ROOT', '.'}, DISC_ONLY=1, LABELED=0,
		DELETE_ROOT_PRETERMS=1),
}


def makeparam(name, **kw):
	result = dict(DEFAULT)
	result.update(PARAMS[name])
	result.update(kw)
	return result


# ---- reference ---------------------------------------------------------------

def keptpos(gold, sent, param):
	"""Positions of gold sentence that take part in evaluation."""
	result = []
	for a in gen.nodes(gold):
		if isinstance(a[1], tuple):
			continue
		tag, n = a[0], a[1]
		top = any(a is b for b in gold[1:])
		if not (tag in param['DELETE_LABEL'] or sent[n] in param['DELETE_WORD']
				or (param['DELETE_ROOT_PRETERMS'] and top)):
			result.append(n)
	return sorted(result)


def brackets(t, keep, param, parents=False):
	"""Multiset of (label, indices) after deletion; indices renumbered."""
	num = {a: n for n, a in enumerate(keep)}
	eq = param['EQ_LABEL']
	result = Counter()

	def rec(a, parent):
		if not isinstance(a[1], tuple):
			return
		label = eq.get(a[0], a[0])
		span = sorted(num[b] for b in gen.leaves(a) if b in num)
		show = parent
		if label not in param['DELETE_LABEL'] and span:
			show = label
			if not param['DISC_ONLY'] or gen.comps(span) > 1:
				key = (label if param['LABELED'] else '',
						sum(1 << b for b in span))
				result[key, parent if parents else None] += 1
		for b in a[1:]:
			rec(b, show)
	rec(t, '')
	if parents:
		return result
	return Counter({a: n for (a, _), n in result.items()})


def reduced(t, keep, param):
	"""The tree after deletions, as nested tuple (root is kept)."""
	num = {a: n for n, a in enumerate(keep)}
	eq = param['EQ_LABEL']

	def rec(a):
		if not isinstance(a[1], tuple):
			return [(eq.get(a[0], a[0]), num[a[1]])] if a[1] in num else []
		kids = [c for b in a[1:] for c in rec(b)]
		label = eq.get(a[0], a[0])
		if not kids or label in param['DELETE_LABEL']:
			return kids
		return [(label, ) + tuple(kids)]
	return (eq.get(t[0], t[0]), ) + tuple([c for b in t[1:] for c in rec(b)])


def match(g, c):
	return sum(min(n, c[a]) for a, n in g.items())


def ratio(a, b):
	return None if b == 0 else Fraction(a, b)


def scores(g, c):
	"""(recall, precision, f-measure); None if undefined."""
	m = match(g, c)
	r, p = ratio(m, sum(g.values())), ratio(m, sum(c.values()))
	f = None
	if r and p:
		f = 2 * r * p / (r + p)
	return r, p, f


def pct(x, decimal=None):
	"""Formatted percentage; undefined values are not numbers."""
	return '   nan' if x is None else '%6.2f' % (100 * x)


def near(text, x):
	"""Whether a printed percentage is that of a fraction."""
	text = text.strip()
	if x is None:
		return text in ('nan', 'NaN', '0DIV!')
	try:
		return abs(float(text) - float(100 * x)) <= 0.00501
	except ValueError:
		return False


@lru_cache(maxsize=None)
def paths(t, param_dellabel):
	"""For each leaf, the labels from the root with markers of boundaries."""
	result = {a: [] for a in gen.leaves(t)}

	def rec(a):
		if not isinstance(a[1], tuple):
			return
		span = set(gen.leaves(a))
		first, last = min(span), max(span)
		if a[0] not in param_dellabel:
			for b in span:
				p = result[b]
				end = ')' if b == last else ']'
				begin = '(' if b == first else '['
				if b + 1 not in span and end not in p:
					p.append(end)
				p.append(a[0])
				if b - 1 not in span and begin not in p:
					p.append(begin)
		for b in a[1:]:
			rec(b)
	rec(t)
	return result


def edit(a, b):
	"""Minimal number of edits, from the definition."""
	@lru_cache(maxsize=None)
	def rec(i, j):
		if i == len(a) or j == len(b):
			return len(a) - i + len(b) - j
		return min(rec(i + 1, j + 1) + (a[i] != b[j]), rec(i + 1, j) + 1,
				rec(i, j + 1) + 1)
	return rec(0, 0)


def leafanc(g, c, dellabel):
	pg, pc = paths(g, dellabel), paths(c, dellabel)
	vals = [1 - Fraction(edit(tuple(pg[n]), tuple(pc[n])),
			max(len(pg[n] + pc[n]), 1)) for n in pg]
	return sum(vals) / len(vals) if vals else None


def hasempty(t):
	return any(len(a) == 1 for a in gen.nodes(t))


# ---- pairs of trees ----------------------------------------------------------

@lru_cache(maxsize=None)
def pool(n, unary, labels):
	return list(gen.sentencetrees(n, True, unary, labels, 'ROOT', None))


def retag(t, tags):
	if not isinstance(t[1], tuple):
		return (tags[t[1]], t[1])
	return (t[0], ) + tuple([retag(a, tags) for a in t[1:]])


TAGS = [('NVNV', 'NVNV'), ('N.V.', 'N.VV'), ('.NV.', 'NNN.'), ('N.VN', '.VNN')]


def gen_pairs(tier):
	deep = tier == 'thorough'
	for n, unary, labels in [(1, 2, 'AB'), (2, 1, 'AB'), (3, 1 if deep else 0,
			'AB')] + [(4, 0, 'AB' if deep else 'A')]:
		trees = pool(n, unary, labels)
		for g in trees:
			for c in trees:
				for tags in TAGS if n < 4 else TAGS[:2]:
					yield g, c, n, tags


def pairs(case, rec):
	g, c, n, (gtags, ctags) = case
	gold, cand = retag(g, gtags), retag(c, ctags)
	sent = list('abcdef'[:n])
	for name in PARAMS:
		param = makeparam(name, LA=1, TED=1 if n < 4 else 0)
		if name == 'equal root':
			cand = ('TOP', ) + cand[1:]
		compare(name, gold, cand, sent, sent, param, rec)


def compare(name, gold, cand, gsent, csent, param, rec, goldmap=None):
	"""Check the result for a pair of trees.

	:param goldmap: for each gold position, the position in the candidate."""
	keep = keptpos(gold, gsent, param)
	ckeep = keep
	if goldmap is not None:
		ckeep = [goldmap[a] for a in keep]
	gt, ct = gen.build(ParentedTree, gold), gen.build(ParentedTree, cand)
	gargs, cargs = list(gsent), list(csent)
	pair = ev.TreePairResult('1', gt, gargs, ct, cargs, param)
	rec.step()
	rec.expect('%s: sentences' % name, (gargs, cargs),
			(list(gsent), list(csent)))
	gb, cb = brackets(gold, keep, param), brackets(cand, ckeep, param)
	rec.expect('%s: gold brackets' % name, pair.gbrack, gb)
	rec.expect('%s: candidate brackets' % name, pair.cbrack, cb)
	rec.expect('%s: length' % name, pair.lengpos, sum(1 for a in
			gen.nodes(gold) if not isinstance(a[1], tuple)
			and a[0] not in param['DELETE_LABEL_FOR_LENGTH']))
	gpos = dict((a[1], a[0]) for a in gen.nodes(gold)
			if not isinstance(a[1], tuple))
	cpos = dict((a[1], a[0]) for a in gen.nodes(cand)
			if not isinstance(a[1], tuple))
	gtag, ctag = [gpos[a] for a in keep], [cpos[a] for a in ckeep]
	rec.expect('%s: tags' % name, (pair.gpos, pair.cpos), (gtag, ctag))
	sc = pair.scores()
	r, p, f = scores(gb, cb)
	acc = ratio(sum(a == b for a, b in zip(gtag, ctag)), len(gtag))
	for key, val in (('LR', r), ('LP', p), ('LF', f), ('POS', acc)):
		if not near(sc[key], val):
			rec.fail('%s: %s: got %s, expected %s' % (name, key, sc[key], val))
	rec.outcome((r, p, f, acc))
	if not keep:
		return pair
	rg, rc = reduced(gold, keep, param), reduced(cand, ckeep, param)
	got = gen.totuple(pair.gtree)
	rec.expect('%s: gold tree' % name, gen.canon(got), gen.canon(rg))
	got = gen.totuple(pair.ctree)
	rec.expect('%s: candidate tree' % name, gen.canon(got), gen.canon(rc))
	if param['LA']:
		want = leafanc(rg, rc, frozenset(param['DELETE_LABEL']))
		if abs(float(pair.lascore) - float(want)) > 1e-9:
			rec.fail('%s: leaf-ancestor: got %s, expected %s' % (
					name, pair.lascore, want))
	if param['TED']:
		rec.expect('%s: tree edit distance' % name, pair.ted,
				treedist(gen.build(Tree, rg).freeze(),
				gen.build(Tree, rc).freeze()))
		rec.expect('%s: number of nodes' % name, pair.denom,
				len(list(gen.nodes(rg))) + len(list(gen.nodes(rc)))
				- 2 * (rg[0] in param['DELETE_LABEL']))
	gp, cp = [brackets(a, k, dict(param, LABELED=1), True)
			for a, k in ((gold, keep), (cand, ckeep))]
	# the parent of a bracket is the node above it that was not deleted; the
	# root remains as parent
	for what, got, ref, root in (('gold', pair.pgbrack, gp, rg[0]),
			('candidate', pair.pcbrack, cp, rc[0])):
		if root in param['DELETE_LABEL']:
			ref = Counter({(a, b or root): m for (a, b), m in ref.items()})
		rec.expect('%s: %s brackets with parents' % (name, what), got, ref)
	text = pair.bracketings()
	rec.expect('%s: bracketing errors' % name, text == '', gb == cb)
	return pair


# ---- leaf-ancestor paths -----------------------------------------------------

def gen_paths(tier):
	yield (tier == 'thorough', )


def samepaths(case, rec):
	"""Different trees with the same leaf-ancestor paths."""
	n = 6
	groups = {}
	for t in pool(n, 0, 'A'):
		rec.step()
		p = ev.leafancestorpaths(gen.build(Tree, t).freeze(), set())
		ref = paths(t, frozenset())
		if not rec.expect('paths of %s' % gen.show(t), p, ref):
			return
		groups.setdefault(repr(sorted(p.items())), []).append(t)
	sent = list('abcdef')
	param = makeparam('default', LA=1)
	num = 0
	for group in groups.values():
		for g in group:
			for c in group:
				if g != c:
					num += 1
					rec.trace()
					compare('same paths', g, c, sent, sent, param, rec)
	rec.count('pairs', num)
	rec.expect('there are such pairs', num > 0, True)


# ---- sequences of sentences ----------------------------------------------------

SUMMARY = re.compile(r'^([-a-z &.()]+?):?  +(.*)$', re.M)
ITEMS = [
	('(ROOT (A (N 0) (V 1)) (. 2))', '(ROOT (A (N 0) (V 1)) (. 2))', 'ab.'),
	('(ROOT (A (N 0) (V 1)) (. 2))', '(ROOT (B (N 0) (V 1)) (. 2))', 'ab.'),
	('(ROOT (A (N 0) (. 1) (V 2)))', '(ROOT (A (N 0) (V 2)) (. 1))', 'a.c'),
	('(ROOT (A (N 0) (N 2)) (V 1))', '(ROOT (A (N 0) (V 1)) (N 2))', 'abc'),
	('(ROOT (A (N 0) (N 2)) (V 1))', '(ROOT (A (N 0) (N 2)) (V 1))', 'abc'),
	('(ROOT (A (A (N 0) (V 1))))', '(ROOT (A (N 0) (N 1)))', 'ab'),
	('(ROOT (. 0))', '(ROOT (. 0))', '.'),
	('(ROOT (A (N 0)) (B (N 1)) (B (V 2)))',
		'(ROOT (B (B (N 0)) (B (V 1))) (N 2))', 'abc'),
	('(ROOT (A (N 0)))', '(ROOT (N 0))', 'a'),
]


def totree(text):
	return gen.totuple(Tree.parse(text, parse_leaf=int))


def gen_corpus(tier):
	deep = tier == 'thorough'
	for k in range(1, 4 if deep else 3):
		for items in product(range(len(ITEMS)), repeat=k):
			for name in PARAMS:
				for cutoff in (40, 2, None):
					for rest in ((), ('LA', 'TED')):
						yield items, name, cutoff, rest


def corpus(case, rec):
	items, name, cutoff, rest = case
	param = makeparam(name, CUTOFF_LEN=cutoff, **{a: 1 for a in rest})
	with contextlib.redirect_stdout(io.StringIO()) as out:
		e = ev.Evaluator(param, 2)
		pairs = []
		for n, i in enumerate(items):
			g, c, s = ITEMS[i]
			pairs.append(e.add(str(n), ParentedTree(g), list(s),
					ParentedTree(c), list(s)))
			rec.step()
		text = e.summary()
		if param['LABELED']:
			e.breakdowns()
	sums = []
	for limit in [a for a in (cutoff, 999) if a is not None]:
		gb, cb, gt, ct, num, longest, exact = [], [], [], [], 0, 0, 0
		la, nom, den = [], 0, 0
		for n, i in enumerate(items):
			g, c, s = totree(ITEMS[i][0]), totree(ITEMS[i][1]), ITEMS[i][2]
			if pairs[n].lengpos > limit:
				continue
			keep = keptpos(g, s, param)
			gb1, cb1 = brackets(g, keep, param), brackets(c, keep, param)
			gb.extend((n, a) for a in gb1.elements())
			cb.extend((n, a) for a in cb1.elements())
			if gb1 or cb1 or not param['DISC_ONLY']:
				num += 1
				exact += gb1 == cb1
			longest = max(longest, pairs[n].lengpos)
			for seq, t in ((gt, g), (ct, c)):
				pos = dict((a[1], a[0]) for a in gen.nodes(t)
						if not isinstance(a[1], tuple))
				seq.extend(pos[a] for a in keep)
			if keep:
				la.append(pairs[n].lascore)
				nom += pairs[n].ted
				den += pairs[n].denom
		r, p, f = scores(Counter(gb), Counter(cb))
		sums.append({
			'number of sentences': num, 'longest sentence': longest,
			'gold brackets': len(gb), 'cand. brackets': len(cb),
			'disc.': [sum(1 for _, (_, b) in x if gen.comps(
				[j for j in range(9) if b >> j & 1]) > 1) for x in (gb, cb)],
			'labeled recall': r, 'labeled precision': p,
			'labeled f-measure': f, 'exact match': ratio(exact, num),
			'leaf-ancestor': ratio(Fraction(sum(la)), len(la))
				if rest and la else None,
			'tree-dist (Dice micro avg)': 1 - Fraction(nom) / Fraction(den)
				if rest and den else None,
			'pos accuracy': ratio(sum(a == b for a, b in zip(gt, ct)),
				len(gt))})
	short = cutoff is not None and sums[-1]['longest sentence'] > cutoff
	if not short:
		sums = sums[-1:]
	got = {}
	for line in text.splitlines()[1:]:
		m = SUMMARY.match(line) or re.match(r'^(tree-dist.*?\)) +(.*)$', line)
		got[m.group(1).replace(' (disc.)', '')] = m.group(2).split()
	for key in got:
		if key.startswith('disc. '):
			continue
		vals = got[key]
		if '(' in line and key in ('gold brackets', 'cand. brackets'):
			pass
		extra = None
		if vals[-1].startswith('('):
			extra = vals.pop()
			rec.expect('%s disc.' % key, extra, '(%d)' % sums[0]['disc.'][
					key == 'cand. brackets'])
		if not rec.expect('columns of %s' % key, len(vals), len(sums)):
			continue
		for a, b in zip(vals, [s[key] for s in sums]):
			ok = (near(a, b) if b is None or isinstance(b, Fraction)
					else a == '%d' % b)
			if not ok:
				rec.fail('%s: got %s, expected %s\n%s' % (key, a, b, text))
	want = {a for a in sums[0] if a not in ('disc.', 'leaf-ancestor',
			'tree-dist (Dice micro avg)')}
	if rest:
		want |= {'leaf-ancestor', 'tree-dist (Dice micro avg)'}
	rec.expect('lines', {a for a in got if not a.startswith('disc. ')}, want)
	for key, val in zip(('lr', 'lp', 'lf', 'ex', 'tag'), [sums[-1][b] for b in (
			'labeled recall', 'labeled precision', 'labeled f-measure',
			'exact match', 'pos accuracy')]):
		if not near(e.acc.scores()[key], val):
			rec.fail('%s: got %s, expected %s' % (
					key, e.acc.scores()[key], val))
	rec.outcome(text)
	if param['LABELED']:
		categories(out.getvalue(), items, param, rec)
		mismatches(out.getvalue(), items, param, rec)


def categories(text, items, param, rec):
	"""The table with scores per category."""
	gb, cb = Counter(), Counter()
	att = Counter()
	for n, i in enumerate(items):
		g, c, s = totree(ITEMS[i][0]), totree(ITEMS[i][1]), ITEMS[i][2]
		keep = keptpos(g, s, param)
		gb.update((a[0], n, a[1]) for a in brackets(g, keep, param).elements())
		cb.update((a[0], n, a[1]) for a in brackets(c, keep, param).elements())
	want = {}
	for cat in {a for a, _, _ in gb} | {a for a, _, _ in cb}:
		x = Counter({a: n for a, n in gb.items() if a[0] == cat})
		y = Counter({a: n for a, n in cb.items() if a[0] == cat})
		want[cat] = (ratio(sum(x.values()), sum(gb.values())), ) + scores(x, y)
	got = {}
	table = text.split('Category Statistics')[1].split('\n\n')[0]
	for line in table.splitlines()[3:]:
		m = re.match(r' *(\S+) +(\S+) +(\S+) +(\S+) +(\S+)(?: |$)', line[:40])
		if m:
			got[m.group(1)] = m.groups()[1:]
	if not rec.expect('categories', sorted(got), sorted(want)):
		return
	for cat, vals in want.items():
		for a, b in zip(got[cat], vals):
			if not near(a, b):
				rec.fail('category %s: got %r, expected %r' % (
						cat, got[cat], vals))
				return


def rulesof(t, keep, param):
	"""Map spans to rule: label and labels of children by their spans."""
	result = {}
	for a in gen.nodes(reduced(t, keep, param)):
		if isinstance(a[1], tuple) if len(a) > 1 else False:
			result[frozenset(gen.leaves(a))] = (a[0], tuple(sorted([
					(min(gen.leaves(b)), b[0], frozenset(gen.leaves(b)))
					for b in a[1:]])))
	return result


def mismatches(text, items, param, rec):
	"""Tables with errors: attachment, labels, tags, rules."""
	attach, labels, tags, rules = Counter(), Counter(), Counter(), Counter()
	spurious, absent = 0, 0
	gtags, ctags = [], []
	for n, i in enumerate(items):
		g, c, s = totree(ITEMS[i][0]), totree(ITEMS[i][1]), ITEMS[i][2]
		keep = keptpos(g, s, param)
		for t in (g, c):
			spans = [frozenset(b for b in gen.leaves(a) if b in keep)
					for a in gen.nodes(t) if isinstance(a[1], tuple)]
			if len(set(spans)) != len(spans):
				return  # unary constituents are not handled
		gtags.extend(a for _, a in sorted((a[1], a[0]) for a in gen.nodes(g)
				if a[1] in keep))
		ctags.extend(a for _, a in sorted((a[1], a[0]) for a in gen.nodes(c)
				if a[1] in keep))
		gb, cb = [brackets(t, keep, param) for t in (g, c)]
		for (l1, s1), (l2, s2) in product(cb - gb, gb - cb):
			if s1 == s2:
				labels[l1, l2] += 1
		gp, cp = [brackets(t, keep, param, True) for t in (g, c)]
		for (b1, p1), (b2, p2) in product(cp, gp):
			if b1 == b2 and p1 != p2:
				attach[b1[0], p1 or c[0], p2 or g[0]] += 1
		if keep:
			gr, cr = rulesof(g, keep, param), rulesof(c, keep, param)
			for a in gr.keys() | cr.keys():
				if len(a) < 2:
					continue
				if a not in cr:
					absent += 1
				elif a not in gr:
					spurious += 1
				elif gr[a] != cr[a]:
					rules[len(a)] += 1
	tags.update((a, b) for a, b in zip(ctags, gtags) if a != b)
	part = text.split('Attachment errors')[1].split('\n\n')[0]
	got = {tuple(a.split()[:-1]): int(a.split()[-1])
			for a in part.splitlines()[3:]}
	rec.expect('attachment errors', got, dict(attach))
	part = text.split('Category Statistics')[1].split('\n\n')[0]
	got = {tuple(a[39:].split()[:2]): int(a[39:].split()[2])
			for a in part.splitlines()[3:] if a[39:].strip()}
	rec.expect('label errors', got, dict(labels))
	if rec.expect('tags', 'POS Statistics' in text, bool(tags)) and tags:
		rows = text.split('POS Statistics')[1].split('\n\n')[0].splitlines()[3:]
		got = {tuple(a[39:].split()[:2]): int(a[39:].split()[2])
				for a in rows if a[39:].strip()}
		rec.expect('tag errors', got, dict(tags))
		for a in rows:
			if not a[:39].strip():
				continue
			tag, share, r, p, f = a[:39].split()
			x = Counter(i for i, b in enumerate(gtags) if b == tag)
			y = Counter(i for i, b in enumerate(ctags) if b == tag)
			for name, val, want in zip(('share', 'recall', 'precision', 'F'),
					(share, r, p, f), (ratio(len(x), len(gtags)), )
					+ scores(x, y)):
				if not near(val, want):
					rec.fail('%s of %s: got %s, expected %s' % (
							name, tag, val, want))
		rec.expect('rows', sorted(a.split()[0] for a in rows
				if a[:39].strip()), sorted(set(gtags)))
	counts = []
	for title in ('mismatches', 'span not in gold', 'span missing'):
		part = text.split(title)[1].split('\n\n')[0].splitlines()[2:]
		counts.append(sum(int(m.group(1)) for m in [
				re.match(r' +(\d+)  \S', a) for a in part] if m))
	rec.expect('rules', counts, [sum(rules.values()), spurious, absent])


# ---- dependencies ------------------------------------------------------------

@lru_cache(maxsize=None)
def headed(n):
	"""Trees with one child of each constituent marked as head."""
	result = []
	for t in gen.sentencetrees(n, True, 1 if n < 3 else 0, 'A', 'ROOT', None):
		phrases = [a for a in gen.nodes(t) if isinstance(a[1], tuple)]
		for heads in product(*[range(len(a) - 1) for a in phrases[1:]]):
			result.append((t, (None, ) + heads))
	return result


def headwords(t, heads):
	"""Map each word to the word it depends on; 0 is the root."""
	result = {}
	todo = iter(heads)

	def rec(a):
		if not isinstance(a[1], tuple):
			return a[1] + 1
		h = next(todo)
		lex = [rec(b) for b in a[1:]]
		top = 0 if h is None else lex[h]
		for i, b in enumerate(lex):
			if i != h:
				result[b] = top
		return None if h is None else top
	rec(t)
	return result


def build1(t, heads, tags, func):
	"""Tree with heads marked and arbitrary function tags."""
	tree = gen.build(ParentedTree, retag(t, tags))
	phrases = [a for a in tree.subtrees() if isinstance(a[0], Tree)]
	for a, h in zip(phrases, heads):
		if h is not None:
			a[h].type = HEAD
	for i, a in enumerate(tree.subtrees()):
		a.source = ['--', '--', a.label, '--', func[i % len(func)], '0']
	return tree


def gen_dependencies(tier):
	deep = tier == 'thorough'
	for n in (1, 2, 3, 4) if deep else (1, 2, 3):
		for tags in product('N.', repeat=n):
			if n > 2 and tags.count('.') not in (1, 2):
				continue
			dots = [i for i in range(n) if tags[i] == '.']
			for gold in headed(n):
				for k in range(len(dots) + 1 if n < 4 else 1):
					for miss in combinations(dots, k):
						if n - k:
							for cand in headed(n - k):
								yield n, ''.join(tags), miss, gold, cand


def depeval(case, rec):
	"""Fraction of the words of the candidate attached to the right word."""
	n, tags, miss, (g, gheads), (c, cheads) = case
	keep = [i for i in range(n) if i not in miss]
	sent = ['w%d' % i for i in range(n)]
	csent = [sent[i] for i in keep]
	gdep, cdep = headwords(g, gheads), headwords(c, cheads)
	num = {0: 0}
	num.update((i + 1, a + 1) for i, a in enumerate(keep))
	cdep = {num[a]: num[b] for a, b in cdep.items()}
	want = Fraction(sum(gdep[a] == cdep[a] for a in cdep), len(cdep))
	words = ['ROOT'] + sent
	for name in ('default', 'punct', 'delete A'):
		if miss and name != 'punct':
			continue
		param = makeparam(name, DEP=1, DEBUG=2)
		with contextlib.redirect_stdout(io.StringIO()) as out:
			e = ev.Evaluator(param, 1)
			e.add('1', build1(g, gheads, tags, ('SB', '--')), list(sent),
					build1(c, cheads, [tags[i] for i in keep],
					('--', 'OA', 'HD')), list(csent))
		rec.step()
		nothing = not keptpos(retag(g, tags), sent, param)
		got = re.search('unlabeled dependencies: +(.*)', e.summary()).group(1)
		if not near(got, None if nothing else want):
			rec.fail('%s: got %s, expected %s' % (name, got, want), 'accuracy')
		if nothing:
			continue
		lines = re.findall(r'^ *(\S+) -> +(\S+) +(\S+) -> +(\S+)$',
				out.getvalue(), re.M)
		rec.expect('%s: table' % name, lines, [(words[a], words[gdep[a]],
				words[a], words[cdep[a]]) for a in sorted(cdep)])
		row = [a for a in out.getvalue().splitlines()
				if re.match(r' *1 +\d+ ', a)][-1]
		if not near(row[-6:], want):
			rec.fail('%s: row %r, expected %s' % (name, row, want), 'row')
	rec.outcome((n, want))
	rec.trace()


# ---- candidates without punctuation, equal words -------------------------------

def gen_missing(tier):
	deep = tier == 'thorough'
	for n in (2, 3) + ((4, ) if deep else ()):
		for g in pool(n, 1 if n == 2 else 0, 'A'):
			for tags in product('N.', repeat=n):
				if '.' not in tags or 'N' not in tags:
					continue
				for mask in product((0, 1), repeat=n):
					if not any(mask) or any(
							not b and a == 'N' for a, b in zip(tags, mask)):
						continue
					yield g, tags, mask


def missing(case, rec):
	"""Tokens that are deleted in evaluation may be absent from the parse."""
	g, tags, mask = case
	n = len(tags)
	for sent in ('abcd'[:n], 'aaaa'[:n], 'abab'[:n]):
		gold = retag(g, tags)
		present = [a for a in range(n) if mask[a]]
		goldmap = {a: i for i, a in enumerate(present)}
		if aligned(sent, present) != present:
			continue  # ambiguous
		for c in pool(len(present), 1, 'A'):
			cand = retag(c, [tags[a] for a in present])
			for pname in ('punct', 'punct root'):
				if pname == 'punct':
					param = makeparam('punct')
				else:
					param = makeparam('punct', DELETE_ROOT_PRETERMS=1)
				compare('missing ' + pname, gold, cand, list(sent),
						[sent[a] for a in present], param, rec, goldmap)


def aligned(sent, present):
	"""First way to find the remaining words in the sentence."""
	result, m = [], 0
	for a in present:
		while sent[m] != sent[a]:
			m += 1
		result.append(m)
		m += 1
	return result


def gen_words(tier):
	for n in (1, 2, 3):
		for gsent in product('aAb', repeat=n):
			for csent in product('aAb', repeat=n):
				for eq in ({}, {'a': 'a', 'A': 'a'}, {'a': 'A', 'A': 'A'}):
					yield gsent, csent, eq


def words(case, rec):
	"""Sentences must be equal except for words declared as equal."""
	gsent, csent, eq = case
	param = makeparam('default', EQ_WORD=eq)
	n = len(gsent)
	same = ([eq.get(a, a) for a in gsent] == [eq.get(a, a) for a in csent])
	for t in pool(n, 0, 'A')[:3]:
		rec.step()
		try:
			pair = ev.TreePairResult('1', gen.build(ParentedTree, t),
					list(gsent), gen.build(ParentedTree, t), list(csent), param)
		except ValueError:
			rec.expect('sentences do not match', same, False)
		else:
			rec.expect('sentences match', same, True)
			rec.expect('brackets', pair.cbrack, pair.gbrack)
			rec.expect('tags', pair.cpos, pair.gpos)


# ---- function tags ---------------------------------------------------------------

def gen_functions(tier):
	deep = tier == 'thorough'
	shapes = ['(ROOT (A (N 0) (V 1)) (B (N 2)))', '(ROOT (A (N 0) (N 2)) (V 1))',
			'(ROOT (A (A (N 0))) (V 1))', '(ROOT (B (N 0) (V 1)))']
	tags = ['--', 'X', 'X-Y']
	for a, b in product(range(len(shapes)), repeat=2):
		if shapes[a].count('2') != shapes[b].count('2'):
			continue
		for ga in product(tags, repeat=2):
			for gb in product(tags if deep else tags[:2], repeat=2):
				for posfunc in (0, 1):
					yield shapes[a], shapes[b], ga, gb, posfunc


def withfunc(text, tags, posfunc):
	t = ParentedTree(text)
	nodes = [a for a in t.subtrees() if a is not t
			and isinstance(a[0], Tree)]
	pos = [a for a in t.subtrees() if not isinstance(a[0], Tree)]
	for n, a in enumerate(nodes + (pos if posfunc else [])):
		a.source = ['--'] * 6
		a.source[4] = tags[n % len(tags)]
	return t


def functions(case, rec):
	gshape, cshape, gtags, ctags, posfunc = case
	g, c = withfunc(gshape, gtags, posfunc), withfunc(cshape, ctags, posfunc)
	n = len(g.leaves())
	sent = list('abc'[:n])

	def collect(t):
		brack, pos, fun = Counter(), {}, []
		for a in t.subtrees():
			span = sum(1 << b for b in a.leaves())
			if isinstance(a[0], Tree):
				brack[a.label, span] += 1
			else:
				pos[a[0]] = a.label
			if a.source and a.source[4] != '--':
				fun.extend(((a.label, span), b, None if isinstance(a[0], Tree)
						else a[0]) for b in a.source[4].split('-'))
		return brack, pos, fun
	gbrack, gpos, gfun = collect(g)
	cbrack, cpos, cfun = collect(c)
	want = [Counter((a, b) for a, b, i in fun if (other[a] if i is None
				else otherpos[i] == a[0]))
			for fun, other, otherpos in ((gfun, cbrack, cpos),
				(cfun, gbrack, gpos))]
	param = makeparam('default')
	with contextlib.redirect_stdout(io.StringIO()):
		e = ev.Evaluator(param, 2)
		pair = e.add('1', g, sent, c, sent)
		text = e.summary()
		e.breakdowns()
	rec.step()
	rec.expect('function tags', [pair.goldfun, pair.candfun], want)
	f = scores(*want)[2]
	rec.outcome(f)
	if not near(pair.scores()['FUN'], f):
		rec.fail('function tags: got %s, expected %s' % (
				pair.scores()['FUN'], f))
	m = re.search('function tags: +(.*)', text)
	rec.expect('reported', m is not None, bool(want[1]))
	if m and not near(m.group(1), f):
		rec.fail('function tags: got %s, expected %s' % (m.group(1), f))


# ---- parameter files -----------------------------------------------------------

LINES = ['# comment', '', 'DEBUG 1', 'CUTOFF_LEN 10', 'LABELED 0', 'LABELED 1',
		'DELETE_LABEL ROOT', 'DELETE_LABEL $,', 'DELETE_LABEL_FOR_LENGTH .',
		'DELETE_WORD #', 'EQ_LABEL A B', 'EQ_LABEL C B', 'EQ_LABEL D E',
		'EQ_WORD x y', 'EQ_LABEL A', 'FOO 1', 'DISC_ONLY 1', 'TED 1', 'LA\t1',
		'DELETE_ROOT_PRETERMS 1', 'MAX_ERROR 5']


def gen_params(tier):
	for k in range(0, 4 if tier == 'thorough' else 3):
		for lines in product(range(len(LINES)), repeat=k):
			yield lines


def params(case, rec):
	lines = [LINES[a] for a in case]
	fname = scratch.write('x.prm', ''.join(a + '\n' for a in lines))
	want = dict(DEBUG=0, MAX_ERROR=10, CUTOFF_LEN=40, LABELED=1, DISC_ONLY=0,
			LA=0, TED=0, DEP=0, DELETE_ROOT_PRETERMS=0,
			DELETE_LABEL_FOR_LENGTH=set(), DELETE_LABEL=set(),
			DELETE_WORD=set(), EQ_LABEL=[], EQ_WORD=[])
	seen, bad = set(), False
	for line in lines:
		if line == '' or line.startswith('#'):
			continue
		key, val = line.split(None, 1)
		if key == 'FOO' or line == 'EQ_LABEL A' or key in seen:
			bad = True
		elif isinstance(want[key], set):
			want[key].add(val)
		elif isinstance(want[key], list):
			want[key].append(val.split())
		else:
			want[key] = int(val)
			seen.add(key)
	rec.step()
	try:
		got = ev.readparam(fname)
	except ValueError:
		rec.expect('error', bad, True)
		return
	if not rec.expect('no error', bad, False):
		return
	for key in want:
		if isinstance(want[key], list):
			classes = closure(want[key])
			rec.expect('elements of %s' % key, set(got[key]),
					{a for b in classes for a in b})
			rec.expect('classes of %s' % key, {frozenset(
					x for x in got[key] if got[key][x] == got[key][y])
					for y in got[key]}, classes)
			for x, y in got[key].items():
				rec.expect('representative', got[key].get(y), y)
		else:
			rec.expect(key, got[key], want[key])
	rec.expect('keys', set(got), set(want))


def closure(pairs):
	classes = []
	for a, b in pairs:
		new = {a, b}
		rest = []
		for c in classes:
			if c & new:
				new |= c
			else:
				rest.append(c)
		classes = rest + [new]
	return {frozenset(a) for a in classes}


def gen_closure(tier):
	pairs = list(product('ABCD', repeat=2))
	for k in range(0, 5 if tier == 'thorough' else 4):
		for c in combinations(pairs, k):
			yield c


def eqclasses(case, rec):
	got = ev.transitiveclosure(case)
	rec.step()
	rec.expect('classes', {frozenset(a) for a in got.values()}, closure(case))
	rec.expect('disjoint', sum(map(len, got.values())),
			len({a for b in case for a in b}))
	for k, v in got.items():
		rec.expect('key in class', k in v, True)


# ---- measures --------------------------------------------------------------------

def gen_measures(tier):
	m = 5 if tier == 'thorough' else 4
	for k in range(m + 1):
		for a in product('xy', repeat=k):
			for l in range(m + 1):
				for b in product('xyz', repeat=l):
					yield a, b


def measures(case, rec):
	a, b = case
	rec.step()
	rec.expect('edit distance', ev.editdistance(a, b), edit(a, b))
	r, p, f = scores(Counter(a), Counter(b))
	for name, func, want in (('recall', ev.recall, r),
			('precision', ev.precision, p), ('f-measure', ev.f_measure, f)):
		got = func(Counter(a), Counter(b))
		if (got.is_nan() if want is None else False):
			continue
		if want is None or abs(Fraction(got) - want) > Fraction(1, 10 ** 9):
			rec.fail('%s: got %s, expected %s' % (name, got, want))
	if len(a) == len(b) and a:
		rec.expect('accuracy', Fraction(ev.accuracy(a, b)).limit_denominator(
				1000), Fraction(sum(x == y for x, y in zip(a, b)), len(a)))
	elif len(a) != len(b):
		try:
			ev.accuracy(a, b)
		except ValueError:
			pass
		else:
			rec.fail('accuracy of sequences with different length')
	val = {'x': Decimal(1), 'y': Decimal(4), 'z': Decimal(0)}
	seq = [val[x] for x in b]
	got = ev.mean(seq)
	if not seq:
		rec.expect('mean of nothing', got.is_nan(), True)
	else:
		rec.expect('mean', abs(float(got) - float(sum(seq)) / len(seq)) < 1e-9,
				True)
	got = ev.harmean(seq)
	if not seq or 0 in seq:
		rec.expect('harmonic mean', got.is_nan(), True)
	else:
		rec.expect('harmonic mean', abs(float(got) - len(seq) / float(
				sum(1 / x for x in seq))) < 1e-9, True)
	bits = sum(1 << i for i, x in enumerate(a) if x == 'y')
	rec.expect('number of bits', ev.pyintbitcount(bits), a.count('y'))
	span = [i for i, x in enumerate(a) if x == 'y']
	got = list(ev.intervals(bits))
	rec.expect('intervals', [i for x, y in got for i in range(x, y + 1)], span)
	rec.expect('number of intervals', len(got), gen.comps(span))


# ---- command line ------------------------------------------------------------------

def gen_cli(tier):
	deep = tier == 'thorough'
	for k in (1, 2) if deep else (1, ):
		for items in product(range(len(ITEMS)), repeat=k):
			for fmt in ('export', 'discbracket'):
				for args in ((), ('--disconly', ), ('--la', '--ted'),
						('--cutofflen=2', ), ('--verbose', ), ('--debug', ),
						('--headrules', )):
					yield items, fmt, args


def cli(case, rec):
	from discodop.treebank import writetree
	items, fmt, args = case
	names = []
	for col in (0, 1):
		text = ''.join(writetree(ParentedTree(ITEMS[i][col]),
				list(ITEMS[i][2]), str(n + 1), fmt)
				for n, i in enumerate(items))
		names.append(scratch.write('t%d' % col, text))
	prm = scratch.write('p.prm', 'DELETE_LABEL ROOT\nDELETE_LABEL .\n')
	param = makeparam('delete root', DELETE_LABEL={'ROOT', '.'},
			DISC_ONLY='--disconly' in args, LA='--la' in args,
			TED='--ted' in args, CUTOFF_LEN=2 if '--cutofflen=2' in args else 40)
	rules = None
	if args == ('--headrules', ):
		fname = scratch.write('x.headrules', 'A RIGHT-TO-LEFT V N\n'
				'B LEFT-TO-RIGHT N V\n')
		rules = readheadrules(fname)
		param['DEP'] = 1
		args = ('--headrules=' + fname, )
	with contextlib.redirect_stdout(io.StringIO()):
		e = ev.Evaluator(param, 2)
		for n, i in enumerate(items):
			g, c, s = ITEMS[i]
			g, c = ParentedTree(g), ParentedTree(c)
			if rules:
				applyheadrules(g, rules)
				applyheadrules(c, rules)
			e.add(str(n + 1), g, list(s), c, list(s))
		want = e.summary()
		rec.expect('dependencies', 'unlabeled dep' in want, bool(rules))
	argv = sys.argv
	sys.argv = ['discodop', 'eval'] + names + [prm, '--fmt=' + fmt] + list(args)
	try:
		with contextlib.redirect_stdout(io.StringIO()) as out:
			ev.main()
	finally:
		sys.argv = argv
	rec.step()
	got = out.getvalue()
	if not got.rstrip().endswith(want.rstrip()):
		rec.fail('got:\n%s\nexpected:\n%s' % (got[-1500:], want))
	if '--verbose' in args or '--debug' in args:
		rows = [a.split() for a in got.split('_\n', 1)[1].splitlines()
				if re.match(r' *\d+ +\d+ +\S+ +\S+ +\d+ +\d+ +\d+ +\d+ +\d+', a)]
		if not rec.expect('rows', [a[0] for a in rows],
				['%d' % (n + 1) for n in range(len(items))]):
			return
		for row, i in zip(rows, items):
			g, c, s = totree(ITEMS[i][0]), totree(ITEMS[i][1]), ITEMS[i][2]
			keep = keptpos(g, s, param)
			gb, cb = brackets(g, keep, param), brackets(c, keep, param)
			r, p, _ = scores(gb, cb)
			rec.expect('length', int(row[1]), len(s))
			rec.expect('counts', [int(a) for a in row[4:8]], [match(gb, cb),
					sum(gb.values()), sum(cb.values()), len(keep)])
			rec.expect('recall and precision', (near(row[2], r),
					near(row[3], p)), (True, True))


SPACES = [
	core.Space('pairs', gen_pairs, pairs, {
		'quick': 'all pairs of trees with up to 3 words and labels A, B (unary '
			'nodes for up to 2 words), 4 words with label A; 4 combinations of '
			'tags, 11 parameter settings',
		'thorough': 'also unary nodes for 3 words, labels A, B for 4 words'}),
	core.Space('paths', gen_paths, samepaths,
		'leaf-ancestor paths of all 6-word hierarchies with one label; all '
		'pairs with the same paths', workers=1),
	core.Space('corpus', gen_corpus, corpus, {
		'quick': 'all sequences of up to 2 of %d pairs of trees, all parameter '
			'settings, 3 cutoffs' % len(ITEMS),
		'thorough': 'up to 3 pairs'}),
	core.Space('dependencies', gen_dependencies, depeval, {
		'quick': 'all pairs of trees of up to 3 words, all heads, all tags, '
			'all sets of punctuation absent from the candidate',
		'thorough': 'also 4 words, with all words in the candidate'}),
	core.Space('missing', gen_missing, missing, {
		'quick': 'all trees of up to 3 words, all choices of punctuation, all '
			'sets of punctuation absent from the candidate, all candidates',
		'thorough': 'up to 4 words'}),
	core.Space('words', gen_words, words, 'all pairs of sentences of up to 3 '
		'words over 3 words, with equivalent words'),
	core.Space('functions', gen_functions, functions, {
		'quick': 'pairs of trees with all combinations of function tags',
		'thorough': 'same, with multiple tags in candidate'}),
	core.Space('params', gen_params, params, {
		'quick': 'parameter files of up to 2 of %d lines' % len(LINES),
		'thorough': 'up to 3 lines'}),
	core.Space('classes', gen_closure, eqclasses, {
		'quick': 'all sets of up to 3 pairs over 4 elements',
		'thorough': 'up to 4 pairs'}),
	core.Space('measures', gen_measures, measures, {
		'quick': 'all pairs of sequences up to length 4 over 2 and 3 symbols',
		'thorough': 'up to length 5'}),
	core.Space('cli', gen_cli, cli, {
		'quick': 'all pairs of trees, 2 formats, 7 options',
		'thorough': 'sequences of 2 pairs'}),
]
ASSUMPTIONS = [
	'the tree edit distance itself is taken from the code (property C13)',
	'tokens missing from a candidate are those found by left-to-right '
	'alignment',
	'labels both deleted and declared equal to another label are not covered']
if __name__ == '__main__':
	sys.exit(core.main('C28', SPACES, ASSUMPTIONS))
