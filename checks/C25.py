"""C25: pruning with a coarse grammar removes exactly what it should."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from itertools import combinations, product
from vlib import build, core, pars, gram
build.activate('full')
import logging  # noqa: E402
from discodop import pcfg, plcfrs  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.kbest import lazykbest  # noqa: E402
from discodop.coarsetofine import prunechart  # noqa: E402
logging.disable(logging.WARNING)
PARSE = {'pcfg': pcfg.parse, 'plcfrs': plcfrs.parse}
KS = (0, 1, 2, 3, 5, Fraction(1, 2), Fraction(1, 9), Fraction(1, 99),
		Fraction(1, 9999))


def reachable(chart, root):
	result, stack = set(), [root]
	while stack:
		item = stack.pop()
		if item in chart and item not in result:
			result.add(item)
			for _, r, kids in chart[item]:
				if r is not None:
					stack.extend(kids)
	return result


def derivitems(text):
	"""Items (label, span) of a derivation."""
	result = set()
	stack = []
	for a in re.findall(r'\([^ ]+|[0-9]+|\)', text):
		if a == ')':
			label, span = stack.pop()
			result.add((label, frozenset(span)))
			if stack:
				stack[-1][1].update(span)
		elif a[0] == '(':
			stack.append((a[1:], set()))
		else:
			stack[-1][1].add(int(a))
	return result


def insideoutside(chart, root):
	"""Posterior probabilities of all items; exact."""
	order = []
	seen = set()

	def visit(item):
		if item not in seen:
			seen.add(item)
			for _, r, kids in chart[item]:
				if r is not None:
					for a in kids:
						visit(a)
			order.append(item)

	visit(root)
	inside, outside = {}, dict.fromkeys(order, Fraction(0))
	for item in order:
		inside[item] = Fraction(0)
		for p, r, kids in chart[item]:
			if r is not None:
				for a in kids:
					p *= inside[a]
			inside[item] += p
	outside[root] = Fraction(1)
	for item in reversed(order):
		for p, r, kids in chart[item]:
			if r is not None:
				for n, a in enumerate(kids):
					q = outside[item] * p
					for m, b in enumerate(kids):
						if m != n:
							q *= inside[b]
					outside[a] += q
	return {a: inside[a] * outside[a] / inside[root] for a in order}


def selection(chart, root, k, require=()):
	"""Items that remain; None if undetermined because of ties.

	:param require: a list of sets of items; one of each must be present."""
	if k == 0:
		return reachable(chart, root)
	elif k < 1:
		if pars.cyclic(chart):
			return None
		post = insideoutside(chart, root)
		if any(pars.close(float(a), float(k), 1e-6) for a in post.values()):
			return None
		return {a for a, p in post.items() if p > k}
	if pars.cyclic(chart):
		top = pars.topk(chart, root, k + 2)
	else:
		top = sorted(((p, a) for a, p
				in pars.derivations(chart, root).items()),
				key=lambda a: -a[0])
	if len(top) > k and pars.close(pars.neglog(top[k][0]),
			pars.neglog(top[k - 1][0])):
		return None
	result = set()
	for _, a in top[:k]:
		found = derivitems(a)
		if all(found & b for b in require):
			result |= found
	return result


def onlist(chart, item, white):
	return bool(chart.itemid(item[0], sorted(item[1]), white))


def verifylist(name, chart, items, want, white, sent, rec):
	rec.trace()
	for item in items:
		rec.step()
		if onlist(chart, item, white) != (item in want):
			rec.fail('%s %r: %s %r %s the white list' % (name, sent, item[0],
					sorted(item[1]), 'missing from' if item in want
					else 'should not be on'))
			return
	rec.outcome((len(items), len(want)))


def bare(label):
	return re.sub(r'[-^_].*$', '', label)


def rename(rules, lexicon, new):
	return ([((new.get(r[0], r[0]), tuple(new.get(a, a) for a in r[1]),
			r[2]), w) for r, w in rules],
			[((new.get(t, t), x), w) for (t, x), w in lexicon])


def charts(tup, sent, name='x'):
	coarse, fine = Grammar(tup, start='S'), Grammar(tup, start='S')
	fine.getmapping(coarse)
	for kind, parse in PARSE.items():
		if kind == 'plcfrs' or coarse.maxfanout == 1:
			yield kind, fine, (lambda parse=parse: parse(sent, coarse)[0])


def selectgen(tier):
	for rules, lexicon in gram.grammars(gram.CFG,
			{'quick': 3, 'thorough': 4}[tier]):
		yield tuple(rules), tuple(lexicon), 4, {}
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:7],
			{'quick': 3, 'thorough': 4}[tier], gram.DISC, gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon), 4, {}


def select(case, rec):
	"""Exactly the items that meet the criterion are on the white list."""
	rules, lexicon, maxlen, new = case
	ref = pars.Ref(rules, lexicon)
	tup = pars.tuples(rules, lexicon)
	for sent in gram.sents('ab', maxlen):
		full = pars.items(ref, sent)
		root = ('S', frozenset(range(len(sent))))
		if root not in full:
			continue
		for item in full:
			rec.state((rules, lexicon, tuple(sent), item))
		for kind, fine, getchart in charts(tup, sent):
			for k in KS:
				want = selection(full, root, k)
				if want is None:
					continue
				chart = getchart()
				white, _ = prunechart(chart, fine, k if k in (0, 1)
						or k > 1 else float(k), False, False, kind == 'pcfg')
				verifylist('%s k=%s' % (kind, k), chart, full, want, white,
						sent, rec)


NAMES = ({}, {'A': 'A-X', 'B': 'A^y'}, {'A': 'B-Z^q', 'C': 'C_2'})


def constraintgen(tier):
	for names in NAMES:
		for rules, lexicon in gram.grammars(gram.CFG,
				{'quick': 2, 'thorough': 3}[tier], lexicons=gram.LEXICONS[1:]):
			a, b = rename(rules, lexicon, names)
			yield tuple(a), tuple(b), 3
		for rules, lexicon in gram.grammars(gram.CFG[:5] + gram.DISC[:7],
				{'quick': 3, 'thorough': 4}[tier], gram.DISC,
				gram.LEXICONS[2:]):
			a, b = rename(rules, lexicon, names)
			yield tuple(a), tuple(b), 3


def constraints(case, rec):
	"""Required and blocked labeled spans."""
	rules, lexicon, maxlen = case
	ref = pars.Ref(rules, lexicon)
	tup = pars.tuples(rules, lexicon)
	for sent in gram.sents('ab', maxlen, 2):
		full = pars.items(ref, sent)
		root = ('S', frozenset(range(len(sent))))
		if root not in full:
			continue
		for item in full:
			rec.state((rules, lexicon, tuple(sent), item))
		match = {}
		for a in full:
			match.setdefault((bare(a[0]), tuple(sorted(a[1]))), set()).add(a)
		spans = list(match) + [('A', tuple(range(len(sent)))),
				('C', (0, len(sent) - 1)), ('Z', (0, ))]
		spans = sorted(set(spans))
		if len(spans) > 9:
			pairs = [spans[n:n + 2] for n in range(len(spans) - 1)]
		else:
			pairs = list(combinations(spans, 2))
		for kind, fine, getchart in charts(tup, sent):
			for sel in [[a] for a in spans] + pairs:
				for k in (1, 2, 5):
					arg = {(a, tuple(b)) for a, b in sel}
					# required
					missing = any(a not in match for a in sel)
					if missing:
						chart = getchart()
						try:
							prunechart(chart, fine, k, False, False,
									kind == 'pcfg', require=arg)
						except ValueError:
							pass
						else:
							rec.fail('%s %r require=%r: no ValueError' % (
									kind, sent, arg))
					else:
						want = selection(full, root, k,
								[match[a] for a in sel])
						if want is not None:
							chart = getchart()
							white, _ = prunechart(chart, fine, k, False, False,
									kind == 'pcfg', require=arg)
							verifylist('%s k=%d require=%r' % (kind, k, arg),
									chart, full, want, white, sent, rec)
				for k in (0, 2, Fraction(1, 50)):
					want = selection(full, root, k)
					if want is None:
						continue
					for a in sel:
						want = want - match.get(a, set())
					chart = getchart()
					white, _ = prunechart(chart, fine, k if k in (0, 2)
							else float(k), False, False, kind == 'pcfg',
							block={(a, tuple(b)) for a, b in sel})
					verifylist('%s k=%s block=%r' % (kind, k, sel), chart,
							full, want, white, sent, rec)


def splitstates(rules, lexicon, pattern, sep='@', fixed=()):
	"""Refine labels; returns the rules of a finer grammar."""
	states = {a: [a] for a in ('S', ) + fixed}
	for r, _ in rules:
		for a in (r[0], ) + r[1]:
			states.setdefault(a, [a, a + sep + '1'])
	for (t, _), _ in lexicon:
		states.setdefault(t, [t, t + sep + '1'])
	newrules, newlex = [], []
	for n, (r, w) in enumerate(rules):
		combos = list(product(*[states[a] for a in (r[0], ) + r[1]]))
		for m, a in enumerate(combos):
			if pattern == 'some' and m and m != 1 + n % max(1, len(combos) - 1):
				continue
			newrules.append(((a[0], a[1:], r[2]), w + (n * 5 + m * 3) % 7))
	for n, ((t, x), w) in enumerate(lexicon):
		for m, a in enumerate(states[t]):
			newlex.append(((a, x), w + (n * 3 + m) % 5))
	if pattern == 'some':
		used = {r[0] for r, _ in newrules} | {t for (t, _), _ in newlex}
		while True:
			keep = [(r, w) for r, w in newrules
					if all(a in used for a in r[1])]
			now = {r[0] for r, _ in keep} | {t for (t, _), _ in newlex}
			if now == used and len(keep) == len(newrules):
				break
			newrules, used = keep, now
	return newrules, newlex


def labels(rules, lexicon):
	return {r[0] for r, _ in rules} | {t for (t, _), _ in lexicon} | {
			a for r, _ in rules for a in r[1]}


def prunedderivs(ref, sent, allowed):
	full = pars.items(ref, sent, allowed=allowed)
	root = (ref.start, frozenset(range(len(sent))))
	if pars.cyclic(full):
		return full, None
	return full, pars.derivations(full, root)


def verifyfine(name, chart, full, want, sent, rec):
	rec.trace()
	if want is None:
		top = pars.topk(full, ('S', frozenset(range(len(sent)))), 5)
		got = lazykbest(chart, 5) if chart else []
		if len(got) != len(top) or any(not pars.close(a[1], pars.neglog(b[0]))
				for a, b in zip(got, top)):
			rec.fail('%s %r: got %r, expected %r' % (name, sent, got, top))
		return
	if bool(chart) != bool(want):
		rec.fail('%s %r: parsed=%r, expected %d derivations' % (
				name, sent, bool(chart), len(want)))
		return
	got = lazykbest(chart, len(want) + 5) if chart else []
	msg = gram.compare(got, want)
	if msg:
		rec.fail('%s %r: %s' % (name, sent, msg))
	rec.outcome((len(got), got[0] if got else None))


MAPPINGS = (
	# striplabelre, neverblockre, use mapping
	('@.*$', None, False),
	('@.*$', '^B', False),
	('@.*$', '1$', False),
	(None, None, True),
	('@.*$', '^C', True))


def finegen(tier):
	size = {'quick': 3, 'thorough': 4}[tier]
	for rules, lexicon in gram.grammars(gram.CFG, size - 1):
		yield tuple(rules), tuple(lexicon), 'full', 3, MAPPINGS
	for rules, lexicon in gram.grammars(gram.CFG, size,
			lexicons=gram.LEXICONS[1:2] if tier == 'quick'
			else gram.LEXICONS):
		yield tuple(rules), tuple(lexicon), 'some', 4, MAPPINGS[:2]
	for rules, lexicon in gram.grammars(gram.CFG[:5] + gram.DISC[:7], size,
			gram.DISC, gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon), 'some', 4, MAPPINGS


def coarsefine(case, rec):
	"""The derivations of the fine grammar with items allowed by the coarse."""
	rules, lexicon, pattern, maxlen, mappings = case
	frules, flex = splitstates(rules, lexicon, pattern)
	fref = pars.Ref(frules, flex)
	ftup = pars.tuples(frules, flex)
	for cr in [rules] + [[a for a in rules if a is not b] for b in rules]:
		if not cr or labels(cr, lexicon) != labels(rules, lexicon) \
				or not gram.valid([r for r, _ in cr],
					{t for (t, _), _ in lexicon}) \
				or any(a not in {r[0] for r, _ in cr} | {
					t for (t, _), _ in lexicon}
					for a in labels(rules, lexicon)):
			continue
		ref = pars.Ref(cr, lexicon)
		coarse = Grammar(pars.tuples(cr, lexicon), start='S')
		work = []
		for sent in gram.sents('ab', maxlen):
			full = pars.items(ref, sent)
			root = ('S', frozenset(range(len(sent))))
			if root in full:
				work.append((sent, full, root))
				for item in full:
					rec.state((tuple(cr), lexicon, tuple(sent), item))
		if not work:
			continue
		for stripre, never, usemap in mappings:
			fine = Grammar(ftup, start='S')
			fine.getmapping(coarse, stripre and re.compile(stripre),
					never and re.compile(never), False, False,
					{a if stripre is None else a.split('@')[0]:
						a.split('@')[0] for a in [
						'Epsilon', 'S'] + list(labels(frules, flex))}
						if usemap else None)
			for sent, full, root in work:
				for k in (0, 1, 3, Fraction(1, 20)):
					keep = selection(full, root, k)
					if keep is None:
						continue
					fchart, want = prunedderivs(fref, sent,
							lambda lab, span: (never is not None
							and re.search(never, lab))
							or (lab.split('@')[0], span) in keep)
					for ckind, fkind in (('pcfg', 'pcfg'),
							('pcfg', 'plcfrs'), ('plcfrs', 'plcfrs')):
						if 'pcfg' in (ckind, fkind) and fine.maxfanout > 1:
							continue
						chart = PARSE[ckind](sent, coarse)[0]
						white, _ = prunechart(chart, fine, k if k in (0, 1, 3)
								else float(k), False, False, fkind == 'pcfg')
						chart2, _ = PARSE[fkind](sent, fine, whitelist=white)
						verifyfine('%s, then %s; k=%s, %r' % (ckind, fkind, k,
								(stripre, never, usemap)), chart2, fchart,
								want, sent, rec)


def component(rules, lexicon, markorigin):
	"""Split-PCFG: every component of a label has its own label."""
	ref = pars.Ref(rules, lexicon)

	def name(label, n):
		if ref.fanout[label] == 1:
			return label
		return '%s*%d' % (label, n) if markorigin else label + '*'

	result = []
	for n, ((lhs, rhs, yf), w) in enumerate(rules):
		cnt = [0, 0]
		for m, comp in enumerate(yf.split(',')):
			seq = []
			for a in comp:
				seq.append(name(rhs[int(a)], cnt[int(a)]))
				cnt[int(a)] += 1
			cur = name(lhs, m)
			while len(seq) > 2:
				new = '%s|<%d-%d-%d>' % (lhs, n, m, len(seq))
				result.append(((cur, (seq.pop(0), new), '01'), w))
				cur = new
			result.append(((cur, tuple(seq), '0' if len(seq) == 1 else '01'),
					w))
	return result


def splitgen(tier):
	size = {'quick': 3, 'thorough': 4}[tier]
	for rules, lexicon in gram.grammars(gram.CFG[:5] + gram.DISC, size,
			gram.DISC, gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon), 4
	for rules, lexicon in gram.grammars(gram.DISC[7:] + gram.DISC[:3], 4,
			gram.DISC[7:], gram.LEXICONS[2:]):
		if len(rules) == 4:
			yield tuple(rules), tuple(lexicon), 5 if tier == 'quick' else 6


def splitprune(case, rec):
	"""Discontinuous constituents are allowed if all of their parts are."""
	rules, lexicon, maxlen = case
	frules, flex = splitstates(rules, lexicon, 'some')
	fref = pars.Ref(frules, flex)
	if not {a.split('@')[0] for a in labels(frules, flex)
			} >= labels(rules, lexicon):
		return
	ftup = pars.tuples(frules, flex)
	for markorigin in (True, False):
		crules = component(rules, lexicon, markorigin)
		ref = pars.Ref(crules, lexicon)
		coarse = Grammar(pars.tuples(crules, lexicon), start='S')
		for never in (None, '^C', '^A'):
			fine = Grammar(ftup, start='S')
			fine.getmapping(coarse, re.compile('@.*$'),
					never and re.compile(never), True, markorigin)
			for sent in gram.sents('ab', maxlen, 2):
				full = pars.items(ref, sent)
				root = ('S', frozenset(range(len(sent))))
				if root not in full:
					continue
				for item in full:
					rec.state((rules, lexicon, markorigin, tuple(sent), item))
				for k in (0, 1, 2):
					keep = selection(full, root, k)
					if keep is None:
						continue

					def allowed(lab, span):
						if never is not None and re.search(never, lab):
							return True
						cat = lab.split('@')[0]
						if fref.fanout[lab] == 1:
							return (cat, span) in keep
						if len(pars.runs(span)) != fref.fanout[lab]:
							return False
						return all(('%s*%d' % (cat, n) if markorigin
								else cat + '*', frozenset(range(a, b))) in keep
								for n, (a, b) in enumerate(pars.runs(span)))

					fchart, want = prunedderivs(fref, sent, allowed)
					for ckind in PARSE:
						chart = PARSE[ckind](sent, coarse)[0]
						white, _ = prunechart(chart, fine, k, True, markorigin,
								False)
						chart2, _ = plcfrs.parse(sent, fine, whitelist=white,
								splitprune=True, markorigin=markorigin)
						verifyfine('%s, then plcfrs; splitprune, markorigin=%r'
								', k=%s, never=%r' % (ckind, markorigin, k,
								never), chart2, fchart, want, sent, rec)


def longgen(tier):
	lengths = (0, 59, 61, 63) if tier == 'quick' else (0, 57, 58, 59, 60, 61,
			62, 63, 64, 65, 100)
	n = 0
	for rules, lexicon in gram.grammars(gram.CFG[:5] + gram.DISC[:8], 3,
			gram.DISC, gram.LEXICONS[2:]):
		ref = pars.Ref(rules, lexicon)
		for sent in gram.sents('ab', 4, 2):
			if ('S', frozenset(range(len(sent)))) in pars.items(ref, sent):
				n += 1
				if tier == 'thorough' or n % 11 == 0:
					yield tuple(rules), tuple(lexicon), ''.join(sent), lengths


def longsent(case, rec):
	"""Sentences around the length at which the representation changes."""
	rules, lexicon, words, lengths = case
	newrules = [(('A', ('X', 'P'), '01'), 4), (('B', ('X', 'P'), '01'), 4),
			(('P', ('Q', 'P'), '01'), 1)]
	newlex = [(('X', 'x'), 2), (('P', 'q'), 1), (('Q', 'p'), 1)]
	rules, lexicon = list(rules) + newrules, list(lexicon) + newlex
	frules, flex = splitstates(rules, lexicon, 'some', fixed=('P', 'Q'))
	fref = pars.Ref(frules, flex)
	ftup = pars.tuples(frules, flex)
	for split, markorigin in ((False, False), (True, True), (True, False)):
		crules = component(rules, lexicon, markorigin) if split else rules
		ref = pars.Ref(crules, lexicon)
		coarse = Grammar(pars.tuples(crules, lexicon), start='S')
		fine = Grammar(ftup, start='S')
		fine.getmapping(coarse, re.compile('@.*$'), None, split, markorigin)
		for pos in range(len(words)):
			for length in lengths:
				sent = list(words)
				sent[pos:pos + 1] = ['x'] + ['p'] * length + ['q']
				full = pars.items(ref, sent)
				root = ('S', frozenset(range(len(sent))))
				if root not in full:
					continue
				rec.state((tuple(rules), words, split, markorigin, pos,
						length))
				for k in (0, 1, 2):
					keep = selection(full, root, k)
					if keep is None:
						continue

					def allowed(lab, span):
						cat = lab.split('@')[0]
						if not split or fref.fanout[lab] == 1:
							return (cat, span) in keep
						if len(pars.runs(span)) != fref.fanout[lab]:
							return False
						return all(('%s*%d' % (cat, n) if markorigin
								else cat + '*', frozenset(range(a, b))) in keep
								for n, (a, b) in enumerate(pars.runs(span)))

					fchart, want = prunedderivs(fref, sent, allowed)
					for ckind in PARSE:
						if ckind == 'pcfg' and coarse.maxfanout > 1:
							continue
						chart = PARSE[ckind](sent, coarse)[0]
						white, _ = prunechart(chart, fine, k, split,
								markorigin, False)
						chart2, _ = plcfrs.parse(sent, fine, whitelist=white,
								splitprune=split, markorigin=markorigin)
						verifyfine('%d words: %s, then plcfrs; split=%r, '
								'markorigin=%r, k=%s' % (len(sent), ckind,
								split, markorigin, k), chart2, fchart, want,
								sent, rec)


def chaingen(tier):
	size = {'quick': 2, 'thorough': 3}[tier]
	for rules, lexicon in gram.grammars(gram.CFG, size):
		yield tuple(rules), tuple(lexicon), 3
	for rules, lexicon in gram.grammars(gram.CFG[:5] + gram.DISC[:7], size + 1,
			gram.DISC, gram.LEXICONS[2:]):
		yield tuple(rules), tuple(lexicon), 4


def chain(case, rec):
	"""Three stages, where the chart of the second has been pruned as well."""
	rules, lexicon, maxlen = case
	mrules, mlex = splitstates(rules, lexicon, 'some')
	frules, flex = splitstates(mrules, mlex, 'some', '#')
	ref, mref, fref = (pars.Ref(rules, lexicon), pars.Ref(mrules, mlex),
			pars.Ref(frules, flex))
	coarse = Grammar(pars.tuples(rules, lexicon), start='S')
	mid = Grammar(pars.tuples(mrules, mlex), start='S')
	fine = Grammar(pars.tuples(frules, flex), start='S')
	mid.getmapping(coarse, re.compile('@.*$'))
	fine.getmapping(mid, re.compile('#.*$'))
	kinds = ['plcfrs', 'pcfg'][:1 + (fine.maxfanout == 1)]
	for sent in gram.sents('ab', maxlen):
		full = pars.items(ref, sent)
		root = ('S', frozenset(range(len(sent))))
		if root not in full:
			continue
		for k1, k2 in product((0, 1, 3, Fraction(1, 10)), repeat=2):
			keep1 = selection(full, root, k1)
			if keep1 is None:
				continue
			mchart = pars.items(mref, sent, allowed=lambda a, b:
					(a.split('@')[0], b) in keep1)
			keep2 = want = None
			if root in mchart:
				keep2 = selection(mchart, root, k2)
				if keep2 is None:
					continue
				fchart, want = prunedderivs(fref, sent, lambda a, b:
						(a.split('#')[0], b) in keep2)
			for item in mchart:
				rec.state((rules, lexicon, tuple(sent), item))
			for kind in kinds:
				parse = PARSE[kind]
				cfg = kind == 'pcfg'
				chart1, _ = parse(sent, coarse)
				white, _ = prunechart(chart1, mid, k1 if k1 in (0, 1, 3)
						else float(k1), False, False, cfg)
				chart2, _ = parse(sent, mid, whitelist=white)
				rec.step()
				if bool(chart2) != (root in mchart):
					rec.fail('%s %r k=%s, %s: second stage parsed=%r' % (
							kind, sent, k1, k2, bool(chart2)))
				if keep2 is None or not chart2:
					continue
				white, _ = prunechart(chart2, fine, k2 if k2 in (0, 1, 3)
						else float(k2), False, False, cfg)
				chart3, _ = parse(sent, fine, whitelist=white)
				verifyfine('%s k=%s, %s' % (kind, k1, k2), chart3, fchart,
						want, sent, rec)


SPACES = [
	core.Space('select', selectgen, select,
		{'quick': 'all grammars with up to 3 rules x lexicons x sentences of '
		'up to 4 words x 9 values of k; each item of the coarse chart',
		'thorough': 'up to 4 rules'}),
	core.Space('constraints', constraintgen, constraints,
		{'quick': 'all grammars with up to 2 rules (3 with discontinuous '
		'ones), 3 sets of labels, sentences of 2-3 words; each labeled span '
		'and pair of them, required or blocked, with several k',
		'thorough': 'one more rule'}),
	core.Space('fine', finegen, coarsefine,
		{'quick': 'grammars with up to 3 rules, refined to all or some '
		'combinations of 2 states; coarse grammar the projection or without '
		'one of the rules; sentences of up to 4 words, 4 values of k, 5 '
		'kinds of label mapping', 'thorough': 'up to 4 rules'}),
	core.Space('splitprune', splitgen, splitprune,
		{'quick': 'discontinuous grammars with up to 3 of 17 rules (4 of 8 '
		'rules with fan-out up to 3), with the PCFG of their components as '
		'coarse grammar, with and without index; sentences of up to 5 words',
		'thorough': 'up to 4 rules; up to 6 words'}),
	core.Space('long', longgen, longsent,
		{'quick': 'every 11th of the grammars with up to 3 rules and sentences '
		'of 2-4 words where any word is replaced by 2-65 words',
		'thorough': 'all of them; up to 102 words'}),
	core.Space('chain', chaingen, chain,
		{'quick': 'grammars with up to 2 rules (3 with discontinuous ones), '
		'refined twice; 16 pairs of k', 'thorough': 'one more rule'}),
]
ASSUMPTIONS = [
	'Where the k-th and next best derivation are tied, or a posterior '
	'probability equals the threshold, the selection is not compared.',
	'Posterior probabilities are not compared for cyclic charts, for which '
	'the implementation only approximates them.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C25', SPACES, ASSUMPTIONS))
