"""C24: k-best derivations, items and edges of a parse forest."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter
from vlib import build, core, pars, gram
build.activate('full')
import logging  # noqa: E402
from discodop import pcfg, plcfrs  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.kbest import lazykbest, partitionincompletechart  # noqa: E402
from discodop.coarsetofine import prunechart  # noqa: E402
logging.disable(logging.WARNING)


def charts(rules, lexicon, sent, long=False, only=None):
	"""All types of charts for a sentence."""
	tup = pars.tuples(rules, lexicon)
	g = Grammar(tup, start='S')
	if g.maxfanout == 1:
		dense = pcfg.parse(sent, g)[0]
		yield 'dense', g, dense
		if dense:
			fine = Grammar(tup, start='S')
			fine.getmapping(g, neverblockre=re.compile(''))
			white, _ = prunechart(pcfg.parse(sent, g)[0], fine, 0, False,
					False, True)
			yield 'sparse', fine, pcfg.parse(sent, fine, whitelist=white)[0]
	yield 'lcfrs', g, plcfrs.parse(sent, g)[0]


def derivprob(ref, sent, text):
	"""Independently determine probability of derivation (or 0)."""
	tokens = re.findall(r'\(|\)|[^() ]+', text)
	pos = 0

	def node():
		nonlocal pos
		pos += 1
		label = tokens[pos]
		pos += 1
		kids = []
		while tokens[pos] != ')':
			if tokens[pos] == '(':
				kids.append(node())
			else:
				kids.append(int(tokens[pos]))
				pos += 1
		pos += 1
		if not isinstance(kids[0], tuple):
			r = (label, sent[kids[0]])
			p = ref.lexprob(r) if r in ref.lexicon and len(kids) == 1 else 0
			return label, frozenset(kids), p
		best = 0
		for r in ref.rules:
			if r[0] == label and r[1] == tuple(k[0] for k in kids):
				span = pars.concat(r[2], *[k[1] for k in kids])
				if span is not None:
					best = ref.prob(r)
					break
		else:
			return label, frozenset(), 0
		for k in kids:
			best *= k[2]
		return label, span, best

	label, span, p = node()
	if label != ref.start or len(span) != len(sent) or pos != len(tokens):
		return 0
	return p


def casegen(pool, sizes, lengths, need=None, weights=None):
	def gen(tier):
		for rules, lexicon in gram.grammars(pool, sizes[tier], need):
			if weights is not None:
				rules = [(r, weights) for r, _ in rules]
				lexicon = [(r, weights) for r, _ in lexicon]
			yield tuple(rules), tuple(lexicon), lengths[tier]
	return gen


KS = (1, 2, 3, 4, 5, 6, 3, 1, 9)


def kbest(case, rec):
	rules, lexicon, maxlen = case
	ref = pars.Ref(rules, lexicon)
	for sent in gram.sents('ab', maxlen):
		full = pars.items(ref, sent)
		for item in full:
			rec.state((rules, lexicon, tuple(sent), item))
		root = ('S', frozenset(range(len(sent))))
		if root not in full:
			for name, g, chart in charts(rules, lexicon, sent):
				rec.trace()
				if chart:
					rec.fail('%s %r: parsed' % (name, sent))
				try:
					lazykbest(chart, 3)
				except ValueError:
					pass
				else:
					rec.fail('%s %r: no ValueError without parse' % (
							name, sent))
			continue
		if pars.cyclic(full):
			if len(sent) > 3 and len(rules) > 3:
				continue
			best = [pars.neglog(p) for p, _ in pars.topk(full, root, 12)]
			want = None
		else:
			want = pars.derivations(full, root)
		for name, g, chart in charts(rules, lexicon, sent):
			if want is None:
				for k in (12, 4, 7):
					rec.trace()
					got = lazykbest(chart, k)
					if len(got) != min(k, len(best)) or len(dict(got)) != len(
							got) or not all(pars.close(a[1], b)
							for a, b in zip(got, best)):
						rec.fail('%s %r k=%d: %r expected %r' % (
								name, sent, k, got, best))
					for text, p in got:
						p1 = derivprob(ref, sent, text)
						if not p1 or not pars.close(pars.neglog(p1), p):
							rec.fail('%s %r: %s has -logprob %r, not %r' % (
									name, sent, text, p, p1))
				continue
			for k in KS:
				rec.trace()
				got = lazykbest(chart, k)
				msg = gram.compare(got, want, k)
				if msg:
					rec.fail('%s %r k=%d: %s' % (name, sent, k, msg))
				if lazykbest(chart, k, derivs=False) is not None:
					rec.fail('derivs=False')
			rec.outcome((len(want), got[0]))


def parsespan(text):
	if ':' in text:
		a, b = map(int, text.split(':'))
		return frozenset(range(a, b))
	return frozenset(n for n, a in enumerate(text) if a == '1')


ITEM = re.compile(r'([A-Z]+)\[([0-9:]+)\]')


def parsechart(text):
	"""Items and edges from a printed chart."""
	result, prob = {}, {}
	for line in text.split('\n\nranked')[0].splitlines():
		if line.startswith('\t'):
			kids = [(a, parsespan(b)) for a, b in ITEM.findall(line)]
			if not kids:
				kids = [line.split("'")[1]]
			result[item].append((tuple(kids), line.split()[-1]))
		else:
			item, = ((a, parsespan(b)) for a, b in ITEM.findall(line))
			if item in result:
				return 'duplicate item %r' % (item, ), None
			result[item] = []
			prob[item] = line.split('vitprob=')[1].split()[0]
	return result, prob


def inspect(case, rec):
	"""The items and edges of a chart, before and after filter."""
	rules, lexicon, maxlen = case
	ref = pars.Ref(rules, lexicon)
	for sent in gram.sents('ab', maxlen):
		full = pars.items(ref, sent)
		rootitem = ('S', frozenset(range(len(sent))))
		want = {item: Counter((
				tuple(kids) if r is not None else (sent[kids[0]], ),
				'%g' % p) for p, r, kids in edges)
				for item, edges in full.items()}
		# the items below the root
		used, todo = set(), [rootitem] if rootitem in full else []
		while todo:
			item = todo.pop()
			if item not in used:
				used.add(item)
				todo.extend(kid for _, r, kids in full[item]
						if r is not None for kid in kids)
		for name, g, chart in charts(rules, lexicon, sent):
			rec.trace()
			labels = sorted(ref.mass)
			for stage in ('parsed', 'filtered'):
				got, vit = parsechart(str(chart))
				if vit is None:
					rec.fail('%s %r: %s' % (name, sent, got))
					break
				got = {item: Counter(a) for item, a in got.items() if a}
				if got != want and stage == 'parsed' or got != {
						item: want[item] for item in used
						} and stage == 'filtered':
					rec.fail('%s %r %s:\n%s\nexpected: %r' % (
							name, sent, stage, chart, want))
					break
				for item in got:
					best = float(pars.topk(full, item, 1)[0][0])
					if abs(float(vit[item]) - best) > 1e-5 * best:
						rec.fail('%s %r %s: viterbi prob. of %r is %s, not %g'
								% (name, sent, stage, item, vit[item], best))
				nedges = sum(sum(a.values()) for a in got.values())
				if stage == 'parsed':
					rec.expect('number of items', chart.numitems(), len(want))
				rec.expect('statistics', chart.stats(), 'items %d, edges %d'
						% (chart.numitems(), nedges))
				for label in labels + ['X']:
					for span in gram.subsets(len(sent)):
						item = chart.itemid(label, span)
						if not item:
							if (label, frozenset(span)) in got:
								rec.fail('%s %r: no ID for %r' % (
										name, sent, (label, span)))
							continue
						elif stage == 'filtered' and name != 'dense':
							pass  # emptied items keep their ID
						elif (label, frozenset(span)) not in got:
							rec.fail('%s %r: item %r does not exist' % (
									name, sent, (label, span)))
						rec.expect('span of item', chart.indices(item), span)
						rec.expect('item in chart', item in chart,
								(label, frozenset(span)) in got)
						rec.expect('best in span', (chart.root() == item)
								== ((label, frozenset(span)) == rootitem),
								True)
				if not chart:
					break
				chart.filter()
			rec.outcome((name, len(want), len(used)))


def longspans(case, rec):
	"""Spans in long sentences."""
	n, = case
	rules = [(('S', ('A', 'B'), '01'), 1), (('A', ('A', 'A'), '01'), 1),
			(('B', ('A', 'B'), '01'), 1)]
	lexicon = [(('A', 'a'), 1), (('B', 'b'), 1)]
	g = Grammar(pars.tuples(rules, lexicon), start='S')
	sent = ['a'] * (n - 1) + ['b']
	for name, parse in (('pcfg', pcfg.parse), ('plcfrs', plcfrs.parse)):
		if name == 'plcfrs' and n > 127:
			try:
				parse(sent, g)
			except ValueError:
				continue
			rec.fail('no ValueError with %d words' % n)
			continue
		elif name == 'plcfrs' and n > 70:
			continue
		chart, _ = parse(sent, g)
		for i in range(n):
			for j in range(i + 1, n + 1):
				span = list(range(i, j))
				for label in 'SAB':
					item = chart.itemid(label, span)
					rec.step()
					if bool(item) != (label == 'A' and j < n
							or label == 'B' and j == n
							or label == 'S' and j == n and i < n - 1):
						rec.fail('%s: item %r: %r' % (name, (label, i, j), item))
					elif item and chart.indices(item) != span:
						rec.fail('%s: span of %r is %r' % (
								name, (label, i, j), chart.indices(item)))
		for k in (1, 3):
			if n > 100:
				continue
			got = lazykbest(chart, k)
			ref = pars.Ref(rules, lexicon)
			rec.expect('number of derivations', len({a for a, _ in got}),
					min(k, 1 if n < 3 else 2 if n == 3 else 3))
			for text, p in got:
				p1 = derivprob(ref, sent, text)
				if not p1 or not pars.close(pars.neglog(p1), p):
					rec.fail('%s: %s: %r %r' % (name, text, p, p1))
		rec.trace()
		rec.state((n, name))


def greedy(full, start, end, labels):
	"""All allowed greedy partitions (ties allowed)."""
	for length in range(end - start, 0, -1):
		for a in range(start, end - length + 1):
			span = frozenset(range(a, a + length))
			cands = {lab: pars.topk(full, (lab, span), 1)[0][0]
					for lab in labels if (lab, span) in full}
			if cands:
				best = max(cands.values())
				before = (greedy(full, start, a, labels) if a > start
						else [[]])
				after = (greedy(full, a + length, end, labels)
						if a + length < end else [[]])
				return [x + [(lab, a, a + length)] + y for x in before
						for lab, p in cands.items() if p == best
						for y in after]
	rest = greedy(full, start + 1, end, labels) if start + 1 < end else [[]]
	return [[('NOPARSE', start, start + 1)] + x for x in rest]


def partition(case, rec):
	"""Parseable parts of a sentence without parse tree."""
	rules, lexicon, maxlen = case
	for ren in ({}, {'A': 'A|<B>'}, {'B': 'B*1'}):
		rules1 = [((ren.get(r[0], r[0]), tuple(ren.get(x, x) for x in r[1]),
				r[2]), w) for r, w in rules]
		lexicon1 = [((ren.get(t, t), x), w) for (t, x), w in lexicon]
		ref = pars.Ref(rules1, lexicon1)
		labels = [a for a in ref.mass if '<' not in a and '*' not in a]
		for sent in gram.sents('ab', maxlen):
			full = pars.items(ref, sent)
			want = greedy(full, 0, len(sent), labels)
			for name, g, chart in charts(rules1, lexicon1, sent):
				rec.trace()
				if (len({b for _, b in lexicon}) < 2 and 'b' in sent):
					continue  # unknown words: no chart at all
				got = partitionincompletechart(chart, 0, len(sent))
				if got not in want:
					rec.fail('%s %r: %r not in %r' % (name, sent, got, want))
				rec.outcome((name, tuple(got)))


def firstonly(case, rec):
	"""Stop at the first parse: the best one."""
	rules, lexicon, maxlen = case
	ref = pars.Ref(rules, lexicon)
	g = Grammar(pars.tuples(rules, lexicon), start='S')
	for sent in gram.sents('ab', maxlen):
		full = pars.items(ref, sent)
		root = ('S', frozenset(range(len(sent))))
		chart, _ = plcfrs.parse(sent, g, exhaustive=False)
		rec.trace()
		if bool(chart) != (root in full):
			rec.fail('%r: parsed=%r' % (sent, bool(chart)))
		if not chart:
			continue
		best = pars.topk(full, root, 1)
		got = lazykbest(chart, 5)
		if not pars.close(got[0][1], pars.neglog(best[0][0])):
			rec.fail('%r: best derivation %r, expected %r' % (
					sent, got[0], best))
		for n, (text, p) in enumerate(got):
			p1 = derivprob(ref, sent, text)
			if not p1 or not pars.close(pars.neglog(p1), p) or (
					n and p < got[n - 1][1] - 1e-9):
				rec.fail('%r: %s: %r %r' % (sent, text, p, p1))
		rec.expect('no duplicates', len(dict(got)), len(got))
		rec.outcome((len(got), got[0]))


UNARY = [
	('S', ('A', ), '0'), ('S', ('B', ), '0'), ('S', ('C', ), '0'),
	('A', ('B', ), '0'), ('B', ('A', ), '0'), ('C', ('A', ), '0'),
	('C', ('B', ), '0'), ('A', ('C', ), '0'), ('A', ('A', 'B'), '01'),
	('C', ('B', 'C'), '01')]
SPACES = [
	core.Space('kbest', casegen(gram.CFG, {'quick': 3, 'thorough': 4},
		{'quick': 4, 'thorough': 5}), kbest,
		{'quick': 'grammars of up to 3 of 8 context-free rules, 3 lexicons, '
		'sentences of up to 4 words; 3 charts; k=1..6, 3, 1, 9',
		'thorough': 'up to 4 rules, sentences of up to 5 words'}),
	core.Space('ties', casegen(gram.CFG, {'quick': 3, 'thorough': 4},
		{'quick': 4, 'thorough': 4}, None, 1), kbest,
		{'quick': 'as above, all weights equal', 'thorough': 'up to 4 rules'}),
	core.Space('unary', casegen(UNARY, {'quick': 5, 'thorough': 7},
		{'quick': 2, 'thorough': 3}), kbest,
		{'quick': 'grammars with up to 5 of 10 rules, mostly unary; sentences '
		'of up to 2 words', 'thorough': 'up to 7 rules, 3 words'}),
	core.Space('disc', casegen(gram.CFG + gram.DISC, {'quick': 3, 'thorough': 4},
		{'quick': 4, 'thorough': 4}, gram.DISC), kbest,
		{'quick': 'grammars with up to 3 of 20 rules, among which '
		'discontinuous ones', 'thorough': 'up to 4 rules'}),
	core.Space('chart', casegen(gram.CFG + gram.DISC[:6],
		{'quick': 3, 'thorough': 4}, {'quick': 3, 'thorough': 4}), inspect,
		{'quick': 'grammars of up to 3 of 14 rules, sentences of up to 3 '
		'words: all items and edges, before and after filtering',
		'thorough': 'up to 4 rules, sentences of up to 4 words'}),
	core.Space('long', lambda tier: [(n, ) for n in (
		[2, 3, 5, 62, 63, 64, 65, 127, 128, 180, 181, 182, 255, 256, 257]
		if tier == 'quick' else list(range(2, 70)) + [127, 128, 129, 180, 181,
		182, 183, 254, 255, 256, 257, 258, 300])], longspans,
		{'quick': '15 lengths up to 257 words; every span',
		'thorough': 'up to 300 words'}),
	core.Space('partition', casegen(gram.CFG + gram.DISC[:4],
		{'quick': 2, 'thorough': 3}, {'quick': 4, 'thorough': 4}), partition,
		{'quick': 'grammars of up to 2 rules, sentences of up to 4 words; '
		'labels of binarization and discontinuous nodes',
		'thorough': 'up to 3 rules'}),
	core.Space('first', casegen(gram.CFG + gram.DISC,
		{'quick': 3, 'thorough': 4}, {'quick': 4, 'thorough': 4}), firstonly,
		{'quick': 'grammars of up to 3 of 20 rules, sentences of up to 4 '
		'words; parser stops at first parse', 'thorough': 'up to 4 rules'}),
]
ASSUMPTIONS = [
	'Probabilities are compared with a relative tolerance of 1e-9; '
	'derivations with equal probability may come in any order.',
	'For cyclic grammars the 12 best derivations are compared.',
	'Derivations deeper than 200 levels are not covered.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C24', SPACES, ASSUMPTIONS))
