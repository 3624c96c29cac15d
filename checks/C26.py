"""C26: parse selection follows the definitions of its objectives."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, defaultdict
from fractions import Fraction
from itertools import product
from math import exp
from vlib import build, core, gen, dop, pars
build.activate('full')
from discodop import disambiguation, pcfg, plcfrs  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.grammar import (dopreduction, dopgrammar,  # noqa: E402
		treebankgrammar, writegrammar)
from discodop.tree import Tree, ParentedTree  # noqa: E402
from discodop.treetransforms import addbitsets  # noqa: E402

IDS = re.compile('@[-0-9]+')
FAMILIES = {
	# words, discontinuous, unary nodes, labels, tags, vocabulary
	'flat': (2, False, 1, 'A', 'XY', 'ab'),
	'disc': (3, True, 0, 'AB', 'X', 'ab'),
	'tags': (3, True, 0, 'A', 'XY', 'ab'),
	'unary': (3, True, 1, 'A', 'X', 'ab'),
	'cont': (3, False, 1, 'AB', 'X', 'ab'),
	'four': (4, True, 0, 'A', 'X', 'ab'),
	'five': (5, True, 0, 'A', 'X', 'a'),
}
TEXTS = {
	2: (['a', 'b'], ['b', 'a'], ['a', 'a']),
	3: (['a', 'b', 'a'], ['b', 'a', 'a'], ['a', 'b', 'b']),
	4: (['a', 'b', 'a', 'b'], ['a', 'a', 'b', 'b'], ['b', 'a', 'a', 'a']),
	5: (['a'] * 5, ['a'] * 5, ['a'] * 5),
}
CACHE = {}


def fanout(t):
	if not isinstance(t, tuple):
		return t
	n = gen.comps(gen.leaves(t))
	return (t[0] if n == 1 else '%s_%d' % (t[0], n), ) + tuple(
			map(fanout, t[1:]))


def family(name):
	if name not in CACHE:
		n, disc, unary, labels, tags, _ = FAMILIES[name]
		CACHE[name] = [fanout(t) for t in gen.sentencetrees(n, disc, unary,
				labels, 'S', list(tags))
				if all(len(a) < 4 for a in gen.nodes(t))]
	return CACHE[name]


def bank(case):
	"""The trees, their sentences, and the sentences to parse."""
	name, ids = case[0], case[1]
	n, vocab = FAMILIES[name][0], FAMILIES[name][5]
	trees = [family(name)[i] for i in ids]
	texts = TEXTS[n][:len(trees)]
	tests = [list(a) for m in range(1, n + 1)
			for a in product(vocab, repeat=m)]
	if n > 3:  # those of the treebank and one more
		tests = [a for a in tests if a in texts or len(set(a)) == 1]
	return trees, texts, tests


def gen_banks(names, triples, ordered):
	for name in names:
		num = len(family(name))
		for i in range(num):
			for j in range(num if ordered else i + 1):
				if name == 'five' and (i * 31 + j) % 23:
					continue
				yield name, (i, j)
		if name in triples:
			for i in range(num):
				for j in range(i, num):
					yield name, (i, i, j)


# --- reference ---------------------------------------------------------------
def production(rule):
	(nts, yf), _ = rule
	return nts[0], tuple(nts[1:]), ','.join(
			''.join(map(str, a)) for a in yf)


def parses(ds, sent):
	"""All trees for a sentence with productions from the treebank, or None
	when there are infinitely many."""
	rules, lexicon = {}, {}
	for d in ds:
		for a in dop.subderivations(d):
			if a[0][0][1] == 'Epsilon':
				lexicon[a[0][0][0], a[0][1][0]] = 1
			else:
				rules[production((a[0], 1))] = 1
	ref = pars.Ref(rules.items(), lexicon.items())
	chart = pars.items(ref, sent)
	if pars.cyclic(chart):
		return None
	return list(pars.derivations(chart, ('S', frozenset(range(len(sent))))))


def totuple(text):
	return gen.totuple(Tree(text))


def decompositions(d, weights, memo):
	"""All [(probability, fragments)]."""
	if d not in memo:
		result = []
		for f, rest in dop.matches(d):
			if f not in weights:
				continue
			part = [(weights[f], (f, ))]
			for a in rest:
				part = [(p * q, x + y) for p, x in part
						for q, y in decompositions(a, weights, memo)]
			result.extend(part)
		memo[d] = result
	return memo[d]


def addressed(rules, sent):
	"""{derivation: probability} for a DOP reduction."""
	plain, lexicon = {}, {}
	for rule, w in rules:
		if rule[0][1] == 'Epsilon':
			lexicon[rule[0][0], rule[1][0]] = w
		else:
			plain[production((rule, w))] = w
	ref = pars.Ref(plain.items(), lexicon.items())
	chart = pars.items(ref, sent)
	return pars.derivations(chart, ('S', frozenset(range(len(sent)))))


def best(table, n, got, rec, what):
	"""Check whether got is a selection of n best keys of table."""
	rec.expect('number of trees' + what, len(got), min(n, len(table)))
	low = min(table[a] for a in got)
	for a in table:
		if a not in got and table[a] > low * (1 + 1e-9):
			rec.fail('more probable tree is missing%s: %s' % (what, a))


def same(rec, what, got, want):
	if abs(got - float(want)) > 1e-9 * float(want):
		rec.expect(what, got, float(want))


# --- checks common to both types of grammars ---------------------------------
def charts(grammar, sent, cont, k, shortest=False):
	if shortest:
		grammar.switch('shortest', logprob=True)
	kinds = [('plcfrs', plcfrs.parse)] + [('pcfg', pcfg.parse)] * cont
	result = []
	for kind, func in kinds:
		chart, _ = func(sent, grammar)
		if chart:
			disambiguation.getderivations(chart, k, derivstrings=True)
		result.append((kind, chart))
	if shortest:
		grammar.switch('default', logprob=True)
	return result


def selection(grammar, sent, cont, probs, viterbi, decomps, rec, what,
		exactfrags, detail, k):
	"""
	:param probs: {tree: sum of probabilities}
	:param viterbi: {tree: probability of best derivation in the grammar}
	:param decomps: {tree: decompositions}"""
	short = {t: min(len(a) for _, a in ds) for t, ds in decomps.items()}
	shortprob = {t: max(p for p, a in ds if len(a) == short[t])
			for t, ds in decomps.items()}
	least = min(short.values())
	texts = {}

	def fragments(t, got, cond):
		"""Fragments should make up a derivation for which cond is true."""
		got = sorted(a for a, _ in got)
		if t not in texts:
			texts[t] = [(p, len(fs), sorted(dop.show(f)[0] for f in fs))
					for p, fs in decomps[t]]
		if not any(fs == got and cond(p, n) for p, n, fs in texts[t]):
			rec.fail('wrong fragments%s: %s %r; derivations: %r' % (
					what, t, got, texts[t]))

	for kind, chart in charts(grammar, sent, cont, k):
		rec.step()
		what1 = '%s (%s)' % (what, kind)
		if not chart:
			rec.fail('no parse' + what1)
			continue
		# most probable parse
		got, msg = disambiguation.marginalize('mpp', chart, sent=sent)
		table = {a: b for a, b, _ in got}
		rec.expect('trees' + what1, sorted(a for a, _, _ in got),
				sorted(probs))
		for t, p, frags in got:
			same(rec, 'probability of %s%s' % (t, what1), p, probs[t])
			top = max(p for p, _ in decomps[t])
			fragments(t, frags, lambda p, n: exactfrags is False
					or p >= top)
			if exactfrags:
				weights(rec, frags, exactfrags, what1)
		rec.outcome(sorted(table.items()))
		# most probable derivation
		got, _ = disambiguation.marginalize('mpd', chart, sent=sent)
		rec.expect('trees of mpd' + what1, {a for a, _, _ in got}, set(probs))
		for t in probs:
			same(rec, 'best derivation of %s%s' % (t, what1),
					max(p for a, p, _ in got if a == t), viterbi[t])
		for t, p, frags in got:
			fragments(t, frags, lambda p1, n: exactfrags is False
					or abs(p1 - p) < 1e-9)
		deriv, p = disambiguation.viterbiderivation(chart)
		disambiguation.getderivations(chart, k, derivstrings=True)
		same(rec, 'Viterbi derivation' + what1, exp(-p),
				max(viterbi.values()))
		# simplicity and likelihood
		for n in (1, 2, 7):
			for method in ('sl-dop', 'sl-dop-simple'):
				got, msg = disambiguation.marginalize(method, chart, sent=sent,
						k=k, sldop_n=n)
				what2 = ' of %s %d%s' % (method, n, what1)
				best(probs, n, [a for a, _, _ in got], rec, what2)
				for t, (size, p), frags in got:
					rec.expect('fragments for %s%s' % (t, what2), -size,
							short[t])
					same(rec, 'probability of %s%s' % (t, what2), p, probs[t])
					fragments(t, frags, lambda p, n: n == short[t])
				rec.expect('model' + what2, grammar.currentmodel, 'default')
		# constituents
		if detail and kind == 'plcfrs':
			constraints(chart, sent, probs, rec, what1)
		for labda in (0.5, 1.0, 2.0):
			constituents(chart, sent, probs, labda, None, rec, what1)
		constituents(chart, sent, probs, 1.0, {'A'}, rec, what1)
	for kind, chart in charts(grammar, sent, cont, k, True):
		rec.step()
		what1 = ' shortest%s (%s)' % (what, kind)
		if not chart:
			rec.fail('no parse' + what1)
			continue
		got, _ = disambiguation.marginalize('shortest', chart, sent=sent)
		rec.expect('trees' + what1, {a for a, _, _ in got},
				{t for t in probs if short[t] == least})
		for t in {a for a, _, _ in got}:
			size, p, frags = max((size, p, frags)
					for a, (size, p), frags in got if a == t)
			rec.expect('number of fragments of %s%s' % (t, what1), size,
					least)
			same(rec, 'probability of %s%s' % (t, what1), p, shortprob[t])
			fragments(t, frags, lambda p, n: n == least)


def weights(rec, frags, counts, what):
	for text, w in frags:
		a, b, c = re.match('rel. freq: (.*)/(.*); weight: (.*)$', w).groups()
		rec.expect('weight of %s%s' % (text, what),
				(int(a), int(b), c), counts[text][:2] + (
				'%g' % (counts[text][0] / counts[text][1]), ))


def labeled(t):
	return {(a[0], tuple(sorted(gen.leaves(a))))
			for a in gen.nodes(t) if isinstance(a, tuple)}


def constraints(chart, sent, probs, rec, what):
	spans = {t: labeled(totuple(t)) for t in probs}
	every = sorted(set().union(*spans.values()))
	for a in every + [('Q', (0, ))]:
		for req, blk in (({a}, set()), (set(), {a}), ({a}, None),
				(None, {a}), ({a, every[0]}, {every[-1]}),
				({a, every[0]}, None), (None, {a, every[-1]})):
			got, msg = disambiguation.marginalize('mpp', chart, sent=sent,
					require=req, block=blk)
			rec.expect('with %r without %r%s' % (req, blk, what),
					sorted(t for t, _, _ in got),
					sorted(t for t in probs if spans[t] >= (req or set())
						and not spans[t] & (blk or set())))
			rec.count('constraints')


def collapse(t):
	"""Constituents with unary chains as a single label."""
	lab = t[0]
	while len(t) == 2 and isinstance(t[1], tuple):
		t = t[1]
		lab += '+' + t[0]
	yield lab, tuple(sorted(gen.leaves(t)))
	if isinstance(t[1], tuple):
		for a in t[1:]:
			for b in collapse(a):
				yield b


def constituents(chart, sent, probs, labda, labels, rec, what):
	got, msg = disambiguation.marginalize('mcp', chart, sent=sent,
			mcplambda=labda, mcplabels=labels)
	what = ' of mcp %s %s%s: %r' % (labda, labels, what, got)
	total = sum(probs.values())
	score = Counter()
	for t, p in probs.items():
		for lab, span in collapse(totuple(t)):
			score[lab, span] += (float(p / total)
					if labels is None or lab in labels else 0)

	def objective(t):
		result = 0
		for lab, span in collapse(t):
			a = score[lab, span]
			a -= labda * (1 - a)
			# words and the root are not optional
			if len(span) in (1, len(sent)):
				a = max(a, 0)
			result += a
		return result

	rec.expect('a single tree' + what, len(got), 1)
	t = totuple(got[0][0])
	rec.expect('words' + what, sorted(gen.leaves(t)), list(range(len(sent))))
	for lab, span in collapse(t):
		if (lab, span) not in score:
			rec.fail('unknown constituent %s %r%s' % (lab, span, what))
	want = max(objective(totuple(a)) for a in probs)
	if objective(t) < want - 1e-9:
		rec.fail('score %g lower than that of a candidate %g%s' % (
				objective(t), want, what))


# --- DOP reduction -----------------------------------------------------------
def gen_reduction(tier):
	names = ['flat', 'disc', 'tags', 'unary', 'four']
	if tier == 'quick':
		return gen_banks(names, ('disc', 'four'), False)
	return gen_banks(names + ['cont'], names[1:], True)


def reduction(case, rec):
	trees, texts, tests = bank(case)
	ds = [dop.derivation(t, s) for t, s in zip(trees, texts)]
	weights = dop.relfreq(dop.allfragments(ds))
	rules, alt = dopreduction([gen.build(Tree, t) for t in trees], texts)
	grammar = Grammar(rules, start='S', altweights=alt)
	coarse = Grammar(treebankgrammar([gen.build(Tree, t) for t in trees],
			texts), start='S')
	cont = not any('_' in a[0] for t in trees for a in gen.nodes(t))
	grammar.getmapping(coarse, re.compile('@[-0-9]+$'))
	grammar.getmapping(None, striplabelre=IDS)
	grammar.getrulemapping(coarse, re.compile('@[-0-9]+$'))
	grammar.getrulemapping(grammar, IDS)
	rec.state(case)
	done = 0
	for sent in tests:
		trees1 = parses(ds, sent)
		if not trees1:
			rec.count('cyclic' if trees1 is None else 'no parse')
			continue
		derivs = {t: dop.derivation(totuple(t), sent) for t in trees1}
		memo, memo2 = {}, {}
		probs = {t: dop.prob(d, weights, memo) for t, d in derivs.items()}
		decomps = {t: decompositions(d, weights, memo2)
				for t, d in derivs.items()}
		full = addressed(rules, sent)
		viterbi = defaultdict(Fraction)
		for x, p in full.items():
			t = IDS.sub('', x)
			viterbi[t] = max(viterbi[t], p)
		what = ': %s %s' % (' '.join(sent), ' '.join(map(gen.show, trees)))
		selection(grammar, sent, cont, probs, viterbi, decomps, rec, what,
				False, not done or len(probs) > 2 and done < 3,
				len(full) + 9)
		done += 1
		rerank(grammar, coarse, sent, probs, full, rec, what)
		rec.trace()


def rerank(grammar, coarse, sent, probs, full, rec, what):
	cands = [(t, float(p), None) for t, p in sorted(probs.items())]
	got, _ = disambiguation.doprerank(cands, sent, len(cands), coarse, grammar)
	rec.expect('reranked' + what, sorted(a for a, _, _ in got), sorted(probs))
	for t, p, _ in got:
		same(rec, 'exact probability of %s%s' % (t, what), p, probs[t])
	for t in probs:
		got, msg, _ = disambiguation.treeparsing([t], sent, grammar,
				len(full) + 9, None)
		rec.step()
		table = dict(got)
		rec.expect('derivations of tree %s%s' % (t, what), sorted(table),
				sorted(x for x in full if IDS.sub('', x) == t))
		for x, p in table.items():
			same(rec, 'derivation %s%s' % (x, what), exp(-p), full[x])
	# afterwards, all rules should be available
	chart, _ = plcfrs.parse(sent, grammar)
	disambiguation.getderivations(chart, len(full) + 9, derivstrings=True)
	rec.expect('derivations' + what, len(chart.derivations), len(full))


# --- explicit fragments ------------------------------------------------------
def gen_fragments(tier):
	names = ['flat', 'disc', 'unary', 'four', 'five']
	if tier == 'quick':
		cases = gen_banks(names, ('disc', ), False)
	else:
		cases = gen_banks(names + ['tags', 'cont'], names[1:4] + ['tags'], True)
	for case in cases:
		for which in (1, 2, 9, 'twice'):
			if case[0] != 'five' or which in (1, 2):
				yield case + (which, )


def fragments(case, rec):
	trees, texts, tests = bank(case)
	which = case[2]
	ds = [dop.derivation(t, s) for t, s in zip(trees, texts)]
	counts = dop.allfragments(ds)
	counts = Counter({f: n for f, n in counts.items() if dop.depth(f) == 1 or (
			n > 1 if which == 'twice' else dop.depth(f) <= which)})
	weights = dop.relfreq(counts)
	occ = {dop.show(f)[0]: [0] * n for f, n in counts.items()}
	rules, backtransform, alt, _ = dopgrammar(
			[gen.build(ParentedTree, t) for t in trees], occ)
	grammar = Grammar(rules, start='S', altweights=alt,
			backtransform=backtransform)
	cont = not any('_' in a[0] for t in trees for a in gen.nodes(t))
	grammar.getmapping(None, neverblockre=re.compile('.+}<'))
	total = Counter()
	for f, n in counts.items():
		total[dop.label(f)] += n
	info = {dop.show(f)[0]: (n, total[dop.label(f)])
			for f, n in counts.items()}
	rec.state(case)
	done = 0
	for sent in tests:
		trees1 = parses(ds, sent)
		if not trees1:
			rec.count('cyclic' if trees1 is None else 'no parse')
			continue
		derivs = {t: dop.derivation(totuple(t), sent) for t in trees1}
		memo, memo2 = {}, {}
		probs = {t: dop.prob(d, weights, memo) for t, d in derivs.items()}
		decomps = {t: decompositions(d, weights, memo2)
				for t, d in derivs.items()}
		viterbi = {t: max(p for p, _ in d) for t, d in decomps.items()}
		what = ': %s; %s; %s' % (which, ' '.join(sent),
				' '.join(map(gen.show, trees)))
		selection(grammar, sent, cont, probs, viterbi, decomps, rec, what,
				info, not done or len(probs) > 2 and done < 3,
				sum(map(len, decomps.values())) + 9)
		done += 1
		rec.trace()


SPACES = [
	core.Space('reduction', gen_reduction, reduction, {
		'quick': 'all pairs and some triples of binary trees over 2-4 words '
		'from 5 families; all sentences over 2 words',
		'thorough': '6 families, ordered pairs, more triples'}),
	core.Space('fragments', gen_fragments, fragments, {
		'quick': 'all pairs and some triples of binary trees over 2-5 words '
		'from 5 families, with fragments of depth 1, 2, any, or those that '
		'recur; all sentences over 2 words',
		'thorough': '7 families, ordered pairs, more triples'}),
	]
ASSUMPTIONS = [
	'Fragments, derivations, and trees are enumerated by brute force with '
	'exact probabilities; grammars with unary cycles are skipped.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C26', SPACES, ASSUMPTIONS))
