"""C32: the parsing pipeline, from treebank to parse trees."""
import csv
import gzip
import logging
import math
import os
import re
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from itertools import product
from vlib import build, core, gen, dop, pars, run, scratch
build.activate('full')
from discodop import cli, eval as evalmod, parser, runexp, treebank  # noqa: E402
from discodop import fragments as frags  # noqa: E402
from discodop.tree import ParentedTree, discbrackettree  # noqa: E402
from discodop.treebank import writetree  # noqa: E402
from discodop.util import openread  # noqa: E402
from checks.C26 import parses, decompositions, totuple  # noqa: E402

FAMILIES = {
	# words, discontinuous, unary nodes, labels, tags, vocabulary
	'two': (2, False, 1, 'A', 'XY', 'a('),
	'cont': (3, False, 1, 'AB', 'X', 'a('),
	'disc': (3, True, 1, 'A', 'X', 'ab'),
	'labels': (3, True, 0, 'AB', 'XY', 'ab'),
	'four': (4, True, 0, 'A', 'X', 'ab'),
}
TEXTS = {
	2: ('ab', 'ba', 'aa'),
	3: ('aba', 'baa', 'abb'),
	4: ('abab', 'aabb', 'baaa'),
}
DEFAULT = dict(method='default', factor='right', h=1, v=1, headrules=None)
BINARIZATIONS = {
	'right': DEFAULT,
	'left': dict(DEFAULT, factor='left'),
	'order2': dict(DEFAULT, h=2, v=2),
	'unaries': dict(DEFAULT, leftmostunary=True, rightmostunary=True),
	'marks': dict(DEFAULT, fanout_marks_before_bin=True),
	'optimal': dict(method='optimal', headrules=None),
}
FINE = dict(mode='plcfrs', objective='mpp', m=4000)
SPLIT = dict(mode='pcfg', split=True, markorigin=True)
# the last stage should find the most probable tree according to a model:
# relative frequencies of rules, of all fragments, or of those that recur.
STAGES = {
	'plain': ('rules', [FINE]),
	'split': ('rules', [SPLIT, dict(FINE, prune=True, k=0)]),
	'split2': ('rules', [dict(SPLIT, markorigin=False),
		dict(FINE, prune=True, k=0)]),
	'kbest': ('rules', [SPLIT, dict(FINE, prune=True, k=4000)]),
	'collapse': ('rules', [dict(FINE), dict(FINE, prune=True, k=0),
		dict(FINE, prune=True, k=4000)]),
	'reduction': ('all', [dict(FINE, dop='reduction')]),
	'dop1': ('all', [dict(FINE, dop='dop1', maxdepth=99)]),
	'doubledop': ('recurring', [dict(FINE, dop='doubledop')]),
	'reduction+': ('all', [FINE, dict(FINE, dop='reduction', prune=True,
		k=0)]),
	'doubledop+': ('recurring', [SPLIT, dict(FINE, prune=True, k=0),
		dict(FINE, dop='doubledop', prune=True, k=4000)]),
	'dop1+': ('all', [SPLIT, dict(FINE, dop='dop1', maxdepth=99, prune=True,
		k=0)]),
	'rerank': ('all', [FINE, dict(FINE, mode='dop-rerank', dop='reduction',
		prune=True, k=4000)]),
	# without discontinuous constituents
	'pcfg': ('rules', [dict(mode='pcfg', m=4000)]),
	'pcfg+': ('rules', [dict(mode='pcfg'), dict(mode='pcfg', prune=True,
		k=0)]),
	'pcfgdop': ('all', [dict(mode='pcfg'), dict(FINE, mode='pcfg', prune=True,
		k=0, dop='reduction')]),
	'pcfgdop1': ('all', [dict(mode='pcfg'), dict(FINE, mode='pcfg', prune=True,
		k=4000, dop='dop1', maxdepth=99)]),
	'pcfgdoubledop': ('recurring', [dict(FINE, mode='pcfg',
		dop='doubledop')]),
}
CACHE = {}


def family(name):
	if name not in CACHE:
		n, disc, unary, labels, tags, _ = FAMILIES[name]
		CACHE[name] = list(gen.sentencetrees(n, disc, unary, labels, 'S',
				list(tags)))
	return CACHE[name]


def gen_pipeline(tier):
	for name in FAMILIES:
		num = len(family(name))
		pairs = [(i, j) for i in range(num) for j in range(num)
				if tier != 'quick' or i >= j]
		limit = 15 if tier == 'quick' else 400
		step = max(1, len(pairs) // limit)
		while step > 1 and num % step == 0:
			step += 1
		every = [(i, ) for i in range(num)] if num < 40 else []
		for ids in every + pairs[::step]:
			cont = not any(gen.isdisc(family(name)[i]) for i in ids)
			for stages in STAGES:
				if cont or not stages.startswith('pcfg'):
					for bina in BINARIZATIONS if stages in (
							'plain', 'split') else ('right', ):
						yield name, ids, stages, bina


def settings(stages, binarization, folder, name, **kwds):
	result = parser.DictObj({a: b for a, b in parser.DEFAULTS.items()
			if not isinstance(b, dict)})
	result.update(stages=[], verbosity=0, corpusfmt='discbracket',
			resultdir=folder, **kwds)
	for n, stage in enumerate(stages):
		stage = dict(stage, name='stage%d' % n)
		if stage.get('prune'):
			stage['prune'] = 'stage%d' % (n - 1)
		result.stages.append(parser.DictObj({k: stage.get(k, v)
				for k, v in parser.DEFAULTSTAGE.items()}))
	result.binarization = parser.DictObj(parser.DEFAULTS['binarization'],
			**binarization)
	result.traincorpus = parser.DictObj(parser.DEFAULTS['traincorpus'],
			path=name)
	return result


def train(prm, folder):
	"""The steps of startexp(); returns binarized trees and sentences."""
	trees, sents, tagged = runexp.loadtraincorpus(prm.corpusfmt,
			prm.traincorpus, prm.binarization, prm.punct, prm.functions,
			prm.morphology, prm.removeempty, prm.ensureroot,
			prm.transformations, prm.relationalrealizational, folder)
	lexmodel = None
	top = trees[0].label
	if prm.postagging:
		sents, lexmodel = runexp.getposmodel(prm.postagging, tagged)
	trees = runexp.dobinarization(trees, sents, prm.binarization, False)
	runexp.getgrammars(trees, sents, prm.stages, 40, folder, 1, lexmodel, top)
	return trees, sents, top


def shorten(prm, cyclic):
	"""With infinitely many derivations, do not list thousands of them."""
	if cyclic:
		for stage in prm.stages:
			stage.m = min(stage.m, 20)
			stage.k = min(stage.k, 20)


def unbinarized(t):
	"""Remove binarization and fan-out."""
	if not isinstance(t, tuple):
		return t
	kids = []
	for a in t[1:]:
		if isinstance(a, tuple) and '|<' in a[0]:
			kids.extend(unbinarized(a)[1:])
		else:
			kids.append(unbinarized(a))
	return (re.sub('_[0-9]+$', '', re.sub(r'\^<.*>', '', t[0])), ) + tuple(
			kids)


def model(kind, ds, trees, sents):
	"""Weights of fragments."""
	if kind == 'rules':
		counts = {f: n for f, n in dop.allfragments(ds).items()
				if dop.depth(f) == 1}
	else:
		counts = dop.allfragments(ds)
		if kind == 'recurring':
			found = frags.recurringfragments(trees, sents, 1, disc=True,
					indices=False, maxdepth=1)
			counts = {f: n for f, n in counts.items()
					if dop.show(f)[0] in found}
	return dop.relfreq(counts)


def pipeline(case, rec):
	name, ids, stages, bina = case
	n, vocab = FAMILIES[name][0], FAMILIES[name][5]
	origtrees = [family(name)[i] for i in ids]
	texts = [[vocab['ab'.index(a)] for a in text] for text in TEXTS[n]]
	kind, stages = STAGES[stages]
	rec.state(case)
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		corpus = folder + '/train.dbr'
		with open(corpus, 'w', encoding='utf8') as out:
			out.writelines(writetree(gen.build(ParentedTree, t), s, '1',
					'discbracket') for t, s in zip(origtrees, texts))
		prm = settings(stages, BINARIZATIONS[bina], folder, corpus)
		trees, sents, top = train(prm, folder)
		rec.expect('start symbol', top, 'S')
		ds = [dop.derivation(gen.totuple(t), s) for t, s in zip(trees, sents)]
		weights = model(kind, ds, trees, sents)
		cyclic = any(parses(ds, list(a)) is None for m in range(1, n + 1)
				for a in product(vocab, repeat=m))
		shorten(prm, cyclic)
		first = parser.Parser(prm)
		tests = [list(a) for m in range(1, n + 1)
				for a in product(vocab, repeat=m)
				if m < 4 or list(a) in texts]
		results = {}
		for sent in tests:
			results[tuple(sent)] = parsed(first, sent, None, ds, weights,
					kind, rec)
		for t, s, orig in zip(trees, sents, origtrees):
			golditems(first, t, s, orig, rec)
		for unknown in (['c'], [vocab[0], 'c'], ['c', vocab[0], vocab[0]],
				[vocab[0], vocab[1], 'c']):
			partial(first, unknown, None, rec)
		if stages[-1].get('dop') is None and not cyclic:
			withtags(first, vocab, ds, weights, kind, rec)
		prm = settings(stages, BINARIZATIONS[bina], folder, corpus)
		parser.readgrammars(folder, prm.stages, top=top)
		shorten(prm, cyclic)
		second = parser.Parser(prm)
		for sent in tests:
			rec.expect('parse of %r with grammar from file' % sent,
					parsed(second, sent, None, ds, weights, kind, rec),
					results[tuple(sent)])


def parsed(obj, sent, tags, ds, weights, kind, rec):
	"""Check results of all stages; returns whether there is a parse."""
	what = ' of %s' % ' '.join(sent)
	given = list(sent)
	results = list(obj.parse(given, tags=tags))
	rec.expect('sentence', given, sent)
	rec.step()
	rec.expect('stages' + what, [a.name for a in results],
			[a.name for a in obj.stages])
	for res in results:
		wellformed(res, sent, rec, what + ' in ' + res.name)
	every = parses(ds, sent)
	if every is None:
		rec.count('cyclic')
		return None
	if not every:
		rec.count('no parse')
		return False
	res = results[-1]
	rec.expect('no parse' + what, res.noparse, False)
	memo = {}
	probs = {t: dop.prob(dop.derivation(totuple(t), sent), weights, memo)
			for t in every}
	best = max(probs.values())
	if abs(res.prob - float(best)) > 1e-9 * float(best):
		rec.expect('probability%s; %s' % (what, probs), res.prob, float(best))
	cands = {gen.canon(unbinarized(totuple(t)))
			for t, p in probs.items() if p > best * (1 - Fraction(1, 10 ** 9))}
	if gen.canon(gen.totuple(res.parsetree)) not in cands:
		rec.fail('parse tree%s: %s is not among %s' % (what, res.parsetree,
				cands))
	rec.outcome((str(res.parsetree), '%.9g' % res.prob))
	rec.trace()
	return True


def wellformed(res, sent, rec, what):
	tree = res.parsetree
	rec.expect('words of parse' + what, sorted(tree.leaves()),
			list(range(len(sent))))
	rec.expect('root label' + what, tree.label, 'S')
	for a in tree.subtrees():
		if not a.children:
			rec.fail('node without children%s: %s' % (what, tree))
		if re.search('[|:@*<>]|_[0-9]', a.label):
			rec.fail('artificial label%s: %s' % (what, tree))
		if isinstance(a.children[0], int) != (len(a.children) == 1
				and not hasattr(a.children[0], 'label')):
			rec.fail('words and phrases under one node%s: %s' % (what, tree))


def partial(obj, sent, tags, rec):
	what = ' of %s' % ' '.join(sent)
	results = list(obj.parse(list(sent), tags=tags))
	rec.step()
	rec.expect('stages' + what, len(results), len(obj.stages))
	for res in results:
		wellformed(res, sent, rec, what + ' in ' + res.name)
	rec.count('partial')


def golditems(obj, tree, sent, orig, rec):
	"""Pruning should keep all nodes of a tree from the treebank."""
	gold = gen.build(ParentedTree, orig)
	results = list(obj.parse(list(sent), goldtree=gold))
	rec.expect('gold tree', gen.totuple(gold), gen.totuple(gen.build(
			ParentedTree, orig)))
	if gen.isdisc(orig):
		return  # components of a node may be counted separately
	# the parser of the last stage may stop at the first complete parse.
	for res, stage in zip(results[:-1], obj.stages):
		if stage.mode != 'dop-rerank' and not stage.dop:
			rec.expect('gold items of %s in %s' % (orig, res.name),
					res.golditems, res.totalgolditems)


def withtags(obj, vocab, ds, weights, kind, rec):
	"""Parse with given tags."""
	tags = sorted({b[0][0][0] for a in ds for b in dop.subderivations(a)
			if b[0][0][1] == 'Epsilon'})
	seen = {(b[0][0][0], b[0][1][0]) for a in ds
			for b in dop.subderivations(a) if b[0][0][1] == 'Epsilon'}
	for m in (1, 2, 3):
		for sent in product(vocab + 'c', repeat=m):
			for given in product(tags, repeat=m):
				one(obj, list(sent), list(given), ds, seen, weights, rec)


def one(obj, sent, tags, ds, seen, weights, rec):
	what = ' of %s' % ' '.join(map('/'.join, zip(sent, tags)))
	results = list(obj.parse(list(sent), tags=list(tags)))
	rec.step()
	for res in results:
		wellformed(res, sent, rec, what + ' in ' + res.name)
	rules, lexicon = {}, {}
	for d in ds:
		for a in dop.subderivations(d):
			if a[0][0][1] == 'Epsilon':
				lexicon[a[0][0][0], a[0][1][0]] = weights[a]
			else:
				key = a[0][0][0], a[0][0][1:], ','.join(
						''.join(map(str, b)) for b in a[0][1])
				rules[key] = weights[a[0], (None, ) * len(a[1])]
	text, lex = [], {}
	for n, (word, tag) in enumerate(zip(sent, tags)):
		lex[tag, '%s%d' % (word, n)] = lexicon.get((tag, dop.escaped(word)), 1)
		text.append('%s%d' % (word, n))
	ref = pars.Ref(rules.items(), lex.items())
	chart = pars.items(ref, text, prob=lambda r: rules[r],
			lexprob=lambda r: lex[r])
	if pars.cyclic(chart):
		return
	derivs = pars.derivations(chart, ('S', frozenset(range(len(sent)))))
	if not derivs:
		return
	best = max(derivs.values())
	res = results[-1]
	rec.expect('no parse' + what, res.noparse, False)
	if abs(res.prob - float(best)) > 1e-9 * float(best):
		rec.expect('probability' + what, res.prob, float(best))
	cands = {gen.canon(unbinarized(totuple(t))) for t, p in derivs.items()
			if p > best * (1 - Fraction(1, 10 ** 9))}
	if gen.canon(gen.totuple(res.parsetree)) not in cands:
		rec.fail('parse tree%s: %s is not among %s' % (what, res.parsetree,
				cands))
	rec.trace()


# --- partial parses ----------------------------------------------------------
def gen_partial(tier):
	for name in FAMILIES:
		num = len(family(name))
		pairs = [(i, j) for i in range(num) for j in range(num)
				if tier != 'quick' or i >= j]
		limit = 90 if tier == 'quick' else 300
		step = max(1, len(pairs) // limit)
		while step > 1 and num % step == 0:
			step += 1
		for ids in pairs[::step]:
			cont = not any(gen.isdisc(family(name)[i]) for i in ids)
			for mode in ('pcfg', 'plcfrs')[not cont:]:
				for unknown in (None, 'base', '4'):
					yield name, ids, mode, unknown


def partials(case, rec):
	"""A sentence without a parse is divided in the longest possible parts."""
	name, ids, mode, unknown = case
	n, vocab = FAMILIES[name][0], FAMILIES[name][5]
	origtrees = [family(name)[i] for i in ids]
	texts = [[vocab['ab'.index(a)] for a in text] for text in TEXTS[n]]
	rec.state(case)
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		corpus = folder + '/train.dbr'
		with open(corpus, 'w', encoding='utf8') as out:
			out.writelines(writetree(gen.build(ParentedTree, t), s, '1',
					'discbracket') for t, s in zip(origtrees, texts))
		prm = settings([dict(mode=mode)], DEFAULT, folder, corpus)
		if unknown is not None:
			prm.postagging = parser.DictObj(method='unknownword',
					model=unknown, retag=False, unknownthreshold=1,
					openclassthreshold=0, simplelexsmooth=True)
		train(prm, folder)
		rules, lexicon = textgrammar(folder + '/stage0')
	ref = pars.Ref(rules, lexicon)
	obj = parser.Parser(prm)
	words = vocab + ('c' if unknown is None else 'cB')
	maxlen = 3 if len(words) == 4 else 4
	for m in range(1, maxlen + 1):
		for sent in product(words, repeat=m):
			onepartial(obj, ref, list(sent), prm.postagging, rec)


def textgrammar(name):
	"""Read text files with grammar."""
	rules, lex = [], []
	with gzip.open(name + '.rules.gz', 'rt', encoding='utf8') as inp:
		for line in inp:
			fields = line.rstrip('\n').split('\t')
			if fields[-2].strip('01,'):  # CFG
				yf = '01' if len(fields) == 4 else '0'
				rules.append(((fields[1], tuple(fields[2:]), yf), fields[0]))
			else:
				rules.append(((fields[0], tuple(fields[1:-2]), fields[-2]),
						fields[-1]))
	with gzip.open(name + '.lex.gz', 'rt', encoding='utf8') as inp:
		for line in inp:
			word, *tags = line.rstrip('\n').split('\t')
			for a in tags:
				tag, weight = a.split(' ')
				lex.append(((tag, word), weight))
	return rules, lex


def partition(best, start, end):
	"""Longest parts first, then from left to right."""
	for length in range(end - start, 0, -1):
		for a in range(start, end - length + 1):
			if (a, a + length) in best:
				return (partition(best, start, a) + [(a, a + length)]
						+ partition(best, a + length, end))
	return [(a, a + 1) for a in range(start, end)]


def onepartial(obj, ref, sent, postagging, rec):
	what = ' of %s' % ' '.join(sent)
	res, = obj.parse(list(sent))
	rec.step()
	wellformed(res, sent, rec, what)
	words = sent
	if postagging:
		words = [w if w in postagging.lexicon
				else w.lower() if w.lower() in postagging.lexicon
				else postagging.unknownwordfun(w, n, postagging.lexicon)
				for n, w in enumerate(sent)]
		words = [w if w in postagging.lexicon or w in postagging.sigs
				else '_UNK' for w in words]
	chart = pars.items(ref, words)
	if pars.cyclic(chart) or ('S', frozenset(range(len(sent)))) in chart:
		return
	known = {w for _, w in ref.lexicon}
	if not all(w in known for w in words):
		rec.count('unknown words')  # parser stops at the first
		return
	if (postagging and any(word != postagging.unknownwordfun(sent[n], 0,
			postagging.lexicon) for n, word in enumerate(words)
			if word.startswith('_UNK'))):
		rec.count('signature depends on position')
		return
	best = {}
	for label, span in chart:
		a, b = min(span), max(span) + 1
		if '<' in label or len(span) != b - a:
			continue
		derivs = pars.derivations(chart, (label, span))
		top = max(derivs.values())
		if (a, b) not in best or best[a, b][0] <= top:
			if (a, b) not in best or best[a, b][0] < top:
				best[a, b] = top, set()
			best[a, b][1].update(gen.canon(unbinarized(totuple(t)))
					for t, p in derivs.items() if p == top)
	parts = partition(best, 0, len(sent))
	prob = 1
	tree = gen.totuple(res.parsetree)
	rec.expect('parts' + what, [tuple(sorted(gen.leaves(a)))
			for a in tree[1:]], [tuple(range(a, b)) for a, b in parts])
	for kid, span in zip(tree[1:], parts):
		if span not in best:
			rec.expect('unknown word' + what, kid, ('NN', span[0]))
			continue
		prob *= best[span][0]
		if gen.canon(kid) not in best[span][1]:
			rec.fail('part %s-%s%s: %s is not among %s' % (span + (
					what, kid, best[span][1])))
	if abs(res.prob - float(prob)) > 1e-9 * float(prob):
		rec.expect('probability of partial parse' + what, res.prob,
				float(prob))
	rec.outcome(str(res.parsetree))
	rec.trace()


# --- experiments -------------------------------------------------------------
CORPORA = {
	'disc': [
		(('ROOT', ('X', 0), ('A', ('X', 1), ('X', 2))), 'a b a'),
		(('ROOT', ('A', ('X', 0), ('X', 2)), ('X', 1)), 'b a a'),
		(('ROOT', ('X', 0), ('X', 1)), 'a b'),
		(('ROOT', ('A', ('X', 0), ('Y', 1)), ('X', 2)), 'a ( a'),
		(('ROOT', ('A', ('X', 0), ('X', 2)), ('Y', 1)), 'b a Cc'),
		(('ROOT', ('A', ('Y', 0))), 'b')],
	'cont': [
		(('ROOT', ('X', 0), ('A', ('X', 1), ('Y', 2))), 'a b c'),
		(('ROOT', ('A', ('X', 0), ('X', 1)), ('Y', 2)), 'b a c'),
		(('ROOT', ('X', 0), ('A', ('Y', 1))), 'a b'),
		(('ROOT', ('A', ('X', 0), ('A', ('Y', 1))), ('X', 2)), 'a b b'),
		(('ROOT', ('X', 0)), 'é'),
		(('ROOT', ('A', ('X', 0), ('X', 1), ('Y', 2)), ('Y', 3)), 'a ) b c')],
}
EXTENSIONS = {'export': 'export', 'bracket': 'mrg', 'discbracket': 'dbr'}
EXPSTAGES = {
	'plain': ([FINE], ),
	'split': ([SPLIT, dict(FINE, prune=True, k=0)], ),
	'doubledop': ([SPLIT, dict(FINE, prune=True, k=0),
		dict(FINE, dop='doubledop', prune=True, k=0)], ),
	'reduction': ([FINE, dict(FINE, dop='reduction', prune=True, k=0)], ),
	'shortest': ([FINE, dict(FINE, dop='reduction', prune=True, k=0,
		objective='shortest')], ),
	'independent': ([FINE, dict(FINE, dop='dop1', maxdepth=3)], ),
	'ostag': ([dict(FINE, mode='pcfg', dop='ostag')], ),
	'ostag-packed': ([dict(FINE, mode='pcfg'), dict(FINE, mode='pcfg',
		dop='ostag', packedgraph=True)], ),
}
NORMAL = (3, 0, 9, 2, 0, True, 9)


def gen_experiment(tier):
	for corpus in CORPORA:
		for sel in product((1, 2, 3, .5), (0, 1), (2, 9), (1, 2, .4), (0, 1),
				(True, False), (2, 9)):
			yield corpus, 0, 'export', sel, 'plain', None
	for corpus in CORPORA:
		for rot in range(6):
			for fmt in EXTENSIONS:
				if fmt != 'bracket' or corpus == 'cont':
					for stages in EXPSTAGES:
						if stages.startswith('ostag') and corpus != 'cont':
							continue
						for tagging in (None, '4', 'base'):
							yield corpus, rot, fmt, NORMAL, stages, tagging
	if tier != 'quick':
		for corpus in CORPORA:
			for sel in product((2, 3, .5), (0, 1), (2, 9), (1, 2, .4),
					(0, 1), (True, False), (2, 9)):
				for rot in range(6):
					for fmt in EXTENSIONS:
						if fmt != 'bracket' or corpus == 'cont':
							yield corpus, rot, fmt, sel, 'doubledop', '4'


def paramtext(stages, fmt, path, evalprm, sel, tagging):
	tagging = tagging and dict(method='unknownword', model=tagging,
			unknownthreshold=1, openclassthreshold=2, simplelexsmooth=True)
	stages = [dict(a, name='stage%d' % n) for n, a in enumerate(stages)]
	return """
stages=%r,
traincorpus=dict(path=%r, numsents=%r, skip=%r, maxwords=%r),
testcorpus=dict(path=%r, numsents=%r, skip=%r, skiptrain=%r, maxwords=%r),
binarization=dict(method='default', factor='right', h=1, v=1),
corpusfmt=%r, postagging=%r, evalparam=%r, verbosity=1, numproc=1
""" % ((stages, path) + sel[:3] + (path, ) + sel[3:] + (
			fmt, tagging, evalprm))


def logged(func, argv, stdin=b''):
	"""Call a command; afterwards, restore logging."""
	root = logging.getLogger('')
	level = root.level
	for a in list(root.handlers):
		root.removeHandler(a)
	result = run.captured(func, argv, stdin)
	for a in list(root.handlers):
		root.removeHandler(a)
		a.close()
	root.setLevel(level)
	return result


def experiment(case, rec):
	"""An experiment writes the trees given by Parser.parse()."""
	corpus, rot, fmt, sel, stages, tagging = case
	items = CORPORA[corpus][rot:] + CORPORA[corpus][:rot]
	rec.state(case)
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		path = folder + '/corpus'
		with open(path, 'w', encoding='utf8') as out:
			out.writelines(writetree(gen.build(ParentedTree, t), s.split(),
					str(n), fmt) for n, (t, s) in enumerate(items, 1))
		evalprm = folder + '/eval.prm'
		with open(evalprm, 'w') as out:
			out.write('DELETE_ROOT_PRETERMS 0\nDISC_ONLY 0\n')
		prmfile = folder + '/exp.prm'
		with open(prmfile, 'w', encoding='utf8') as out:
			out.write(paramtext(EXPSTAGES[stages][0], fmt, path, evalprm,
					sel, tagging))
		err, _out, log = logged(cli.runexp, [prmfile])
		# reference
		number, skip, maxwords, testnum, testskip, skiptrain, testmax = sel
		if isinstance(number, float):
			number = int(number * len(items))
		if isinstance(testnum, float):
			testnum = int(testnum * len(items))
		if skiptrain:
			testskip += skip + number
		train = [(t, s) for t, s in items[skip:skip + number]
				if len(s.split()) <= maxwords]
		test = [(str(n + 1), t, s.split()) for n, (t, s) in enumerate(items)
				if testskip <= n < testskip + testnum
				and len(s.split()) <= testmax]
		if not train or not test:
			rec.expect('error with empty selection %s' % (sel, ),
					err and err.endswith('should be non-empty.'), True)
			rec.count('empty')
			return
		if err:
			rec.fail('experiment failed: %s\n%s' % (err, log))
		results, rows = reference(folder, prmfile, fmt, train, test, tagging)
		compareresults(folder + '/exp', fmt, test, results, rows, log, rec)
		for name in os.listdir(folder + '/exp'):
			if name.endswith(EXTENSIONS[fmt]) or name == 'stats.tsv':
				os.unlink(folder + '/exp/' + name)
		if isinstance(sel[0], int):
			err, _out, log = logged(cli.runexp, [prmfile, '--rerun'])
			if err:
				rec.fail('rerun failed: %s\n%s' % (err, log))
			compareresults(folder + '/exp', fmt, test, results, rows, log,
					rec, ' of rerun')
		if sel == NORMAL:
			commandline(folder, fmt, test, results, tagging, rec)
		onlygrammar(folder, prmfile, rec)
	rec.trace()


def onlygrammar(folder, prmfile, rec):
	"""The command to extract grammars gives those of the experiment."""
	def command(args):
		orig, cli.argv = cli.argv, ['discodop', 'grammar', 'param'] + args
		try:
			cli.grammar()
		finally:
			cli.argv = orig
	argv = [prmfile, folder + '/param']
	err, _out, log = logged(command, argv)
	if err:
		rec.fail('grammar param: %s\n%s' % (err, log))

	def contents(where):
		result = {}
		for name in sorted(os.listdir(folder + where)):
			if '.log' in name or name.startswith('gold.') or name.endswith(
					tuple(EXTENSIONS.values())) or name == 'stats.tsv':
				continue
			with openread(folder + where + '/' + name, encoding=None) as inp:
				result[name] = inp.read()
		return result
	got, want = contents('/param'), contents('/exp')
	rec.expect('files', sorted(got), sorted(want))
	for name in want:
		rec.expect('contents of %s' % name, got[name], want[name])
	with open(prmfile, encoding='utf8') as inp:
		text = inp.read()
	if 'postagging=None' in text:  # tags of the treebank are used
		with open(folder + '/tagger.prm', 'w', encoding='utf8') as out:
			out.write(text.replace('postagging=None',
					"postagging=dict(method='treetagger')"))
		err, _out, log = logged(command, [folder + '/tagger.prm',
				folder + '/tagger'])
		rec.expect('external tagger', err, None)
		got = contents('/tagger')
		for name in want:
			if name != 'params.prm':
				rec.expect('%s with external tagger' % name, got.get(name),
						want[name])
	for extra, message in (([], 'exists'), (['--packed'], 'parameter file')):
		err, _out, _log = logged(command, argv + extra)
		rec.expect('error: %s' % message, (err or '').startswith('ValueError')
				and message in err, True)
	rec.step()


def reference(folder, prmfile, fmt, training, test, tagging):
	prm = parser.readparam(prmfile)
	os.mkdir(folder + '/ref')
	with open(folder + '/train', 'w', encoding='utf8') as out:
		out.writelines(writetree(gen.build(ParentedTree, t), s.split(),
				str(n), fmt) for n, (t, s) in enumerate(training, 1))
	prm.traincorpus = parser.DictObj(parser.DEFAULTS['traincorpus'],
			path=folder + '/train', numsents=99, maxwords=99)
	prm.resultdir = folder + '/ref'
	train(prm, folder + '/ref')
	obj = parser.Parser(prm)
	results = []  # for each sentence, the stages
	for _, t, s in test:
		tags = [a for _, a in sorted(gen.build(ParentedTree, t).pos())]
		results.append(list(obj.parse(list(s), tags=None if tagging else tags)))
	rows = [[n, str(len(s)), r.name, r.prob, r.numitems] for (n, _, s), res
			in zip(test, results) for r in res]
	return results, rows


def compareresults(folder, fmt, test, results, rows, log, rec, what=''):
	ext = EXTENSIONS[fmt]
	reader = treebank.READERS[fmt](folder + '/gold.' + ext)
	rec.expect('gold trees' + what, [(gen.totuple(a.tree), a.sent)
			for _, a in reader.itertrees()], [(t, s) for _, t, s in test])
	param = evalmod.readparam(os.path.dirname(folder) + '/eval.prm')
	param['DEBUG'] = -1
	param['CUTOFF_LEN'] = 40
	for n, res in enumerate(results[0]):
		with open('%s/%s.%s' % (folder, res.name, ext), encoding='utf8') as inp:
			rec.expect('results of %s%s' % (res.name, what), inp.read(),
					''.join(writetree(r[n].parsetree, s, key, fmt)
						for r, (key, _, s) in zip(results, test)))
		evaluator = evalmod.Evaluator(param)
		for r, (key, t, s) in zip(results, test):
			evaluator.add(key, gen.build(ParentedTree, t), s,
					r[n].parsetree.copy(True), s)
		rec.expect('summary of %s%s in log' % (res.name, what),
				evaluator.summary() in log, True)
		good = sum(not r[n].noparse for r in results)
		rec.expect('coverage of %s%s in log' % (res.name, what),
				re.sub(' +', ' ', 'coverage: %d / %d = %6.2f' % (good,
				len(results), 100 * good / len(results))) in re.sub(
				' +', ' ', log), True)
	with open(folder + '/stats.tsv', encoding='utf8', newline='') as inp:
		table = list(csv.DictReader(inp, dialect='excel-tab'))
	rec.expect('statistics' + what, [[a['sentid'], a['len'], a['stage'],
			int(a['numitems'])] for a in table],
			[a[:3] + a[4:] for a in rows])
	for a, b in zip(table, rows):
		prob = b[3][1] if isinstance(b[3], tuple) else b[3]
		if abs(float(a['logprob']) - log_(prob)) > 1e-6:
			rec.expect('log probability' + what, a, b)
	rec.step()
	rec.outcome(tuple(str(r[-1].parsetree) for r in results))


def log_(x):
	return math.log(x)


def commandline(folder, fmt, test, results, tagging, rec):
	"""Parse the same sentences with discodop parser."""
	keys = [key for key, _, _ in test]
	lines = [' '.join(s) for _, _, s in test]
	gold = [gen.build(ParentedTree, t) for _, t, _ in test]
	tagged = [' '.join('%s/%s' % (w, a) for w, (_, a) in zip(s, sorted(t.pos())))
			for t, (_, _, s) in zip(gold, test)]
	prm = parser.readparam(folder + '/exp/params.prm')
	prm.resultdir = folder + '/exp'
	parser.readgrammars(folder + '/exp', prm.stages, prm.postagging, None,
			prm.top)
	single = parser.Parser(prm)
	several = parser.Parser(prm)
	several.numparses = 9  # do not stop at the first derivation
	for opts in ((), ('--tags', ), ('--prob', ), ('-b', '3'), ('--sentid', ),
			('-x', ), ('--fmt=' + fmt, ), ('--fmt=export', '--prob'),
			('-b', '2', '--prob', '--tags'), ('-x', '--tags'),
			('--sentid', '--fmt=export', '-b', '2')):
		outfmt = ([a[6:] for a in opts if a.startswith('--fmt=')]
				+ ['discbracket'])[0]
		sents = tagged if '--tags' in opts else lines
		if '-x' in opts:
			text = '\n\n'.join(a.replace(' ', '\n') for a in sents) + '\n'
		elif '--sentid' in opts:
			text = ''.join('%s|%s\n' % (a, b) for a, b in zip(keys, sents))
		else:
			text = ''.join(a + '\n' for a in sents)
		with open(folder + '/input', 'w', encoding='utf8') as out:
			out.write(text)
		num = int(opts[opts.index('-b') + 1]) if '-b' in opts else 1
		obj = single if num == 1 else several
		for mode in ('file', 'stdout', 'stdin'):
			if mode != 'file' and opts:
				continue
			args = [folder + '/exp', folder + '/input', folder + '/output']
			if mode == 'stdin':
				del args[1:]
			elif mode == 'stdout':
				args.pop()
			err, got, log = logged(climain, ['discodop', 'parser'] + args
					+ list(opts), text.encode('utf8') if mode == 'stdin' else b'')
			if err:
				rec.fail('discodop parser %s: %s\n%s' % (' '.join(opts), err,
						log))
			if mode == 'file':
				with open(folder + '/output', 'rb') as inp:
					got = inp.read()
			got = got.decode('utf8')
			want = []
			for n, (key, t, s) in enumerate(test, 1):
				tags = [a for _, a in sorted(gold[n - 1].pos())
						] if '--tags' in opts else None
				res = list(obj.parse(list(s), tags=tags))[-1]
				ident = key if '--sentid' in opts else str(n)
				if res.noparse:
					trees = [(res.parsetree, res.prob)]
				else:
					trees = [(obj.postprocess(a, list(s), -1)[0], b)
							for a, b, _ in sorted(res.parsetrees,
								key=lambda x: x[1], reverse=True)[:num]]
				want.append([writetree(a, s, ident if num == 1 else '%s-%d' % (
						ident, 1 if res.noparse else k), outfmt, comment=('prob=%.16g' % (
						b[1] if isinstance(b, tuple) else b))
						if '--prob' in opts else None)
						for k, (a, b) in enumerate(trees)])
			want = ''.join(a for b in want for a in b)
			rec.expect('output of discodop parser %s (%s)' % (' '.join(opts),
					mode), got, want)
			rec.step()


def climain(argv):
	sys.argv = argv
	try:
		parser.main()
	finally:
		sys.argv = sys.argv[:1]


# --- discodop parser --simple -------------------------------------------------
def gen_simple(tier):
	for name in FAMILIES:
		num = len(family(name))
		pairs = [(i, j) for i in range(num) for j in range(num) if i >= j]
		limit = 60 if tier == 'quick' else 400
		step = max(1, len(pairs) // limit)
		while step > 1 and num % step == 0:
			step += 1
		for ids in pairs[::step]:
			yield name, ids


def simple(case, rec):
	"""Parse with a grammar in text files."""
	name, ids = case
	n, vocab = FAMILIES[name][0], FAMILIES[name][5]
	vocab = vocab.replace('(', 'b')
	trees = [gen.build(ParentedTree, family(name)[i]) for i in ids]
	sents = [[vocab['ab'.index(a)] for a in text]
			for text, _ in zip(TEXTS[n], ids)]
	rec.state(case)
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		stages = settings([dict(mode='plcfrs'), dict(mode='plcfrs',
				dop='doubledop')], DEFAULT, folder, '').stages
		binarized = runexp.dobinarization([a.copy(True) for a in trees], sents,
				parser.DictObj(parser.DEFAULTS['binarization'], **DEFAULT), False)
		os.mkdir(folder + '/g')
		runexp.getgrammars(binarized, sents, stages, 40, folder + '/g', 1, None,
				'S')
		ref = pars.Ref(*textgrammar(folder + '/g/stage0'))
		ds = [dop.derivation(gen.totuple(t), s)
				for t, s in zip(binarized, sents)]
		tests = [list(a) for m in range(1, n + 1)
				for a in product(vocab, repeat=m)]
		if any(parses(ds, a) is None for a in tests):
			rec.count('cyclic')
			return
		parsable = [a for a in tests if parses(ds, a)]
		text = ''.join(' '.join(a) + '\n' for a in parsable)
		with open(folder + '/input', 'w') as out:
			out.write(text)
		for num in (1, 3):
			got = simpleoutput(folder, 'stage0', ('-b', str(num)), rec)
			pos = 0
			for sent in parsable:
				chart = pars.items(ref, sent)
				want = sorted(pars.derivations(chart, ('S', frozenset(range(
						len(sent))))).items(), key=lambda x: -x[1])
				trees = got[pos:pos + len(want[:num])]
				pos += len(trees)
				check(sent, trees, want, rec, 'derivations')
			rec.expect('number of trees', len(got), pos)
		weights = model('recurring', ds, binarized, sents)
		for num in (1, 2):
			got = simpleoutput(folder, 'stage1', ('--obj=mpp', '-m', '4000',
					'-b', str(num), '--bt', folder + '/g/stage1.backtransform.gz'),
					rec)
			pos = 0
			for sent in parsable:
				memo = {}
				want = sorted(((t, dop.prob(dop.derivation(totuple(t), sent),
						weights, memo)) for t in parses(ds, sent)),
						key=lambda x: -x[1])
				want = [a for a in want if a[1]]
				trees = got[pos:pos + len(want[:num])]
				pos += len(trees)
				check(sent, trees, want, rec, 'DOP parses')
			rec.expect('number of trees', len(got), pos)
		rec.outcome(len(got))
	rec.trace()


def simpleoutput(folder, stage, opts, rec):
	"""Returns a list of trees with probabilities."""
	err, out, log = logged(climain, ['discodop', 'parser', '--simple', '-s', 'S',
			'--prob', folder + '/g/%s.rules.gz' % stage,
			folder + '/g/%s.lex.gz' % stage, folder + '/input'] + list(opts))
	if err:
		rec.fail('discodop parser --simple %s: %s\n%s' % (' '.join(opts), err,
				log))
	result = []
	for line in out.decode('utf8').splitlines():
		tree, prob = line.split('\t')
		tree, words = discbrackettree(tree)
		result.append((tree, words, float(prob.split('=')[1])))
	rec.step()
	return result


def check(sent, got, want, rec, what):
	"""The most probable trees, in order."""
	what += ' of %s' % ' '.join(sent)
	rec.expect('words of ' + what, [a[1] for a in got], [sent] * len(got))
	probs = [float(p) for _, p in want[:len(got)]]
	if any(abs(a[2] - b) > 1e-9 * b for a, b in zip(got, probs)):
		rec.expect('probabilities of ' + what, [a[2] for a in got], probs)
	for tree, _, prob in got:
		cands = {gen.canon(unbinarized(totuple(t))) for t, p in want
				if abs(float(p) - prob) < 1e-9 * prob}
		if gen.canon(gen.totuple(tree)) not in cands:
			rec.fail('%s: %s is not among %s' % (what, tree, cands))
	rec.trace()


SPACES = [
	core.Space('pipeline', gen_pipeline, pipeline, {
		'quick': '5 families of trees with up to 4 words; each treebank of '
		'one tree in small families, about 15 treebanks of two trees in '
		'each; 17 sequences of stages, 6 binarizations; all sentences of up to '
		'3 words, 3 with 4 words; all tag sequences for plain grammars',
		'thorough': '400 treebanks of two trees in each family'}),
	core.Space('partial', gen_partial, partials, {
		'quick': '90 treebanks of two trees in each family; 2 parsers x 3 '
		'settings for unknown words; all sentences of up to 4 (3) words from '
		'3 (4)',
		'thorough': '300 treebanks of two trees in each family'}),
	core.Space('experiment', gen_experiment, experiment, {
		'quick': '2 corpora of 6 trees: all combinations of settings to select '
		'training and test sets; 6 rotations x 3 formats x 6 sequences of '
		'stages x 3 settings for unknown words, with 11 combinations of options '
		'for discodop parser',
		'thorough': 'also selections with all rotations and formats'}),
	core.Space('simple', gen_simple, simple, {
		'quick': '60 treebanks of two trees in each of 5 families; rules and '
		'recurring fragments; all sentences with a parse; best one and three',
		'thorough': '400 treebanks in each family'}),
	]

if __name__ == '__main__':
	sys.exit(core.main('C32', SPACES))
