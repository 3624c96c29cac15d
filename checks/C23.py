"""C23: the parsers find exactly the derivations of the grammar."""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, pars, gram
build.activate('full')
import logging  # noqa: E402
from discodop import pcfg, plcfrs  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.kbest import lazykbest  # noqa: E402
from discodop.coarsetofine import prunechart  # noqa: E402
logging.disable(logging.WARNING)


def expected(rules, lexicon, sent, rec=None, **kwargs):
	"""All derivations, or None if there are infinitely many."""
	ref = pars.Ref(rules, lexicon)
	chart = pars.items(ref, sent, **kwargs)
	if rec is not None:
		for item in chart:
			rec.state((rules, lexicon, tuple(sent), item))
			rec.step(len(chart[item]))
	if pars.cyclic(chart):
		return chart, None
	return chart, pars.derivations(
			chart, (ref.start, frozenset(range(len(sent)))))


def parsers(grammar):
	if grammar.maxfanout == 1:
		yield 'pcfg', pcfg.parse
	yield 'plcfrs', plcfrs.parse


def pretty(rules, lexicon):
	return '; '.join('%s -> %s [%s] %s' % (r[0], ' '.join(r[1]), r[2], w)
			for r, w in rules) + ' | ' + ', '.join(
			'%s -> %s %s' % (t, x, w) for (t, x), w in lexicon)


def verify(name, chart, want, full, sent, rec):
	"""Compare the parse forest with the expected derivations."""
	rec.trace()
	if want is None:  # infinitely many derivations
		top = dict((b, a) for a, b in pars.topk(
				full, ('S', frozenset(range(len(sent)))), 6))
		if bool(chart) != bool(top):
			rec.fail('%s %r: parsed=%r, but best derivations are %r' % (
					name, sent, bool(chart), top))
			return
		got = lazykbest(chart, 6) if chart else []
		best = sorted(map(pars.neglog, top.values()))
		for n, (a, b) in enumerate(zip(got, best)):
			if not pars.close(a[1], b):
				rec.fail('%s %r: derivation no. %d has -logprob %r, not %r' % (
						name, sent, n, a[1], b))
		if len(got) != len(best) or len(dict(got)) != len(got):
			rec.fail('%s %r: got %r, expected %r' % (name, sent, got, top))
		return
	if bool(chart) != bool(want):
		rec.fail('%s %r: parsed=%r, expected %r' % (
				name, sent, bool(chart), want))
		return
	got = lazykbest(chart, len(want) + 5) if chart else []
	msg = gram.compare(got, want)
	if msg:
		rec.fail('%s %r: %s' % (name, sent, msg))
	rec.outcome((len(got), got[0] if got else None))


def casegen(pool, sizes, need=None, length=None):
	def gen(tier):
		for rules, lexicon in gram.grammars(pool, sizes[tier], need):
			yield (tuple(rules), tuple(lexicon),
					length[tier] if length else 4)
	return gen


def basic(case, rec):
	rules, lexicon, maxlen = case
	grammar = Grammar(pars.tuples(rules, lexicon), start='S')
	for sent in gram.sents('ab', maxlen):
		full, want = expected(rules, lexicon, sent, rec)
		for name, parse in parsers(grammar):
			chart, _ = parse(sent, grammar)
			verify(name, chart, want, full, sent, rec)


def tagsgen(tier):
	for rules, lexicon in gram.grammars(
			gram.CFG, {'quick': 2, 'thorough': 3}[tier]):
		yield tuple(rules), tuple(lexicon)


def given(case, rec):
	"""Given POS tags, words in uppercase, unknown words."""
	rules, lexicon = case
	# split states of tags
	for ren in ({}, {'A': 'A@1', 'B': 'A@2'}, {'A': 'A^x', 'B': 'AB'}):
		def sub(a):
			return ren.get(a, a)
		rules1 = [((sub(r[0]), tuple(map(sub, r[1])), r[2]), w)
				for r, w in rules]
		lexicon1 = [((sub(t), x), w) for (t, x), w in lexicon]
		grammar = Grammar(pars.tuples(rules1, lexicon1), start='S')
		words = {x for (_, x), _ in lexicon}
		alltags = {t for (t, _), _ in lexicon1}
		for sent in gram.sents(['a', 'B', 'c'], 2):
			for tags in product((None, 'A', 'B', 'X'), repeat=len(sent)):
				if any(a is None and w.lower() not in words
						for a, w in zip(tags, sent)):
					bad = True
				else:
					bad = False
				ref = pars.Ref(rules1, lexicon1)
				# a lexicon in which every position is a different word
				lexprobs = {}
				for n, (w, tag) in enumerate(zip(sent, tags)):
					w = w if w in words else w.lower()
					match = {t for t in alltags if tag is None
							or re.match('%s($|[-@^/])' % re.escape(tag), t)}
					found = {t: ref.lexprob((t, w)) for t in match
							if (t, w) in ref.lexicon}
					if not found and tag is not None:
						found = {t: 1 for t in match}
					bad = bad or not found
					for t in found:
						lexprobs[t, '%d' % n] = found[t]
				if bad:
					full, want = {}, {}
				else:
					ref.lexicon = lexprobs
					sent1 = ['%d' % n for n, _ in enumerate(sent)]
					full = pars.items(ref, sent1,
							lexprob=lambda r, lexprobs=lexprobs: lexprobs[r])
					want = None if pars.cyclic(full) else pars.derivations(
							full, ('S', frozenset(range(len(sent)))))
				for name, parse in parsers(grammar):
					chart, _ = parse(sent, grammar, tags=list(tags))
					verify('%s tags=%r %r' % (name, tags, ren), chart, want,
							full, sent, rec)
					rec.step()


def maskgen(tier):
	n = {'quick': 3, 'thorough': 4}[tier]
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:4], n,
			lexicons=gram.LEXICONS[2:]):
		if len(rules) == n:
			yield tuple(rules), tuple(lexicon)


def masked(case, rec):
	"""Blocking any subset of rules."""
	rules, lexicon = case
	grammar = Grammar(pars.tuples(rules, lexicon), start='S')
	for use in product((True, False), repeat=len(rules)):
		grammar.setmask([n for n, a in enumerate(use) if a])
		active = {r for (r, _), a in zip(rules, use) if a}
		ref = pars.Ref(rules, lexicon)
		ref.rules = {r: w for r, w in ref.rules.items() if r in active}
		for sent in gram.sents('ab', 3, 2):
			full = pars.items(ref, sent)
			want = None if pars.cyclic(full) else pars.derivations(
					full, ('S', frozenset(range(len(sent)))))
			for name, parse in parsers(grammar):
				chart, _ = parse(sent, grammar)
				verify('%s mask=%r' % (name, use), chart, want, full, sent,
						rec)
	grammar.setmask(None)
	for sent in gram.sents('ab', 2, 2):
		full, want = expected(rules, lexicon, sent)
		for name, parse in parsers(grammar):
			chart, _ = parse(sent, grammar)
			verify(name + ' no mask', chart, want, full, sent, rec)


def modelgen(tier):
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:4],
			{'quick': 2, 'thorough': 3}[tier], lexicons=gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon)


def models(case, rec):
	"""Switching between alternative weights."""
	import numpy as np
	rules, lexicon = case
	n = len(rules) + len(lexicon)
	alt = {'x': np.array([0.5 ** (m % 3 + 1) for m in range(n)], 'd'),
			'y': np.array([1.0 / (m + 2) for m in range(n)], 'd')}
	grammar = Grammar(pars.tuples(rules, lexicon), start='S', altweights=alt)
	ref = pars.Ref(rules, lexicon)
	# the order of lexical rules is that of their words
	lexorder = []
	for _, word in dict.fromkeys((None, x) for (_, x), _ in lexicon):
		lexorder.extend(r for r, _ in lexicon if r[1] == word)
	for model in ('x', 'default', 'y', 'x', 'default'):
		grammar.switch(model, logprob=False)
		grammar.switch(model, logprob=True)
		if model == 'default':
			prob, lexprob = ref.prob, ref.lexprob
		else:
			p = dict(zip([r for r, _ in rules] + lexorder, alt[model]))
			prob = lexprob = p.__getitem__
		for sent in gram.sents('ab', 3):
			full = pars.items(ref, sent, prob=prob, lexprob=lexprob)
			want = None if pars.cyclic(full) else pars.derivations(
					full, ('S', frozenset(range(len(sent)))))
			if want is None:
				continue
			for name, parse in parsers(grammar):
				chart, _ = parse(sent, grammar)
				verify('%s model=%s' % (name, model), chart, want, full, sent,
						rec)


def longgen(tier):
	lengths = ((0, 57, 58, 59, 60, 61, 62, 63) if tier == 'quick' else
			(0, 40) + tuple(range(55, 66)) + (100, ))
	n = 0
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC,
			3, gram.DISC, gram.LEXICONS[2:]):
		for sent in gram.sents('ab', 4, 2):
			if not expected(rules, lexicon, sent)[1]:
				continue
			n += 1
			if tier == 'thorough' or n % 7 == 0:
				yield tuple(rules), tuple(lexicon), ''.join(sent), lengths


def longsent(case, rec):
	"""Any word may be followed by a long sequence of other words."""
	rules, lexicon, words, lengths = case
	rules, lexicon = list(rules), list(lexicon)
	newrules = [(('A', ('X', 'P'), '01'), 4), (('B', ('X', 'P'), '01'), 4),
			(('P', ('Q', 'P'), '01'), 1)]
	newlex = [(('X', 'x'), 2), (('P', 'q'), 1), (('Q', 'p'), 1)]
	rules, lexicon = rules + newrules, lexicon + newlex
	grammar = Grammar(pars.tuples(rules, lexicon), start='S')
	for pos in range(len(words)):
		for length in lengths:
			sent = list(words)
			sent[pos:pos + 1] = ['x'] + ['p'] * length + ['q']
			full, want = expected(rules, lexicon, sent, rec)
			chart, _ = plcfrs.parse(sent, grammar)
			verify('plcfrs, %d words' % len(sent), chart, want, full, sent,
					rec)
			if grammar.maxfanout == 1:
				chart, _ = pcfg.parse(sent, grammar)
				verify('pcfg, %d words' % len(sent), chart, want, full, sent,
						rec)


def beamgen(tier):
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:4],
			{'quick': 3, 'thorough': 4}[tier], lexicons=gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon)


def beam(case, rec):
	"""A beam only removes derivations; a wide enough beam removes none."""
	rules, lexicon = case
	grammar = Grammar(pars.tuples(rules, lexicon), start='S')
	for sent in gram.sents('ab', 4, 3):
		full, want = expected(rules, lexicon, sent, rec)
		if not want:
			continue
		for name, parse in parsers(grammar):
			chart, _ = parse(sent, grammar, beam_beta=250.0)
			verify(name + ' wide beam', chart, want, full, sent, rec)
			for beta, delta in ((0.1, 50), (1.0, 50), (0.1, 2), (0.1, 1)):
				chart, _ = parse(sent, grammar, beam_beta=beta,
						beam_delta=delta)
				if delta == 1:
					verify(name + ' beam on words', chart, want, full, sent,
							rec)
					continue
				got = lazykbest(chart, len(want) + 5) if chart else []
				rec.trace()
				have = {a: want.get(a, 0) for a, _ in got}
				msg = gram.compare(got, have)
				if 0 in have.values() or msg:
					rec.fail('%s %r beam %r: %s; expected among %r' % (
							name, sent, (beta, delta), msg, want))


def listgen(tier):
	for rules, lexicon in gram.grammars(gram.CFG,
			{'quick': 3, 'thorough': 4}[tier]):
		yield tuple(rules), tuple(lexicon), 'pcfg', 4
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:7],
			{'quick': 3, 'thorough': 4}[tier], gram.DISC, gram.LEXICONS[2:]):
		yield tuple(rules), tuple(lexicon), 'plcfrs', 4


def whitelisted(case, rec):
	"""Parsing with the items of the same grammar as white list, and with
	everything allowed."""
	rules, lexicon, kind, maxlen = case
	tup = pars.tuples(rules, lexicon)
	coarse, fine = Grammar(tup, start='S'), Grammar(tup, start='S')
	fine.getmapping(coarse)
	every = Grammar(tup, start='S')
	every.getmapping(coarse, neverblockre=re.compile(''))
	parse = pcfg.parse if kind == 'pcfg' else plcfrs.parse
	for sent in gram.sents('ab', maxlen):
		full, want = expected(rules, lexicon, sent, rec)
		chart1, _ = parse(sent, coarse)
		if not chart1:
			continue
		for name, gr in (('same', fine), ('all', every)):
			white, _ = prunechart(chart1, gr, 0, False, False, kind == 'pcfg')
			chart, _ = parse(sent, gr, whitelist=white)
			verify('%s white list: %s' % (kind, name), chart, want, full,
					sent, rec)


SPACES = [
	core.Space('pcfg', casegen(gram.CFG, {'quick': 3, 'thorough': 5}), basic,
		{'quick': 'all grammars with up to 3 of 8 context-free rules x 3 '
		'lexicons x all sentences of up to 4 words; both parsers',
		'thorough': 'up to 5 rules'}),
	core.Space('plcfrs', casegen(gram.CFG + gram.DISC,
		{'quick': 3, 'thorough': 4}, gram.DISC), basic,
		{'quick': 'all grammars with up to 3 of 20 rules, among which '
		'discontinuous ones, x 3 lexicons x all sentences of up to 4 words',
		'thorough': 'up to 4 rules'}),
	core.Space('five', casegen(gram.CFG[:5] + gram.DISC[:5],
		{'quick': 3, 'thorough': 4}, gram.DISC, {'quick': 5, 'thorough': 6}),
		basic, {'quick': 'up to 3 of 10 rules; sentences of up to 5 words',
		'thorough': 'up to 4 of 10 rules; sentences of up to 6 words'}),
	core.Space('tags', tagsgen, given,
		{'quick': 'all grammars with up to 2 rules; sentences of up to 2 '
		'words, among which unknown and capitalized ones, with any given tags',
		'thorough': 'up to 3 rules'}),
	core.Space('mask', maskgen, masked,
		{'quick': 'all grammars with 3 rules, every subset of rules blocked',
		'thorough': '4 rules'}),
	core.Space('models', modelgen, models,
		{'quick': 'all grammars with up to 2 rules, 3 sets of weights, '
		'switched back and forth', 'thorough': 'up to 3 rules'}),
	core.Space('long', longgen, longsent,
		{'quick': 'every 7th of the grammars with up to 3 rules and sentences '
		'of 2-4 words with a discontinuous rule, where any word is replaced '
		'by 2-65 words', 'thorough': 'all of them; up to 105 words'}),
	core.Space('beam', beamgen, beam,
		{'quick': 'grammars with up to 3 rules, sentences of 3-4 words, 5 '
		'beams', 'thorough': 'up to 4 rules'}),
	core.Space('whitelist', listgen, whitelisted,
		{'quick': 'grammars with up to 3 rules, sentences of up to 4 words',
		'thorough': 'up to 4 rules'}),
]
ASSUMPTIONS = [
	'Probabilities are compared with a relative tolerance of 1e-9.',
	'If there are infinitely many derivations, the 6 best are compared.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C23', SPACES, ASSUMPTIONS))
