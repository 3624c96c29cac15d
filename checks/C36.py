"""C36: outside estimates are admissible, and preserve the best parse."""
import contextlib
import io
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, core, pars, gram
build.activate('full')
import logging  # noqa: E402
from discodop import plcfrs, estimates  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.kbest import lazykbest  # noqa: E402
logging.disable(logging.WARNING)


def viterbi(chart):
	best, changed = {}, True
	while changed:
		changed = False
		for item in chart:
			for p, r, kids in chart[item]:
				if r is not None:
					for a in kids:
						p = p * best.get(a, 0)
				if p > best.get(item, 0):
					best[item] = p
					changed = True
	return best


def outsides(chart, best, root):
	"""Best outside probability of each item."""
	result, changed = {root: 1}, True
	while changed:
		changed = False
		for item in chart:
			if item not in result:
				continue
			for p, r, kids in chart[item]:
				if r is None:
					continue
				for n, a in enumerate(kids):
					q = result[item] * p
					for m, b in enumerate(kids):
						if m != n:
							q *= best[b]
					if q > result.get(a, 0):
						result[a] = q
						changed = True
	return result


def table(kind, grammar, maxlen):
	with contextlib.redirect_stdout(io.StringIO()):
		if kind == 'SX':
			return estimates.getpcfgestimates(grammar, maxlen, 'S')
		return estimates.getestimates(grammar, maxlen, 'S')


def casegen(pool, sizes, need=None, base=(), lexicons=gram.LEXICONS):
	def gen(tier):
		size, maxlen, sentlen = sizes[tier]
		for rules, lexicon in gram.grammars(pool, size, need, lexicons):
			yield tuple(base) + tuple(a for a in rules
					if a[0] not in [b for b, _ in base]), tuple(lexicon), \
					maxlen, sentlen
	return gen


def estimated(case, rec):
	rules, lexicon, maxlen, sentlen = case
	ref = pars.Ref(rules, lexicon)
	grammar = Grammar(pars.tuples(rules, lexicon), start='S')
	labels = {a: n for n, a in enumerate(grammar.getlabels(), 1)}
	kinds = ['SXlrgaps'] + ['SX'] * (grammar.maxfanout == 1)
	tables = {kind: table(kind, grammar, maxlen) for kind in kinds}
	for sent in gram.sents('ab', sentlen):
		full = pars.items(ref, sent)
		root = ('S', frozenset(range(len(sent))))
		top = want = None
		if root in full:
			best = viterbi(full)
			top = pars.neglog(best[root])
			if not pars.cyclic(full):
				want = pars.derivations(full, root)
		for kind in kinds:
			tab = tables[kind]
			if root in full and len(sent) <= maxlen:
				for (label, span), q in outsides(full, best, root).items():
					left, length = min(span), len(span)
					gaps = max(span) + 1 - left - length
					right = len(sent) - left - length - gaps
					if kind == 'SX':
						est = tab[labels[label], left, right, 0]
					else:
						est = tab[labels[label], length, left + right, gaps]
					rec.state((rules, lexicon, tuple(sent), label, span))
					rec.step()
					if not est <= pars.neglog(q) + 1e-9:
						rec.fail('%s %r: %s %r has an estimate of %g, but '
								'outside cost %g' % (kind, sent, label,
								sorted(span), est, pars.neglog(q)))
			for exhaustive in (True, False):
				chart, _ = plcfrs.parse(sent, grammar, exhaustive=exhaustive,
						estimates=(kind, tab))
				rec.trace()
				name = '%s %r exhaustive=%r' % (kind, sent, exhaustive)
				if bool(chart) != (root in full):
					rec.fail('%s: parsed=%r' % (name, bool(chart)))
					continue
				if not chart:
					continue
				got = lazykbest(chart, 1 if want is None else len(want) + 5)
				if not got or not pars.close(got[0][1], top):
					rec.fail('%s: best is %r, expected %g' % (name, got[:1],
							top))
				elif want is not None:
					if not exhaustive:
						want1 = {a: want.get(a, 0) for a, _ in got}
					else:
						want1 = want
					msg = gram.compare(got, want1)
					if msg:
						rec.fail('%s: %s' % (name, msg))
				rec.outcome((len(got), got[0]))


MANY = [('S', ('A', 'B'), '01'), ('S', ('B', 'A'), '01'),
		('S', ('A', 'A'), '01'), ('S', ('B', 'B'), '01'),
		('A', ('A', 'B'), '01'), ('A', ('B', 'A'), '01'),
		('A', ('B', 'B'), '01'), ('B', ('A', 'B'), '01'),
		('B', ('B', 'A'), '01'), ('B', ('A', 'A'), '01')]
MANY = tuple((r, 1 + n * 3 % 7) for n, r in enumerate(MANY))
MORE = [('S', ('C', 'B'), '010'), ('C', ('A', 'B'), '0,1'),
		('C', ('A', 'B'), '1,0'), ('C', ('C', 'A'), '10,0'),
		('C', ('C', 'B'), '0,10'), ('A', ('C', 'A'), '010'),
		('S', ('A', 'C'), '101'), ('S', ('C', 'C'), '0110'),
		('C', ('C', 'A'), '0,01'), ('C', ('C', 'A'), '0,10')]
SPACES = [
	core.Space('pcfg', casegen(gram.CFG,
		{'quick': (3, 4, 5), 'thorough': (4, 4, 5)}), estimated,
		{'quick': 'all grammars with up to 3 of 8 rules, sentences of up to 5 '
		'words, estimates for up to 4 words; both kinds of estimate',
		'thorough': 'up to 4 rules'}),
	core.Space('plcfrs', casegen(gram.CFG[:5] + gram.DISC[:7],
		{'quick': (3, 4, 5), 'thorough': (4, 5, 6)}, gram.DISC,
		lexicons=gram.LEXICONS[1:]), estimated,
		{'quick': 'grammars with up to 3 of 12 rules',
		'thorough': 'up to 4 rules, 6 words'}),
	core.Space('orders', casegen(MORE + gram.CFG[:1] + gram.DISC[4:5],
		{'quick': (3, 5, 5), 'thorough': (4, 6, 6)}, MORE,
		lexicons=gram.LEXICONS[2:]), estimated,
		{'quick': 'grammars with up to 3 of 12 rules with all kinds of yield '
		'functions', 'thorough': 'up to 4 rules'}),
	core.Space('many', casegen(gram.CFG + gram.DISC[:2],
		{'quick': (2, 4, 3), 'thorough': (3, 4, 4)}, base=MANY), estimated,
		{'quick': '10 binary rules with 2 labels, and up to 2 other rules; '
		'sentences of up to 3 words',
		'thorough': 'up to 3 other rules; 4 words'}),
]
ASSUMPTIONS = ['Probabilities are compared with a tolerance of 1e-9.',
	'For cyclic charts only the best derivation is compared.']

if __name__ == '__main__':
	sys.exit(core.main('C36', SPACES, ASSUMPTIONS))
