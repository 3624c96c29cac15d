"""C22: a Grammar object represents exactly the rules it was given."""
import os
import re
import sys
import copy
import gzip
import pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from itertools import combinations, product
from vlib import build, core, pars, gram, scratch
build.activate('full')
import logging  # noqa: E402
import numpy as np  # noqa: E402
from discodop import plcfrs  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
from discodop.kbest import lazykbest  # noqa: E402
from discodop.tree import ParentedTree  # noqa: E402
logging.disable(logging.WARNING)
RULE = re.compile(r'^([-0-9.einf]+) (\S+) => (\S+)(?: (\S+))? +([01,]+) +'
		r'([-+0-9.e]+)/([-+0-9.e]+) \[([0-9]+)\]$', re.ASCII)
LEXRULE = re.compile(r'^([-0-9.einf]+) (\S+) => (\S+) +'
		r'([-+0-9.e]+)/([-+0-9.e]+)$')


def parsegrammar(text):
	"""Read back a printed grammar."""
	rest, labels = text.split('\nlabels:\n')
	rules, lexicon = rest.split('\nlexicon:\n')
	result = {'rules': {}, 'lexicon': {}, 'labels': {}}
	for line in rules.split('\n')[1:]:
		p, lhs, rhs1, rhs2, yf, freq, mass, no = RULE.match(line).groups()
		r = lhs, (rhs1, ) if rhs2 is None else (rhs1, rhs2), yf
		if r in result['rules']:
			raise ValueError('duplicate rule %r' % (r, ))
		result['rules'][r] = (p, freq, mass, int(no))
	for line in lexicon.split('\n'):
		p, tag, word, freq, mass = LEXRULE.match(line).groups()
		if (tag, word) in result['lexicon']:
			raise ValueError('duplicate rule %r' % line)
		result['lexicon'][tag, word] = p, freq, mass
	for a in labels.split(', '):
		label, fanout = a.rsplit('=', 1)
		result['labels'][label] = int(fanout.split()[1])
	return result


def split(label):
	"""The treebank label of a grammar label."""
	m = re.match(r'^([^-/^|:\s_@]+)(-[^/^|:\s]+)?(/[^^|:\s]+)?(\^[^|:\s]+)?'
			r'(_[0-9]+(\*[0-9]+)?)?$', label)
	return m and m.group(1)


def describe(rules, lexicon):
	"""What the grammar should look like."""
	ref = pars.Ref(rules, lexicon)
	order = list(dict.fromkeys(r for r, _ in rules))
	labels = dict(ref.fanout)
	labels['Epsilon'] = 0
	labels.setdefault('S', 1)
	tb = {}
	for a in labels:
		if a != 'Epsilon' and split(a):
			tb.setdefault(split(a), set()).add(a)
	return ref, order, {
		'rules': {r: ('%.4f' % ref.prob(r), '%g' % ref.rules[r],
			'%g' % ref.mass[r[0]], n) for n, r in enumerate(order)},
		'lexicon': {r: ('%.4f' % ref.lexprob(r), '%g' % ref.lexicon[r],
			'%g' % ref.mass[r[0]]) for r in ref.lexicon},
		'labels': labels}, tb


def tupleyf(yf):
	return tuple(tuple(map(int, a)) for a in yf.split(','))


def verify(name, g, rules, lexicon, rec, parsed=True):
	"""Compare grammar g with a list of rules."""
	ref, order, want, tb = describe(rules, lexicon)
	got = parsegrammar(str(g))
	rec.trace()
	for part in want:
		if got[part] != want[part]:
			rec.fail('%s: %s: %r expected %r' % (
					name, part, got[part], want[part]))
			return
	rec.expect(name + ' rules', (g.numrules, g.numunary, g.numbinary,
			g.nonterminals, g.maxfanout), (len(order),
			sum(len(r[1]) == 1 for r in order),
			sum(len(r[1]) == 2 for r in order),
			len(want['labels']), max(want['labels'].values())))
	rec.expect(name + ' labels', sorted(g.getlabels()),
			sorted(set(want['labels']) - {'Epsilon'}))
	rec.expect(name + ' POS tags', sorted(g.getpos()),
			sorted({t for t, _ in ref.lexicon}))
	rec.expect(name + ' words', sorted(g.getwords()),
			sorted({w for _, w in ref.lexicon}))
	rec.expect(name + ' start', g.start, 'S')
	words = {w for _, w in ref.lexicon}
	for word in sorted(words) + ['x', '']:
		p = sorted(g.getlexprobs(word))
		q = sorted(pars.neglog(ref.lexprob(r)) for r in ref.lexicon
				if r[1] == word)
		if len(p) != len(q) or not all(map(pars.close, p, q)):
			rec.fail('%s: probabilities of %r: %r, expected %r' % (
					name, word, p, q))
	if not g.testgrammar(1e-12)[0]:
		rec.fail('%s: weights: %r' % (name, g.testgrammar(1e-12)))
	rec.expect(name + ' rulestr', sorted(g.rulestr(n) for n in range(
			len(order))), sorted(str(g).split('\nlexicon')[0].split('\n')[1:]))
	for n in (-1, len(order)):
		try:
			g.rulestr(n)
		except ValueError:
			pass
		else:
			rec.fail('%s: no error for rule %d' % (name, n))
	for r in gram.CFG + gram.DISC + [('X', ('A', ), '0'), ('A', ('X', ), '0'),
			('A', ('A', 'X'), '01')]:
		results = []
		for fun in ('getruleno', 'noderuleno'):
			if fun == 'noderuleno' and (',' in r[2] or len(r[2]) > len(r[1])):
				continue
			try:
				if fun == 'getruleno':
					n = g.getruleno((r[0], ) + r[1], tupleyf(r[2]))
				else:
					n = g.noderuleno(ParentedTree(r[0],
							[ParentedTree(a, []) for a in r[1]]))
			except KeyError:
				n = None
			results.append(n)
		rec.step(len(results))
		if set(results) != {want['rules'].get(r, (None, ))[-1]}:
			rec.fail('%s: number of %r is %r, expected %r' % (
					name, r, results, want['rules'].get(r)))
	# map from treebank label to grammar labels; through IDs
	have = {a: {g.getlabels()[n - 1] for n in b}
			for a, b in g.tblabelmapping.items()}
	if have != tb or any(len(a) != len(set(a))
			for a in g.tblabelmapping.values()):
		rec.fail('%s: labels %r, expected %r' % (name, have, tb))
	if not parsed:
		return
	# rules are available to the parser
	for sent in gram.sents(sorted(words), 2, 2):
		full = pars.items(ref, sent)
		if pars.cyclic(full):
			continue
		allderivs = pars.derivations(full, ('S', frozenset(range(2))))
		chart, _ = plcfrs.parse(sent, g)
		msg = gram.compare(lazykbest(chart, len(allderivs) + 5)
				if chart else [], allderivs)
		if msg:
			rec.fail('%s: %r: %s' % (name, sent, msg))


def formats(rules, lexicon):
	"""Construct a grammar from files of different kinds."""
	rtext, ltext = pars.rulestext(rules), pars.lexicontext(lexicon)
	rfile = scratch.write('r.rules', rtext)
	lfile = scratch.write('r.lex', ltext)
	yield 'text', Grammar(rfile, lfile, start='S')
	for name, a, b in (
			('no end of line', rtext.rstrip('\n'), ltext.rstrip('\n')),
			('blank lines', '\n' + rtext.replace('\n', '\n\n'),
				'\n' + ltext.replace('\n', '\n\n\n'))):
		x = scratch.write('x.rules', a)
		y = scratch.write('x.lex', b)
		yield name, Grammar(x, y, start='S')
	x, y = scratch.path('z.rules.gz'), scratch.path('z.lex.gz')
	for fname, data in ((x, rtext), (y, ltext)):
		with gzip.open(fname, 'wb') as out:
			out.write(data.encode('utf8'))
	yield 'gzip', Grammar(x, y, start='S')
	if all(r[2] in ('0', '01') for r, _ in rules):
		x = scratch.write('b.rules', pars.rulestext(rules, bitpar=True))
		g = Grammar(x, lfile, start='S')
		assert g.bitpar
		yield 'bitpar', g
		yield 'bitpar pickled', pickle.loads(pickle.dumps(g))
	g = Grammar(rfile, lfile, start='S')
	assert not g.bitpar
	yield 'pickled', pickle.loads(pickle.dumps(g))
	binfile = scratch.path('r.g')
	g.tobinfile(binfile)
	g1 = Grammar.frombinfile(binfile, rfile, lfile)
	yield 'binary', g1
	yield 'binary pickled', pickle.loads(pickle.dumps(g1))
	g1.tobinfile(binfile)
	yield 'binary twice', Grammar.frombinfile(binfile, rfile, lfile)


def casegen(sizes, tierlex=None):
	def gen(tier):
		for rules, lexicon in gram.grammars(gram.CFG + gram.DISC, sizes[tier]):
			yield tuple(rules), tuple(lexicon)
	return gen


def build_(case, rec):
	rules, lexicon = map(list, case)
	rec.state(case)
	tup = pars.tuples(rules, lexicon)
	g = Grammar(tup, start='S')
	verify('tuples', g, rules, lexicon, rec)
	verify('pickled', pickle.loads(pickle.dumps(g)), rules, lexicon, rec)
	verify('copied', copy.copy(g), rules, lexicon, rec)
	verify('reversed', Grammar(tup[::-1], start='S'), rules[::-1],
			lexicon[::-1], rec)
	for name, g in formats(rules, lexicon):
		verify(name, g, rules, lexicon, rec)
	# duplicate rules add up
	verify('duplicates', Grammar(tup + tup, start='S'),
			rules + rules, lexicon + lexicon, rec)
	verify('one duplicate', Grammar(tup[-1:] + tup + tup[:1], start='S'),
			rules + rules[:1], lexicon + lexicon[-1:], rec)
	for name, g in formats(rules[-1:] + rules, lexicon):
		verify(name + ' with duplicate', g, rules[-1:] + rules, lexicon, rec)


def addgen(tier):
	for rules, lexicon in gram.grammars(gram.CFG + gram.DISC[:6],
			{'quick': 3, 'thorough': 4}[tier], lexicons=gram.LEXICONS[1:]):
		yield tuple(rules), tuple(lexicon)


def enc(rules, lexicon, bitpar):
	return (pars.rulestext(rules, bitpar).encode('utf8'),
			pars.lexicontext(lexicon).encode('utf8'))


def adding(case, rec):
	"""Adding rules to a grammar in any number of steps, after using it."""
	rules, lexicon = map(list, case)
	isvalid = gram.valid
	lhs0 = {t for (t, _), _ in lexicon}
	iscfg = all(r[2] in ('0', '01') for r, _ in rules)
	for n in range(1, len(rules) + 1):
		for first in combinations(range(len(rules)), n):
			init = [rules[a] for a in first]
			if not isvalid([r for r, _ in init], lhs0):
				continue
			rest = [rules[a] for a in range(len(rules)) if a not in first]
			# each of the steps adds a new rule and one that already exists
			for orig in ('tuples', 'text', 'bitpar', 'binary'):
				if orig == 'bitpar' and not iscfg:
					continue
				for lex0 in range(1, len(lexicon) + 1):
					if not isvalid([r for r, _ in init],
							{t for (t, _), _ in lexicon[:lex0]}):
						continue
					g = None
					if orig == 'tuples':
						g = Grammar(pars.tuples(init, lexicon[:lex0]),
								start='S')
					else:
						rfile = scratch.write('a.rules',
								pars.rulestext(init, orig == 'bitpar'))
						lfile = scratch.write('a.lex',
								pars.lexicontext(lexicon[:lex0]))
						g = Grammar(rfile, lfile, start='S')
						if orig == 'binary':
							binfile = scratch.path('a.g')
							g.tobinfile(binfile)
							g = Grammar.frombinfile(binfile, rfile, lfile)
					currules, curlex = init[:], lexicon[:lex0]
					steps = [([a, currules[0]], curlex[:1] if n0 else
								lexicon[lex0:] or curlex[-1:])
							for n0, a in enumerate(rest)] or [
								(init[:1], lexicon[lex0:] or curlex[:1])]
					for newrules, newlex in steps:
						labs = ({t for (t, _), _ in curlex}
								| {t for (t, _), _ in newlex})
						if not isvalid([r for r, _ in currules + newrules],
								labs):
							break
						g.addrules(*enc(newrules, newlex, orig == 'bitpar'))
						currules = currules + newrules
						curlex = curlex + newlex
						rec.state((tuple(currules), tuple(curlex), orig))
						verify('%s, initial %r, steps %r' % (
								orig, first, steps), g, currules, curlex, rec)
					# counts
					r0 = currules[-1][0]
					g.incrementrulecount(g.getruleno((r0[0], ) + r0[1],
							tupleyf(r0[2])), 3)
					g.switch('default', logprob=False)
					g.switch('default', logprob=True)
					verify('increment', g, currules + [(r0, 3)], curlex, rec)


WEIGHTS = {
	'1': 1, '10': 10, '0.5': Fraction(1, 2), '0.125': Fraction(1, 8),
	'1/3': 1, '3/4': 3, '0x1.0p-1': Fraction(1, 2),
	'0x1.8p+1': 3, '1e3': 1000, '2.5e-1': Fraction(1, 4), '.5': Fraction(1, 2),
	'123456789': 123456789, '1e-300': Fraction(1e-300)}


def weightgen(tier):
	yield from product(WEIGHTS, repeat=2 if tier == 'quick' else 3)


def weights(case, rec):
	"""Weights in any notation."""
	a, b = case[:2]
	c = case[2] if len(case) > 2 else b
	for lex, rules in (
			([('A', 'a'), ('A', 'b'), ('B', 'b')],
				[('S', ('A', ), '0'), ('S', ('A', 'B'), '01'),
				('A', ('A', 'B'), '01')]),
			([('A', 'a'), ('B', 'b')],
				[('S', ('A', 'B'), '01'), ('B', ('B', 'A'), '01'),
				('S', ('B', ), '0')])):
		ws = [a, b, c]
		rules1 = list(zip(rules, ws))
		lex1 = list(zip(lex, ws))
		rules2 = [(r, WEIGHTS[w]) for r, w in rules1]
		lex2 = [(r, WEIGHTS[w]) for r, w in lex1]
		lfile = scratch.write('w.lex', pars.lexicontext(lex1))
		for bitpar in (False, True):
			rfile = scratch.write('w.rules', pars.rulestext(rules1, bitpar))
			g = Grammar(rfile, lfile, start='S')
			rec.expect('bitpar format detected', g.bitpar, bitpar)
			verify('bitpar=%r' % bitpar, g, rules2, lex2, rec)


LABELS = ['NP', 'NP-SBJ', 'NP/Acc', 'NP^S', 'NP-SBJ^S-X', 'NP_2', 'NP^S_2',
	'NP|<DT>', 'NP|<r:NP-DA>', 'NP-SBJ/Acc^S', '$,', '-LRB-', '1', '0', '-', 'A@1-2',
	'S-x', 'NP*', "''", 'ü', '01', '0.5', '\u00a0x']


def labelgen(tier):
	n = {'quick': 2, 'thorough': 3}[tier]
	yield from product(LABELS, repeat=n)


def labels(case, rec):
	"""Labels of any form, in any position; non-ASCII words."""
	a, b = case[:2]
	c = case[2] if len(case) > 2 else a
	fan = 2 if '_2' in b else 1
	rules = [(('S', (a, ), '0'), 1), (('S', (a, c), '01'), 2)]
	if fan == 1 and b != a and b != c:
		rules += [((b, (a, c), '01'), 3), (('S', (b, c), '01'), 4)]
	lexicon = [((x, w), n + 1) for n, (x, w) in enumerate(
			dict.fromkeys([(a, 'ü'), (a, '#'), (c, "'"), (b, 'a b'),
				(b, '(')]))]
	for name, g in formats(rules, lexicon):
		verifylabels(name, g, rules, lexicon, rec)


def verifylabels(name, g, rules, lexicon, rec):
	"""As verify(), without depending on printed words."""
	ref, order, want, tb = describe(rules, lexicon)
	rec.trace()
	rec.expect(name + ' labels', sorted(g.getlabels()),
			sorted(set(want['labels']) - {'Epsilon'}))
	rec.expect(name + ' POS tags', sorted(g.getpos()),
			sorted({t for t, _ in ref.lexicon}))
	rec.expect(name + ' words', sorted(g.getwords()),
			sorted({w for _, w in ref.lexicon}))
	for w in g.getwords():
		p = sorted(g.getlexprobs(w))
		q = sorted(pars.neglog(ref.lexprob(r)) for r in ref.lexicon
				if r[1] == w)
		if len(p) != len(q) or not all(map(pars.close, p, q)):
			rec.fail('%s: probabilities of %r: %r, expected %r' % (
					name, w, p, q))
	for n, r in enumerate(order):
		rec.expect(name + ' number of rule', g.getruleno((r[0], ) + r[1],
				tupleyf(r[2])), n)
	got = parsegrammar(str(g).split('\nlexicon:')[0] + '\nlexicon:\n'
			'1.0 A => a 1/1\nlabels:\nA=1 1')['rules']
	rec.expect(name + ' rules', got, want['rules'])
	have = {a: {g.getlabels()[n - 1] for n in b}
			for a, b in g.tblabelmapping.items()}
	# only labels with state splits of the treebank; others are not specified
	for lab in ('NP', ):
		rec.expect(name + ' mapping', have.get(lab), tb.get(lab))


GOODRULES = ['S\tA\tB\t01\t2\n', 'A\tA\tB\t01\t1\n', 'S\tC\tB\t010\t1\n',
	'C\tB\tA\t0,1\t2\n']
GOODBITPAR = ['2\tS\tA\tB\n', '1\tA\tA\tB\n', '4\tB\tA\n']
GOODLEX = ['a\tA 1\n', 'b\tA 2\tB 2\n']
BADRULES = [
	'S\tA\tB\t01\n', 'S\tA\tB\t01\t0\n', 'S\tA\tB\t01\t-1\n',
	'S\tA\tB\t01\tx\n', 'S\tA\tB\t01\t\n', 'S\tA\tB\t0\t1\n',
	'S\tA\tB\t1\t1\n', 'S\tA\t01\t1\n', 'S\tA\tB\t02\t1\n',
	'S\tA\tB\t\t1\n', 'S\tA\tB\t01,\t1\n', 'S\tA\tB\t,01\t1\n',
	'S\tA\tB\t0,,1\t1\n', 'S\tA\tB\tC\t01\t1\n', 'S\t01\t1\n', '01\t1\n',
	'S\n', 'x', '\t\n', 'S\tA\tX\t01\t1\n', 'X\tS\tA\t01\t1\n',
	'A\tS\t0\t1\n', 'A\tB\tEpsilon\t01\t1\n', 'Epsilon\tA\t0\t1\n',
	'A\tEpsilon\t0\t1\n', 'A\tC\tB\t01\t1\n', 'C\tA\tB\t01\t1\n',
	'A\tA\tB\t0,1\t1\n', 'A\tB\tC\t01\t1\n', 'A\tC\t0\t1\n',
	'S\tA\tB\t' + '01' * 16 + '\t1\n', 'S\tA\tB\t01\t1\t1\n',
	'S\tA\tB\t01\t1 2\n', 'S A B 01 1\n']
BADBITPAR = [
	'0\tS\tA\tB\n', '-1\tS\tA\tB\n', 'x\tS\tA\tB\n', '\tS\tA\tB\n',
	'1\tS\n', '1\n', '1\tS\tA\tB\tA\n', '1\tS\tA\tX\n', '1\tA\tS\n',
	'1\tA\tEpsilon\n', '1\tEpsilon\tA\n', '1 S A\n', '1x\tS\tA\n']
BADLEX = ['c\n', 'c\tA\n', 'c\tA 0\n', 'c\tA -1\n', 'c\tA x\n', 'c\tA 1\tB\n',
	'a\tB 1\n', 'c\tC 1\n', 'c\t\n', 'c\tA \n', 'c\tA 1 2\n', 'c A 1\n']


def badgen(tier):
	for kind, good, bad in (('rules', GOODRULES, BADRULES),
			('bitpar', GOODBITPAR, BADBITPAR), ('lex', GOODLEX, BADLEX)):
		yield kind, None, 0, ''
		for line in bad:
			for pos in range(len(good) + 1):
				if kind == 'lex' and line.startswith('a') and pos == 0:
					continue
				for end in ('', '\n'):
					yield kind, line, pos, end


def malformed(case, rec):
	"""A malformed line anywhere in an otherwise valid file."""
	kind, line, pos, end = case
	rules = list(GOODBITPAR if kind == 'bitpar' else GOODRULES)
	lexicon = list(GOODLEX)
	if line is not None:
		target = lexicon if kind == 'lex' else rules
		target.insert(pos, line)
		if not line.endswith('\n') and pos + 1 < len(target):
			target[pos] += '\n'
	rtext, ltext = ''.join(rules), ''.join(lexicon)
	if end and line is not None and pos == len(target) - 1:
		if kind == 'lex':
			ltext = ltext.rstrip('\n')
		else:
			rtext = rtext.rstrip('\n')
	rfile = scratch.write('m.rules', rtext)
	lfile = scratch.write('m.lex', ltext)
	rec.trace()
	rec.state(case)
	try:
		g = Grammar(rfile, lfile, start='S')
	except ValueError as err:
		if line is None:
			rec.fail('valid grammar refused: %s' % err)
		return
	if line is not None:
		rec.fail('malformed line accepted: %r\n%s' % (line, g))
	# as additional rules
	if kind == 'bitpar':
		return
	for a, b in [(a, GOODLEX[0]) for a in BADRULES] + [
			(GOODRULES[0], b) for b in BADLEX if b[0] != 'a']:
		g = Grammar(rfile, lfile, start='S')
		rec.trace()
		try:
			g.addrules(a.encode('utf8'), b.encode('utf8'))
		except ValueError:
			continue
		rec.fail('malformed line added: %r %r\n%s' % (a, b, g))


def mapgen(tier):
	yield from product(['NP', 'NP@1', 'NP@2-3', 'VP', 'VP@1', 'X'],
			repeat=3 if tier == 'quick' else 4)


def mapping(case, rec):
	"""Labels and rules are mapped to a coarse grammar."""
	def coarselabel(x):
		return x.split('@')[0]

	rules = [(('S', case[:2], '01'), 1), (('S', case[1:3], '01'), 1),
			(('S', case[-1:], '0'), 2)]
	rules += [((case[0], case[1:2], '0'), 1)]
	rules = list(dict(rules).items())
	lexicon = [((a, 'x'), 1) for a in dict.fromkeys(case)]
	fine = Grammar(pars.tuples(rules, lexicon), start='S')
	mapped = [(r[0], tuple(map(coarselabel, r[1])), r[2]) if r[0] == 'S' else
			(coarselabel(r[0]), tuple(map(coarselabel, r[1])), r[2])
			for r, _ in rules]
	crules = [(r, 1) for r in dict.fromkeys(mapped)]
	clex = [((a, 'x'), 1) for a in dict.fromkeys(map(coarselabel, case))]
	strip = re.compile('@[-0-9]+$')
	for rev in (False, True):
		coarse = Grammar(pars.tuples(crules[::-1] if rev else crules, clex),
				start='S')
		order = [r for r, _ in (crules[::-1] if rev else crules)]
		rec.trace()
		rec.state((case, rev))
		msg = fine.getmapping(coarse, striplabelre=strip)
		if coarse.nonterminals == fine.nonterminals:
			rec.expect('message', msg, 'label sets are equal')
		fine.getrulemapping(coarse, strip)
		got = [sorted(a) for a in fine.rulemapping]
		want = [[n for n, r in enumerate(mapped) if r == r0] for r0 in order]
		rec.expect('rule mapping', got, want)
		# lacking rule or label
		for drop in range(len(order)):
			rest = [(r, 1) for n, r in enumerate(order) if n != drop]
			if not any(r[0] == 'S' for r, _ in rest):
				continue
			lab = {t for (t, _), _ in clex}
			if not gram.valid([r for r, _ in rest], lab):
				continue
			coarse2 = Grammar(pars.tuples(rest, clex), start='S')
			try:
				fine.getrulemapping(coarse2, strip)
			except KeyError:
				continue
			rec.fail('rule %r missing in coarse grammar, but mapped: %r' % (
					order[drop], fine.rulemapping))
		for lab in dict.fromkeys(map(coarselabel, case)):
			rest = [(r, 1) for r in order if lab not in r[1] and r[0] != lab]
			lex2 = [a for a in clex if a[0][0] != lab]
			if not rest or not lex2:
				continue
			coarse2 = Grammar(pars.tuples(rest, lex2), start='S')
			try:
				fine.getmapping(coarse2, striplabelre=strip)
			except KeyError:
				pass
			else:
				rec.fail('label %r missing in coarse grammar' % lab)
			# but not if never blocked
			fine.getmapping(coarse2, striplabelre=strip,
					neverblockre=re.compile('^%s(@|$)' % lab))
	fine.getmapping(None, striplabelre=None)
	fine.getrulemapping(fine, re.compile('!'))
	rec.expect('rule mapping to itself', [list(a) for a in
			fine.selfrulemapping], [[n] for n in range(len(rules))])


def modelcases(tier):
	for rules, lexicon in gram.grammars(gram.CFG[:6] + gram.DISC[:2],
			{'quick': 3, 'thorough': 4}[tier]):
		yield tuple(rules), tuple(lexicon)


def alternatives(case, rec):
	"""Alternative weights, as dictionary and from file."""
	rules, lexicon = map(list, case)
	n = len(rules) + len(lexicon)
	alt = {'x': np.array([0.5 ** (m % 3 + 1) for m in range(n)], 'd'),
			'y': np.array([1.0 / (m + 2) for m in range(n)], 'd')}
	npz = scratch.path('a.npz')
	np.savez(npz, **alt)
	lexorder = []
	for word in dict.fromkeys(x for (_, x), _ in lexicon):
		lexorder.extend(r for r, _ in lexicon if r[1] == word)
	ref = pars.Ref(rules, lexicon)
	for weights_ in (alt, npz):
		g = Grammar(pars.tuples(rules, lexicon), start='S',
				altweights=weights_)
		for g in (g, pickle.loads(pickle.dumps(g))):
			for model, logprob in product(
					('default', 'x', 'y', 'default'), (True, False, True)):
				g.switch(model, logprob=logprob)
				rec.trace()
				rec.state((case, model, logprob))
				rec.expect('current model', (g.currentmodel, g.logprob),
						(model, logprob))
				got = parsegrammar(str(g))
				if model == 'default':
					want = {r: ref.prob(r) for r in ref.rules}
					want.update((r, ref.lexprob(r)) for r in ref.lexicon)
				else:
					want = dict(zip([r for r, _ in rules] + lexorder,
							alt[model]))
				for r, (p, *_) in list(got['rules'].items()) + list(
						got['lexicon'].items()):
					rec.expect('weight of %r' % (r, ), p, '%.4f' % want[r])
				sums = {}
				for r, p in want.items():
					sums[r[0]] = sums.get(r[0], 0) + p
				rec.expect('weights sum to 1', g.testgrammar(1e-9)[0],
						all(abs(a - 1) < 1e-9 for a in sums.values()))
			for bad in ('z', 'short'):
				if bad == 'short':
					g = Grammar(pars.tuples(rules, lexicon), start='S',
							altweights={'short': alt['x'][1:]})
				try:
					g.switch(bad)
				except (KeyError, ValueError):
					pass
				else:
					rec.fail('unknown model %r accepted' % bad)


SPACES = [
	core.Space('build', casegen({'quick': 3, 'thorough': 4}), build_,
		{'quick': 'all grammars of up to 3 of 20 rules with 3 lexicons; '
		'tuples, text, bitpar, gzip, binary, pickled; duplicate rules',
		'thorough': 'up to 4 rules'}),
	core.Space('add', addgen, adding,
		{'quick': 'all grammars of up to 3 of 14 rules; all splits in initial '
		'and added rules, in several steps', 'thorough': 'up to 4 rules'}),
	core.Space('weights', weightgen, weights,
		{'quick': 'all pairs of 13 notations of weights, in both formats',
		'thorough': 'all triples'}),
	core.Space('labels', labelgen, labels,
		{'quick': 'all pairs of %d labels' % len(LABELS),
		'thorough': 'all triples'}),
	core.Space('malformed', badgen, malformed,
		'%d malformed lines anywhere in a valid file, with and without end of '
		'line; as initial and as added rules' % (
		len(BADRULES + BADBITPAR + BADLEX))),
	core.Space('mapping', mapgen, mapping,
		{'quick': 'fine grammars with 3 of 6 labels in any position; all '
		'coarse grammars lacking one rule or label', 'thorough': '4 labels'}),
	core.Space('models', modelcases, alternatives,
		{'quick': 'all grammars of up to 3 of 8 rules; all sequences of 4 '
		'models x 3 modes', 'thorough': 'up to 4 rules'}),
]
ASSUMPTIONS = [
	'Rules are read back from the printed form of a grammar (4 decimals, '
	'6 significant digits); exact probabilities through parsing.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C22', SPACES, ASSUMPTIONS))
