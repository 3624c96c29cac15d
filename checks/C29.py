"""C29: treebank transforms keep words and structure, annotate what they say
they annotate, and are undone by the reverse transform."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from vlib import build, core, gen, scratch
build.activate('cont')
from discodop.tree import ParentedTree, Tree, HEAD  # noqa: E402
from discodop import treebanktransforms as tt  # noqa: E402

WORD, LEMMA, TAG, MORPH, FUNC, PARENT = range(6)


class N(object):
	"""Reference node of an annotated tree."""

	def __init__(self, label, func, kids, parent=None):
		self.label, self.func, self.kids, self.parent = (
				label, func, kids, parent)
		self.morph = '--'
		self.lemma = '--'
		self.tag = not isinstance(kids[0], N)
		self.head = False
		for a in kids:
			if isinstance(a, N):
				a.parent = self
		if not self.tag:
			hd = [a for a in kids if a.func in ('HD', 'hd')] or kids[-1:]
			hd[0].head = True

	def nodes(self):
		yield self
		if not self.tag:
			for a in self.kids:
				for b in a.nodes():
					yield b

	def leaves(self):
		return [self.kids[0]] if self.tag else [
				b for a in self.kids for b in a.leaves()]


def mk(shape, labels, tags, funcs, morphs=None, lemmas=None):
	"""Shape to reference nodes; labels, funcs are in pre-order."""
	labels, funcs = iter(labels), iter(funcs)

	def rec(a, top):
		func = '--' if top else next(funcs)
		if not isinstance(a, tuple):
			result = N(tags[a], func, [a])
			if morphs:
				result.morph = morphs[a]
			if lemmas:
				result.lemma = lemmas[a]
			return result
		label = next(labels)
		return N(label, func, [rec(b, False) for b in a])
	return rec(shape, True)


def real(n, count=None):
	"""Reference nodes to real tree, as corpus readers provide it."""
	count = [500] if count is None else count
	if n.tag:
		t = ParentedTree(n.label, [n.kids[0]])
		t.source = ['w%d' % n.kids[0], n.lemma, n.label, n.morph, n.func, '0']
	else:
		t = ParentedTree(n.label, [])
		count[0] += 1
		t.source = ['#%d' % count[0], '--', n.label, n.morph, n.func, '0']
		for a in n.kids:
			t.append(real(a, count))
	if n.head:
		t.type = HEAD
	return t


def show(t, sent):
	return '%s %s %s' % (t, ' '.join(sent), ' '.join(
			a.source[FUNC] if a.source else '?' for a in t.subtrees()))


def wellformed(t):
	"""Problems with the structure of a tree."""
	seen = set()
	for a in t.subtrees():
		if id(a) in seen:
			return 'node occurs twice'
		seen.add(id(a))
		if not len(a):
			return 'empty node %r' % a.label
		if not isinstance(a.label, str) or not a.label:
			return 'label %r' % (a.label, )
		for b in a:
			if isinstance(b, Tree):
				if b.parent is not a:
					return 'wrong parent of %r' % b.label
		firsts = [min(b.leaves()) if isinstance(b, Tree) else b for b in a]
		if firsts != sorted(firsts):
			return 'children not in linear order'
		if len(set(isinstance(b, Tree) for b in a)) != 1:
			return 'mixed children'
	if t.parent is not None:
		return 'root has parent'
	return None


def annotations(t, what):
	"""Multiset of (label, yield, requested annotations) in the tree, with
	depth to tell unary nodes apart."""
	result = []

	def rec(a, depth):
		src = a.source or ['--'] * 6
		info = tuple([src[w] if src[w] not in ('', None) else '--'
				for w in what
				if w != LEMMA or isinstance(a[0], int)])
		result.append((depth, a.label, tuple(sorted(a.leaves())), info))
		for b in a:
			if isinstance(b, Tree):
				rec(b, depth + 1)
	rec(t, 0)
	return sorted(result)


def S(*args):
	return frozenset(args)


# ---- reference for state splits ----------------------------------------------
# name -> function(node, sent) -> list of annotations for this node, in order

def split(f):
	return lambda n, sent: [a for a in f(n, sent) if a is not None]


def lab(n):
	return n.label if n is not None else ''


def kidlabels(n):
	return [] if n.tag else [a.label for a in n.kids]


def headlabel(n):
	return next((a.label for a in n.kids if a.head), None)


def grandpa(n):
	return n.parent.parent if n.parent else None


def funcs(n):
	return [] if n.func in ('--', '') else n.func.split('-')


def first(n):
	"""First function tag."""
	return n.func.split('-')[0]


def vphd(n):
	return {'VB': 'HINF', 'TO': 'HTO', 'VBN': 'HPART', 'VBG': 'HPART'}.get(
			headlabel(n)) if n.label == 'VP' else None


def below(n):
	return [a for b in n.kids for a in b.nodes()] if not n.tag else []


def relpath(n, sent):
	"""Nodes on the path from an RC clause to the first relative pronoun."""
	result = []
	pron = S('PRELS', 'PRELAT', 'PWAV', 'PWS')
	clauses = []
	a = n
	while a is not None:
		if a.label == 'S' and a.func == 'RC':
			clauses.append(a)
		a = a.parent
	for clause in reversed(clauses):
		first = next((b for b in clause.nodes() if b.label in pron), None)
		if first is None:
			if clause is n:
				result.append('norel')
		else:
			path = []
			b = first.parent
			while b is not clause:
				path.append(b)
				b = b.parent
			if n is clause or any(b is n for b in path):
				result.append('rel')
	return result


def sgapped(n):
	if n.label != 'S':
		return None
	kids = kidlabels(n)
	nps = sum(a.startswith('NP') for a in kids)
	cc = any(a.startswith('CC') for a in kids)
	s = any(a.startswith('S') for a in kids)
	pred = any(a in ('VP', 'ADJP', 'PP', 'UCP') for a in kids)
	if not (cc and s) and (nps == 0 or (nps == 1 and not pred)):
		return 'G'


BE = S('is', 'am', 'are', 'was', 'were', "'m", "'re", 'being', 'be', 'been')
HAVE = S('have', "'ve", 'having', 'has', 'had', "'d")
AUXTAGS = S('VBZ', 'VBP', 'VBD', 'VBN', 'VBG', 'VB')
FINITE = S('VBZ', 'VBP', 'VBD', 'MD')


def word(n, sent):
	return sent[n.kids[0]] if n.tag else ''


def aux2(n, sent):
	"""'s is a form of have iff followed by a VP with past participle."""
	w = word(n, sent).lower()
	if n.label not in AUXTAGS:
		return None
	if w in ("'s", 's'):
		found = False
		for a in n.parent.kids:
			if found and a.label == 'VP' and set(kidlabels(a)) & {
					'VBD', 'VBN'}:
				return 'HV'
			found = found or a.label.startswith('VBZ')
		return 'BE'
	return ('BE' if w in BE or w == 'ai' else
			'HV' if w in HAVE else None)


def npadv(n):
	"""Propagate ADV along NP heads."""
	result = []
	a = n
	while a is not None:
		if a.label == 'NP' and 'ADV' in funcs(a):
			b = a
			while b is not n and not b.tag:
				b = next(c for c in b.kids if c.head)
				if b.label != 'NP':
					break
			if b is n and n.label == 'NP':
				result.append('ADV')
		a = a.parent
	return result


def tmp(n):
	"""Propagate TMP to nominal head preterminal."""
	result = []
	# post-order: lower ones first, then this node itself
	a = n
	while a is not None:
		if 'TMP' in funcs(a):
			b = a
			while not b.tag:
				b = next(c for c in b.kids if c.head)
			if a is n:
				result.append('TMP')
			if b is n and a is not b and n.label.startswith('N'):
				result.append('TMP')
		a = a.parent
	return result


def nlpercolate(n):
	result = []
	if n.parent is None or n.tag:
		return result
	for feat in ('inf', 'pv'):
		found = False
		for a in below(n):
			if a.tag and feat in a.morph:
				b, k = a.parent, 0
				while b is not n:
					b, k = b.parent, k + 1
				found = found or k < 2
		if found:
			result.append(feat)
	return result


def dominatesv(n):
	return n.label == 'VP' and any(a.tag and a.label[:1] == 'V'
			or a.tag and a.label.startswith('MD') for a in below(n))


def adjattach(n):
	if n.label in ('PP', 'AVP', 'ADV', 'ADJD'):
		own = ['V' if n.parent.label in ('S', 'VP') else
				'N' if n.parent.label in ('NP', 'PP') else '0']
	else:
		own = []
	if n.parent is not None and n.parent.label == 'AVP' and n.head:
		return adjattach(n.parent)[-1:] + own
	return own


KMFEATS = {
	'S-RC': lambda n, s: ['RC'] if n.label == 'S' and first(n) == 'RC' else [],
	'NP': lambda n, s: [first(n)] if n.label == 'NP' else [],
	'VP-GF': lambda n, s: [first(n)] if n.label == 'VP' else [],
	'MARK-YEAR': lambda n, s: ['year'] if len(word(n, s)) == 4 and word(
		n, s)[:2] in ('19', '20') and word(n, s).isdigit() else [],
	'PUNCT': lambda n, s: [word(n, s)] if word(n, s) in tuple('.?!') else [],
	'PARENT': lambda n, s: [n.parent.label.split('-')[0]] if (n.parent and not n.tag)
		else [],
	'TAGPA': lambda n, s: [n.parent.label] if n.tag and word(n, s)
		not in (',', '.') else [],
	'NP-PP': lambda n, s: ['NP'] if n.label == 'PP' and lab(n.parent) == 'NP'
		else [],
	'lexPrep': lambda n, s: [word(n, s)] if (n.label == 'APPR' and word(n, s)
			in ('in', 'von')) or (n.label == 'KON' and n.func == 'CD' and (
			word(n, s) in ('weder', 'entweder') or (word(n, s) == 'oder'
			and 'entweder' in s[:n.kids[0]]))) else [],
	'adjAttach': lambda n, s: adjattach(n),
	'relPath': relpath,
	'whFeat': lambda n, s: ['wh'] if n.label in ('NP', 'PP')
		and set(kidlabels(n)) & {'PWAT', 'PWS', 'PWAV'} else [],
	'nounSeq': lambda n, s: ['seq'] if lab(n.parent) == 'NP' and next(
		(k for k, (a, b) in enumerate(zip(n.parent.kids, n.parent.kids[1:]))
			if a.label == b.label == 'NN'), None) == n.parent.kids.index(n)
		else [],
	'properChunks': lambda n, s: ['name'] if lab(n.parent) == 'NP'
		and n.parent.func == 'PNC' else [],
	'markAP': lambda n, s: ((['pred'] if any(a.label == 'ADJD'
			for a in below(n)) else [])
			+ (['nom'] if not n.tag and headlabel(n) in ('NN', 'NP') else [])
			) if n.label == 'AP' else [],
	'subConjType': lambda n, s: [n.parent.func] if n.label == 'KOUS'
		and lab(n.parent) == 'S' and n.parent.func in ('SB', 'OC', 'MO', 'RE')
		and n is next(a for a in n.parent.kids if a.label == 'KOUS') else [],
	'VPfeat': lambda n, s: [headlabel(n)] if n.label == 'VP'
		and n.func == 'OC' else [],
	'noHead': lambda n, s: ['nohead'] if n.parent and not n.tag and not any(
		a.func in ('HD', 'AC', 'PD') for a in n.kids) else [],
	'noSubj': lambda n, s: ['nosubj'] if n.label == 'S' and n.func == 'CJ'
		and not n.tag and not any(a.func in ('SB', 'EP')
			or a.label in ('VVIMP', 'VAIMP') for a in n.kids) else [],
	'S-WH': lambda n, s: ['WH'] if n.label == 'S' and lab(n.parent) == 'SBAR'
		and any(a.startswith('WH') for a in kidlabels(n)) else [],
	'VP-HD': lambda n, s: [vphd(n)],
	'VP-HD,S-INF': lambda n, s: [vphd(n)] if n.label == 'VP' else (
		['INF'] if n.label == 'S' and any(a.head and a.label == 'VP'
			and vphd(a) in ('HINF', 'HTO') for a in n.kids) else []),
	'MARK-UNARY': lambda n, s: ['U'] if not n.tag and len(n.kids) == 1
		else [],
	'splitPercent': lambda n, s: ['%'] if word(n, s) == '%' else [],
	'splitPoss': lambda n, s: ['P'] if n.label == 'NP'
		and n.kids[-1].label == 'POS' else [],
	'splitCC': lambda n, s: [{'but': 'B', '&': 'A'}.get(word(n, s).lower())]
		if n.label == 'CC' else [],
	'unaryDT': lambda n, s: ['U'] if n.label == 'DT'
		and len(n.parent.kids) == 1 else [],
	'unaryRB': lambda n, s: ['U'] if n.label == 'RB'
		and len(n.parent.kids) == 1 else [],
	'splitAux': lambda n, s: [('BE' if word(n, s).lower() in BE
			or word(n, s) == "'s" else 'HV' if word(n, s).lower() in HAVE
			else None)] if n.label in AUXTAGS else [],
	'splitAux2': lambda n, s: [aux2(n, s)],
	'splitVP': lambda n, s: ['VBF' if headlabel(n) in FINITE
		else headlabel(n)] if n.label == 'VP' else [],
	'splitVP3': lambda n, s: [('VBF' if headlabel(n) in FINITE
		else headlabel(n) if headlabel(n) in ('TO', 'VBG', 'VBN', 'VB')
		else None)] if n.label == 'VP' else [],
	'splitSGapped': lambda n, s: [sgapped(n)],
	'splitTMP': lambda n, s: tmp(n),
	'splitBaseNP': lambda n, s: ['B'] if n.label == 'NP' and all(
		a.tag for a in n.kids) else [],
	'dominatesV': lambda n, s: ['v'] if dominatesv(n) else [],
	'splitNPADV': lambda n, s: npadv(n),
	'markDitransV': lambda n, s: ['2Arg'] if n.label.startswith('VB')
		and sum(a.label == 'NP' and 'TMP' not in funcs(a)
			for a in n.parent.kids) >= 2 else [],
	'markinf': lambda n, s: ['infinitive'] if n.label == 'V'
		and lab(n.parent) == 'VN' and lab(grandpa(n)) == 'VPinf' else [],
	'markpart': lambda n, s: ['participle'] if n.label == 'V'
		and lab(n.parent) == 'VN' and lab(grandpa(n)) == 'VPpart' else [],
	'markvn': lambda n, s: ['withVN'] * sum(a.label == 'VN'
		for a in ancestors(n)),
	'coord1': lambda n, s: [n.kids[1].label] if n.label == 'COORD'
		and len(n.kids) >= 2 else [],
	'de2': lambda n, s: ['de2'] if n.label == 'P' and word(n, s) in (
		'de', 'du', 'Des', "d'") else [],
	'markp1': lambda n, s: ['n'] if n.label == 'P' and lab(n.parent) == 'PP'
		and lab(grandpa(n)) == 'NP' else [],
	'mwadvs': lambda n, s: ['mwadv-s'] if n.label == 'MWADV'
		and 'S' in lab(n.parent) else [],
	'mwadvsel1': lambda n, s: ['mwadv1'] if n.label == 'MWADV'
		and kidlabels(n) == ['P', 'N'] else [],
	'mwadvsel2': lambda n, s: ['mwadv2'] if n.label == 'MWADV'
		and kidlabels(n) == ['P', 'D', 'N'] else [],
	'mwnsel1': lambda n, s: ['mwn1'] if n.label == 'MWN'
		and kidlabels(n) == ['N', 'A'] else [],
	'mwnsel2': lambda n, s: ['mwn2'] if n.label == 'MWN'
		and kidlabels(n) == ['N', 'P', 'N'] else [],
	'mwnsel3': lambda n, s: ['mwn3'] if n.label == 'MWN'
		and len(n.kids) == 3 and kidlabels(n)[::2] == ['N', 'N']
		and n.kids[1].tag and word(n.kids[1], s) == '-' else [],
	'nlpercolatemorph': lambda n, s: nlpercolate(n),
	'nlmwuhead': lambda n, s: [next(a.label for a in n.kids
		if a.head or a is n.kids[-1])] if n.label == 'MWU' else [],
}


def ancestors(n):
	while n.parent is not None:
		n = n.parent
		yield n


SPLITREF = {a: split(b) for a, b in KMFEATS.items()}
# name -> phrasal labels, tags, functions, words
ALPHABET = {
	'S-RC': (['S', 'NP'], ['X'], ['RC', 'MO', 'RC-2'], ['a']),
	'NP': (['NP', 'S'], ['NP', 'X'], ['SB', '--'], ['a']),
	'VP-GF': (['VP', 'S'], ['X'], ['SB', 'OC', '--'], ['a']),
	'MARK-YEAR': (['S'], ['X'], ['--'],
		['1999', '2010', '199', '1899', '19999', '20a0']),
	'PUNCT': (['S'], ['X', '.'], ['--'], ['.', '?', '!', ',', 'a']),
	'PARENT': (['A', 'B', 'A-X'], ['X'], ['--'], ['a']),
	'TAGPA': (['A', 'B'], ['X', 'Y'], ['--'], ['a', ',', '.']),
	'NP-PP': (['NP', 'PP', 'S'], ['X', 'NP'], ['--'], ['a']),
	'lexPrep': (['PP'], ['APPR', 'KON'], ['CD', 'HD'],
		['in', 'weder', 'oder', 'entweder', 'ob']),
	'adjAttach': (['S', 'VP', 'NP', 'PP', 'AVP'], ['ADV', 'X'], ['--', 'HD'],
		['a']),
	'relPath': (['S', 'NP'], ['PRELS', 'PWS', 'X'], ['RC', '--'], ['a']),
	'whFeat': (['NP', 'PP', 'S'], ['PWAT', 'PWS', 'X'], ['--'], ['a']),
	'nounSeq': (['NP', 'S'], ['NN', 'X'], ['--'], ['a']),
	'properChunks': (['NP', 'S'], ['NN'], ['PNC', '--'], ['a']),
	'markAP': (['AP', 'NP'], ['ADJD', 'NN', 'X'], ['HD', 'MO'], ['a']),
	'subConjType': (['S', 'NP'], ['KOUS', 'X'], ['SB', 'CP', 'RE'], ['a']),
	'VPfeat': (['VP', 'S'], ['V', 'X'], ['OC', 'HD', 'MO'], ['a']),
	'noHead': (['S', 'NP'], ['X'], ['HD', 'AC', 'MO', 'PD'], ['a']),
	'noSubj': (['S', 'NP'], ['VVIMP', 'X'], ['CJ', 'SB', 'MO'], ['a']),
	'S-WH': (['SBAR', 'S', 'WHNP'], ['WDT', 'X'], ['--'], ['a']),
	'VP-HD': (['VP', 'S'], ['VB', 'TO', 'VBG', 'X'], ['HD', '--'], ['a']),
	'VP-HD,S-INF': (['VP', 'S'], ['VB', 'TO', 'VBG', 'X'], ['HD', '--'],
		['a']),
	'MARK-UNARY': (['A', 'B'], ['X'], ['--'], ['a']),
	'splitPercent': (['A'], ['NN', 'X'], ['--'], ['%', 'a', '%%']),
	'splitPoss': (['NP', 'S'], ['POS', 'X'], ['--'], ['a']),
	'splitCC': (['S'], ['CC', 'X'], ['--'], ['but', 'But', '&', 'and']),
	'unaryDT': (['NP', 'S'], ['DT', 'X'], ['--'], ['a']),
	'unaryRB': (['NP', 'S'], ['RB', 'X'], ['--'], ['a']),
	'splitAux': (['VP'], ['VBZ', 'VB', 'MD'], ['--'],
		["'s", 'be', 'Had', 'goes']),
	'splitAux2': (['VP', 'S'], ['VBZ', 'VBN', 'X'], ['--'],
		["'s", 'had', 'is']),
	'splitVP': (['VP', 'S'], ['VBZ', 'MD', 'TO', 'X'], ['HD', '--'], ['a']),
	'splitVP3': (['VP', 'S'], ['VBZ', 'MD', 'TO', 'X'], ['HD', '--'], ['a']),
	'splitSGapped': (['S', 'NP', 'VP'], ['CC', 'X', 'NP'], ['--'], ['a']),
	'splitTMP': (['NP', 'S'], ['NN', 'X'], ['TMP', 'HD', 'SBJ-TMP'], ['a']),
	'splitBaseNP': (['NP', 'S'], ['X'], ['--'], ['a']),
	'dominatesV': (['VP', 'S'], ['VB', 'MD', 'X'], ['--'], ['a']),
	'splitNPADV': (['NP', 'S'], ['X', 'NP'], ['ADV', 'HD', 'SBJ-ADV'], ['a']),
	'markDitransV': (['VP', 'NP'], ['VB', 'NP', 'X'], ['TMP', '--'], ['a']),
	'markinf': (['VN', 'VPinf', 'VPpart'], ['V', 'X'], ['--'], ['a']),
	'markpart': (['VN', 'VPinf', 'VPpart'], ['V', 'X'], ['--'], ['a']),
	'markvn': (['VN', 'S'], ['VN', 'X'], ['--'], ['a']),
	'coord1': (['COORD', 'S'], ['X', 'Y'], ['--'], ['a']),
	'de2': (['PP'], ['P', 'X'], ['--'], ['de', 'du', 'Des', "d'", 'dela']),
	'markp1': (['PP', 'NP'], ['P', 'X'], ['--'], ['a']),
	'mwadvs': (['MWADV', 'Ssub', 'NP'], ['X', 'MWADV'], ['--'], ['a']),
	'mwadvsel1': (['MWADV', 'S'], ['P', 'N', 'D'], ['--'], ['a']),
	'mwadvsel2': (['MWADV', 'S'], ['P', 'N', 'D'], ['--'], ['a']),
	'mwnsel1': (['MWN', 'S'], ['P', 'N', 'A'], ['--'], ['a']),
	'mwnsel2': (['MWN', 'S'], ['P', 'N', 'A'], ['--'], ['a']),
	'mwnsel3': (['MWN'], ['P', 'N'], ['--'], ['-', 'a']),
	'nlpercolatemorph': (['A', 'B'], ['X'], ['--'], ['a']),
	'nlmwuhead': (['MWU', 'S'], ['n', 'X'], ['hd', '--'], ['a']),
}
MORPHS = ['N(soort,ev)', 'WW(pv,tgw)', 'WW(inf,vrij)']


def shapes(n, unary, disc=True):
	for h in gen.hierarchies(tuple(range(n)), disc):
		for u in gen.unaries(h, unary):
			yield u if isinstance(u, tuple) else (u, )


def numint(shape):
	return gen.internal(shape)


BOUNDS = {'quick': [(1, 2), (2, 2), (3, 0)],
		'thorough': [(1, 3), (2, 3), (3, 1)]}


def annotated(alphabet, n, unary, morphs=None):
	phrases, tags, fs, words = alphabet
	for shape in shapes(n, unary):
		k = numint(shape)
		for ls in product(phrases, repeat=k - 1):
			for ts in product(tags, repeat=n):
				for ff in product(fs, repeat=k - 1 + n):
					for ws in product(words, repeat=n):
						for ms in product(morphs or ['--'], repeat=n):
							yield (shape, ('ROOT', ) + ls, ts, ff, ws, ms)


def gensplits(tier):
	for name in sorted(ALPHABET):
		more = [a for a in ([(1, 3)] if name == 'S-WH' else [(3, 1)]
				if name in ('mwadvsel2', 'mwnsel2', 'mwnsel3') else [])
				if a not in BOUNDS[tier]]
		for n, unary in BOUNDS[tier] + more:
			for case in annotated(ALPHABET[name], n, unary,
					MORPHS if name == 'nlpercolatemorph' else None):
				yield (name, ) + case


def checksplits(case, rec):
	name, shape, ls, ts, ff, ws, ms = case
	ref = mk(shape, ls, ts, ff, ms)
	t = real(ref)
	sent = list(ws)
	orig = show(t, sent)
	rec.state(case)
	rec.step()
	rec.trace()
	before = annotations(t, (LEMMA, MORPH, FUNC))
	names = name.split(',')
	try:
		res = tt.transform(t, sent, names)
	except Exception as err:
		rec.fail('%s on %s: %r' % (name, orig, err), name)
		return
	got = [a.label for a in t.subtrees()]
	want = ['^'.join([a.label] + SPLITREF[name](a, sent))
			for a in ref.nodes()]
	rec.expect('%s on %s' % (name, orig), got, want, name)
	rec.expect('%s returns its argument' % name, res is t, True, name)
	rec.expect('words after %s on %s' % (name, orig), sent, list(ws), name)
	prob = wellformed(t)
	if prob:
		rec.fail('%s on %s: %s' % (name, orig, prob), name)
	rec.outcome(tuple(w for w in want if '^' in w))
	back = tt.reversetransform(t, sent, names)
	rec.expect('%s and its reverse on %s' % (name, orig),
			annotations(back, (LEMMA, MORPH, FUNC)), before, name)


# ---- structural transforms ---------------------------------------------------

def always(ref, sent):
	return True


def kids(n):
	return [] if n.tag else n.kids


def noneof(*labels):
	return lambda ref, sent: not any(a.label in labels for a in ref.nodes())


def presbar(ref, sent):
	return not any(a.label == 'SBAR' or (kids(a) and kids(a)[0].func == 'CP'
			and kids(a)[0].label == 'S') or kidlabels(a) == ['PTKANT', 'S']
			for a in ref.nodes())


def prenest(ref, sent):
	"""Modifiers are PPs/adverbs; no NP has a child NP that is not MO."""
	return not any(a.label == 'NP' and (
			any(b.label == 'NP' for b in kids(a))
			or any(b.func == 'MO' and b.label not in ('PP', 'ADV')
				for b in kids(a))) for a in ref.nodes())


def prepart(ref, sent):
	for a in ref.nodes():
		svp = [b for b in kids(a) if b.func == 'SVP']
		if len(svp) > 1 or any(b.label != 'PTKVZ' for b in svp):
			return False
		if a.label.startswith('V') and 'PTKVZ' in kidlabels(a):
			return False
		if svp and [b.label for b in kids(a) if b.head][0][0] != 'V':
			return False
	return True


def previnfin(ref, sent):
	for a in ref.nodes():
		if a.label == 'VP' and any(b.endswith('FIN') for b in kidlabels(a)):
			return False
		if a.label.endswith('FIN') and a.func != 'HD':
			return False
		if kids(a) and kids(a)[0].func == 'DM':
			return False
	return True


def prepp(ref, sent):
	for a in ref.nodes():
		if a.label == 'PP' and ('NP' in kidlabels(a) or any(
				b.label == 'NN' and b.func == 'AC' for b in kids(a))):
			return False
		# NN may not end up directly below PP next to the new NP
		fs = [b.func for b in kids(a)]
		if a.label == 'PP' and 'AC' in fs and 'NK' in fs:
			if fs[0] != 'AC' or fs[-1] == 'AC':
				return False
	return True


def preunary(ref, sent):
	return not any(a.label == 'NP' and not a.tag and len(a.kids) == 1
			and lab(a.parent) in ('S', 'VP', 'ROOT', 'DL', 'SMAIN', 'PP')
			for a in ref.nodes())


def roundtripsof(ref, names):
	return names


# name(s) -> phrasal labels, tags, functions, words, morphs, precondition of
# exact reversal, annotations that should be restored
STRUCT = {
	'FUNC-NODE': (['A', 'B'], ['X', 'Y'], ['SB', '--', 'HD-OA'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'APPEND-FUNC': (['A', 'B'], ['X', 'Y'], ['SB', '--', 'HD-OA'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'MORPH-NODE': (['A', 'B'], ['X', 'Y'], ['SB', '--'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'LEMMA-NODE': (['A', 'B'], ['X', 'Y'], ['SB', '--'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'FUNC-NODE,MORPH-NODE,LEMMA-NODE': (['A', 'B'], ['X', 'Y'],
		['SB', '--'], 2, always, (LEMMA, MORPH, FUNC)),
	'LEMMA-NODE,MORPH-NODE': (['A', 'B'], ['X'], ['SB', '--'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'APPEND-FUNC,MORPH-NODE': (['A', 'B'], ['X'], ['SB', '--'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'APPEND-MORPH': (['A', 'B'], ['X', 'Y'], ['SB', '--'], 2, always,
		(LEMMA, MORPH, FUNC)),
	'APPEND-FUNC,APPEND-MORPH,PARENT': (['A', 'B'], ['X', 'Y'], ['SB', '--'],
		2, always, (LEMMA, MORPH, FUNC)),
	'addCase': (['A', 'B'], ['X', 'Y'], ['SB'], 2, always, (LEMMA, FUNC)),
	'nlselectmorph': (['A', 'B'], ['X', 'Y'], ['SB'], 2, always,
		(LEMMA, FUNC)),
	'FANOUT': (['A', 'B'], ['X', 'Y'], ['SB'], 1, always,
		(LEMMA, MORPH, FUNC)),
	'SBAR': (['S', 'NP', 'SBAR'], ['KOUS', 'X'], ['CP', 'SB'], 1, presbar,
		(LEMMA, MORPH, FUNC)),
	'NEST': (['NP', 'PP'], ['ADV', 'NN'], ['MO', 'NK'], 1, prenest,
		(LEMMA, MORPH, FUNC)),
	'POS-PART': (['S', 'VP'], ['VVFIN', 'PTKVZ', 'X'], ['SVP', 'HD', 'MO'], 1,
		prepart, (LEMMA, MORPH, FUNC)),
	'VP-FIN_NEGRA': (['S', 'VP', 'CS'], ['VVFIN', 'NN'], ['HD', 'SB', 'OA',
		'DM'], 1, previnfin, (LEMMA, MORPH, FUNC)),
	'PP-NP': (['PP', 'NP', 'AP'], ['APPR', 'NN'], ['AC', 'NK', 'MO'], 1,
		prepp, (LEMMA, MORPH, FUNC)),
	'DP': (['NP', 'S'], ['ART', 'NN', 'PN'], ['NK'], 1, always,
		(LEMMA, MORPH, FUNC)),
	'addUnary': (['S', 'NP', 'PN'], ['NN', 'PN', 'X'], ['SB', 'HD'], 2,
		preunary, (LEMMA, MORPH, FUNC)),
	'nladdunary': (['SMAIN', 'NP', 'PP'], ['n', 'vnw', 'X'], ['su', 'hd'], 2,
		preunary, (LEMMA, MORPH, FUNC)),
	'elimNKCJ': (['NP', 'CNP', 'S'], ['X'], ['NK', 'CJ', 'SB'], 1, always,
		()),
	'nlelimcnj': (['CONJ', 'NP'], ['X'], ['cnj', 'su', 'crd'], 1, always, ()),
	'VP-FIN_WSJ': (['S', 'NP', 'VP'], ['VB', 'X'], ['SBJ', '--'], 1,
		None, ()),
	'ftbraisecompl': (['VPinf', 'Ssub', 'NP'], ['P', 'C', 'X', 'PONCT'],
		['--'], 1, None, ()),
	'splitIN': (['NP', 'PP', 'S', 'SBAR'], ['IN', 'X'], ['--'], 1, always,
		(LEMMA, MORPH, FUNC)),
	'splitIN4': (['NP', 'PP', 'S', 'SBAR'], ['IN', 'X'], ['--'], 1, always,
		(LEMMA, MORPH, FUNC)),
}
FEATS = ['Nom.Sg', 'N(soort,ev)']


def genstruct(tier):
	for name in sorted(STRUCT):
		phrases, tags, fs, nm, _, _ = STRUCT[name]
		for n, unary in BOUNDS[tier]:
			for case in annotated((phrases, tags, fs, ['w']), n, unary):
				shape, ls, ts, ff, ws, _ = case
				for ms in ([tuple([FEATS[(i + k) % 2] for i in range(n)])
						for k in range(nm)]):
					yield (name, shape, ls, ts, ff, ms)


def describe(ref):
	return '(%s:%s %s)' % (ref.label, ref.func, ref.kids[0] if ref.tag
			else ' '.join(map(describe, ref.kids)))


def checkstruct(case, rec):
	name, shape, ls, ts, ff, ms = case
	n = len(ts)
	lemmas = ['lem%d(' % i for i in range(n)]
	ref = mk(shape, ls, ts, ff, ms, lemmas)
	t = real(ref)
	sent = ['w%d' % i for i in range(n)]
	orig = describe(ref)
	names = name.split(',')
	rec.state(case)
	rec.step()
	rec.trace()
	_, _, _, _, pre, what = STRUCT[name]
	before = annotations(t, what)
	tags = {i: a for i, a in enumerate(ts)}
	try:
		res = tt.transform(t, sent, names)
	except Exception as err:
		rec.fail('%s on %s: %r' % (name, orig, err), name)
		return
	rec.expect('%s returns its argument' % name, res is t, True, name)
	prob = wellformed(t)
	if prob:
		rec.fail('%s on %s: %s: %s' % (name, orig, prob, t), name)
		return
	rec.expect('words after %s on %s' % (name, orig),
			(sorted(t.leaves()), sent),
			(list(range(n)), ['w%d' % i for i in range(n)]), name)
	expected = EXPECT.get(name)
	if expected and expected(ref) is not None:
		rec.expect('%s on %s' % (name, orig),
				gen.canon(gen.totuple(t)), gen.canon(expected(ref)), name)
	rec.outcome(str(t))
	if pre is None:
		return
	# a parser returns a tree without any attributes
	bare = ParentedTree(str(t))
	for b in bare.subtrees(lambda b: b and not isinstance(b[0], Tree)):
		b[:] = [int(x) for x in b]
	for which, obj in (('tree', t), ('parse', bare)):
		try:
			back = tt.reversetransform(obj, sent, names)
		except Exception as err:
			rec.fail('reverse of %s on %s: %r' % (name, which, err), name)
			return
		prob = wellformed(back)
		if prob:
			rec.fail('reverse of %s on %s of %s: %s: %s' % (
					name, which, orig, prob, back), name)
		rec.expect('words after reverse of %s' % name,
				sorted(back.leaves()), list(range(n)), name)
		if not pre(ref, sent):
			continue
		rec.count('exactly reversed')
		if which == 'tree':
			rec.expect('%s and its reverse on %s' % (name, orig),
					annotations(back, what), before, name)
		else:
			rec.expect('%s and its reverse on a parse like %s' % (name, orig),
					annotations(back, encoded(names)),
					encodedref(ref, names), name)


def encoded(names):
	"""Attributes that are represented in the labels."""
	result = []
	if 'LEMMA-NODE' in names:
		result.append(LEMMA)
	if 'MORPH-NODE' in names or 'APPEND-MORPH' in names:
		result.append(MORPH)
	if 'FUNC-NODE' in names or 'APPEND-FUNC' in names:
		result.append(FUNC)
	return result


def encodedref(ref, names):
	what = encoded(names)
	result = []

	def rec(a, depth):
		vals = {LEMMA: a.lemma, MORPH: a.morph if a.tag else '--',
				FUNC: a.func}
		result.append((depth, a.label, tuple(sorted(a.leaves())), tuple([
				vals[w] for w in what if w != LEMMA or a.tag])))
		for b in kids(a):
			rec(b, depth + 1)
	rec(ref, 0)
	return sorted(result)


# ---- reference results of structural transforms --------------------------------

def mapped(f):
	"""Bottom-up: f(node, list of results for children) -> tuple."""
	def rec(a):
		return f(a, a.kids if a.tag else [rec(b) for b in a.kids])
	return rec


def br(m):
	return m.replace('(', '[').replace(')', ']')


def xfuncnode(a, ks):
	fs = funcs(a)
	inner = (a.label, ) + tuple(ks)
	return ('-' + '-'.join(fs), inner) if fs else inner


def xappendfunc(a, ks):
	return ('-'.join([a.label] + funcs(a)), ) + tuple(ks)


def xmorph(a, ks):
	return (br(a.morph), (a.label, ks[0])) if a.tag else (
			a.label, ) + tuple(ks)


def xlemma(a, ks):
	return (a.label, (a.lemma.replace('(', '#LRB#'), ks[0])) if a.tag else (
			a.label, ) + tuple(ks)


def xappendmorph(a, ks):
	return (a.label + '/' + br(a.morph), ks[0]) if a.tag else (
			a.label, ) + tuple(ks)


def xcase(a, ks):
	return (a.label + ('/Nom' if a.tag and a.morph.startswith('Nom') else ''),
			) + tuple(ks)


def xsbar(a, ks):
	if a.label == 'S' and not a.tag and len(ks) > 1 and a.kids[
			0].func == 'CP':
		return ('SBAR', ks[0], ('S', ) + tuple(ks[1:]))
	return (a.label, ) + tuple(ks)


def xdp(a, ks):
	if a.label == 'NP' and not a.tag and a.kids[0].label == 'ART':
		if len(ks) > 1 and a.kids[1].label != 'PN':
			return ('DP', ks[0], ('NP', ) + tuple(ks[1:]))
		return ('DP', ) + tuple(ks)
	return (a.label, ) + tuple(ks)


def xunary(tags, parents):
	def f(a, ks):
		result = (a.label, ) + tuple(ks)
		if a.label in tags and lab(a.parent) in parents and not (
				a.label == 'PN' and len(ks) == 1):
			return ('NP', result)
		return result
	return f


def xppnp(a, ks):
	fs = [b.func for b in kids(a)]
	topp = set(i for i, f in enumerate(fs) if f == 'AC')
	if a.label == 'PP' and topp:
		if 'NK' in fs:
			nks = [i for i, f in enumerate(fs) if f == 'NK']
			if min(topp) < nks[0]:
				topp.update(range(min(topp)))
			if max(topp) > nks[-1]:
				topp.update(range(max(topp), len(fs)))
		rest = [i for i in range(len(fs)) if i not in topp]
		if len(rest) > 1 or (rest
				and a.kids[rest[0]].label not in ('NP', 'PN')):
			return ('PP', ) + tuple(ks[i] for i in sorted(topp)) + (
					('NP', ) + tuple(ks[i] for i in rest), )
	return (a.label, ) + tuple(ks)


def xwsj(a, ks):
	if a.label == 'S' and not a.tag and not any(
			b.label.startswith('VP') for b in a.kids):
		subj = [k for b, k in zip(a.kids, ks) if 'SBJ' in funcs(b)]
		rest = [k for b, k in zip(a.kids, ks) if 'SBJ' not in funcs(b)]
		if rest:
			return ('S', ) + tuple(subj) + (('VP', ) + tuple(rest), )
	return (a.label, ) + tuple(ks)


def xnest(a, ks):
	if a.label == 'NP' and not a.tag:
		mods = [k for b, k in zip(a.kids, ks) if b.func == 'MO']
		rest = [k for b, k in zip(a.kids, ks) if b.func != 'MO']
		if mods:
			# modifiers are peeled off from the right if they follow the head;
			# if the first child is a modifier, from left to right
			order = mods if a.kids[0].func == 'MO' else mods[::-1]
			if not rest:
				rest, order = [order[-1]], order[:-1]
			result = ('NP', ) + tuple(rest)
			for m in reversed(order):
				result = ('NP', result, m)
			return result
	return (a.label, ) + tuple(ks)


def xpart(a, ks):
	svp = [i for i, b in enumerate(kids(a)) if b.func == 'SVP']
	if svp:
		s = svp[-1]
		h = next(i for i, b in enumerate(a.kids) if b.head)
		if a.kids[h].label != a.label and h != s:
			ks = list(ks)
			ks[h] = (a.kids[h].label, ks[h], ks[s])
			del ks[s]
	return (a.label, ) + tuple(ks)


def xcompl(a, ks):
	return compl(a.label, [b.label for b in kids(a)], tuple(ks))


def compl(label, labs, ks):
	"""The constituent without its complementizer can have another one."""
	if label == 'VPinf' and len(labs) > 1 and labs[0] == 'P':
		return ('PP', ks[0], compl('VPinf', labs[1:], ks[1:]))
	if label == 'Ssub':
		i = 2 if labs and labs[0] == 'PONCT' else 1
		if len(labs) > i and labs[i - 1] == 'C':
			return ('Ssub', ) + ks[:i] + (('Sint', ) + ks[i:], )
	return (label, ) + ks


def fanout(a):
	k = gen.comps(a.leaves())
	return a.label + ('_%d' % k if k > 1 else '')


GROUP = ('HD', 'OA', 'MO')


def xvpfin(ref):
	"""Only the top-level clause(s) get a finite VP."""
	top = [a for a in kids(ref) if a.label == 'S']
	if not top:
		cs = [a for a in kids(ref) if a.label == 'CS']
		top = [a for a in kids(cs[0]) if a.label == 'S'] if cs else []
	dm = [a for a in top if kids(a) and len(kids(a)) > 1
			and kids(a)[0].func == 'DM']
	ids = [id(a) for a in top]

	def plain(a):
		return a.kids[0] if a.tag else None

	def rec(a):
		if a.tag:
			return (a.label, a.kids[0])
		ks = [rec(b) for b in a.kids]
		if id(a) in ids:
			return clause(a.kids, ks)
		return (a.label, ) + tuple(ks)

	def clause(orig, ks):
		if any(b.label.startswith('V') and b.label.endswith('FIN')
				for b in orig):
			vp = [k for b, k in zip(orig, ks) if b.func in GROUP]
			vplabs = [b.label for b in orig if b.func in GROUP]
			if vp and vplabs != ['VP']:
				return ('S', ) + tuple([k for b, k in zip(orig, ks)
						if b.func not in GROUP]) + (('VP', ) + tuple(vp), )
		return ('S', ) + tuple(ks)
	if dm:
		return None
	return rec(ref)


EXPECT = {
	'FUNC-NODE': mapped(xfuncnode),
	'APPEND-FUNC': mapped(xappendfunc),
	'MORPH-NODE': mapped(xmorph),
	'LEMMA-NODE': mapped(xlemma),
	'APPEND-MORPH': mapped(xappendmorph),
	'addCase': mapped(xcase),
	'SBAR': mapped(xsbar),
	'DP': mapped(xdp),
	'addUnary': mapped(xunary(('NN', 'PN'), ('S', 'VP', 'ROOT', 'DL'))),
	'nladdunary': mapped(xunary(('n', 'vnw'), ('SMAIN', 'PP', 'INF'))),
	'PP-NP': mapped(xppnp),
	'VP-FIN_WSJ': mapped(xwsj),
	'NEST': mapped(xnest),
	'POS-PART': mapped(xpart),
	'VP-FIN_NEGRA': xvpfin,
	'ftbraisecompl': mapped(xcompl),
	'FANOUT': mapped(lambda a, ks: (fanout(a), ) + tuple(ks)),
}


# ---- presets -----------------------------------------------------------------

PRESETALPH = {
	'negra': (['S', 'VP', 'NP'], ['NN', '.'], ['RC', 'OC'], ['a', '?']),
	'wsj': (['S', 'VP', 'NP'], ['VB', 'TO', 'NN'], ['HD'], ['a']),
	'alpino': (['NP', 'SMAIN'], ['n', 'let'], ['su'], ['a', '.']),
	'km2003wsj': (['S', 'NP', 'VP'], ['IN', 'VBZ', 'DT'], ['TMP', 'ADV'],
		["a"]),
	'km2003simple': (['S', 'NP', 'VP'], ['IN', 'VBZ', 'DT'], ['TMP', 'ADV'],
		["a"]),
	'fraser2013tiger': (['S', 'NP', 'PP'], ['NN', 'APPR', 'PRELS'],
		['SB', 'RC', 'HD'], ['a']),
	'lassy': (['SMAIN', 'NP', 'MWU'], ['n', 'vg', 'let'], ['su', 'hd'],
		['a']),
	'lassy-func': (['SMAIN', 'NP', 'MWU'], ['n', 'vg', 'let'], ['su', 'hd'],
		['a']),
	'green2013ftb': (['PP', 'NP', 'MWADV'], ['P', 'N', 'V'], ['--'],
		['a', 'du']),
}


def genpresets(tier):
	for name in sorted(PRESETALPH):
		for n, unary in BOUNDS[tier]:
			if tier == 'quick' and n == 2:
				unary = 1
			for case in annotated(PRESETALPH[name], n, unary):
				shape, ls, ts, ff, ws, _ = case
				yield name, shape, ls, ts, ff, ws


def checkpreset(case, rec):
	name, shape, ls, ts, ff, ws = case
	n = len(ts)
	names = tt.expandpresets([name])
	ref = mk(shape, ls, ts, ff, [('Nom.Sg.*', 'N(soort,ev,stan)', 'VG(neven)')[
			i % 3] for i in range(n)])
	t = real(ref)
	sent = list(ws)
	rec.state(case)
	rec.step()
	rec.trace()
	orig = describe(ref)
	before = annotations(t, ())
	try:
		tt.transform(t, sent, names)
		prob = wellformed(t)
		if prob or sorted(t.leaves()) != list(range(n)):
			rec.fail('%s on %s gives %s: %s' % (name, orig, t, prob), name)
			return
		rec.outcome(str(t))
		back = tt.reversetransform(t, sent, names)
	except Exception as err:
		rec.fail('%s on %s: %r' % (name, orig, err), name)
		return
	prob = wellformed(back)
	if prob:
		rec.fail('reverse of %s on %s gives %s: %s' % (
				name, orig, back, prob), name)
		return
	if preunary(ref, sent):
		rec.count('exactly reversed')
		rec.expect('%s and reverse on %s' % (name, orig),
				annotations(back, ()), before, name)


# ---- relational-realizational ------------------------------------------------

def genrr(tier):
	for n, unary in ([(1, 1), (2, 1), (3, 0)] if tier == 'quick' else
			[(1, 2), (2, 2), (3, 1)]):
		for case in annotated((['A', 'B'], ['X'], ['SB', 'HD', 'MO'], ['a']),
				n, unary):
			shape, ls, ts, ff, ws, _ = case
			for adj, left, right in ((None, True, True), ('MO', True, True),
					('MO', True, False), ('MO', False, True)):
				for ign in (None, ['SB']):
					for lvl in (0, 2):
						yield shape, ls, ts, ff, adj, left, right, ign, lvl


def refrr(a, adj, left, right, ign, lvl):
	"""(S (S/<functions of arguments> (function/S child) ...))"""
	ign = ign or ()

	def morphof(b):
		"""(levels left, features) percolating from b."""
		if b.tag:
			return lvl, set(b.morph.split('.')) - {'*', '--'}
		feats, levels = set(), 0
		for c in b.kids:
			k, f = morphof(c)
			if k and f:
				feats |= f
				levels = max(levels, k)
		if not levels or b.label == 'ROOT':
			return 0, set()
		return levels - 1, feats

	if a.tag:
		return ('%s/%s' % (a.label, a.morph), a.kids[0])
	isarg = [b.func != adj and b.func not in ign for b in a.kids]
	label = a.label
	feats, levels = set(), 0
	for c in a.kids:
		k, f = morphof(c)
		if k and f:
			feats |= f
			levels = max(levels, k)
	if feats and levels and a.label != 'ROOT':
		label += '-' + '.'.join(sorted(feats))
	kids_ = []
	for i, b in enumerate(a.kids):
		func = b.func
		if func == adj:
			prev = [c.func for c, ok in zip(a.kids[:i], isarg[:i]) if ok]
			nxt = [c.func for c, ok in zip(a.kids[i + 1:], isarg[i + 1:])
					if ok]
			prev = prev[-1] if prev and left else ''
			nxt = nxt[0] if nxt and right else ''
			if prev or nxt:
				func = '%s:%s' % (prev, nxt)
		kids_.append(('%s/%s' % (func, a.label),
				refrr(b, adj, left, right, ign, lvl)))
	return (label, ('%s/<%s>' % (a.label, ','.join(sorted(
			b.func for b, ok in zip(a.kids, isarg) if ok))), ) + tuple(kids_))


def checkrr(case, rec):
	shape, ls, ts, ff, adj, left, right, ign, lvl = case
	ref = mk(shape, ls, ts, ff, [('Nom.Sg', '*.Pl', '--')[i % 3]
			for i in range(len(ts))])
	t = real(ref)
	rec.state(case)
	rec.step()
	rec.trace()
	orig = describe(ref)
	what = 'rrtransform %r' % ((adj, left, right, ign, lvl), )
	try:
		res = tt.rrtransform(t, morphlevels=lvl, adjunctionlabel=adj,
				ignorefunctions=ign, adjleft=left, adjright=right)[0]
	except Exception as err:
		rec.fail('%s of %s: %r' % (what, orig, err))
		return
	rec.expect('%s of %s' % (what, orig), gen.totuple(res),
			refrr(ref, adj, left, right, ign, lvl))
	rec.expect('original after %s' % what, gen.totuple(t),
			gen.totuple(real(ref)))
	rec.outcome(str(res))
	if adj and not all(b.func != adj or b.func == adj for b in ref.nodes()):
		return
	back = tt.rrbacktransform(res, adjunctionlabel=adj)
	rec.expect('%s and back of %s' % (what, orig),
			annotations(back, (FUNC, )), annotations(t, (FUNC, )))
	prob = wellformed(back)
	if prob:
		rec.fail('%s and back of %s: %s' % (what, orig, prob))
	rec.expect('morphology after %s and back' % what,
			[a.source[MORPH] for a in back.subtrees()
				if isinstance(a[0], int)],
			[a.morph for a in ref.nodes() if a.tag])


# ---- label mappings ----------------------------------------------------------

CMAP = {'P': {'A', 'B'}, 'Q': {'C'}}


def gencollapse(tier):
	labs = ['A', 'B', 'C', 'A^B', 'A|<B,C>', 'A-SBJ', 'C|<X>^<A,B>']
	for n, unary in [(1, 1), (2, 1)] + ([(3, 0)] if tier == 'thorough' else []):
		for shape in shapes(n, unary):
			for ls in product(labs, repeat=numint(shape) - 1):
				for ts in product(['X', 'A'], repeat=n):
					yield shape, ('ROOT', ) + ls, ts


CREF = {'A': 'P', 'B': 'P', 'C': 'Q', 'A^B': 'P^P', 'A|<B,C>': 'P|<P,Q>',
	'A-SBJ': 'P', 'C|<X>^<A,B>': 'Q|<X>^<P,P>'}


def checkcollapse(case, rec):
	shape, ls, ts = case
	cref = dict(CREF)
	if 'A' in ts:  # a POS tag is never collapsed
		cref.update({'A': 'A', 'A^B': 'A^P', 'A|<B,C>': 'A|<P,Q>',
				'A-SBJ': 'A', 'C|<X>^<A,B>': 'Q|<X>^<A,P>'})
	if 'X' not in ts:
		cref['C|<X>^<A,B>'] = cref['C|<X>^<A,B>'].replace('X', '')
	ref = mk(shape, ls, ts, ['--'] * 20)
	t = real(ref)
	rec.state(case)
	rec.step()
	rec.trace()
	trees, mapping = tt.collapselabels([t], tbmapping=CMAP)

	def want(a, top=True):
		return (a.label if a.tag or top else cref[a.label], ) + (
				(a.kids[0], ) if a.tag else tuple(
					want(b, False) for b in a.kids))
	rec.expect('collapselabels of %s' % describe(ref),
			gen.totuple(trees[0]), want(ref))
	rec.outcome(str(trees[0]))
	wantmap = {a.label: a.label if a.tag else cref[a.label]
			for a in list(ref.nodes())[1:]}
	rec.expect('mapping for %s' % describe(ref),
			{a: mapping.get(a) for a in wantmap}, wantmap)
	rec.expect('mapping of root', mapping.get('ROOT'), 'ROOT')


# ---- undoing compounds -------------------------------------------------------

def genftb(tier):
	for base, tags in (('N', ['N', 'A', 'D', 'P', 'C', 'P+D']),
			('V', ['V', 'P', 'A', 'D', 'N']),
			('ADV', ['P', 'D', 'A', 'N', 'P+D'])):
		for n in range(1, 5 if tier == 'quick' else 7):
			for ts in product(tags, repeat=n):
				if tt.FTBREGULARCOMPOUNDPATTERNS[base].match(' '.join(ts)):
					for left in (0, 1):
						for right in (0, 1):
							yield base, ts, left, right


def checkftb(case, rec):
	base, ts, left, right = case
	n = len(ts) + left + right
	mw = ParentedTree('MW' + base, [ParentedTree(a, [left + i])
			for i, a in enumerate(ts)])
	t = ParentedTree('SENT', [ParentedTree('ADV', [0])] * left + [mw]
			+ [ParentedTree('ADV', [n - 1])] * right)
	for i, a in enumerate(t.subtrees()):
		a.source = ['--', '--', a.label, '--', '--', '0']
	mw.type = HEAD
	sent = ['w%d' % i for i in range(n)]
	tags = sorted(t.pos())
	orig = str(t)
	rec.state(case)
	rec.step()
	rec.trace()
	try:
		tt.transform(t, sent, ['ftbundocompounds'])
	except Exception as err:
		rec.fail('ftbundocompounds on %s: %r' % (orig, err))
		return
	prob = wellformed(t)
	if prob:
		rec.fail('ftbundocompounds on %s: %s: %s' % (orig, prob, t))
	rec.expect('words and tags after ftbundocompounds on %s' % orig,
			sorted(t.pos()), tags)
	rec.outcome(str(t))
	rec.expect('compound in %s' % t, [a.label for a in t.subtrees(
			lambda a: a.label.startswith('MW'))], [] if len(ts) > 1
			else [mw.label])
	tt.FTBCOMPOUNDS.clear()
	tt.FTBCOMPOUNDS.add(' '.join(sent[left:n - right]))
	if len(ts) > 1 and not (base == 'V'):
		back = tt.reversetransform(t, sent, ['ftbundocompounds'])
		rec.expect('ftbundocompounds and reverse on %s' % orig, str(back),
				orig)


# ---- complexity of sentences (Alpino) ------------------------------------------

DLEAVES = [('n', 'N(soort,ev)', '--', 'su'), ('n', 'N(soort)', '--', 'obj1'),
	('ww', 'WW(pv,tgw)', '--', 'hd'), ('ww', 'WW[inf.vrij]', '--', 'mod'),
	('vg', 'VG(neven)', 'en', 'crd'), ('vg', 'VG(onder)', 'dat', 'cmp'),
	('vg', 'VG(onder)', 'omdat', 'cmp'), ('bw', '--', '--', 'sup'),
	('bw', 'pv', '--', '--')]
DPHRASES = [('SMAIN', '--'), ('NP', 'su'), ('NP', 'obj1'), ('REL', 'mod'),
	('CP', 'su'), ('CP', 'vc'), ('INF', 'vc'), ('TI', 'su'), ('X', 'obcomp'),
	('NP', 'vc')]


def gendlevel(tier):
	deep = tier == 'thorough'
	for n, unary in ((1, 2), (2, 1), (3, 1)) if deep else ((1, 2), (2, 1),
			(3, 0)):
		for shape in shapes(n, unary, False):
			k = numint(shape) - 1
			for ps in product(DPHRASES, repeat=k):
				if n == 3 and k > 1 and len({a for a, _ in ps}) > 1 \
						and not deep:
					continue
				for ls in product(DLEAVES, repeat=n):
					if n == 3 and k > 1 and ls[0] > ls[1] > ls[2]:
						continue
					yield shape, ps, ls
	# number of finite verbs
	for n in (4, 5, 6):
		for ls in product(DLEAVES[2:5:2], repeat=n):
			yield tuple(range(n)), (), ls


def feats(n):
	return set(n.morph.replace('[', '(').partition('(')[2].strip(
			')]').replace('.', ',').split(',')) if '(' in n.morph.replace(
			'[', '(') else set()


def levels(ref, sec):
	"""All levels with evidence in a tree."""
	nodes = list(ref.nodes())
	pos = [a for a in nodes if a.tag]
	up = lambda a: a.parent.func if a.parent else ''  # noqa: E731
	neven = sum(a.label == 'vg' and 'neven' in feats(a) for a in pos)
	if sum(a.label == 'ww' and 'pv' in feats(a) for a in pos) > 2 + neven:
		yield 7
	for a in nodes:
		if a.label == 'REL' and a.func == 'mod':
			if up(a) == 'su':
				yield 6
			elif up(a) == 'obj1':
				yield 3
		if a.label in ('CP', 'TI', 'INF') and a.func == 'su':
			yield 6
		if a.label == 'ww' and lab(a.parent) == 'NP':
			if up(a) == 'su':
				yield 6
			elif up(a) == 'obj1':
				yield 3
		if a.label == 'CP' and a.func == 'vc' or a.func == 'sup':
			yield 3
		if a.label == 'vg' and a.tag and 'onder' in feats(a) \
				and a.lemma != 'dat':
			yield 5
		if a.func == 'obcomp':
			yield 4
		if a.func == 'vc' and a.label in ('TI', 'INF'):
			for b in a.parent.kids:
				if (b, a) in sec:
					if b.func == 'obj1':
						yield 4
					elif b.func == 'su':
						yield 1
	if neven:
		yield 2


def checkdlevel(case, rec):
	shape, ps, ls = case
	for func in ('su', 'mod', None):
		ref = mk(shape, ['ROOT'] + [a for a, _ in ps], [a[0] for a in ls],
				['--'] * 99, [a[1] for a in ls], [a[2] for a in ls])
		todo = iter(ps)
		vcs = []
		for a in ref.nodes():
			if a.tag:
				a.func = ls[a.kids[0]][3]
			elif a.parent:
				a.func = next(todo)[1]
				if a.func == 'vc' and a.label in ('TI', 'INF'):
					vcs.append(a)
		t = real(ref)
		sec = set()
		for a, b in zip(ref.nodes(), list(t.subtrees())):
			for x, y in zip(ref.nodes(), list(t.subtrees())):
				if x in vcs and a in x.parent.kids and a is not x and func:
					b.source += [func, y.source[WORD].lstrip('#')]
					if func == 'su':
						sec.add((a, x))
		orig = show(t, ['w'] * len(ls))
		rec.step()
		rec.expect('level of %s' % orig, tt.dlevel(t),
				max(levels(ref, sec), default=0))
		rec.outcome(max(levels(ref, sec), default=0))
		if not vcs:
			break
	rec.trace()


# ---- French tags and compounds -------------------------------------------------

GOLDPOS = {
	'A-qual': 'ADJ', 'A-int': 'ADJWH', 'ADV': 'ADV', 'ADV-int': 'ADVWH',
	'ADV-neg': 'ADV', 'C-S': 'CS', 'C-C': 'CC', 'CL-obj': 'CLO',
	'CL-refl': 'CLR', 'CL-suj': 'CLS', 'D-def': 'DET', 'D-ind': 'DETWH',
	'ET': 'ET', 'I': 'I', 'N-C': 'NC', 'N-P': 'NPP', 'P': 'P',
	'PONCT-W': 'PONCT', 'PREF': 'PREF', 'PRO-int': 'PROWH',
	'PRO-rel': 'PROREL', 'PRO-neg': 'PRO', 'V-G--': 'VPR', 'V-K--ms': 'VPP',
	'V-S--3s': 'VS', 'V-W--': 'VINF', 'V-Y--2p': 'VIMP', 'V-P--3s': 'V'}
MWPOS = {'N': 'NC', 'D': 'DET', 'A': 'ADJ', 'C': 'CC', 'CL': 'CLS',
	'PONCT': 'PONCT', 'P': 'P', 'ADV': 'ADV', 'PRO': 'PRO', 'V': 'V', 'ET':
	'ET', 'I': 'I', 'PREF': 'PREF'}


def genfrench(tier):
	morphs = sorted(GOLDPOS)
	for a in morphs:
		for upper in (False, True):
			for b in morphs:
				yield [(a.upper() if upper else a, GOLDPOS[a]),
						(b, GOLDPOS[b])], None
	for a, b in product(sorted(MWPOS), repeat=2):
		for m in morphs[::5]:
			yield [(m, GOLDPOS[m])], (a, b)


def checkfrench(case, rec):
	"""Tags of words follow from the morphology; those in compounds from the
	tag."""
	words, mw = case
	kids = [ParentedTree(a.split('-')[0].upper(), [n])
			for n, (a, _) in enumerate(words)]
	for a, (m, _) in zip(kids, words):
		a.source = ['w', '--', a.label, m, '--', '0']
	want = [a for _, a in words]
	inner = []
	if mw:
		for n, a in enumerate(mw, len(words)):
			inner.append(ParentedTree(a, [n]))
			want.append(MWPOS[a])
		node = ParentedTree('MWN', inner)
		node.source = ['--', '--', 'MWN', '--', '--', '0']
		kids.append(node)
	t = ParentedTree('SENT', [ParentedTree('NP', kids)])
	for a in (t, t[0]):
		a.source = ['--', '--', a.label, '--', '--', '0']
	rec.step()
	rec.trace()
	sent = ['w%d' % n for n in range(len(want))]
	tt.transform(t, sent, ['ftbmakegoldpos'])
	rec.expect('tags', [a for _, a in sorted(t.pos())], want)
	rec.expect('phrases', [a.label for a in t.subtrees()
			if isinstance(a[0], Tree)], ['SENT', 'NP'] + ['MWN'] * bool(mw))
	rec.outcome(want)
	if not mw:
		return
	# compounds of treebank; read back from file
	tt.FTBCOMPOUNDS.clear()
	path = scratch.path('compounds')
	if os.path.exists(path):
		os.unlink(path)
	try:
		tt.getftbcompounds(None, None, path)
	except ValueError:
		pass
	else:
		rec.fail('neither trees nor file, but no error')
	tt.getftbcompounds([t], [sent], path)
	rec.expect('compounds', tt.FTBCOMPOUNDS, {' '.join(sent[-2:])})
	tt.FTBCOMPOUNDS.clear()
	tt.getftbcompounds(None, None, path)
	rec.expect('compounds from file', tt.FTBCOMPOUNDS, {' '.join(sent[-2:])})
	tt.FTBCOMPOUNDS.clear()
	os.unlink(path)


SPACES = [
	core.Space('splits', gensplits, checksplits, {
		'quick': '%d state splits, each on all annotated trees over an '
			'alphabet of its labels, tags, functions, words with <= 2 words '
			'and <= 2 unary nodes, or 3 words' % len(ALPHABET),
		'thorough': '%d state splits, each on all annotated trees with <= 2 '
			'words and <= 3 unary nodes, or 3 words and <= 1 unary node'
			% len(ALPHABET)}),
	core.Space('structure', genstruct, checkstruct, {
		'quick': '%d (sequences of) structural transforms on all annotated '
			'trees with <= 2 words and <= 2 unary nodes, or 3 words'
			% len(STRUCT),
		'thorough': '%d (sequences of) structural transforms on all annotated '
			'trees with <= 2 words, <= 3 unary nodes; 3 words, <= 1 unary'
			% len(STRUCT)}),
	core.Space('presets', genpresets, checkpreset, {
		'quick': '%d presets on all annotated trees with <= 2 words and <= 1 '
			'unary node, or 3 words' % len(PRESETALPH),
		'thorough': '%d presets on all annotated trees with <= 2 words and '
			'<= 3 unary nodes, or 3 words and 1 unary' % len(PRESETALPH)}),
	core.Space('rr', genrr, checkrr, {
		'quick': 'all trees with <= 2 words, 1 unary, or 3 words; 3 functions;'
			' 16 settings',
		'thorough': 'all trees with <= 2 words, 2 unary, or 3 words, 1 unary; '
			'3 functions; 16 settings'}),
	core.Space('collapse', gencollapse, checkcollapse, {
		'quick': 'all trees with <= 2 words, 7 labels',
		'thorough': 'all trees with <= 3 words, 7 labels'}),
	core.Space('dlevel', gendlevel, checkdlevel, {
		'quick': 'all Dutch trees with <= 2 words, 1 unary, or 3 words, over 9 '
			'kinds of words, 10 kinds of constituents',
		'thorough': '3 words, 1 unary'}),
	core.Space('french', genfrench, checkfrench, 'all pairs of 28 kinds of '
		'French words, all compounds of two tags'),
	core.Space('compounds', genftb, checkftb, {
		'quick': 'all compounds of <= 4 words matching the patterns',
		'thorough': 'all compounds of <= 6 words matching the patterns'}),
]

if __name__ == '__main__':
	sys.exit(core.main('C29', SPACES, [
		'trees come with attributes as provided by corpus readers; every '
		'phrase has a head child',
		'exact reversal of transforms that introduce phrases is claimed for '
		'trees where the introduced configuration does not occur already',
		'labels contain none of the separators ^ - / that transforms use']))
