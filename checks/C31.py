"""C31: unknown word models."""
import os
import re
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter, OrderedDict
from itertools import product
from vlib import build, core, scratch
build.activate('full')
from discodop import lexicon, parser, runexp  # noqa: E402
from discodop.tree import Tree  # noqa: E402

MODELS = ('4', '6', 'base', 'ftb')
UNK = '_UNK'
ACCENTS = 'çéàìùâêîôûëïüÿœæ'
LOW = 'abcdefghijklmnopqrstuvwxyz' + ACCENTS
UP = LOW.upper()


# --- reference: signatures -----------------------------------------------------
def has(word, chars):
	return any(a in chars for a in word)


def digits(word):
	n = sum(a.isdecimal() for a in word)
	return '' if not n else '-N' if n == len(word) else '-n'


def ending(word):
	return '-' + word[-2:].lower() if len(word) > 3 and word[-1] in LOW + UP \
			else ''


def model4(word, loc, _lexicon):
	if word[:1] and word[0] in UP:
		case = ('-AC' if not has(word, LOW) else '-SC' if loc == 0 else '-C')
	elif has(word, LOW):
		case = '-L'
	else:
		case = '-U' if has(word, UP) else '-S'
	return (UNK + case + digits(word) + '-H' * ('-' in word)
			+ '-P' * ('.' in word) + '-C' * (',' in word) + ending(word))


def modelbase(word, _loc, _lexicon):
	return (UNK + ('-C' if word[0] in UP else '-c') + digits(word)
			+ '-H' * ('-' in word) + '-P' * (word == '.')
			+ '-C' * (word == ',') + ending(word))


def model6(word, loc, lexicon):
	caps = sum(a in UP for a in word)
	if caps > 1:
		case = '-CAPS'
	elif caps == 1 and loc == 0:
		case = '-INITC' + '-KNOWNLC' * (word.lower() in lexicon)
	elif caps == 1:
		case = '-CAP'
	else:
		case = '-LC' * has(word, LOW)
	digit = any(a.isdecimal() for a in word)
	dash = has(word, '-\u2010\u2011')
	suffix = ''
	low = word.lower()
	if low[-1:] == 's' and len(word) > 2:
		suffix = '' if low[-2] in 'siu' else '-s'
	elif len(word) > 4 and not dash and not (digit and caps):
		suffix = ''.join(['-' + a for a in ('ed', 'ing', 'ion', 'er', 'est',
				'ly', 'ity', 'y', 'al') if low.endswith(a)][:1])
	return UNK + case + '-NUM' * digit + '-DASH' * dash + suffix


NOUN = ('ier ière ité ion ison isme ysme iste esse eur euse ence eau erie ng '
		'ette age ade ance ude ogue aphe ate duc anthe archie coque érèse '
		'ergie ogie lithe mètre métrie odie pathie phie phone phore onyme '
		'thèque scope some pole ôme chromie pie').split()
ADJ = ('iste ième uple issime aire esque atoire ale al able ible atif ique if '
		'ive eux aise ent ois oise ante el elle ente oire ain aine').split()
VERB = ('ir er re ez ont ent ant ais ait ra era eras é és ées isse it').split()
ADV = 'iment ement emment amment'.split()
PUNCT = {chr(a) for x, y in ((0x21, 0x2f), (0x3a, 0x40), (0x5b, 0x60),
		(0x7b, 0x7e), (0xa1, 0xbf), (0x2010, 0x2027), (0x2030, 0x205e),
		(0x20a0, 0x20b5)) for a in range(x, y + 1)}


def modelftb(word, loc, _lexicon):
	def ends(suffixes, plural):
		return any(word.endswith(a) or (plural and word.endswith(a + 's'))
				for a in suffixes)
	return (UNK + ('-ADV' if ends(ADV, False) else '-VB' if ends(VERB, False)
				else '-NN' if ends(NOUN, True) else '')
			+ '-ADV' * ends(ADJ, True) + '-NUM' * any(a.isdecimal() for a in word)
			+ '-PL' * (word[-1:] == 's' or word[-2:] == 'ux')
			+ ('-ISPUNC' if word[-1:] in PUNCT else '-HASPUNC'
				if has(word, PUNCT) else '')
			+ '-UP' * (loc > 0 and word[:1] != '' and word[0] in UP))


REF = {'4': model4, '6': model6, 'base': modelbase, 'ftb': modelftb}


def year(word):
	return len(word) == 4 and word[:2] in ('19', '20') and word.isdecimal()


def number(word):
	return re.fullmatch("[0-9]*[,.']?[0-9]+", word) is not None


def placeholder(word):
	return '1970' if year(word) else '000' if number(word) else None


# --- reference: the model ---------------------------------------------------
def bare(tag):
	return tag.split('-')[0]


class Model:
	"""Which words are kept, and what is left in place of the others."""
	def __init__(self, corpus, sig, unknown, openclass):
		tokens = [a for sent in corpus for a in sent]
		self.words = Counter(w for w, _ in tokens)
		self.tags = Counter(t for _, t in tokens)
		self.wordtags = Counter(tokens)
		self.closed = set()
		if openclass:
			self.closed = {w for w, t in tokens if len({v.lower()
					for v, u in tokens if bare(u) == bare(t)}) < openclass}
		self.lexicon = {w for w, n in self.words.items()
				if n > unknown} | self.closed
		self.sig = sig
		self.train = [[placeholder(w) or (w if w in self.lexicon
				else sig(w, n, self.lexicon)) for n, (w, _) in enumerate(sent)]
				for sent in corpus]
		self.terminals = {w for sent in self.train for w in sent} | {
				w for w in self.words if w not in self.lexicon} | {UNK}
		self.sigs = {w for sent, x in zip(self.train, corpus)
				for w, (v, _) in zip(sent, x) if w != v or placeholder(v)}

	def test(self, word, n):
		sub = placeholder(word)
		if sub is not None and any(sub in sent for sent in self.train):
			return sub
		if word in self.words:
			return word
		if word.lower() in self.words:
			return word.lower()
		sig = self.sig(word, n, self.words)
		return sig if sig in self.sigs else UNK


ALPHABET = [('a', 'X'), ('a', 'Y'), ('b', 'X-F'), ('A', 'X'), ('Bc', 'Y-F'),
		('7', 'X'), ('1999', 'Y'), ('(', 'Y'), ('dogs', 'X')]
TESTWORDS = ['a', 'A', 'b', 'B', 'Bc', 'bC', 'bc', '7', '8', '1.5', "'9", '-1',
		'1999', '2000', '1970', '000', '1234', '(', ')', '#LRB#', 'dogs',
		'Dogs', 'cats', 'Cats', 'DOGS', '-', '.', 'x.', 'été', '1e3']


def gen_model(tier):
	for n in range(1, 4 if tier == 'quick' else 5):
		for tokens in product(range(len(ALPHABET)), repeat=n):
			for cut in range(n) if n < 4 else (0, 2):
				yield tokens, cut
	if tier == 'quick':
		for tokens in product((0, 1, 2, 5), repeat=4):
			yield tokens, 2
	for tokens in product((0, 2, 3), repeat=5):
		yield tokens, 2


def corpusof(case):
	tokens, cut = case
	tokens = [ALPHABET[a] for a in tokens]
	return [a for a in (tokens[:cut], tokens[cut:]) if a]


def model(case, rec):
	corpus = corpusof(case)
	for name in MODELS:
		sig = lexicon.UNKNOWNWORDFUNC[name]
		for unknown, openclass in product((1, 2), (0, 1, 2, 3)):
			what = ' with model %s, thresholds %d, %d' % (
					name, unknown, openclass)
			ref = Model(corpus, REF[name], unknown, openclass)
			lexmodel, msg = lexicon.getunknownwordmodel(
					corpus, sig, unknown, openclass)
			rec.step()
			sigs, words, known, closed, tags, wordtags = lexmodel
			rec.expect('words' + what, words, ref.words)
			rec.expect('closed class words' + what, set(closed), ref.closed)
			rec.expect('known words' + what, set(known), ref.lexicon)
			rec.expect('tags' + what, (tags, wordtags),
					(ref.tags, ref.wordtags))
			rec.expect('message is text' + what, isinstance(msg, str), True)
			train = lexicon.replaceraretrainwords(corpus, sig, known)
			rec.expect('training sentences' + what, train, ref.train)
			extra = lexicon.simplesmoothlexicon(lexmodel)
			rare = {((t, 'Epsilon'), (w.replace('(', '#LRB#'), )): c
					for (w, t), c in ref.wordtags.items()
					if w not in ref.lexicon}
			rec.expect('rare words' + what, {a: b for a, b in extra.items()
					if a[1] != (UNK, )}, rare)
			rec.expect('tags of unknown words' + what, {a[0][0] for a in extra
					if a[1] == (UNK, )}, set(ref.tags))
			if not all(0 < b < 1 for a, b in extra.items() if a[1] == (UNK, )):
				rec.fail('weights of unknown words: %r' % extra)
			for first in ((), ('a', )):
				for word in TESTWORDS:
					got = list(lexicon.replaceraretestwords(
							list(first) + [word], sig, words, sigs))
					rec.expect('words given to parser for %r' % word + what,
							got, [ref.test(w, n) for n, w in enumerate(
							list(first) + [word])])
					if got[-1] not in ref.terminals:
						rec.fail('no tags for %r (%r)' % (got[-1], word))
			rec.outcome((name, tuple(map(tuple, train))))
	rec.state(case)
	rec.trace()


# --- grammars ------------------------------------------------------------------
def gen_grammar(tier):
	for n in range(1, 4):
		for tokens in product(range(len(ALPHABET)), repeat=n):
			if n < 3 or tier != 'quick' or tokens[0] in (0, 7, 8):
				yield tokens, n - 1


def postagging(name, unknown, openclass):
	return parser.DictObj(method='unknownword', model=name, retag=False,
			unknownthreshold=unknown, openclassthreshold=openclass,
			simplelexsmooth=True)


STAGES = (dict(mode='pcfg'), dict(mode='plcfrs'),
		dict(mode='pcfg', dop='reduction', objective='mpd'),
		dict(mode='plcfrs', dop='dop1', objective='mpd', maxdepth=3))


def grammars(case, rec):
	"""Whatever the words of a sentence are, there are tags for it, and the
	tagger reads back its model from the grammar."""
	corpus = corpusof(case)
	for name, unknown, openclass in (('4', 1, 0), ('6', 1, 2), ('base', 2, 3)):
		ref = Model(corpus, REF[name], unknown, openclass)
		for stage in STAGES:
			tagging = postagging(name, unknown, openclass)
			sents, lexmodel = runexp.getposmodel(tagging, corpus)
			trees = [Tree('S', [Tree(t, [n]) for n, (_, t) in enumerate(sent)])
					for sent in corpus]
			# any sequence of two tags
			for x, y in product(sorted(ref.tags), repeat=2):
				for k in (1, 2):
					trees.append(Tree('S', [Tree(a, [n]) for n, a
							in enumerate((x, y)[:k])]))
					sents.append([sents[0][0]] * k)
			stage = parser.DictObj({k: stage.get(k, v)
					for k, v in parser.DEFAULTSTAGE.items()})
			stage.name = 'stage'
			binarization = parser.DictObj(parser.DEFAULTS['binarization'],
					headrules=None, method='default', h=1, v=1, factor='right')
			prm = parser.DictObj(stages=[stage], verbosity=0,
					transformations=None, binarization=binarization,
					postagging=tagging, relationalrealizational=None)
			with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
				with open(folder + '/closedclasswords.txt', 'w') as out:
					out.writelines(w + '\n' for w in lexmodel[3])
				runexp.getgrammars(runexp.dobinarization(trees, sents,
						binarization, False), sents, [stage], 40, folder, 1,
						lexmodel, 'S')
				first = outcomes(parser.Parser(prm), rec)
				tagging = prm.postagging = postagging(name, unknown, openclass)
				parser.readgrammars(folder, [stage], tagging, top='S')
				second = outcomes(parser.Parser(prm), rec)
			what = ' with model %s, thresholds %d, %d; %s' % (
					name, unknown, openclass, stage.dop or stage.mode)
			for sent in first:
				rec.expect('probability of %r with grammar from file' % (
						sent, ) + what, second[sent], first[sent])
			rec.step()
	rec.state(case)
	rec.trace()


def outcomes(obj, rec):
	result = {}
	for word in TESTWORDS:
		for sent in ([word], ['a', word]):
			res, = obj.parse(list(sent))
			if res.noparse:
				rec.fail('no parse for %r: %s' % (sent, res.msg))
			rec.expect('leaves', sorted(res.parsetree.leaves()),
					list(range(len(sent))))
			result[tuple(sent)] = '%.9g' % res.prob
			rec.step()
	return result


# --- signatures --------------------------------------------------------------
CHARS = 'asB1-.é'


def gen_signature(tier):
	for n in range(1, 5):
		for a in product(CHARS, repeat=n):
			yield ''.join(a)
	for a in product(CHARS, repeat=3 if tier == 'quick' else 4):
		for b in product('sB1', repeat=2):
			yield ''.join(a + b)
	for suffix in sorted(set(NOUN + ADJ + VERB + ADV + ['ed', 'ing', 'ion',
			'er', 'est', 'ly', 'ity', 'y', 'al', 'ss', 'is', 'us', 'ux'])):
		for stem in ('', 'x', 'xx', 'xxx', 'Xxx', 'XX-x', 'x1x', 'X1x'):
			for end in ('', 's', 't'):
				yield stem + suffix + end
				yield (stem + suffix + end).upper()
				yield (stem + suffix + end).capitalize()
	for a in sorted(PUNCT) + [',', '\u2010', '\u2011']:
		yield a
		yield 'x' + a
		yield a + a + 'X'


def signature(word, rec):
	for name in MODELS:
		for loc in (0, 1, 2):
			for lex in ((), {word}, {word.lower()}):
				rec.expect('signature of %r by %s' % (word, name),
						lexicon.UNKNOWNWORDFUNC[name](word, loc, lex),
						REF[name](word, loc, lex))
				rec.step()
	rec.state(word)
	rec.trace()


# --- external taggers ----------------------------------------------------------
FAKE = r'''#!%s -IS
import io, sys
sys.stdout = io.TextIOWrapper(sys.stdout.buffer, encoding='utf8')
inp = io.open(sys.argv[-1], encoding='utf8').read()
sents = %s
def tag(w):
	return {'a': 'X', 'é': '$('}.get(w, 'Y')
for sent in sents:
	sys.stdout.write(%s)
'''
TREETAGGER = ("[a.split('\\n')[:-1] for a in inp.split('<S>\\n')[:-1]]",
		"''.join('%s\\t%s\\n' % (w, tag(w)) for w in sent) + '<S>\\n'")
FROG = ("[a.split(' ') for a in inp.splitlines()]",
		"''.join('%d\\t%s\\tlem\\t%s\\t0.9\\n' % (n, w, tag(w)) "
		"for n, w in enumerate(sent, 1)) + '\\n'")


def gen_external(tier):
	for tagger in ('treetagger', 'frog'):
		for override in (False, True):
			for n in range(1, 4):
				for sents in product([tuple(a) for k in (1, 2)
						for a in product(('a', 'é', 'b'), repeat=k)]
						if n == 1 else (('a', ), ('é', 'b')), repeat=n):
					yield tagger, override, sents


def external(case, rec):
	tagger, override, sents = case
	tagmap = {'$(': '$['}
	overridetag = {'OV': {'b', 'c'}, 'NO': set()} if override else {}

	def tag(word):
		if override and word == 'b' and tagger == 'treetagger':
			return 'OV'
		result = {'a': 'X', 'é': '$('}.get(word, 'Y')
		return {'treetagger': tagmap.get(result, result),
				'frog': result.replace('(', '[')}[tagger]
	keys = [str(n * 3) for n in range(len(sents))]
	given = OrderedDict((k, [(w, 'Y') for w in sent])
			for k, sent in zip(keys, sents))
	cwd = os.getcwd()
	path = os.environ.get('PATH', '')
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		try:
			os.chdir(folder)
			os.makedirs('tree-tagger/bin')
			name = 'tree-tagger/bin/tree-tagger' if tagger == 'treetagger' \
					else 'frog'
			with open(name, 'w', encoding='utf8') as out:
				out.write(FAKE % ((sys.executable, ) + (TREETAGGER
						if tagger == 'treetagger' else FROG)))
			os.chmod(name, 0o755)
			os.environ['PATH'] = folder + os.pathsep + path
			got = lexicon.externaltagging(tagger, 'model', given, overridetag,
					tagmap)
		finally:
			os.chdir(cwd)
			os.environ['PATH'] = path
	rec.expect('tagged sentences', list(got.items()), [
			(k, [(w, tag(w)) for w in sent]) for k, sent in zip(keys, sents)])
	rec.step()
	rec.state(case)
	rec.trace()


SPACES = [
	core.Space('model', gen_model, model, {
		'quick': 'all tagged corpora of up to 3 tokens from an alphabet of 9 '
		'in all divisions over two sentences, larger ones from smaller '
		'alphabets; 4 models x 2 x 4 thresholds; 30 test words in 2 positions',
		'thorough': 'also all corpora of 4 tokens'}),
	core.Space('grammar', gen_grammar, grammars, {
		'quick': 'all corpora of up to 2 tokens, a third of those with 3; 3 '
		'settings of the model, 4 kinds of grammars; 60 test sentences',
		'thorough': 'all corpora of up to 3 tokens'}),
	core.Space('signature', gen_signature, signature, {
		'quick': 'all words of up to 4 characters from 7, all suffixes with 8 '
		'stems, in 3 positions and with 3 lexicons; 4 models',
		'thorough': 'also longer words'}),
	core.Space('external', gen_external, external,
		'all sequences of up to 3 sentences with stand-ins for the taggers'),
	]
ASSUMPTIONS = [
	'External taggers are replaced by stand-ins with the same interface.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C31', SPACES, ASSUMPTIONS))
