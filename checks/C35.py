"""C35: dividing the work over processes does not change any result."""
import io
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib
import logging
import subprocess
import tempfile
from collections import Counter, OrderedDict
from itertools import combinations_with_replacement, permutations, product
from vlib import build, core, gen, run, sched, scratch
build.activate('full')
sched.install()
from discodop import cli, fragments, grammar, parser, runexp  # noqa: E402
from discodop import eval as evalmod, treesearch as TS  # noqa: E402
from discodop.tree import ParentedTree, Tree  # noqa: E402
from discodop.treebank import writetree  # noqa: E402
from discodop.treetransforms import binarize  # noqa: E402
logging.disable(logging.WARNING)

# --- fragment extraction ------------------------------------------------------
TREES = [
	('S', ('A', ('X', 0), ('Y', 1)), ('B', ('X', 2), ('Z', 3))),
	('S', ('A', ('X', 0), ('Y', 1)), ('A', ('X', 2), ('Y', 3))),
	('S', ('B', ('X', 0), ('Z', 1)), ('Y', 2)),
	('S', ('A', ('X', 0), ('Y', 2)), ('B', ('Z', 1), ('X', 3))),
	('S', ('A', ('A', ('X', 0), ('Y', 1)), ('Y', 2)), ('Z', 3)),
	('S', ('X', 0)),
	]
WORDS = ['a b a c', 'a b a b', 'a c b', 'a b b a', 'a b b c', 'a']


def bank(ids):
	trees = [gen.build(Tree, TREES[i]) for i in ids]
	return trees, [WORDS[i].split() for i in ids]


def normal(value):
	if isinstance(value, dict):
		return {a: normal(b) for a, b in value.items()}
	if isinstance(value, (list, tuple)):
		return [normal(a) for a in value]
	if hasattr(value, 'typecode'):
		return list(value)
	return value


def outcome(value):
	"""Describe a result or exception."""
	if isinstance(value, Exception):
		# NB: the type is lost in a worker process
		return 'error'
	return value


def everyschedule(func, want, what, rec, single=None):
	"""Compare the results of all schedules with the expected result."""
	number = 0
	for got, trail, tasks in sched.explore(func):
		number += 1
		rec.step(tasks + len(trail))
		rec.state((rec.case, what, tuple(trail)))
		if isinstance(got, RuntimeError) and str(got).startswith('worker '):
			rec.fail('%s; schedule %r: %s' % (what, trail, got))
			return
		if outcome(got) != want:
			rec.fail('%s; schedule %r: got %r; without workers: %r' % (
					what, trail, got, want))
			return
	rec.count('schedules', number)
	rec.trace(number)
	rec.outcome(want)


def gen_recurring(tier):
	num = len(TREES)
	for n in range(1, 4 if tier == 'quick' else 5):
		for ids in product(range(num), repeat=n):
			if tier == 'quick' and n == 3 and (sorted(ids) != list(ids)
					or len(set(ids)) < 2):
				continue
			for numproc in (2, 3) if n < 2 or tier != 'quick' else (
					(2, ) if n > 2 else (2 + sum(ids) % 2, )):
				yield ids, numproc


def recurring(case, rec):
	ids, numproc = case
	disc = any(gen.isdisc(TREES[i]) for i in ids)
	for indices, maxdepth in ((True, 0), (True, 1), (False, 2), (False, 0)):
		if len(ids) > 2 and (indices or maxdepth) and (
				sum(ids) % 2 != maxdepth % 2):
			continue
		for fmt in (True, False) if not disc else (True, ):
			def extract(numproc=numproc):
				trees, sents = bank(ids)
				result = fragments.recurringfragments(trees, sents,
						numproc=numproc, disc=fmt, indices=indices,
						maxdepth=maxdepth)
				return normal(result)
			want = extract(1)
			rec.expect('first argument is kept', bank(ids), bank(ids))
			everyschedule(extract, want, 'recurringfragments(%d, disc=%s, '
					'indices=%s, maxdepth=%d)' % (numproc, fmt, indices,
					maxdepth), rec)


def gen_models(tier):
	num = len(TREES)
	for n in range(1, 3 if tier == 'quick' else 4):
		for ids in combinations_with_replacement(range(num), n):
			yield ids, 2


def bare(rules):
	"""Multiset of rules without the identifiers of fragments."""
	return sorted(Counter(re.sub(r'[0-9]+', '', repr(a))
			for a in rules).items())


def models(case, rec):
	"""Grammars based on fragments."""
	ids, numproc = case

	def doubledop(numproc=numproc):
		trees, sents = bank(ids)
		gram, back, _alt, frags = grammar.doubledop(trees, sents,
				numproc=numproc)
		return bare(gram), sorted(back), sorted(normal(frags), key=repr)
	everyschedule(doubledop, doubledop(1), 'doubledop', rec)
	if any(gen.isdisc(TREES[i]) for i in ids):
		return

	def ostag(numproc=numproc):
		trees, sents = bank(ids)
		rules, lex, init, aux = grammar.doubleostagfromtsg(trees, sents,
				numproc=numproc)
		return (bare(rules), bare(lex), sorted(init.items()),
				sorted(aux.items()))
	try:
		want = ostag(1)
	except Exception as err:  # pylint: disable=broad-except
		want = outcome(err)
	everyschedule(ostag, want, 'doubleostagfromtsg', rec)


# --- division of work ---------------------------------------------------------
def gen_workload(tier):
	for num in range(1, 80 if tier == 'quick' else 400):
		yield num,


def workload(case, rec):
	num, = case
	pairs = num * (num - 1) // 2
	for numproc in range(1, 17):
		work = fragments.workload(num, 1, numproc)
		rec.step()
		covered = [n for a, b in work for n in range(a, b)]
		rec.expect('trees in work for %d workers' % numproc, covered,
				list(range(num)))
		if len(work) > numproc + 1:
			rec.fail('%d chunks for %d workers' % (len(work), numproc))
		for a, b in work:
			if a >= b:
				rec.fail('empty chunk in %r for %d workers' % (work, numproc))
			# without the last tree, within an equal share
			load = sum(num - 1 - n for n in range(a, b - 1))
			if load > pairs / numproc + 1 + num:
				rec.fail('%d workers: %r has %d of %d comparisons' % (
						numproc, (a, b), load, pairs))
		rec.outcome(tuple(work))
	rec.trace()


# --- discodop fragments -------------------------------------------------------
ONE = [(), ('--indices', ), ('--nofreq', ), ('--approx', ), ('--relfreq', ),
	('--cover=2', ), ('--cover=3,1', '--indices'), ('--adjacent', ),
	('--twoterms=.', ), ('--debin', ), ('--alt', ), ('--numtrees=1', ),
	('--numtrees=2', '--cover=1'), ('--quiet', '--indices', '--adjacent')]
TWO = [(), ('--indices', ), ('--nofreq', ), ('--approx', ), ('--complete', ),
	('--complete', '--indices'), ('--cover=2', ), ('--relfreq', ),
	('--twoterms=.', ), ('--numtrees=1', )]


def gen_tool(tier):
	num = len(TREES)
	size = 3
	for numproc in (2, 3):
		for ids in combinations_with_replacement(range(num), size):
			if tier == 'quick' and (numproc == 3) != (
					len(set(ids)) == 2 and 5 not in ids):
				continue
			for opts in ONE if tier != 'quick' or len(set(ids)) == 3 else ONE[:4]:
				yield ids, (), opts, numproc
	for ids, more in (((0, 1, 2), (1, 4)), ((1, 4), (0, 1)), ((2, ), (0, 2)),
			((3, 0), (3, )), ((0, 3, 4), (0, 3, 4))):
		for opts in TWO:
			for numproc in (2, 3):
				yield ids, more, opts, numproc


def writebank(name, ids, fmt='export'):
	trees = [gen.build(ParentedTree, TREES[i]) for i in ids]
	sents = [WORDS[i].split() for i in ids]
	return scratch.write(name, ''.join(writetree(a, s, str(n), fmt)
			for n, (a, s) in enumerate(zip(trees, sents), 1)))


def tool(case, rec):
	ids, more, opts, numproc = case
	disc = any(gen.isdisc(TREES[i]) for i in ids + more)
	formats = ['export'] if disc else ['bracket', 'export']
	for fmt in formats:
		names = [writebank('c35.one', ids, fmt)]
		if more:
			names.append(writebank('c35.two', more, fmt))
		stdin = b''
		argv = ['--fmt=' + fmt] + list(opts) + names

		def extract(numproc=numproc, argv=argv, stdin=stdin):
			fragments.PARAMS.clear()
			err, out, _ = run.captured(fragments.main,
					['--numproc=%d' % numproc] + argv, stdin)
			if err:
				raise ValueError(err)
			return sorted(out.decode('utf8').splitlines())

		try:
			want = extract(1)
		except ValueError as err:
			want = outcome(err)
		everyschedule(extract, want, 'fragments %s' % ' '.join(argv), rec)
		if fmt == formats[0] and len(opts) < 2 and not more:
			# from standard input
			with open(names[0], 'rb') as inp:
				stdin = inp.read()

			def piped():
				return extract(numproc, ['--fmt=' + fmt] + list(opts) + ['-'],
						stdin)
			everyschedule(piped, want, 'standard input', rec)
	for a in names:
		os.unlink(a)


# --- parsing ------------------------------------------------------------------
CORPUS = [
	(('ROOT', ('A', ('X', 0), ('X', 2)), ('Y', 1)), 'a b a'),
	(('ROOT', ('X', 0), ('A', ('X', 1), ('Y', 2))), 'a a b'),
	(('ROOT', ('X', 0), ('A', ('Y', 1))), 'a b'),
	(('ROOT', ('X', 0)), 'é'),
	(('ROOT', ('A', ('X', 0), ('A', ('Y', 1))), ('X', 2)), 'a b b'),
	]
DEFAULT = dict(method='default', factor='right', h=1, v=1)
SPLIT = dict(mode='pcfg', split=True, markorigin=True)
FINE = dict(mode='plcfrs', m=100)
STAGES = {
	'plain': [FINE],
	'ctf': [SPLIT, dict(FINE, prune=True, k=50)],
	'doubledop': [SPLIT, dict(FINE, prune=True, k=50), dict(FINE,
		dop='doubledop', prune=True, k=50, objective='mpp')],
	'shortest': [FINE, dict(FINE, dop='reduction', prune=True, k=50,
		objective='shortest')],
	'estimate': [dict(FINE, estimator='rfe', objective='mpd')],
	}
TAGGING = dict(method='unknownword', model='4', unknownthreshold=1,
	openclassthreshold=2, simplelexsmooth=True)
PARSERS = {}


def getparser(name, tagging=False):
	"""Train a parser on the small corpus."""
	if (name, tagging) not in PARSERS:
		with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
			prm = parser.DictObj({a: b for a, b in parser.DEFAULTS.items()
					if not isinstance(b, dict)})
			prm.update(stages=[], verbosity=0, corpusfmt='export',
					resultdir=folder)
			for n, stage in enumerate(STAGES[name]):
				stage = dict(stage, name='stage%d' % n)
				if stage.get('prune'):
					stage['prune'] = 'stage%d' % (n - 1)
				prm.stages.append(parser.DictObj({k: stage.get(k, v)
						for k, v in parser.DEFAULTSTAGE.items()}))
			prm.binarization = parser.DictObj(parser.DEFAULTS['binarization'],
					**DEFAULT)
			trees = [gen.build(ParentedTree, t) for t, _ in CORPUS]
			sents = [s.split() for _, s in CORPUS]
			lexmodel = None
			if tagging:
				prm.postagging = parser.DictObj(TAGGING)
				sents, lexmodel = runexp.getposmodel(prm.postagging,
						[[(w, tag) for w, (_, tag) in zip(s, sorted(t.pos()))]
						for t, s in zip(trees, sents)])
			trees = runexp.dobinarization(trees, sents, prm.binarization,
					False)
			runexp.getgrammars(trees, sents, prm.stages, 40, folder, 1,
					lexmodel, 'ROOT')
			PARSERS[name, tagging] = parser.Parser(prm)
	return PARSERS[name, tagging]


class Output(io.StringIO):
	"""Remember text when closed."""

	text = ''

	def close(self):
		self.text = self.getvalue()
		super().close()


SENTENCES = ['a b a', 'a b', 'é', 'b b b', 'a zzz']
TAGGED = ['a/X b/Y a/X', 'a/X b/Y', 'é/X', 'b/X b/X', 'a/X 1/2/Y', 'a b']
LAYOUTS = [(False, False), (True, False), (False, True)]


def gen_parse(tier):
	for stages in STAGES:
		for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
			for ids in product(range(len(SENTENCES)), repeat=n):
				if tier == 'quick' and n == 3 and (
						stages not in ('ctf', 'doubledop')
						or len(set(ids)) < 3):
					continue
				yield stages, False, ids, 1, False, 'discbracket', 0, 2
	for stages in ('plain', 'ctf', 'doubledop'):
		for ids in permutations(range(4), 2):
			for layout in range(3):
				for fmt in ('discbracket', 'export'):
					for tagging in (False, True):
						yield stages, tagging, ids, 2, True, fmt, layout, 2
						yield stages, tagging, ids, 1, True, fmt, layout, 3
	# with tags
	for ids in product(range(len(TAGGED)), repeat=2):
		for layout in range(3):
			yield 'ctf', None, ids, 1, False, 'discbracket', layout, 2
	if tier != 'quick':
		for ids in product(range(len(SENTENCES)), repeat=3):
			for stages in STAGES:
				yield stages, True, ids, 1, True, 'export', 0, 3


def parse(case, rec):
	stages, tagging, ids, numparses, printprob, fmt, layout, numproc = case
	obj = getparser(stages, bool(tagging))
	usetags = tagging is None
	bitpar, sentid = LAYOUTS[layout]
	sents = [(TAGGED if usetags else SENTENCES)[i] for i in ids]
	if bitpar:
		lines = [b for a in sents for b in a.split() + ['']]
	elif sentid:
		lines = ['s%d|%s' % (10 - n, a) for n, a in enumerate(sents)] + ['']
	else:
		lines = [b for a in sents for b in (a, '')]

	def parsing(numproc=numproc):
		out = Output()
		err = io.StringIO()
		with contextlib.redirect_stderr(err):
			parser.doparsing(obj, iter([a + '\n' for a in lines]), out,
					printprob, not bitpar, usetags, numparses, numproc, fmt,
					'no', sentid)
		log = re.sub(r'average time .*', '', re.sub(
				r'\n[0-9.e-]+ s\n', '\n', err.getvalue()))
		return out.text, log

	try:
		want = parsing(1)
	except Exception as err:  # pylint: disable=broad-except
		want = outcome(err)
	everyschedule(parsing, want, 'doparsing', rec)


# --- experiments --------------------------------------------------------------
def gen_experiment(tier):
	for stages in STAGES:
		for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
			for ids in product(range(len(CORPUS)), repeat=n):
				if tier == 'quick' and n == 3 and (stages != 'ctf'
						or len(set(ids)) < 3):
					continue
				for fmt in ('export', 'discbracket') if n < 2 else ('export', ):
					yield stages, ids, fmt, 2 if n != 3 else 3
					if n == 2 or tier != 'quick':
						yield stages, ids, fmt, 5 - (2 if n != 3 else 3)


def evalsettings():
	result = evalmod.readparam(None)
	result['DEBUG'] = -1
	return result


def experiment(case, rec):
	"""Results are assigned to the right sentences."""
	stages, ids, fmt, numproc = case
	obj = getparser(stages)
	evalparam = evalsettings()
	folder = tempfile.mkdtemp(dir=scratch.folder())
	testset = OrderedDict()
	for n, i in enumerate(ids):
		# a sentence and its tree; NB: the keys are not in sorted order
		t, s = CORPUS[i]
		tree = gen.build(ParentedTree, t)
		tagged = [(w, a) for w, (_, a) in zip(s.split(), sorted(tree.pos()))]
		key = str(11 - n)
		if n == 1:  # no parse
			tagged = [(w, 'X') for w, _ in tagged]
		testset[key] = (tagged, tree, tagged, writetree(tree, s.split(), key,
				fmt))

	def parsing(numproc=numproc):
		for name in os.listdir(folder):
			os.unlink(os.path.join(folder, name))
		results = runexp.doparsing(parser=obj, testset=testset,
				resultdir=folder, usetags=True, numproc=numproc,
				corpusfmt=fmt, morphology=None, evalparam=evalparam)
		value = []
		for a in results:
			value.append((a.name, [(n, str(a.parsetrees[n]), a.sents[n],
					a.logprob[n] if a.logprob[n] == a.logprob[n] else None,
					a.frags[n], a.numitems[n], a.golditems[n],
					a.totalgolditems[n]) for n in a.parsetrees], a.noparse,
					a.evaluator.summary()))
			if any(a.elapsedtime[n] is None for n in a.parsetrees):
				rec.fail('no time')
		files = {}
		for name in sorted(os.listdir(folder)):
			with open(os.path.join(folder, name), encoding='utf8') as inp:
				text = inp.read()
			if name == 'stats.tsv':
				text = [a.split('\t')[:3] + a.split('\t')[4:]
						for a in text.splitlines()]
			files[name] = text
		return value, files

	want = parsing(1)
	everyschedule(parsing, want, 'doparsing', rec)
	for name in os.listdir(folder):
		os.unlink(os.path.join(folder, name))
	os.rmdir(folder)


# --- treebank search ----------------------------------------------------------
FILES = [(0, 1, 2), (1, 4), (5, 0)]
QUERIES = {
	'frag': [('counts', '(A (X ) (Y ))', {}), ('counts', '(X a)',
		dict(indices=True)), ('counts', '(X a)\n(Y b)', dict(breakdown=True)),
		('sents', '(A (X a) (Y ))', {}), ('trees', '(A (X ) (Y ))', {}),
		('sents', '(X a)', dict(maxresults=1)), ('counts', '(Q q)', {}),
		('sents', '(X a)', dict(brackets=True)),
		('batchcounts', ('(X a)', '(Y b)', '(Q )'), {}),
		('counts', '(X a)', dict(start=2, end=2)), ('counts', '(X', {})],
	'regex': [('counts', 'a b', {}), ('counts', 'a', dict(indices=True)),
		('counts', '[ab]', dict(breakdown=True)), ('sents', 'a b', {}),
		('sents', 'a', dict(maxresults=1)), ('counts', 'q', {}),
		('batchcounts', ('a', 'b', 'q'), {}),
		('batchsents', ('a', 'c'), dict(maxresults=2)),
		('counts', 'a', dict(start=2, end=2)), ('counts', '(', {}),
		('batchcounts', tuple('abcqa bc.'), dict(start=2))],
	}


def gen_search(tier):
	for engine in QUERIES:
		num = len(QUERIES[engine])
		for numproc in (2, 3):
			for inmemory in (True, False):
				for i in range(num):
					if 'batch' not in QUERIES[engine][i][0]:
						yield engine, numproc, inmemory, 3, (i, )
					elif inmemory and (numproc == 2 or len(
							QUERIES[engine][i][1]) < 4):
						yield engine, numproc, True, (2 if numproc == 2 and len(
								QUERIES[engine][i][1]) < 4 else 1), (i, )
		for pair in product(range(num), repeat=2):
			if len(QUERIES[engine][max(pair)][1]) < 9 and (tier != 'quick'
					or sum(pair) % 2 == 0):
				yield engine, 2, True, 1 if any('batch' in
						QUERIES[engine][i][0] for i in pair) else 2, (
						pair + pair[:1])


def simple(value):
	"""Describe results; the order of files is undetermined."""
	if isinstance(value, dict):
		return {a: simple(b) for a, b in value.items()}
	if isinstance(value, list) and value and isinstance(value[0], tuple):
		byfile = {}
		for a in value:
			byfile.setdefault(a[0], []).append([str(b) for b in a[1:]])
		return byfile
	return normal(value)


def search(case, rec):
	engine, numproc, inmemory, number, ids = case
	folder = tempfile.mkdtemp(dir=scratch.folder())
	names = []
	for n, a in enumerate(FILES[:number]):
		if engine == 'frag':
			name = '%s/%d.mrg' % (folder, n)
			trees, sents = bank(a)
			text = ''.join(writetree(t, s, '1', 'bracket')
					for t, s in zip(trees, sents))
		else:
			name = '%s/%d.txt' % (folder, n)
			text = ''.join(WORDS[b] + '\n' for b in a)
		with open(name, 'w') as out:
			out.write(text)
		names.append(name)

	def searching(numproc=numproc):
		cls = TS.FragmentSearcher if engine == 'frag' else TS.RegexSearcher
		obj = cls(names, numproc=numproc, inmemory=inmemory)
		result = []
		for i in ids:
			method, query, opts = QUERIES[engine][i]
			if isinstance(query, tuple):
				query = list(query)
			try:
				value = getattr(obj, method)(query, **opts)
				if method.startswith('batch'):
					value = OrderedDict(value)
					keys = list(value)
					rec.expect('order of files', keys, names)
				result.append(simple(value))
			except Exception:  # pylint: disable=broad-except
				result.append('error')
		obj.close()
		return result

	want = searching(1)
	everyschedule(searching, want, 'search', rec)
	for name in os.listdir(folder):
		os.unlink(os.path.join(folder, name))
	os.rmdir(folder)


# --- the real pools -----------------------------------------------------------
REAL = """
import sys
sys.path.insert(0, %r)
import C35
C35.real(%r)
"""


def gen_real(_tier):
	for which in ('recurring', 'approx', 'parse', 'experiment', 'frag',
			'regex'):
		yield which,


def execute(which, numproc):
	if which == 'recurring':
		trees, sents = bank((0, 1, 2, 3, 4))
		return normal(fragments.recurringfragments(trees, sents,
				numproc=numproc))
	elif which == 'approx':
		name = writebank('c35.one', (0, 1, 2, 3))
		fragments.PARAMS.clear()
		err, out, _ = run.captured(fragments.main, ['--numproc=%d' % numproc,
				'--fmt=export', '--indices', name])
		os.unlink(name)
		if err:
			raise ValueError(err)
		return sorted(out.decode('utf8').splitlines())
	elif which == 'parse':
		out = Output()
		with contextlib.redirect_stderr(io.StringIO()):
			parser.doparsing(getparser('ctf'), iter(['%s\n' % a
					for a in SENTENCES]), out, True, True, False, 2, numproc,
					'export', 'no', False)
		return out.text
	elif which == 'experiment':
		testset = OrderedDict()
		for n, (t, s) in enumerate(CORPUS):
			tree = gen.build(ParentedTree, t)
			tagged = [(w, a) for w, (_, a) in zip(s.split(), sorted(
					tree.pos()))]
			testset[str(n)] = (tagged, tree, tagged, writetree(tree,
					s.split(), str(n), 'export'))
		with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
			results = runexp.doparsing(parser=getparser('ctf'),
					testset=testset, resultdir=folder, numproc=numproc,
					corpusfmt='export', morphology=None, evalparam=evalsettings())
		return [[(n, str(a.parsetrees[n]), a.logprob[n]) for n in a.parsetrees]
				for a in results]
	with tempfile.TemporaryDirectory(dir=scratch.folder()) as folder:
		names = []
		for n, ids in enumerate(FILES):
			trees, sents = bank(ids)
			names.append('%s/%d.mrg' % (folder, n))
			with open(names[-1], 'w') as out:
				out.write(''.join(writetree(t, s, '1', 'bracket')
						for t, s in zip(trees, sents)))
		if which == 'frag':
			obj = TS.FragmentSearcher(names, numproc=numproc)
			result = [simple(obj.counts('(A (X ) (Y ))')),
					simple(obj.sents('(A (X a) (Y ))'))]
		else:
			obj = TS.RegexSearcher(names, numproc=numproc)
			result = [simple(obj.counts('[(]A')), simple(obj.sents('[(]Y b'))]
		obj.pool.shutdown()
		obj.close()
		return [{os.path.basename(a): b for a, b in x.items()} for x in result]


def real(which):
	"""Called in a new process."""
	want = execute(which, 1)
	got = execute(which, 2)
	sys.exit(0 if got == want else 'got %r; with one process: %r' % (
			got, want))


def realpools(case, rec):
	"""The stand-in for pools gives the same results as real pools."""
	which, = case
	want = execute(which, 1)
	got = sched.single(lambda: execute(which, 2))
	rec.expect('%s with stand-in' % which, got, want)
	with subprocess.Popen([sys.executable, '-c', REAL % (os.path.dirname(
			os.path.abspath(__file__)), which)],
			stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT, start_new_session=True) as proc:
		try:
			out = proc.communicate(timeout=60)[0].decode('utf8', 'replace')
		except subprocess.TimeoutExpired:
			out = 'no answer'
			os.killpg(proc.pid, 9)
			proc.wait()
		if proc.returncode:
			rec.fail('%s with two processes: %s' % (which, out[-2000:]))
	rec.step(2)
	rec.trace()


SPACES = [
	core.Space('recurring', gen_recurring, recurring, {
		'quick': 'treebanks of up to 3 out of 6 trees; 2 or 3 workers (2 for 3 trees), all '
		'schedules; disc, indices, maxdepth 0-2',
		'thorough': 'sequences of up to 4 trees'}),
	core.Space('models', gen_models, models, {
		'quick': 'treebanks of up to 2 out of 6 trees, 2 workers',
		'thorough': 'up to 3 trees'}),
	core.Space('workload', gen_workload, workload, {
		'quick': 'up to 79 trees, 16 workers',
		'thorough': 'up to 399 trees'}),
	core.Space('tool', gen_tool, tool, {
		'quick': 'treebanks of 3 out of 6 trees; 14 sets of options; 5 pairs '
		'of treebanks, 10 sets of options; 2 or 3 workers, all schedules',
		'thorough': 'all options for all treebanks'}),
	core.Space('parse', gen_parse, parse, {
		'quick': '5 parsers, all sequences of up to 2 of 5 sentences (3 '
		'different sentences for 2 parsers), 2 workers; options and errors '
		'with 2 sentences; all schedules',
		'thorough': 'up to 4 sentences'}),
	core.Space('experiment', gen_experiment, experiment, {
		'quick': '5 parsers, all sequences of up to 2 of 5 sentences (3 '
		'different sentences for 1 parser), 2 or 3 workers; all assignments '
		'to workers and orders of completion',
		'thorough': 'up to 4 sentences'}),
	core.Space('search', gen_search, search, {
		'quick': '11 queries with each of 2 engines, 3 files; 2 or 3 workers; '
		'histories of 3 queries with 2 workers, 2 files; all assignments to '
		'workers and orders of completion',
		'thorough': 'all pairs of queries'}),
	core.Space('real', gen_real, realpools, 'the 6 places where workers are '
		'started, with operating system processes', workers=3),
	]
ASSUMPTIONS = ['workers share nothing but files; the stand-in for pools runs '
	'tasks in forked processes, one at a time']

if __name__ == '__main__':
	sys.exit(core.main('C35', SPACES, ASSUMPTIONS))
