"""C33: the command line tools do what their options say."""
import gzip
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import combinations, product
from vlib import build, core, gen, scratch
build.activate('full')
import logging  # noqa: E402
from discodop import cli, treebank as TB, treetransforms as TT  # noqa: E402
from discodop import treebanktransforms as BT, grammar as GR  # noqa: E402
from discodop.tree import ParentedTree, DrawTree, frontier  # noqa: E402
from discodop.containers import Grammar  # noqa: E402
logging.disable(logging.WARNING)
CORPORA = {}
HEADRULES = ('S\tRIGHT-TO-LEFT\tVP VB\nVP\tLEFT-TO-RIGHT\tVB V\n'
		'NP\tRIGHT-TO-LEFT\tN NP\n')
# as export annotations: label, lemma, morph, func
TREES = [
	('(ROOT (S (NP (D 0) (N 1)) (VP (VB 2) (NP (N 4))) (. 3)))',
		'the dog sees . x', 'a'),
	('(ROOT (S (VP (VB 0) (PP (P 3) (NP (D 4) (N 5)))) (NP (N 1) (A 2))) '
		'(. 6))', 'y é b to ( the )', 'b'),
	('(ROOT (NP (N 0)))', 'z', 'c'),
	('(S (NP-SBJ (-NONE- 0)) (VP (VB 1) (, 2) (NP (NP (N 3)) (CC 4) (NP '
		'(N 5)) (N 6))))', '*T* go , a and b c', 'd'),
	('(ROOT (S (VP (VP (VB 0) (N 2)) (V 4)) (N 1) (A 3)))', 'a b c d e', '5'),
	]


def quiet(func, argv, stdin=None):
	"""Run a command in this process; return exception, output, messages."""
	files = [scratch.write('in', stdin or ''), scratch.path('out'),
			scratch.path('err')]
	saved = [os.dup(n) for n in range(3)]
	sys.stdout.flush()
	sys.stderr.flush()
	args, clsargs = sys.argv[:], cli.argv
	error = None
	try:
		fds = [os.open(files[0], os.O_RDONLY)] + [os.open(a, os.O_WRONLY
				| os.O_CREAT | os.O_TRUNC) for a in files[1:]]
		for n, fd in enumerate(fds):
			os.dup2(fd, n)
			os.close(fd)
		sys.argv[:] = ['discodop'] + argv
		cli.argv = sys.argv
		try:
			func()
		except SystemExit as err:
			error = err.code and 'exit %s' % err.code
		except Exception as err:
			error = '%s: %s' % (type(err).__name__, err)
	finally:
		for a in (sys.stdout, sys.stderr):
			try:
				a.flush()
			except OSError:
				pass
		for n, fd in enumerate(saved):
			os.dup2(fd, n)
			os.close(fd)
		sys.argv[:], cli.argv = args, clsargs
	out = []
	for a in files[1:]:
		with open(a, 'rb') as inp:
			out.append(inp.read())
	return error, out[0], out[1].decode('utf8', 'replace')


def corpora():
	"""The treebank in each of the formats."""
	if CORPORA:
		return CORPORA
	texts = {'export': TB.EXPORTHEADER, 'bracket': '', 'discbracket': ''}
	for n, (text, sent, key) in enumerate(TREES):
		tree = ParentedTree(text)
		sent = sent.split()
		for m, a in enumerate(list(tree.subtrees())[1:]):
			a.source = [sent[a[0]] if isinstance(a[0], int) else '#%d' % (500 + m),
					'l%d' % m if isinstance(a[0], int) else '--', a.label,
					'm%d' % m if m % 3 else '--', 'F%d' % (m % 4)
					if m % 4 else '--', '0']
		texts['discbracket'] += TB.writetree(tree, sent, key, 'discbracket')
		texts['export'] += TB.writetree(tree, sent, key, 'export',
				comment='c%d' % n if n % 2 else None)
		texts['bracket'] += TB.writetree(TT.canonicalize(
				TT.raisediscnodes(marked(tree))), sent, key, 'bracket')
	for fmt, text in texts.items():
		CORPORA[fmt] = scratch.write('corpus.' + fmt, text), text
		CORPORA[fmt, 'iso'] = scratch.path('corpus.iso.' + fmt), text
		with open(CORPORA[fmt, 'iso'][0], 'wb') as out:
			out.write(text.encode('iso-8859-1'))
	CORPORA['rules'] = scratch.write('x.headrules', HEADRULES)
	return CORPORA


def marked(tree):
	from discodop.heads import applyheadrules, readheadrules
	tree = tree.copy(True)
	applyheadrules(tree, readheadrules(scratch.write('y', HEADRULES)))
	return tree


# --- treetransforms ------------------------------------------------------------
ACTIONS = ('introducepreterminals', 'transforms=FUNC,TAGPA',
		'binarize', 'optimalbinarize', 'splitdisc', 'mergedisc', 'canonical',
		'raisedisc', 'unbinarize', 'reversetransforms=APPEND-FUNC',
		'transforms=negra')
BIN = ('h 1', 'h 0', 'v 2', 'H 1', 'factor=left', 'leftunary', 'rightunary',
		'tailmarker', 'direction', 'markhead', 'dot', 'filterlabels=NP N',
		'labelfun=lambda n: n.label[0]', 'markovthreshold=2', 'v 3')
READ = ('headrules=', 'ensureroot=ROOT', 'ensureroot=TOP', 'removeempty',
		'punct=move', 'punct=remove', 'punct=root', 'functions=add',
		'functions=remove', 'functions=replace', 'functions=between',
		'morphology=add', 'morphology=replace', 'morphology=between',
		'lemmas=add', 'lemmas=replace', 'lemmas=between')
SELECT = ('slice=1:', 'slice=:2', 'slice=1:3', 'slice=-2:', 'slice=:-1',
		'slice=2:1', 'slice=0:99', 'maxlen=5', 'maxlen=6', 'renumber', 'sentid',
		'markorigin')
OUT = ('export', 'bracket', 'discbracket', 'tokens', 'wordpos', 'conll', 'mst')
OTHER = BIN + READ + SELECT


def gen_transforms(tier):
	quick = tier == 'quick'
	fmts = ('export', 'bracket', 'discbracket')
	# formats, encodings, selections
	for a, b in product(fmts + (None, ), OUT + (None, )):
		for acts in ((), ('binarize', )):
			for opts in [()] + [(x, ) for x in SELECT + READ] + list(
					combinations(SELECT + ('headrules=', ), 2)):
				for enc in ((), ('inputenc', ), ('outputenc', ), ('enc', ),
						('inputenc', 'outputenc')):
					if enc and len(opts) > 1:
						continue
					yield (a, b), enc, acts, opts, 'file'
	for fmt in fmts:
		for way in ('file', 'stdin', 'stdout', 'pipe', 'dash'):
			for opts in [()] + [(x, ) for x in SELECT]:
				for acts in ((), ('binarize', )):
					yield (fmt, ), (), acts, opts, way
		# all actions with each option
		for act in ACTIONS:
			for k in (0, 1, 2):
				for opts in combinations(OTHER, k):
					if k == 2 and act != 'binarize' and (
							quick or opts[0] in BIN and opts[1] in BIN):
						continue
					if k == 2 and quick and (fmt == 'bracket'
							or not (opts[0] in BIN and (opts[1] in BIN
							or opts[1] in READ[:3]))):
						continue
					yield (fmt, ), (), (act, ), opts, 'file'
		for k in (2, 3):
			for acts in product(ACTIONS, repeat=k):
				if k == 3 and quick and fmt != 'export':
					continue
				for opts in ((), ('headrules=', ), ('markorigin', ),
						('h 1', 'v 2', 'markorigin', 'headrules=')):
					if k == 3 and quick and opts:
						continue
					yield (fmt, ), (), acts, opts, 'file'
	for fmt in fmts[:1] if quick else fmts:
		for opts in combinations(BIN + READ[:1], 3):
			yield (fmt, ), (), ('binarize', ), opts, 'file'


def transforms(case, rec):
	fmts, enc, acts, opts, way = case
	c = corpora()
	o = {}
	argv = []
	for a in opts:
		if a == 'headrules=':
			a += c['rules']
		if ' ' in a and '=' not in a:
			name, value = a.split(' ')
			argv += ['-' + name, value]
		else:
			name, _, value = a.partition('=')
			argv.append('--' + a)
		if name in o:  # not both
			return
		o[name] = value
	if len(fmts) == 1:
		infmt = outfmt = fmts[0]
		argv.append('--fmt=' + infmt)
	else:
		infmt, outfmt = fmts
		argv += ['--inputfmt=' + infmt] if infmt else []
		argv += ['--outputfmt=' + outfmt] if outfmt else []
	verbatim = (len(fmts) == 2 and infmt == outfmt and infmt is not None
			and not acts and set(o) <= {'slice'} and 'enc' not in enc)
	infmt, outfmt = infmt or 'export', outfmt or 'export'
	argv += ['--%s=iso-8859-1' % a for a in enc]
	inenc = 'iso-8859-1' if set(enc) & {'inputenc', 'enc'} else 'utf8'
	outenc = 'iso-8859-1' if set(enc) & {'outputenc', 'enc'} else 'utf8'
	argv += ['--' + a for a in acts]
	source = c[infmt, 'iso'] if inenc != 'utf8' else c[infmt]
	outname = scratch.path('result')
	if os.path.exists(outname):
		os.unlink(outname)
	files = {'file': [source[0], outname], 'stdin': ['-', outname],
			'stdout': [source[0]], 'pipe': [], 'dash': ['-', '-']}[way]
	error, out, msg = quiet(cli.treetransforms, ['treetransforms'] + files
			+ argv, source[1] if '-' in files or way == 'pipe' else None)
	if len(files) == 2 and files[1] != '-':
		rec.expect('standard output', out, b'')
		out = b''
		if os.path.exists(outname):
			with open(outname, 'rb') as inp:
				out = inp.read()
	try:
		want, cnt = expected(source[0], infmt, outfmt, inenc, o, acts,
				verbatim)
		want = want.encode(outenc)
	except Exception as err:
		if isinstance(err, (NameError, ImportError)):
			raise
		if error is None:
			rec.fail('%r accepted; expected %r' % (argv, err))
		rec.step()
		return
	if error is not None:
		rec.fail('%r: %s' % (argv, error))
		return
	rec.expect('output of %r' % argv, out.decode(outenc, 'replace'),
			want.decode(outenc))
	rec.expect('message', 'transformed %d trees' % cnt in msg, True)
	rec.outcome(want)
	rec.state((infmt, outfmt, enc, acts, opts))
	rec.step(cnt)
	rec.trace()


def expected(fname, infmt, outfmt, inenc, o, acts, verbatim):
	corpus = TB.READERS[infmt](fname, encoding=inenc,
			headrules=o.get('headrules'), ensureroot=o.get('ensureroot'),
			removeempty='removeempty' in o, punct=o.get('punct'),
			functions=o.get('functions'), morphology=o.get('morphology'),
			lemmas=o.get('lemmas'))
	start, end = [int(a) if a else None
			for a in o.get('slice', ':').split(':')]
	if verbatim:
		blocks = list(corpus.blocks().values())[start:end]
		return ''.join(blocks), len(blocks)
	items = list(corpus.itertrees())[start:end]
	if 'maxlen' in o:
		items = [a for a in items if len(a[1].sent) <= int(o['maxlen'])]
	if 'renumber' in o:
		items = [('%8d' % n, a) for n, (_, a) in enumerate(items, 1)]
	h, v, H = int(o.get('h', 999)), int(o.get('v', 1)), int(o.get('H', 0))
	for _, item in items:
		for act in acts:
			act, _, value = act.partition('=')
			names = BT.expandpresets(value.split(',')) if value else None
			if act == 'introducepreterminals':
				item.tree = TT.introducepreterminals(item.tree, item.sent)
			elif act == 'transforms':
				item.tree = BT.transform(item.tree, item.sent, names)
			elif act == 'reversetransforms':
				item.tree = BT.reversetransform(item.tree, item.sent, names)
			elif act == 'binarize':
				item.tree = TT.binarize(item.tree,
						factor=o.get('factor', 'right'), horzmarkov=h,
						vertmarkov=v, revhorzmarkov=H,
						leftmostunary='leftunary' in o,
						rightmostunary='rightunary' in o,
						tailmarker='$' if 'tailmarker' in o else '',
						direction='direction' in o,
						headoutward='headrules' in o,
						markhead='markhead' in o, dot='dot' in o,
						filterlabels=tuple(o.get('filterlabels', '').split()),
						labelfun=(lambda n: n.label[0])
						if 'labelfun' in o else None)
			elif act == 'optimalbinarize':
				item.tree = TT.optimalbinarize(item.tree, '|',
						'headrules' in o, h, v)
			elif act == 'splitdisc':
				item.tree = TT.splitdiscnodes(item.tree, 'markorigin' in o)
			elif act == 'mergedisc':
				item.tree = TT.mergediscnodes(item.tree)
			elif act == 'canonical':
				item.tree = TT.canonicallyorderedtree(item.tree, item.sent)
			elif act == 'raisedisc':
				item.tree = TT.raisediscnodes(item.tree)
			elif act == 'unbinarize':
				item.tree = TT.unbinarize(item.tree, item.sent)
	if 'binarize' in acts and 'markovthreshold' in o:
		TT.markovthreshold([a.tree for _, a in items],
				int(o['markovthreshold']), H + h - 1, max(v - 1, 1))
	if outfmt in ('conll', 'mst') and 'headrules' not in o:
		raise ValueError('need head rules')
	result = [TB.EXPORTHEADER] if outfmt == 'export' else []
	for key, item in items:
		tree = item.tree
		if outfmt == 'bracket':
			tree = TT.canonicalize(tree)
		result.append(TB.writetree(tree, item.sent, key, outfmt,
				comment=item.comment, sentid='sentid' in o))
	return ''.join(result), len(items)


# --- treedraw ----------------------------------------------------------------
DRAW = ('f', 'm', 'n 2', 'numtrees=1', 'functions=remove', 'functions=between',
		'functions=add', 'morphology=replace', 'morphology=between', 'abbr',
		'plain', 'frontier', 'secedge', 'encoding=iso-8859-1')
OUTPUTS = (None, 'text', 'html', 'svg', 'tikznode', 'tikzmatrix', 'tikzqtree')


def gen_draw(tier):
	for fmt in ('export', 'bracket', 'discbracket', None, 'auto'):
		for output in OUTPUTS:
			for k in (0, 1, 2) + ((3, ) if tier != 'quick' else ()):
				for opts in combinations(DRAW, k):
					for way in ('file', 'both', 'stdin'):
						if (way == 'stdin') == (fmt in (None, 'auto')):
							yield fmt, output, opts, way
						elif fmt == 'auto' or fmt is None and way == 'file':
							yield fmt, output, opts, way
					if k < 2:
						for way in ('gz', 'zst'):
							yield fmt, output, opts, way


def compress(fname, how):
	"""Create a compressed version (and a plain one); return its name."""
	name = scratch.path('packed.' + how)
	with open(fname, 'rb') as inp:
		data = inp.read()
	with open(scratch.path('packed.plain'), 'wb') as out:
		out.write(data)
	with open(name, 'wb') as out:
		out.write(gzip.compress(data) if how == 'gz' else subprocess.run(
				['zstd', '-q', '-c'], input=data, stdout=subprocess.PIPE,
				check=True).stdout)
	return name


def draw(case, rec):
	fmt, output, opts, way = case
	c = corpora()
	o, argv = {}, []
	for a in opts:
		name, _, value = a.replace(' ', '=').partition('=')
		name = {'n': 'numtrees'}.get(name, name)
		if name in o:
			return
		o[name] = value
		argv += ['-' + a[0]] + ([value] if value else []) if (
				'=' not in a and len(a) < 4) else ['--' + a]
	if 'f' in o:  # these take precedence
		o['functions'] = 'add'
	if 'm' in o:
		o['morphology'] = 'add'
	argv += ['--fmt=' + fmt] if fmt else []
	argv += ['--output=' + output] if output else []
	fmts = [fmt or 'export']
	if fmt == 'auto' or way == 'stdin':
		fmts = ['discbracket'] if 'plain' in o else ['export'] if (
				'abbr' in o) else ['bracket']
	iso = 'encoding' in o
	sources = [c[a, 'iso'] if iso else c[a] for a in fmts]
	if way == 'both':
		other = scratch.path('second')
		with open(sources[0][0], 'rb') as inp:
			data = inp.read().replace(b'the', b'THE')
		with open(other, 'wb') as out:
			out.write(data)
		sources.append((other, None))
	elif way in ('gz', 'zst'):
		sources = [(compress(a, way), b) for a, b in sources]
	files = [a for a, _ in sources]
	stdin = None
	if way == 'stdin':
		files, stdin = [], sources[0][1]
		if iso:
			return
	error, out, _ = quiet(cli.treedraw, ['treedraw'] + argv + files, stdin)
	output = output or 'text'
	auto = fmt == 'auto' or way == 'stdin'
	funcsep = '-' if o.get('functions') in ('add', 'between') else None
	limit = int(o['numtrees']) if 'numtrees' in o else None
	key = {'html': 'html', 'svg': 'svg'}.get(output, 'latex'
			if output.startswith('tikz') else None)
	want = []
	items = []
	for (a, _), f in zip(sources, fmts * 2):
		if auto and f == 'export':  # other order of children
			if way in ('gz', 'zst'):
				a = a.rsplit('.', 1)[0] + '.plain'
			with open(a, encoding='iso-8859-1' if iso else 'utf8') as inp:
				items.append([(0, TB.Item(*(b + (None, )))) for b in
						TB.incrementaltreereader(inp, functions=o.get(
						'functions'), morphology=o.get('morphology'))])
			continue
		items.append(list(TB.READERS[f](a,
				encoding='iso-8859-1' if iso else 'utf8',
				functions=o.get('functions'),
				morphology=o.get('morphology')).itertrees()))
	try:
		if key:
			want.append(DrawTree.templates[key][0])
		if auto:
			items = [a for b in items for a in b]
			if fmts[0] != 'export':  # comments are not recognized
				for _, a in items:
					a.comment = None
			parallel = [[a] for a in items[:limit]]
		else:
			parallel = list(zip(*items))[:limit]
		for num, row in enumerate(parallel, 1):
			for (name, _), (sentid, item) in zip(sources, row):
				tree, sent = item.tree, item.sent
				head = ''
				if not auto:
					head = ('%s:' % name if len(sources) > 1 else ''
							) + '%s. ' % sentid
				else:
					head = '%d. ' % num
				item.comment = item.comment or ''
				if 'frontier' in o:
					want.append('%s%s %s' % (head, frontier(tree, sent),
							item.comment))
					continue
				want.append('%s%s' % (head, item.comment))
				d = DrawTree(tree, sent, abbr='abbr' in o,
						secedge='secedge' in o)
				if output in ('text', 'html'):
					want.append(d.text(unicodelines=True, funcsep=funcsep,
							ansi=output == 'text' and 'plain' not in o,
							html=output == 'html' and 'plain' not in o))
				elif output == 'svg':
					want.append(d.svg(funcsep=funcsep))
				elif output == 'tikzqtree':
					want.append(d.tikzqtree() + '\n')
				else:
					want.append(getattr(d, output)(funcsep=funcsep) + '\n')
		if key:
			want.append(DrawTree.templates[key][1])
	except ValueError as err:
		if error is None:
			rec.fail('%r accepted; expected %r' % (argv, err))
		return
	want = ''.join(a + '\n' for a in want)
	rec.expect('no error %r' % argv, error, None)
	rec.expect('output of %r' % argv, norm(out.decode('utf8'), auto),
			norm(want, auto))
	rec.outcome(want)
	rec.state((fmt, output, opts))
	rec.step(len(items))
	rec.trace()


def norm(text, auto):
	"""Node numbers depend on the order of nodes."""
	if not auto:
		return text
	return re.sub(r'[ \t]+\n', '\n', text)


# --- grammar ----------------------------------------------------------------
BANKS = [
	['(S (NP (D 0=the) (N 1=dog)) (VP (V 2=x)))',
		'(S (NP (N 0=dog)) (VP (V 1=x) (NP (N 2=a))))'],
	['(S (NP (D 0=the) (N 1=é)) (VP (V 2=x)))'] * 3,
	['(S (VP (V 0=x) (P 2=y)) (N 1=z))', '(S (VP (V 0=x) (P 1=y)) (N 2=.))',
		'(S (VP (V 0=x)) (N 1=x))'],
	['(S (A (A 0=a) (A 2=b)) (A 1=c))', '(S (A (A 0=a) (A 2=b)) (A 1=a))',
		'(T (A 0=c))'],
	]
FRAGS = [
	[('(S (NP (D 0=the) (N 1=)) (VP 2=))', '2'), ('(NP 0=a)', '1'),
		('(VP (V 0=x))', '1/2'), ('(N 0=a)', '0x1.8p+1')],
	[('(S (VP (V 0=x) (P 2=)) (N 1=z))', '1'), ('(P 0=y)', '3')],
	[('(S (NP (D the) (N )) (VP ))', '2'), ('(VP (V x))', '1/2'),
		('(N a)', '0.25')],
	[('(S (A ) (A a))', '3'), ('(A b)', '1/3')],
	]


def gen_grammars(tier):
	opts = ('gzip', 'packed', 's', 'from=gz', 'from=zst', 'numproc=2', 'maxdepth=1', 'maxdepth=2',
			'dopestimator=ewe', 'dopestimator=shortest', 'dopestimator=rfe',
			'inputenc')
	for bank in range(len(BANKS)):
		for fmt in ('export', 'bracket', 'discbracket', None):
			for model in ('pcfg', 'plcfrs', 'dopreduction', 'doubledop',
					'dop1'):
				for k in (0, 1, 2):
					for o in combinations(opts, k):
						yield model, bank, fmt, o
	for bank in range(len(FRAGS)):
		for k in (0, 1, 2):
			for o in combinations(('gzip', 's', 'from=gz', 'from=zst',
					'inputenc'), k):
				yield 'ptsg', bank, None, o


def grammars(case, rec):
	model, bank, fmt, opts = case
	o, argv = {}, []
	for a in opts:
		name, _, value = a.partition('=')
		if name in o:
			return
		o[name] = value
	if 'packed' in o and model != 'dopreduction' or (
			'maxdepth' in o and model != 'dop1') or (
			'numproc' in o and model != 'doubledop') or (
			'dopestimator' in o and not model.startswith('do')):
		return
	enc = 'iso-8859-1' if 'inputenc' in o else 'utf8'
	for a in o:
		if a == 's':
			argv += ['-s', 'NP']
		elif a == 'inputenc':
			argv.append('--inputenc=iso-8859-1')
		elif a != 'from':
			argv.append('--' + a + ('=' + o[a] if o[a] else ''))
	out = scratch.path('grammar')
	ext = '.gz' if 'gzip' in o else ''
	names = [out + a + ext for a in ('.rules', '.lex', '.backtransform')]
	for a in names:
		if os.path.exists(a):
			os.unlink(a)
	backtransform = None
	if model == 'ptsg':
		source = scratch.path('frags')
		data = ''.join('%s\t%s\n' % a for a in FRAGS[bank])
		bitpar = '=' not in FRAGS[bank][0][0]
		frags = {}
		for a, w in FRAGS[bank]:
			frags[indexed(a)] = (float.fromhex(w) if w.startswith('0x') else
					float(w.split('/')[0]) / float(w.split('/')[1])
					if '/' in w else float(w))
		grammar, backtransform, _ = GR.compiletsg(frags)
		start = grammar[0][0][0][0]
	else:
		data = ''
		trees, sents = [], []
		for n, text in enumerate(BANKS[bank], 1):
			tree, sent = treeof(text)
			trees.append(tree)
			sents.append(sent)
		if fmt == 'bracket' and any(gen.isdisc(gen.totuple(a))
				for a in trees):
			return
		if fmt:
			argv.append('--inputfmt=' + fmt)
		for n, (tree, sent) in enumerate(zip(trees, sents), 1):
			data += TB.writetree(tree, sent, str(n), fmt or 'export')
		source = scratch.path('bank')
		bitpar = model == 'pcfg' or fmt == 'bracket'
		if fmt in (None, 'export'):  # has no root labels
			for a in trees:
				a.label = 'ROOT'
		for a in trees:
			TT.addfanoutmarkers(TT.canonicalize(a))
		if model in ('pcfg', 'plcfrs'):
			grammar, alt = GR.treebankgrammar(trees, sents), None
		elif model == 'dopreduction':
			grammar, alt = GR.dopreduction(trees, sents,
					packedgraph='packed' in o)
		elif model == 'doubledop':
			grammar, backtransform, alt, _ = GR.doubledop(trees, sents,
					maxdepth=1)
		else:
			grammar, backtransform, alt, _ = GR.dop1(trees, sents,
					maxdepth=int(o.get('maxdepth', 3)))
		if o.get('dopestimator', 'rfe') != 'rfe':
			grammar = [(r, w) for (r, _), w in
					zip(grammar, alt[o['dopestimator']])]
		start = trees[0].label
	with open(source, 'wb') as f:
		f.write(data.encode(enc))
	if 'from' in o:
		source = compress(source, o['from'])
	want = GR.writegrammar(grammar, bitpar=bitpar)
	error, stdout, _ = quiet(cli.grammar, ['grammar', model, source, out]
			+ argv)
	got = []
	for a in names:
		if not os.path.exists(a):
			got.append(None)
			continue
		with (gzip.open if ext else open)(a, 'rb') as inp:
			got.append(inp.read().decode('utf8'))
	rec.expect('rules of %r' % argv, got[0], want[0])
	rec.expect('lexicon of %r' % argv, got[1], want[1])
	rec.expect('templates of %r' % argv, got[2], None if backtransform is None
			else ''.join(a + '\n' for a in backtransform))
	stdout = stdout.decode('utf8')
	rec.expect('statistics of %r' % argv, GR.grammarinfo(grammar) in stdout, True)
	start = 'NP' if 's' in o else start
	want = None
	try:
		msg = Grammar(names[0], names[1], start=start).testgrammar()[1]
	except AssertionError as err:
		msg = str(err)
	except ValueError as err:
		msg, want = '', 'ValueError: %s' % err
	rec.expect('error with %r' % argv, error, want)
	rec.expect('grammar test', msg in stdout, True)
	rec.outcome(got[:2])
	rec.state(case)
	rec.step(len(grammar))
	rec.trace()


# --- merging of grammars ------------------------------------------------------
MERGE = {
	'rules': ['A\tB\tC\t01\t%s\n', 'A\tB\t0\t%s\n', 'S\tA\t0\t%s\n'],
	'lexicon': ['a\tX %s\n', 'a\tX %s\tY 2\n', 'b\tX %s\n'],
	'fragments': ['(A (B ) (C ))\t%s\n', '(S a)\t%s\n', '(A (B ))\t%s\n'],
	}


def gen_merge(tier):
	for kind in MERGE:
		for number in range(1, 4 if tier == 'quick' else 5):
			for masks in product(range(8), repeat=number):
				for gz in (False, True):
					yield kind, masks, gz


def merging(case, rec):
	kind, masks, gz = case
	files = []
	for n, m in enumerate(masks):
		lines = [a % (n + k + 1) for k, a in enumerate(MERGE[kind])
				if m >> k & 1]
		if kind == 'lexicon' and m & 3 == 3:
			del lines[0]  # each word once
		files.append(scratch.write('merge%d' % n, ''.join(sorted(lines))))
	out, want = scratch.path('merged'), scratch.path('want')
	ext = '.gz' if gz else ''
	if os.path.exists(out + ext):
		os.unlink(out + ext)
	error, _, _ = quiet(cli.grammar, ['grammar', 'merge', kind] + files
			+ [out + ext])
	if len(files) < 2:
		rec.expect('error with one file', error,
				'ValueError: need at least 2 input and 1 output arguments.')
		return
	rec.expect('error', error, None)
	func, key = {'rules': (GR.sumrules, GR.stripweight),
			'lexicon': (GR.sumlex, lambda x: x.split('\t', 1)[0]),
			'fragments': (GR.sumfrags, lambda x: x.rsplit('\t', 1)[0])}[kind]
	GR.merge(files, want, func, key)
	with (gzip.open if gz else open)(out + ext, 'rb') as inp, open(
			want, 'rb') as inp2:
		rec.expect('merged %s' % kind, inp.read(), inp2.read())
	rec.state(case)
	rec.step()
	rec.trace()


def indexed(frag):
	"""Indices for the leaves of a fragment in bracket format."""
	if '=' in frag:
		return frag
	cnt = iter(range(99))
	return re.sub(r' ([^ ()]*)\)', lambda m: ' %d=%s)' % (next(cnt),
			m.group(1)), frag)


def treeof(text):
	from discodop.tree import discbrackettree
	item = discbrackettree(text)
	return item if isinstance(item, tuple) else (item.tree, item.sent)


# --- the main command; invalid command lines ---------------------------------------

HERE = ('runexp', 'treetransforms', 'treedraw', 'grammar')  # defined in cli
VALID = {'runexp': ('rerun', ), 'treedraw': ('abbr', 'plain', 'frontier',
			'secedge', 'fmt=export', 'encoding=utf8', 'functions=add',
			'morphology=add', 'numtrees=1', 'output=text'),
		'treetransforms': ('binarize', 'optimalbinarize', 'splitdisc',
			'fmt=export', 'slice=1:2', 'renumber', 'sentid', 'maxlen=3'),
		'grammar': ('gzip', 'packed', 'inputfmt=export', 'dopestimator=rfe',
			'maxdepth=3', 'maxfrontier=4', 'numproc=1')}


def gen_usage(tier):
	words = sorted(cli.COMMANDS) + ['-v', '--version', '-h', '--help', 'help',
			'cli', 'main', 'tree', '', 'Eval', 'treedra', 'treedraws']
	yield 'main', ()
	for a in words:
		yield 'main', (a, )
		for b in ('-h', '--help', '-v', '--version', 'x', '', '-'):
			yield 'main', (a, b)
			yield 'main', (a, b, '--help')
	for cmd in VALID:
		for num in range(5):
			for opts in [()] + [(a, ) for a in VALID[cmd]] + [
					('nosuchoption', ), ('x=y', )] + [
					(a.split('=')[0] + '=' if '=' not in a else
					a.split('=')[0], ) for a in VALID[cmd]]:
				yield cmd, (num, ) + opts
	for model in ('pcfg', 'plcfrs', 'ptsg', 'info', 'merge', 'param', 'foo',
			'', 'rules'):
		for num in range(4):
			for what in ('rules', 'lexicon', 'fragments', 'other'):
				yield 'model', (model, num, what)


def usage(case, rec):
	"""Which command is run; wrong arguments are errors without effects."""
	cmd, args = case
	rec.step()
	rec.state(case)
	if cmd == 'main':
		return dispatch(list(args), rec)
	out = scratch.path('usage-out')
	exists = scratch.write('usage-in', BANKS[0][0] + '\n')
	if os.path.exists(out):
		os.unlink(out)
	before = sorted(os.listdir(scratch.folder()))
	if cmd == 'model':
		model, num, what = args
		argv = ['grammar', model] + [what if model == 'merge' else exists,
				exists, out][:num]
		error, stdout, stderr = quiet(cli.grammar, argv)
		if model in ('info', 'merge'):
			if model == 'info' and num:  # not a grammar
				want = 'AttributeError'
			else:
				want = 'IndexError' if model == 'info' else 'ValueError'
		elif num != 2:
			want = 'exit 2'
		elif model in ('pcfg', 'plcfrs', 'ptsg', 'param'):
			want = None  # not an export file, not fragments
		else:
			want = 'ValueError: unrecognized model'
		if want is None:
			rec.expect('some error', error is not None, True)
		else:
			rec.expect('error of %r' % argv, (error or '')[:len(want)], want)
	else:
		num, opts = args[0], args[1:]
		files = [exists, out, out, out, out][:num]
		if cmd == 'grammar':
			files = (['pcfg'] + files)[:num]
		argv = [cmd] + files + ['--' + a for a in opts]
		valid = set(opts) <= set(VALID[cmd])
		if valid and num in {'runexp': (1, ), 'treedraw': range(9),
				'treetransforms': (0, 1, 2), 'grammar': (3, )}[cmd]:
			return  # see elsewhere
		if cmd == 'runexp' and num + len(set(opts) - {'rerun'}) == 1:
			return  # anything else is the name of a file
		want = 'exit 2'
		error, stdout, stderr = quiet(getattr(cli, cmd), argv)
		rec.expect('error of %r' % argv, error, want)
		rec.expect('message of %r' % argv, 'error: ' in stderr, True)
		rec.expect('usage of %r' % argv, 'Usage: ' in stdout.decode('utf8'),
				True)
	rec.expect('files', sorted(a for a in os.listdir(scratch.folder())
			if not a.endswith(('-in', '-out', '-err'))), sorted(
			a for a in before if not a.endswith(('-in', '-out', '-err'))))
	rec.expect('output file', os.path.exists(out), False)
	rec.outcome((cmd, error))


def dispatch(argv, rec):
	import importlib
	called = []
	orig = {}

	class Replaced(BaseException):
		"""The process would be replaced."""

	def execlp(*args):
		called.append(('exec', ) + args)
		raise Replaced
	owners = {a: (cli, a) if a in HERE else (importlib.import_module(
			'discodop.' + a), 'main') for a in cli.COMMANDS}
	try:
		for a, (mod, name) in owners.items():
			orig[a] = getattr(mod, name)
			setattr(mod, name, lambda a=a: called.append(('run', a)))
		realexec, os.execlp = os.execlp, execlp
		try:
			def func():
				try:
					cli.main()
				except Replaced:
					pass
			error, stdout, stderr = quiet(func, argv)
		finally:
			os.execlp = realexec
	finally:
		for a in orig:
			setattr(owners[a][0], owners[a][1], orig[a])
	stdout = stdout.decode('utf8')
	rec.expect('error of %r' % argv, error, None)
	want = []
	if argv and argv[0] in cli.COMMANDS:
		want = [('exec', 'man', 'man', 'discodop-' + argv[0])
				if len(argv) == 2 and argv[1] in ('-h', '--help')
				else ('run', argv[0])]
		rec.expect('output of %r' % argv, (stdout, stderr), ('', ''))
	elif argv in (['-v'], ['--version']):
		from discodop import __version__
		rec.expect('version', (stdout, stderr), (__version__ + '\n', ''))
	else:
		rec.expect('usage', (stdout + stderr).count('Usage: '), 1)
		for a, b in cli.COMMANDS.items():
			rec.expect('command in usage', bool(re.search(r'^ *%s +%s$' % (a,
					re.escape(b)), stdout, re.M)), True)
	rec.expect('command run for %r' % argv, called, want)
	rec.outcome((called, len(stdout)))


SPACES = [
	core.Space('treetransforms', gen_transforms, transforms, {
		'quick': 'all formats x encodings x each option; each pair of '
		'selections; each way to pass input and output; each action with '
		'each option, binarization with each pair (and triple) of its '
		'options; each sequence of up to 3 actions; 5 trees',
		'thorough': 'each pair of options for each action; sequences of 3 '
		'actions in each format'}),
	core.Space('treedraw', gen_draw, draw, {
		'quick': 'formats x outputs x up to 2 options; one or two files, or '
		'standard input', 'thorough': 'up to 3 options'}),
	core.Space('grammar', gen_grammars, grammars,
		'4 treebanks x 4 formats x 5 models, 4 lists of fragments; each pair '
		'of options'),
	core.Space('usage', gen_usage, usage,
		'command lines of up to 3 words for the main command; up to 4 files and '
		'each option, valid or not, of 4 commands'),
	core.Space('merge', gen_merge, merging, {
		'quick': '3 kinds of files, sequences of up to 3 of 8 files',
		'thorough': 'up to 4 files'}),
	]
ASSUMPTIONS = [
	'The reference composes functions of the library that are the subject of '
	'other checks; what is decided here is the effect of options, order of '
	'actions, input and output.',
	]

if __name__ == '__main__':
	sys.exit(core.main('C33', SPACES, ASSUMPTIONS))
