"""Exhaustive exploration driver shared by all checks.

A check is a list of *spaces*.  A space enumerates a finite, explicitly bounded
set of cases (inputs, operation sequences, schedules, fault points) and runs
every one of them on the real code next to an independent model.  Cases are
literals, so that a counterexample can be stored and replayed.
"""
import ast
import hashlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAXFAIL = 4  # per worker and space
HANG = 100  # seconds without finishing a single case


class Space(object):
	"""gen(tier) yields literal cases; check(case, rec) runs one of them.

	:param bound: description of the bound for each tier, for the evidence.
	:param tiers: tiers in which this space is explored."""

	def __init__(self, name, gen, check, bound='', tiers=('quick', 'thorough'),
			setup=None, workers=None):
		self.name, self.gen, self.check = name, gen, check
		self.bound, self.tiers, self.setup = bound, tiers, setup
		self.workers = workers


class Rec(object):
	"""What one worker saw."""

	def __init__(self, space):
		self.space = space
		self.states = set()
		self.outcomes = set()
		self.transitions = self.traces = self.cases = 0
		self.fails = []
		self.samples = []
		self.case = None
		self.counts = {}

	def state(self, key):
		self.states.add(hashlib.blake2b(
				repr(key).encode('utf8', 'backslashreplace'),
				digest_size=8).digest())

	def step(self, n=1):
		self.transitions += n

	def trace(self, n=1):
		self.traces += n

	def outcome(self, key):
		if len(self.outcomes) < 200000:
			self.outcomes.add(hashlib.blake2b(
					repr(key).encode('utf8', 'backslashreplace'),
					digest_size=8).digest())

	def count(self, name, n=1):
		self.counts[name] = self.counts.get(name, 0) + n

	def fail(self, msg, key=None):
		"""Report a violation for the current case; ``key`` identifies it."""
		self.fails.append((self.space.name, self.case,
				key or '%s:%r' % (self.space.name, self.case), str(msg)[:3000]))

	def expect(self, what, got, want, key=None):
		if got != want:
			self.fail('%s: got %r, expected %r' % (what, got, want), key)
			return False
		return True


def known(pid):
	"""Listed findings: {key: text}."""
	result = {}
	if os.path.exists(KNOWN):
		with open(KNOWN, encoding='utf8') as inp:
			for line in inp:
				if line.startswith('finding: property=%s ' % pid):
					rest = line.split(' ', 2)[2].rstrip('\n')
					assert rest.startswith('key='), line
					key, _, text = rest[4:].partition(' :: ')
					result[key] = text
	return result


def runcase(space, case, rec, knownkeys):
	rec.case = case
	rec.cases += 1
	before = len(rec.fails)
	try:
		space.check(case, rec)
	except MemoryError:
		rec.fails.append((space.name, case, '%s:%r' % (space.name, case),
				'ran out of memory'))
	except Exception:  # pylint: disable=broad-except
		rec.fails.append((space.name, case, '%s:%r' % (space.name, case),
				'exception\n' + traceback.format_exc()[-2500:]))
	new = rec.fails[before:]
	if new:
		# keep one entry per known finding; count the rest
		del rec.fails[before:]
		for a in new:
			if a[2] in knownkeys:
				if all(b[2] != a[2] for b in rec.fails):
					rec.fails.append(a)
				rec.count('known')
			else:
				rec.fails.append(a)
	return sum(1 for a in rec.fails if a[2] not in knownkeys)


def _worker(space, tier, i, nw, slot, mem, wfd, knownkeys):
	resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
	rec = Rec(space)
	err = None
	try:
		if space.setup:
			space.setup(tier)
		for n, case in enumerate(space.gen(tier)):
			if n % nw != i:
				continue
			struct.pack_into('qd', mem, slot * 16, n, time.time())
			rec.state(case)
			if len(rec.samples) < 1 or (n // nw) in (7, 101, 1009):
				rec.samples.append('%r' % (case, ))
			if runcase(space, case, rec, knownkeys) >= MAXFAIL:
				break
		struct.pack_into('qd', mem, slot * 16, -1, time.time())
	except Exception:  # pylint: disable=broad-except
		err = traceback.format_exc()
	out = pickle.dumps((b''.join(rec.states), b''.join(rec.outcomes),
			rec.transitions, rec.traces, rec.cases, rec.fails, rec.samples,
			rec.counts, err))
	with os.fdopen(wfd, 'wb') as f:
		f.write(out)


def explore(space, tier, knownkeys, nw=None):
	"""Run all cases of a space; returns a merged Rec and an error or None."""
	nw = nw or space.workers or min(8, os.cpu_count() or 1)
	mem = mmap.mmap(-1, 16 * nw)
	procs = {}
	sys.stdout.flush()
	sys.stderr.flush()
	for i in range(nw):
		struct.pack_into('qd', mem, i * 16, -2, time.time())
		rfd, wfd = os.pipe()
		pid = os.fork()
		if pid == 0:
			code = 0
			try:
				os.close(rfd)
				_worker(space, tier, i, nw, i, mem, wfd, knownkeys)
			except BaseException:  # pylint: disable=broad-except
				traceback.print_exc()
				code = 3
			finally:
				sys.stdout.flush()
				sys.stderr.flush()
				os._exit(code)  # pylint: disable=protected-access
		os.close(wfd)
		procs[rfd] = [pid, i, []]
	rec = Rec(space)
	error = None
	lost = []
	while procs:
		ready = select.select(list(procs), [], [], 2)[0]
		for fd in ready:
			data = os.read(fd, 1 << 20)
			if data:
				procs[fd][2].append(data)
				continue
			pid, i, chunks = procs.pop(fd)
			os.close(fd)
			status = os.waitpid(pid, 0)[1]
			if chunks and status == 0:
				_merge(rec, pickle.loads(b''.join(chunks)))
				if rec.counts.get('__err__'):
					error = rec.counts.pop('__err__')
			else:
				n = struct.unpack_from('qd', mem, i * 16)[0]
				if n == -99:
					continue
				why = ('killed by signal %d' % os.WTERMSIG(status)
						if os.WIFSIGNALED(status) else 'exit status %d' % status)
				if os.WIFSIGNALED(status) and os.WTERMSIG(status) != 9:
					lost.append((n, 'the process crashed: ' + why))
				else:
					error = 'worker: ' + why
		now = time.time()
		for fd, (pid, i, _) in list(procs.items()):
			n, start = struct.unpack_from('qd', mem, i * 16)
			# NB: start == 0 when read in the middle of an update
			if n >= 0 and start > 0 and now - start > HANG:
				lost.append((n, 'no answer after %d s' % HANG))
				struct.pack_into('qd', mem, i * 16, -99, now)
				os.kill(pid, signal.SIGKILL)
	for n, why in lost:
		for m, case in enumerate(space.gen(tier)):
			if m == n:
				rec.case = case
				rec.fail(why)
				break
	return rec, error


def _merge(rec, res):
	states, outcomes, trans, traces, cases, fails, samples, counts, err = res
	rec.states.update(states[a:a + 8] for a in range(0, len(states), 8))
	rec.outcomes.update(outcomes[a:a + 8] for a in range(0, len(outcomes), 8))
	rec.transitions += trans
	rec.traces += traces
	rec.cases += cases
	rec.fails += fails
	rec.samples = sorted(set(rec.samples + samples), key=lambda a: (len(a), a))
	for a, b in counts.items():
		rec.counts[a] = rec.counts.get(a, 0) + b
	if err:
		rec.counts['__err__'] = err


def main(pid, spaces, assumptions=(), level='model_checking'):
	args = sys.argv[1:]
	byname = {a.name: a for a in spaces}
	knownkeys = known(pid)
	if args and args[0] == '--replay':
		with open(args[1]) as inp:
			data = json.load(inp)
		space = byname[data['space']]
		if space.setup:
			space.setup(data.get('tier', 'quick'))
		rec = Rec(space)
		case = ast.literal_eval(data['case'])
		if case is None:
			rec, error = explore(space, data.get('tier', 'quick'), {})
			if error:
				rec.fails.append((space.name, None, '', error))
		else:
			runcase(space, case, rec, {})
		for a in rec.fails:
			print('%s\n%s' % (a[2], a[3]))
		print('reproduced' if rec.fails else 'not reproduced')
		return 1 if rec.fails else 0
	tier = args[0] if args and args[0] in ('quick', 'thorough') else \
			os.environ.get('VERIF_TIER', 'quick')
	only = args[args.index('--space') + 1] if '--space' in args else None
	begin = time.time()
	total = dict(states=0, transitions=0, traces=0, cases=0, outcomes=0)
	perspace, samples, fails = [], [], []
	for space in spaces:
		if tier not in space.tiers or (only and space.name != only):
			continue
		t = time.time()
		rec, error = explore(space, tier, knownkeys)
		if error and error.startswith('Traceback'):
			# the code failed while the cases were prepared
			rec.fails.append((space.name, None, '%s:preparation' % space.name,
					'exception\n' + error[-2500:]))
		elif error:
			sys.stderr.write('ERROR in %s/%s: %s\n' % (pid, space.name, error))
			return 2
		if rec.cases == 0 and not rec.fails:
			sys.stderr.write('ERROR %s/%s: empty space\n' % (pid, space.name))
			return 2
		fails += rec.fails
		total['states'] += len(rec.states)
		total['outcomes'] += len(rec.outcomes)
		total['transitions'] += rec.transitions
		total['traces'] += rec.traces
		total['cases'] += rec.cases
		bound = space.bound
		if isinstance(bound, dict):
			bound = bound.get(tier, bound.get('quick'))
		perspace.append(dict(space=space.name, bound=bound, cases=rec.cases,
				states=len(rec.states), transitions=rec.transitions,
				traces=rec.traces, distinct_outcomes=len(rec.outcomes),
				wall_s=round(time.time() - t, 2), **rec.counts))
		samples += ['%s: %s' % (space.name, a[:400]) for a in rec.samples[:2]
				+ rec.samples[-1:]]
		print('%s/%s: %d cases, %d states, %d transitions, %d traces, '
				'%d outcomes, %.1fs%s' % (pid, space.name, rec.cases,
				len(rec.states), rec.transitions, rec.traces,
				len(rec.outcomes), time.time() - t,
				' %r' % rec.counts if rec.counts else ''))
	new = {}
	seen = set()
	for name, case, key, msg in sorted(fails,
			key=lambda a: (len(repr(a[1])), repr(a[1]))):
		if key in knownkeys:
			seen.add(key)
		else:
			new.setdefault(key, (name, case, msg))
	for key in sorted(knownkeys):
		if key in seen:
			print('KNOWN-FINDING: property=%s %s' % (pid, knownkeys[key]))
		elif not only:
			print('note: listed finding not seen in this run: %s' % key)
	os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
	for key, (name, case, msg) in list(new.items())[:5]:
		fname = os.path.join(VERIF, 'replays', '%s-%s.json' % (
				pid, hashlib.sha1(key.encode('utf8', 'backslashreplace')
				).hexdigest()[:12]))
		with open(fname, 'w') as out:
			json.dump(dict(property=pid, space=name, case=repr(case), key=key,
					message=msg, tier=tier, replay='%s %s --replay %s' % (
					sys.executable, os.path.abspath(sys.argv[0]), fname)),
					out, indent=1)
		print('%s: %s' % (key[:400], msg[-900:]))
		print('VIOLATION property=%s replay=%s' % (pid, fname))
	evidence = dict(property=pid, tier=tier,
			seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
			coverage=dict(states=total['states'],
				transitions=total['transitions'],
				traces_validated_against_impl=total['traces'],
				cases=total['cases'], distinct_outcomes=total['outcomes'],
				exhaustive=not new, spaces=perspace, samples=samples[:24]),
			assumptions=list(assumptions),
			wall_s=round(time.time() - begin, 2), violations=len(new))
	if level == 'fault_enumeration' or level == 'exploration':
		evidence['coverage'].update(evaluations=total['cases'],
				distinct_nontrivial=total['states'],
				rule='cases are enumerated by the spaces listed')
	if not only:
		os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
		with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as out:
			json.dump(evidence, out, indent=1)
	return 1 if new else 0
