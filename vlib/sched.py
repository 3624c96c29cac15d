"""A controlled scheduler for worker processes.

``install()`` replaces the pools of ``multiprocessing`` and
``concurrent.futures``.  Outside of ``explore()`` the original pools are used.
Inside, each pool consists of real forked processes with their own memory that
receive tasks and return results through pipes (pickled), but which worker
takes a task, and which worker is the next to finish, is decided by the
explorer.  ``explore(func)`` runs ``func`` once for every schedule.

Workers are interchangeable as long as they have not received anything, so
only the first unused worker is tried.  Since workers share no memory, a task
is executed when its result is needed; tasks of a single worker are executed
in order."""
import concurrent.futures
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import struct
import threading

ORIGINAL = {}
CURRENT = None  # the explorer that is active


class Explorer(object):
	"""Depth-first search over all sequences of choices."""

	def __init__(self):
		self.prefix, self.trail = [], []
		self.workers = []
		self.tasks = 0

	def choose(self, n):
		k = (self.prefix[len(self.trail)]
				if len(self.trail) < len(self.prefix) else 0)
		self.trail.append((k, n))
		return k

	def next(self):
		"""Go to the next sequence; returns False when done."""
		trail = self.trail
		while trail and trail[-1][0] + 1 >= trail[-1][1]:
			trail.pop()
		if not trail:
			return False
		self.prefix = [k for k, _ in trail[:-1]] + [trail[-1][0] + 1]
		self.trail = []
		return True

	def cleanup(self):
		for a in self.workers:
			a.kill()
		self.workers = []


def explore(func, limit=100000):
	"""Yield (result or exception, sequence of choices) for each schedule."""
	global CURRENT
	obj = Explorer()
	for _ in range(limit):
		CURRENT = obj
		try:
			result = func()
		except Exception as err:  # pylint: disable=broad-except
			result = err
		finally:
			CURRENT = None
			obj.cleanup()
		yield result, [k for k, _ in obj.trail], obj.tasks
		obj.tasks = 0
		if not obj.next():
			return
	raise ValueError('more than %d schedules' % limit)


def single(func):
	"""Run func with workers, using the first of all schedules."""
	global CURRENT
	obj = Explorer()
	CURRENT = obj
	try:
		return func()
	finally:
		CURRENT = None
		obj.cleanup()


class Worker(object):
	"""A forked process; executes one task at a time."""

	def __init__(self, initializer=None, initargs=()):
		self.used = False
		self.queue = []
		rin, self.win = os.pipe()
		self.rout, wout = os.pipe()
		self.pid = os.fork()
		if self.pid == 0:
			try:
				os.close(self.win)
				os.close(self.rout)
				self.loop(rin, wout, initializer, initargs)
			finally:
				os._exit(0)
		os.close(rin)
		os.close(wout)
		CURRENT.workers.append(self)
		ok, err = self.receive()
		if not ok:
			raise RuntimeError('worker failed to start: %r' % (err, ))

	@staticmethod
	def loop(rin, wout, initializer, initargs):
		global CURRENT
		CURRENT = None
		inp, out = os.fdopen(rin, 'rb'), os.fdopen(wout, 'wb')

		def send(ok, value):
			try:
				data = pickle.dumps((ok, value))
			except Exception as err:  # pylint: disable=broad-except
				data = pickle.dumps((False, RuntimeError(
						'cannot send result: %s' % err)))
			out.write(struct.pack('q', len(data)) + data)
			out.flush()

		try:
			if initializer is not None:
				initializer(*initargs)
		except Exception as err:  # pylint: disable=broad-except
			send(False, err)
			return
		send(True, None)
		while True:
			head = inp.read(8)
			if len(head) < 8:
				return
			func, args, kwargs = pickle.loads(
					inp.read(struct.unpack('q', head)[0]))
			try:
				result = func(*args, **kwargs)
			except Exception as err:  # pylint: disable=broad-except
				send(False, err)
			else:
				send(True, result)

	def receive(self):
		def get(n):
			chunks = []
			while n:
				a = os.read(self.rout, n)
				if not a:
					raise RuntimeError('worker died')
				chunks.append(a)
				n -= len(a)
			return b''.join(chunks)
		return pickle.loads(get(struct.unpack('q', get(8))[0]))

	def execute(self, data):
		os.write(self.win, struct.pack('q', len(data)))
		view = memoryview(data)
		while view:
			view = view[os.write(self.win, view[:65536]):]
		CURRENT.tasks += 1
		return self.receive()

	def kill(self):
		if self.pid:
			os.kill(self.pid, signal.SIGKILL)
			os.waitpid(self.pid, 0)
			os.close(self.win)
			os.close(self.rout)
			self.pid = 0


class Task(object):
	"""Function call for a particular worker."""

	def __init__(self, workers, func, args, kwargs):
		self.data = pickle.dumps((func, args, kwargs))
		self.done = None
		used = [a for a in workers if a.used]
		fresh = [a for a in workers if not a.used][:1]
		self.worker = (used + fresh)[CURRENT.choose(len(used + fresh))]
		self.worker.used = True
		self.worker.queue.append(self)

	def run(self):
		"""Execute this task, and tasks before it on the same worker."""
		while self.done is None:
			task = self.worker.queue.pop(0)
			task.done = self.worker.execute(task.data)
			task.finished()
		return self.done

	def finished(self):
		pass

	def get(self, timeout=None):  # pylint: disable=unused-argument
		ok, value = self.run()
		if not ok:
			raise value
		return value

	def wait(self, timeout=None):  # pylint: disable=unused-argument
		self.run()

	def ready(self):
		self.run()
		return True

	def successful(self):
		return self.run()[0]


def completion(tasks):
	"""Yield tasks in any order in which they can be completed.

	Tasks are taken from a queue as soon as the right worker is available."""
	tasks = list(tasks)
	pos, busy = 0, []
	while pos < len(tasks) or busy:
		while pos < len(tasks) and all(
				a.worker is not tasks[pos].worker for a in busy):
			busy.append(tasks[pos])
			pos += 1
		task = busy.pop(CURRENT.choose(len(busy)))
		task.run()
		yield task


def runchunk(func, chunk):
	return [func(a) for a in chunk]


def runstar(func, chunk):
	return [func(*a) for a in chunk]


class Pool(object):
	"""Stand-in for multiprocessing.Pool."""

	def __init__(self, processes=None, initializer=None, initargs=(),
			maxtasksperchild=None, context=None):
		# pylint: disable=unused-argument
		if processes is None:
			processes = 3
		if processes < 1:
			raise ValueError('Number of processes must be at least 1')
		self.workers = [Worker(initializer, initargs)
				for _ in range(processes)]
		self.open = True

	def submit(self, func, *args, **kwargs):
		if not self.open:
			raise ValueError('Pool not running')
		return Task(self.workers, func, args, kwargs)

	def chunked(self, func, iterable, chunksize, run=runchunk):
		iterable = list(iterable)
		if chunksize is None:
			chunksize, extra = divmod(len(iterable), len(self.workers) * 4)
			if extra:
				chunksize += 1
		return [self.submit(run, func, iterable[a:a + chunksize])
				for a in range(0, len(iterable), max(1, chunksize))]

	def apply(self, func, args=(), kwds=None):
		return self.submit(func, *args, **(kwds or {})).get()

	def apply_async(self, func, args=(), kwds=None, callback=None,
			error_callback=None):
		result = self.submit(func, *args, **(kwds or {}))

		def finished():
			ok, value = result.done
			if ok and callback:
				callback(value)
			elif not ok and error_callback:
				error_callback(value)
		result.finished = finished
		return result

	def map(self, func, iterable, chunksize=None):
		tasks = self.chunked(func, iterable, chunksize)
		return [a for task in tasks for a in task.get()]

	def starmap(self, func, iterable, chunksize=None):
		tasks = self.chunked(func, iterable, chunksize, runstar)
		return [a for task in tasks for a in task.get()]

	def map_async(self, func, iterable, chunksize=None, **_):
		return Batch(self.chunked(func, iterable, chunksize))

	def starmap_async(self, func, iterable, chunksize=None, **_):
		return Batch(self.chunked(func, iterable, chunksize, runstar))

	def imap(self, func, iterable, chunksize=1):
		tasks = self.chunked(func, iterable, chunksize)
		return (a for task in tasks for a in task.get())

	def imap_unordered(self, func, iterable, chunksize=1):
		tasks = self.chunked(func, iterable, chunksize)
		return (a for task in completion(tasks) for a in task.get())

	def close(self):
		self.open = False

	def terminate(self):
		self.open = False
		for a in self.workers:
			a.kill()

	def join(self):
		if self.open:
			raise ValueError('Pool is still running')

	def __enter__(self):
		return self

	def __exit__(self, *_):
		self.terminate()


class Batch(object):
	"""Result of map_async."""

	def __init__(self, tasks):
		self.tasks = tasks

	def get(self, timeout=None):  # pylint: disable=unused-argument
		return [a for task in self.tasks for a in task.get()]

	def wait(self, timeout=None):  # pylint: disable=unused-argument
		for a in self.tasks:
			a.run()

	def ready(self):
		self.wait()
		return True


class Future(concurrent.futures.Future):
	"""A future whose task is executed when needed."""

	task = None

	def set(self):
		if not self.done():
			ok, value = self.task.done
			if ok:
				self.set_result(value)
			else:
				self.set_exception(value)

	def result(self, timeout=None):
		if not self.cancelled():
			self.task.run()
		return super().result(timeout)

	def exception(self, timeout=None):
		if not self.cancelled():
			self.task.run()
		return super().exception(timeout)


class Executor(concurrent.futures.Executor):
	"""Stand-in for ProcessPoolExecutor."""

	def __init__(self, max_workers=None, mp_context=None, initializer=None,
			initargs=(), **_):
		# pylint: disable=unused-argument
		self.number, self.init = max_workers or 3, (initializer, initargs)
		self.workers = None
		self.closed = False

	def submit(self, fn, /, *args, **kwargs):
		if self.closed:
			raise RuntimeError('cannot schedule new futures after shutdown')
		if self.workers is None:
			self.workers = [Worker(*self.init) for _ in range(self.number)]
		result = Future()
		result.task = Task(self.workers, fn, args, kwargs)
		result.task.finished = result.set
		return result

	def shutdown(self, wait=True, cancel_futures=False):
		self.closed = True


def ours(futures):
	return CURRENT is not None and all(isinstance(a, Future) for a in futures)


def as_completed(fs, timeout=None):
	fs = list(fs)
	if not ours(fs):
		return ORIGINAL['as_completed'](fs, timeout)
	done = [a for a in fs if a.done()]
	back = {id(a.task): a for a in fs}
	return iter(done + [back[id(a)] for a in completion(
			a.task for a in fs if not a.done())])


def wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
	fs = list(fs)
	if not ours(fs):
		return ORIGINAL['wait'](fs, timeout, return_when)
	for a in fs:
		if not a.cancelled():
			a.task.run()
			if return_when == concurrent.futures.FIRST_COMPLETED:
				break
	from collections import namedtuple
	return namedtuple('DoneAndNotDoneFutures', 'done not_done')(
			{a for a in fs if a.done()}, {a for a in fs if not a.done()})


def makepool(*args, **kwargs):
	if CURRENT is None:
		return ORIGINAL['Pool'](*args, **kwargs)
	return Pool(*args, **kwargs)


def makeexecutor(*args, **kwargs):
	if CURRENT is None:
		return ORIGINAL['ProcessPoolExecutor'](*args, **kwargs)
	return Executor(*args, **kwargs)


def install():
	"""To be called before modules that start workers are imported."""
	if ORIGINAL:
		return
	assert threading.active_count() == 1
	ORIGINAL.update(Pool=multiprocessing.Pool,
			ProcessPoolExecutor=concurrent.futures.ProcessPoolExecutor,
			as_completed=concurrent.futures.as_completed,
			wait=concurrent.futures.wait)
	multiprocessing.Pool = makepool
	multiprocessing.context.BaseContext.Pool = (
			lambda self, *args, **kwargs: makepool(*args, **kwargs))
	concurrent.futures.ProcessPoolExecutor = makeexecutor
	concurrent.futures.as_completed = as_completed
	concurrent.futures.wait = wait
