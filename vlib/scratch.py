"""Scratch folder per process, removed when the check ends."""
import atexit
import os
import shutil
import tempfile

_dir = None


def folder():
	"""One scratch folder per check run (shared by forked workers)."""
	global _dir
	if _dir is None:
		base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
		_dir = tempfile.mkdtemp(prefix='vck-', dir=base)
		owner = os.getpid()

		def clean():
			if os.getpid() == owner:
				shutil.rmtree(_dir, ignore_errors=True)
		atexit.register(clean)
	return _dir


def path(name='x'):
	"""A file name for this process."""
	return os.path.join(folder(), '%d-%s' % (os.getpid(), name))


def write(name, text, mode='w', encoding='utf8', newline=''):
	fname = path(name)
	if mode == 'wb':
		with open(fname, 'wb') as out:
			out.write(text)
	else:
		with open(fname, 'w', encoding=encoding, newline=newline) as out:
			out.write(text)
	return fname
