"""Run a command in this process, with its input and output in files."""
import os
import sys
from . import scratch


def captured(func, argv, stdin=b''):
	"""Call func(argv); return exception, output (bytes), messages (str)."""
	with open(scratch.path('stdin'), 'wb') as out:
		out.write(stdin)
	files = [scratch.path(a) for a in ('stdin', 'stdout', 'stderr')]
	sys.stdout.flush()
	sys.stderr.flush()
	saved = [os.dup(n) for n in range(3)]
	error = None
	try:
		fds = [os.open(files[0], os.O_RDONLY)] + [os.open(a, os.O_WRONLY
				| os.O_CREAT | os.O_TRUNC) for a in files[1:]]
		for n, fd in enumerate(fds):
			os.dup2(fd, n)
			os.close(fd)
		try:
			func(argv)
		except SystemExit as err:
			error = err.code and 'exit %s' % err.code
		except Exception as err:
			error = '%s: %s' % (type(err).__name__, err)
	finally:
		for a in (sys.stdout, sys.stderr):
			try:
				a.flush()
			except OSError:
				pass
		for n, fd in enumerate(saved):
			os.dup2(fd, n)
			os.close(fd)
	out = []
	for a in files[1:]:
		with open(a, 'rb') as inp:
			out.append(inp.read())
	return error, out[0], out[1].decode('utf8', 'replace')
