"""Compile the extension modules of /repo's working tree into a scratch folder.

Nothing is written under /repo.  The Python modules are imported straight from
/repo/discodop; only the compiled extensions come from the scratch folder,
which is keyed by a hash of everything the compilation depends on.

Run as a script: build.py GROUP  (GROUP: bit | cont | full) prints the folder.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
SHIM = os.path.join(VERIF, 'shim')
HARNESS = os.path.join(VERIF, 'vlib', 'ext')
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
	PYTHON = sys.executable

BUILDSCRIPT = r'''
import os, sys
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.chdir(REPO)
import setup as ps
os.chdir(WORK)
from setuptools import Extension, setup
from Cython.Build import cythonize
args = ['-Isparsepp/', '-D__STDC_LIMIT_MACROS', '-w', OPT, '-DNDEBUG']
ext = cythonize([Extension('discodop.%s' % m, ['discodop/%s.pyx' % m],
		extra_compile_args=args, extra_link_args=['-DNDEBUG'], language='c++')
		for m in MODS],
		compiler_directives=dict(ps.directives), language_level=3,
		nthreads=min(8, len(MODS)), quiet=True)
setup(name='x', packages=['discodop'], ext_modules=ext,
		script_args=['-q', 'build_ext', '-i', '-j8'])
'''


def sources(group):
	pkg = os.path.join(REPO, 'discodop')
	if group == 'bit':
		names = ['bit.pyx', 'bit.pxd', 'bitcount.h', 'macros.h']
		names = [os.path.join(pkg, a) for a in names]
		names = [a for a in names if os.path.exists(a)]
		names += glob.glob(os.path.join(pkg, '*.pxi'))
	else:
		names = []
		for ext in ('pyx', 'pxd', 'pxi', 'h'):
			names += glob.glob(os.path.join(pkg, '*.' + ext))
		names += [os.path.join(r, f) for r, _, fs in os.walk(SHIM) for f in fs]
	names += glob.glob(os.path.join(HARNESS, '*.pyx'))
	names += [os.path.join(REPO, 'setup.py'), os.path.abspath(__file__)]
	return sorted(set(names))


def ensure(group='bit'):
	"""Return folder with the compiled extensions of the current tree."""
	if group == 'cont':  # a full build will do
		full = ensure('full?')
		if full:
			return full
	peek = group.endswith('?')
	group = group.rstrip('?')
	h = hashlib.sha256()
	for name in sources(group):
		with open(name, 'rb') as inp:
			h.update(os.path.relpath(name, REPO).encode() + b'\0'
					+ inp.read() + b'\0')
	dest = os.path.join(CACHE, '%s-%s' % (group, h.hexdigest()[:20]))
	if os.path.exists(os.path.join(dest, 'ok')):
		os.utime(dest)
		return os.path.join(dest, 'discodop')
	elif peek:
		return None
	os.makedirs(CACHE, exist_ok=True)
	work = tempfile.mkdtemp(prefix='work-', dir=CACHE)
	try:
		pkg = os.path.join(work, 'discodop')
		os.mkdir(pkg)
		for ext in ('pyx', 'pxd', 'pxi', 'h'):
			for name in glob.glob(os.path.join(REPO, 'discodop', '*.' + ext)):
				shutil.copy(name, pkg)
		open(os.path.join(pkg, '__init__.py'), 'w').close()
		for name in glob.glob(os.path.join(HARNESS, '*.pyx')):
			if group == 'full' or os.path.basename(name) == '_vbit.pyx':
				shutil.copy(name, pkg)
		for name in os.listdir(SHIM):
			shutil.copytree(os.path.join(SHIM, name), os.path.join(work, name))
		mods = ['_vbit', 'bit'] + (['containers'] if group == 'cont' else [])
		if group == 'full':
			mods = sorted(os.path.basename(a)[:-4]
					for a in glob.glob(os.path.join(pkg, '*.pyx')))
		script = BUILDSCRIPT.replace('REPO', repr(REPO)).replace(
				'WORK', repr(work)).replace('MODS', repr(mods)).replace(
				'OPT', repr('-O2' if group == 'bit' else '-O1'))
		env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
		proc = subprocess.run([PYTHON, '-c', script], cwd=work, env=env,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		built = {os.path.basename(a).split('.')[0]
				for a in glob.glob(os.path.join(pkg, '*.so'))}
		if proc.returncode or built != set(mods):
			sys.stderr.write(proc.stdout.decode('utf8', 'replace')[-4000:])
			raise RuntimeError('scratch build failed: %r' % (
					sorted(set(mods) - built)))
		out = tempfile.mkdtemp(prefix='out-', dir=CACHE)
		os.mkdir(os.path.join(out, 'discodop'))
		for name in glob.glob(os.path.join(pkg, '*.so')):
			shutil.move(name, os.path.join(out, 'discodop'))
		open(os.path.join(out, 'ok'), 'w').close()
		try:
			os.rename(out, dest)
		except OSError:  # someone else was first
			shutil.rmtree(out)
	finally:
		shutil.rmtree(work, ignore_errors=True)
	old = sorted((a for a in glob.glob(os.path.join(CACHE, group + '-*'))),
			key=os.path.getmtime)
	for name in old[:-4]:
		shutil.rmtree(name, ignore_errors=True)
	return os.path.join(dest, 'discodop')


def activate(group='bit'):
	"""Make ``import discodop`` use /repo's sources with fresh extensions.

	group None: pure Python, no compiled extension at all."""
	sys.dont_write_bytecode = True
	sys.pycache_prefix = os.path.join(CACHE, 'nopyc')
	path = ensure(group) if group else None
	sys.path.insert(0, REPO)
	import discodop
	assert os.path.dirname(os.path.abspath(discodop.__file__)) == \
			os.path.join(REPO, 'discodop'), discodop.__file__
	discodop.__path__[:] = ([path] if path else []) + [
			os.path.join(REPO, 'discodop')]
	sys.meta_path.insert(0, _OnlyScratch())
	return path


class _OnlyScratch(object):
	"""Never load a compiled module left behind in /repo/discodop."""

	def find_spec(self, name, path=None, target=None):
		if not name.startswith('discodop.') or path is None:
			return None
		import importlib.machinery as m
		spec = m.PathFinder.find_spec(name, path)
		if spec is not None and spec.origin and spec.origin.endswith('.so') \
				and spec.origin.startswith(REPO + os.sep):
			raise ModuleNotFoundError(
					'No module named %r (not built here)' % name, name=name)
		return spec


if __name__ == '__main__':
	print(ensure(sys.argv[1] if len(sys.argv) > 1 else 'bit'))
