"""Write DESIGN.md; with --costs, first collect bounds and costs from evidence."""
import glob
import json
import os
import re
import sys
import textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from notes import ORACLE, LIMITS  # noqa: E402


def wrap(text, indent=''):
	return '\n'.join(textwrap.wrap(text, 78, subsequent_indent=indent,
			break_long_words=False, break_on_hyphens=False))


def seeded(props):
	rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
	for name in sorted(glob.glob(os.path.join(VERIF, 'seeded/*/meta.json'))):
		with open(name) as inp:
			meta = json.load(inp)
		rows.append('| %s | %s | %s | %s |' % (
				os.path.basename(os.path.dirname(name)), meta['property'],
				meta['what_it_breaks'].replace('|', '\\|').replace('\n', ' '),
				meta['needs'].replace('|', '\\|').replace('\n', ' ')))
	return '\n'.join(rows)


def main():
	costs = os.path.join(HERE, 'costs.json')
	data = {}
	if os.path.exists(costs):
		with open(costs) as inp:
			data = json.load(inp)
	if '--costs' in sys.argv:
		for name in glob.glob(os.path.join(VERIF, 'evidence/*.json')):
			with open(name) as inp:
				ev = json.load(inp)
			if all('bound' in a for a in ev['coverage']['spaces']):
				data.setdefault(ev['property'], {})[ev['tier']] = dict(
						wall=round(ev['wall_s']), spaces=[
						{k: a[k] for k in ('space', 'bound', 'states',
						'transitions')} for a in ev['coverage']['spaces']])
		with open(costs, 'w') as out:
			json.dump(data, out, indent=1, sort_keys=True)
	with open(os.path.join(VERIF, 'properties.jsonl')) as inp:
		props = [json.loads(a) for a in inp]
	with open(os.path.join(VERIF, 'MANIFEST.json')) as inp:
		manifest = json.load(inp)
	checks = {a['property']: a for a in manifest['checks']}
	out = []
	for prop in sorted(props, key=lambda x: x['id']):
		ident = prop['id']
		if ident not in checks:
			continue
		out.append('\n### %s: %s\n' % (ident, prop['title']))
		out.append(wrap('Specified: ' + prop['statement']) + '\n')
		out.append(wrap('Explored: %s; %s.' % (prop['quantifier']['text'],
				checks[ident]['technique'].split(': ', 1)[1])) + '\n')
		out.append(wrap('Oracle: ' + ORACLE.get(ident, '')) + '\n')
		out.append(wrap('Beyond the tests: ' + prop['why_tests_cant']) + '\n')
		note = checks[ident]['level_note'].split('is trusted. ')[-1]
		if note:
			out.append(wrap('Assumes: ' + note) + '\n')
		for tier in ('quick', 'thorough'):
			if tier in data.get(ident, {}):
				info = data[ident][tier]
				out.append('Bounds, %s (about %d s on 8 cores):\n' % (tier,
						max(1, info['wall'])))
				for a in info['spaces']:
					out.append(wrap('* %s: %s (%d states, %d transitions)' % (
							a['space'], re.sub(r'\s+', ' ', a['bound']),
							a['states'], a['transitions']), '  '))
				out.append('')
	with open(os.path.join(VERIF, 'known_findings.txt')) as inp:
		lines = inp.read().splitlines()
	findings = [a[len('finding: '):] for a in lines if a.startswith('finding:')]
	fixes = {}
	for a in lines:
		if a.startswith('fixed:'):
			key = a.split('property=')[1].split()[0]
			fixes[key] = fixes.get(key, 0) + 1
	with open(os.path.join(HERE, 'design.txt')) as inp:
		text = inp.read()
	for key, val in (
			('FINDINGS', '\n'.join(wrap('* ' + a, '  ') for a in findings)),
			('FIXES', ', '.join('%s %d' % a for a in sorted(fixes.items()))),
			('SEEDED', seeded(props)),
			('PROPERTIES', '\n'.join(out)),
			('LIMITS', 'Within the properties, the following is not judged:\n'
				+ '\n'.join('* ' + a for a in LIMITS))):
		text = text.replace('@%s@' % key, val)
	with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as out:
		out.write(text)


if __name__ == '__main__':
	main()
