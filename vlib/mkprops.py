"""Write properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS, CHECKS, NOTAPPLICABLE = [], [], []


def parts(items, names):
	return [dict(zip(names, [b.strip() for b in a.split(' @ ')]))
			for a in items]


def p(ident, title, statement, over, text, why, files, state, mechanism,
		observe, technique, note, level='model_checking', hook=None):
	assert len(title) <= 80, title
	PROPS.append(dict(id=ident, title=title, statement=statement,
			quantifier=dict(over=over.split(), text=text),
			why_tests_cant=why,
			anchors=dict(files=['discodop/' + a for a in files.split()],
				state=parts(state, ('name', 'meaning', 'where')),
				mechanism=parts(mechanism, ('name', 'where')),
				observe_at=observe, hook_needed=hook)))
	if os.path.exists(os.path.join(VERIF, 'checks', ident + '.py')):
		cmd = '/opt/venv/bin/python checks/%s.py ' % ident
		CHECKS.append(dict(property=ident, quick_cmd=cmd + 'quick',
				thorough_cmd=cmd + 'thorough',
				evidence_file='evidence/%s.json' % ident,
				technique='bounded exhaustive model checking: ' + technique,
				level=level, level_note=note))


def na(ident, reason):
	NOTAPPLICABLE.append(dict(property=ident, reason=reason))


exec(open(os.path.join(HERE, 'props.py')).read())
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
	for a in PROPS:
		out.write(json.dumps(a) + '\n')
have = {a['property'] for a in CHECKS} | {a['property'] for a in NOTAPPLICABLE}
for a in PROPS:
	if a['id'] not in have:
		na(a['id'], 'the check for this property is not finished yet')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as out:
	json.dump(dict(version=1,
			setup_cmd='/opt/venv/bin/python vlib/build.py %s' % SETUP,
			hooks=dict(guard='DISCODOP_VERIF', enable='no hooks were needed: '
				'the checks drive the unmodified code through its API',
				source_commits=[]),
			checks=CHECKS, not_applicable=NOTAPPLICABLE, notes=NOTES),
			out, indent=1)
print(len(PROPS), 'properties', len(CHECKS), 'checks', len(NOTAPPLICABLE),
		'not applicable')
