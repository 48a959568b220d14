#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, na = [], []


def prop(id, title, statement, quantifier, why, files, mechanism, over=('inputs',),
         technique=None, note=None, not_applicable=None, state=None,
         observe=None):
  d = {'id': id, 'title': title, 'statement': statement,
       'quantifier': {'over': list(over), 'text': quantifier},
       'why_tests_cant': why,
       'anchors': {'files': files,
                   'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
  if state:
    d['anchors']['state'] = state
  if observe:
    d['anchors']['observe_at'] = observe
  props.append((d, technique, note, not_applicable))


env = {'prop': prop}
SHORT = env
for f in sorted(glob.glob(V + '/tools/props/*.py'),
                key=lambda f: ('brahmic' not in f, f)):
  exec(compile(open(f).read(), f, 'exec'), env)

with open(V + '/properties.jsonl', 'w') as f:
  for d, *_ in props:
    assert len(d['title']) <= 80, d['title']
    f.write(json.dumps(d, ensure_ascii=False) + '\n')

checks, na = [], []
for d, tech, note, why in props:
  if why:
    na.append({'property': d['id'], 'reason': why})
    continue
  checks.append({
      'property': d['id'],
      'quick_cmd': './check.py %s quick' % d['id'],
      'thorough_cmd': './check.py %s thorough' % d['id'],
      'technique': tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo. Every check rebuilds what it needs from '
              '/repo in a scratch folder; see DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
  json.dump(m, f, indent=1, ensure_ascii=False)
  f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md
D = V + '/tools/design/'
out = [open(D + 'head.md').read(), '\n## The properties\n']
for d, tech, note, why in props:
  if why:
    continue
  out.append('\n### %s. %s\n\n%s\n\n*Over*: %s. *Why not tests*: %s\n\n'
             '*Anchored in*: %s.\n\n*Decided by*: %s. %s\n' % (
                 d['id'], d['title'], d['statement'],
                 d['quantifier']['text'].rstrip('.'),
                 d['why_tests_cant'],
                 ', '.join('`%s`' % x for x in d['anchors']['files']),
                 tech, note.replace(SHORT.get('FAR', '\0'), '')))
tail = open(D + 'tail.md').read()
fixed = [l[7:].strip() for l in open(V + '/known_findings.jsonl')
         if l.startswith('fixed: ')]
tail = tail.replace('FIXED', '\n'.join(
    '* %s (`%s`): %s' % (f.split()[0][9:], f.split()[1], ' '.join(f.split()[2:]))
    for f in fixed))
seeded = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
  m = json.load(open(f))
  seeded.append('| %s | %s | %s | %s |' % (
      os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'],
      m['needs']))
tail = tail.replace('SEEDED', '| bug | caught by | what it breaks | needs |\n'
                    '|---|---|---|---|\n' + '\n'.join(seeded))
for d, tech, note, why in props:
  if why:
    tail += '\n* **%s, %s**: %s\n' % (d['id'], d['title'], why)
with open(V + '/DESIGN.md', 'w') as f:
  f.write(''.join(out) + '\n' + tail)
