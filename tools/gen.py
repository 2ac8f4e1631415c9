#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
  props, checks, na = [], [], []
  for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.json'))):
    with open(f) as fh:
      p = json.load(fh)
    m = p.pop('manifest')
    props.append(p)
    if 'reason' in m:
      na.append({'property': p['id'], 'reason': m['reason']})
      continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': m['technique'], 'level': 'other',
        'level_note': m['level_note']})
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in props:
      fh.write(json.dumps(p) + '\n')
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump({
        'version': 1, 'setup_cmd': 'python3 -m compileall -q analyzer || true',
        'checks': checks, 'not_applicable': na,
        'notes': 'All checks read the source of /repo on every run and execute '
                 'none of it. No hooks are needed. The code of the analyser is '
                 'in analyzer/, one rule per property in analyzer/rules/.',
    }, fh, indent=1)
    fh.write('\n')


if __name__ == '__main__':
  main()
