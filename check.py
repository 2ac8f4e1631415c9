#!/usr/bin/env python3
"""Decides one property from the source of /repo. Usage: check.py C05 [--tier quick|thorough]."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from analyzer import fw  # pylint: disable=wrong-import-position
from analyzer.program import AnalysisBroken, REPO


def known_findings(prop):
  out = {}
  path = os.path.join(HERE, 'known_findings.json')
  with open(path) as f:
    for e in json.load(f)['findings']:
      if e['property'] == prop:
        out[e['key']] = e
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = ap.parse_args()
  t0 = time.time()
  prop = a.property
  try:
    mod = importlib.import_module('analyzer.rules.' + prop.lower())
    rep = fw.Report()
    mod.run(rep, a.tier)
    limit = getattr(mod, 'MAX_UNDECIDED', 3)
    if len(rep.undecided) > limit:
      raise AnalysisBroken('%d obligations undecided: %s' % (
          len(rep.undecided), rep.undecided[:3]))
  except AnalysisBroken as e:
    print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
    return 3
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    print('ANALYSIS-BROKEN property=%s internal error' % prop)
    return 3
  known = known_findings(prop)
  new = {k: v for k, v in rep.findings.items() if k not in known}
  old = {k: v for k, v in rep.findings.items() if k in known}
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  cov = dict(rep.counts)
  cov['explanation'] = mod.EXPLANATION
  cov['rule'] = mod.RULE
  cov['samples'] = rep.samples or ['(none)']
  cov['functions_analysed'] = len(rep.funcs)
  cov['modules_parsed'] = len(fw.program().modules)
  cov['undecided'] = rep.undecided
  cov['known_findings'] = sorted(old)
  ev = {
      'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough')
                                else 'quick',
      'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
      'coverage': cov, 'assumptions': mod.ASSUMPTIONS,
      'wall_s': round(time.time() - t0, 2), 'violations': len(new),
  }
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, sort_keys=True)
    f.write('\n')
  for k, v in sorted(old.items()):
    print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[k]['what'], k))
  replay = os.path.join('evidence', prop + '.findings.json')
  with open(os.path.join(HERE, replay), 'w') as f:
    json.dump({'repo': REPO, 'rule': mod.RULE, 'findings': new}, f, indent=1,
              sort_keys=True)
    f.write('\n')
  for k, v in sorted(new.items())[:20]:
    print('  %s: %s [%s]' % (v['where'], v['message'], k))
  if new:
    print('VIOLATION property=%s replay=%s' % (prop, replay))
    return 1
  print('OK property=%s %s (%.1fs)' % (prop, ' '.join(
      '%s=%s' % kv for kv in sorted(rep.counts.items())), time.time() - t0))
  return 0


if __name__ == '__main__':
  sys.exit(main())
