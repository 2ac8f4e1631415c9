"""C15: generated SQL is well-formed."""
from .. import sqlflow as sf, sqlrun

KINDS = ('name', 'ambiguous', 'alias', 'group', 'aggregate')
PATHS = [('to_sql', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]
MAX_UNDECIDED = 10000
RULE = (
    'The exact text of every query is folded from the source and parsed as '
    'SQL. Every name must resolve to exactly one column of the sources in '
    'scope, tables, aliases and output columns must be unique where they are '
    'declared, columns next to aggregates must be grouped by, and aggregates '
    'must not be nested or tested in WHERE.')
EXPLANATION = (
    'Every built-in metric over leaves and nested operations, its options '
    'varied one at a time, with several ways to filter and to split; queries '
    'of to_sql and everything compute_on_sql executes.')
ASSUMPTIONS = [
    'The table has every column the metric names and no other.',
    'The dialect is that of BigQuery; only the grammar of expressions, SELECT, '
    'joins, windows and WITH is known to the parser.',
]


def check(rep, q, error):
  if error is not None:
    if error.startswith('unknown') or 'unsupported' in error:
      return
    rep.find(q.key('syntax', error.split(':')[0][:60]),
             '%s: not SQL: %s' % (q.cfg, error), 'SQL of %s' % q.cfg.cls)
    return
  f = sf.Flow('T', sqlrun.marks(q.root), q.cfg.split or ())
  f.run(q.ast)
  for k, n in f.counts.items():
    rep.count('checked_' + k, n)
  for k, m in f.errors:
    if k in KINDS:
      rep.find(q.key(k, m.split(':')[0][:70]), '%s: %s' % (q.cfg, m),
               'SQL of %s' % q.cfg.cls)


def run(rep, tier):
  sqlrun.every(rep, tier, check, PATHS)
