"""C13: groups of the split never mix in generated SQL."""
from .. import sqlflow as sf, sqlrun

PATHS = [('to_sql', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]
MAX_UNDECIDED = 10000
RULE = (
    'The exact text of every query is folded from the source and parsed. '
    'Each column to split by is followed through WITH clauses, subqueries and '
    'joins: every aggregation must group by it, every window must be '
    'partitioned by it, every join must equate it and the result must have '
    'it.')
EXPLANATION = (
    'Every built-in metric over leaves and nested operations, its options '
    'varied one at a time, split by no, one or two columns; queries of to_sql '
    'and everything compute_on_sql executes.')
ASSUMPTIONS = [
    'An array that is unnested inside a group stays inside it.',
]


def check(rep, q, error):
  if error is not None or not q.cfg.split:
    return
  f = sf.Flow('T', sqlrun.marks(q.root), q.cfg.split)
  out = f.run(q.ast)
  for k, n in f.counts.items():
    rep.count('checked_' + k, n)
  for k, m in f.errors:
    if k == 'split':
      rep.find(q.key(m.split(':')[0][:60]), '%s: %s' % (q.cfg, m),
               'SQL of %s' % q.cfg.cls)
  for s in q.cfg.split:
    rep.count('result_columns')
    if not out.open and s not in {c.key for c in out.cols.values()}:
      rep.find(q.key('result'), '%s: the result has no column %s' % (q.cfg, s),
               'SQL of %s' % q.cfg.cls)


def run(rep, tier):
  sqlrun.every(rep, tier, check, PATHS)
