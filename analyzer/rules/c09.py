"""C09: the generated SQL computes what the metrics are documented to be."""
from .. import sqlcmp, sqlref as sr, sqlrun, sqlterm as st

MAX_UNDECIDED = 10000
RULE = (
    'The exact text of the query of every configuration is folded from the '
    'source, parsed and turned into one term per output column by an algebra '
    'that knows grouping, joins, windows and conditions. Each term must be '
    'equal, as a rational expression over aggregates of the table, to the '
    'term written down from the documentation of the metric; so must the '
    'index columns, the conditions on the rows and the labels.')
EXPLANATION = (
    'Configurations: every built-in metric over leaves and nested operations, '
    'its options varied one at a time, several ways to filter and to split. '
    'Two terms are compared in a prime field, so algebraically equal ways to '
    'write a formula are the same. Columns that come out of random resampling '
    'are not compared, the point estimates next to them are.')
ASSUMPTIONS = [
    'Guards of divisions by 0 do not change the other values.',
    'Every group of the split has the keys it is joined on.',
    'Columns of the data are distinct from the names in the configurations.',
]


def check(rep, q, error):
  if error is not None:
    return
  try:
    ds = sqlcmp.compare(q.res)
  except st.Unresolved as e:
    rep.find(q.key('unresolved', kind(q)), '%s computes nothing: it refers to '
             'the %s, which nothing in scope has' % (q.cfg, e),
             '/repo, SQL of %s' % q.cfg.cls)
    return
  except st.Undecided as e:
    rep.count('queries_not_modelled')
    rep.sample('not modelled: %s: %s' % (q.cfg, e), 6)
    return
  except sr.Skip as e:
    rep.count('queries_without_reference')
    return
  rep.count('queries_compared')
  for d in ds:
    rep.find(q.key(d.what, kind(q)), '%s: %s' % (q.cfg, d.detail),
             '/repo, SQL of %s' % q.cfg.cls)


def kind(q):
  return q.cfg.kind or 'leaf'


def run(rep, tier):
  sqlrun.every(rep, tier, check)
