"""C07: every filter reaches every computation below it, and no other."""
from .. import sqlast as sa, sqlflow as sf, sqlrun

PATHS = [('to_sql', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]
MAX_UNDECIDED = 10000
RULE = (
    'The exact text of every query is folded from the source and parsed. Each '
    'column a leaf metric reads is followed to the result with the conditions '
    'its rows were selected by before they were aggregated (WHERE and IF). '
    'These must be the filters of the leaf and of all metrics above it, and '
    'no filter may be tested on rows that are aggregated already.')
EXPLANATION = (
    'Trees with a filter on each node, on none, on some, with alternatives '
    'joined by OR and with lists of filters; queries of to_sql and everything '
    'compute_on_sql executes in its modes.')
ASSUMPTIONS = [
    'Filters of the caller are atoms; what they test is not looked at.',
]


def canon(f, texts):
  out = frozenset()
  for t in texts:
    e = sa.parse_expr(t)
    out |= f.cond(e, sf.Scope())[0]
  return out


def chains(f, root):
  """{prefix of the columns of a leaf: conditions}."""
  out = {}

  def go(n, above):
    own = above | canon(f, n.where)
    if n.leaf:
      out[n.name.lower() + '_'] = own
    for ks in n.kids.values():
      for k in ks:
        go(k, own)
  go(root, frozenset())
  return out


def check(rep, q, error):
  if error is not None:
    return
  f = sf.Flow('T', sqlrun.marks(q.root), q.cfg.split or ())
  want = chains(f, q.root)
  out = f.run(q.ast)
  for k, m in f.errors:
    if k == 'filter':
      rep.find(q.key('aggregated'), '%s: %s' % (q.cfg, m),
               'SQL of %s' % q.cfg.cls)
  # a root that is a leaf itself reads the columns its options name
  if q.root.leaf:
    only = next(iter(want.values()))
    skip = set(q.cfg.split or ())
  for name, c in out.cols.items():
    for v, conds in c.uses:
      v = v.lower()
      if q.root.leaf:
        w = None if v in skip else only
      else:
        w = next((x for p, x in want.items() if v.startswith(p)), None)
      if w is None:
        continue
      rep.count('columns_read')
      got = frozenset(x for x in conds if not x.startswith('~'))
      if got != w:
        rep.find(q.key('reads', ','.join(sorted(w - got)) and 'missing',
                       ','.join(sorted(got - w)) and 'extra', kind(q)),
                 '%s: %s, read for %s, is filtered by (%s) instead of (%s)' % (
                     q.cfg, v, name, ' AND '.join(sorted(got)), ' AND '.join(
                         sorted(w))), 'SQL of %s' % q.cfg.cls)


def kind(q):
  return q.cfg.kind or 'leaf'


def run(rep, tier):
  sqlrun.every(rep, tier, check, PATHS)
  rep.need('columns_read', 20)
