"""Compares what the pandas code of a tree computes with its documentation."""
import time

from . import fw, sqlcmp, sqlref as sr, sqlterm as st, trees
from .absint import AbsRaise, C, NONE
from . import configs as cf
from .frames import F, Frames, low
from .sqlterm import EMPTY, Undecided, num, op


SECONDS = 20


class Documented(sr.Reference):
  """Where pandas is exact and SQL approximates."""

  def ref(self, n, by, conds):
    r = super().ref(n, by, conds)
    r.cols = [c if c is None else plain(c) for c in r.cols]
    return r

  def shares(self, n, by, conds):
    over, c, rel, cols = super().shares(n, by, conds)
    return over, c, rel, [plain(t) for t in cols]

  def Quantile(self, n, by, conds):
    q = n.args.get('quantile', .5)
    if n.args.get('weight'):
      return self.weighted_quantile(n, by, conds)
    cols, labels = [], []
    for x in q if isinstance(q, list) else [q]:
      label = 'quantile(%s, %s)' % (n.args['var'], x)
      o = self.leaf(n, by, conds, lambda a, x=x: a(
          'QUANTILE', sr.r(n, 'var'), str(x), n.args.get(
              'interpolation', 'linear')), label)
      cols += o.cols
      labels += [label] if isinstance(q, list) else o.labels
    return sr.Ref([], cols, labels)

  def weighted_quantile(self, n, by, conds):
    v, w = sr.r(n, 'var'), sr.r(n, 'weight')
    keys = by + (v[1],)
    one = st.agg('SUM', w, conds, keys, st.BASE)
    rel = st.groups(keys)
    k = ('k', v[1])
    win = lambda order, frame='': (
        'win', 'SUM', one, rel, frozenset(by),
        ((k, 'ASC'),) if order else (), frame, EMPTY)
    center = op('/', sr.sub(
        win(True, 'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW'),
        op('*', num('0.5'), one)), win(False))
    out, labels = [], []
    qs = n.args.get('quantile', .5)
    for x in qs if isinstance(qs, list) else [qs]:
      out.append(('agg', 'INTERP', ('fn', 'ARGS', (num(str(x)), center, k)),
                  EMPTY, frozenset(by), rel, EMPTY, ()))
      labels.append('%s-weighted quantile(%s, %s)' % (
          n.args['weight'], n.args['var'], x))
    if len(out) == 1:
      labels = [sr.name_of(n, labels[0])]
    return sr.Ref([], out, labels)


def plain(t):
  """Windows over whole partitions written as aggregates."""
  k = t[0]
  if k == 'win':
    o = tuple((plain(x), d) for x, d in t[5])
    a = plain(t[2])
    if not o and not t[6] and not t[7]:
      return total(t[1], a, EMPTY, t[4], rel(t[3], t[4]))
    return t[:2] + (a, rel(t[3], t[4]), t[4], o) + t[6:]
  if k == 'agg':
    return t[:2] + (plain(t[2]),) + t[3:5] + (rel(t[5], t[4]),) + t[6:7] + (tuple(
        plain(x) if isinstance(x, tuple) and x and x[0] in st.KINDS else x
        for x in t[7]),) if t[1] == 'ARRAY_AGG' or t[7] or t[6] else total(
            t[1], plain(t[2]), t[3], t[4], rel(t[5], t[4])) if t[1] not in (
                'COUNTIF', 'INTERP') else t[:2] + (plain(t[2]),) + t[3:]
  if k in ('+', '*', '/', 'pow'):
    return (k, plain(t[1]), plain(t[2]))
  if k in ('neg', 'sqrt'):
    return (k, plain(t[1]))
  if k == 'fn' and t[1] == 'COALESCE' and len(t[2]) == 2 and t[2][1] == num(0):
    return plain(t[2][0])    # sums of no values are 0
  if k == 'fn':
    return ('fn', t[1], tuple(plain(x) for x in t[2]))
  if k == 'cond' and t[1][0] == 'cmp':
    c = t[1]
    return ('cond', c[:2] + (plain(c[2]), plain(c[3])))
  if k == 'if':
    return t[:2] + (plain(t[2]), plain(t[3]))
  return t


def rel(r, by):
  """Without conditions on what the aggregate is grouped by."""
  if r[0] != 'groups':
    return r
  return st.groups(r[1], frozenset(
      c for c in r[2] if not st.keys_of(c) <= set(by)))


def total(name, a, conds, by, r):
  neg, a = unsigned(a) if name == 'SUM' else (False, a)
  t = st.agg(name, a, conds, by, r)
  return op('neg', t) if neg else t


def unsigned(t):
  """Whether t is -u, and u."""
  if t[0] == 'neg':
    n, u = unsigned(t[1])
    return not n, u
  if t[0] in ('*', '/'):
    m, a = unsigned(t[1])
    n, b = unsigned(t[2])
    return m != n, op(t[0], a, b)
  return False, t


def run(cfg):
  """The F of compute_on, and the tree."""
  it = Frames(fw.program(), opaque_modules=())
  it.deadline = time.process_time() + SECONDS
  s, root = trees.build(cfg, it)
  it.marks = sr.marks_of(root)
  df = it.mk(None, None, F('df', rows=True))
  split = cf.strs(it, cfg.split) if cfg.split else NONE
  r = it.call_named(s, 'compute_on', kwargs=dict(df=df, split_by=split))
  return it, root, r


class Value:
  """Looks like the relation of a query."""

  def __init__(self, f, split):
    self.cons = f.cons
    names = list(f.idx) + ['#%d' % i for i in range(len(f.cols))]
    self.order = names
    self.cols = {x: ('k', low(x)) for x in f.idx}
    for i, (_, t) in enumerate(f.cols):
      self.cols['#%d' % i] = plain(t)


class Res:

  def __init__(self, cfg, labels):
    self.cfg, self.labels = cfg, labels


def compare(cfg):
  it, root, r = run(cfg)
  f = it.val(r)
  if f is None:
    raise Undecided('the result is not known')
  if f.kind != 'df' or f.rows or f.ctx or f.pend or f.nth:
    raise Undecided('the result is a %s' % f.kind)
  want = Documented(root, cfg.split).run(root)
  want.cols = [c if c is None else plain(c) for c in want.cols]
  labels = list(f.idx) + [l for l, _ in f.cols]
  return it, root, sqlcmp.differences(Res(cfg, labels), want, Value(
      f, cfg.split))
