"""What the result of a tree of metrics is documented to be, as terms.

ref(node, ...) says, for a plain description of a tree (trees.Node), which
columns its result has: the columns it is indexed by, the value of each column
as a term of sqlterm, which rows there are and how the columns are labelled.
It is written from the documentation of the metrics, not from their code.
"""
import re

from . import sqlast as sa, sqlterm as st
from .sqlterm import EMPTY, agg, groups, num, op


class Skip(Exception):
  """There is no reference for this tree."""


class Ref:

  def __init__(self, index, cols, labels, cons=EMPTY, keys=None):
    self.index = list(index)      # extra columns of the index, in order
    self.cols = cols              # one term per column
    self.labels = labels
    self.cons = frozenset(cons)   # conditions on the rows


def conditions(texts, marks):
  out = EMPTY
  for w in texts:
    out |= st.flat(st.Terms('T', marks).cond(sa.parse_expr(w), st.Scope({}, None)))
  return out


class Reference:

  def __init__(self, root, split):
    self.marks = marks_of(root)
    self.split = tuple(s.lower() for s in split or ())
    self.unit = None      # the unit that is left out

  def run(self, root):
    return self.ref(root, self.split, EMPTY)

  def ref(self, n, by, conds):
    """by: columns the data is grouped by; conds: filters of the ancestors."""
    conds = conds | conditions(n.where, self.marks)
    f = getattr(self, n.cls, None)
    if f is None:
      raise Skip(n.cls)
    return f(n, by, conds)

  def only(self, n, by, conds, p='child'):
    ks = n.kids[p]
    if len(ks) != 1:
      raise Skip('children')
    return self.ref(ks[0], by, conds)

  # ------------------------------------------------------------------- leaves
  def leaf(self, n, by, conds, f, label):
    def a(name, t, *extra):
      if self.unit is None:
        return agg(name, t, conds, by, st.BASE, extra)
      if name in st.SPREADS and not extra:
        return st.by_sums(name, t, a)
      # what is left without the unit
      if name not in ('SUM', 'COUNT', 'AVG') or extra:
        raise Skip('%s without a unit' % name)
      if name == 'AVG':
        return op('/', a('SUM', t), a('COUNT', t))
      rest = tuple(k for k in by if k != self.unit)
      fine = rest + (self.unit,)
      row = lambda b: ('agg', 'COUNT', ('s', '*'), EMPTY, frozenset(b), groups(
          fine), EMPTY, ())
      left = lambda p, q: sub(p, st.fn('COALESCE', q, num(0)))
      some = ('cmp', '>', left(row(rest), row(fine)), num(0))
      return agg('SUM', left(agg(name, t, conds, rest, st.BASE), agg(
          name, t, conds, fine, st.BASE)), EMPTY, fine, groups(fine, [some]))
    t = f(a)
    return Ref([], [t], [name_of(n, label)])

  def Sum(self, n, by, conds):
    return self.leaf(n, by, conds, lambda a: a('SUM', r(n, 'var')),
                     'sum(%s)' % n.args['var'])

  def Count(self, n, by, conds):
    if n.args.get('distinct'):
      return self.leaf(n, by, conds, lambda a: a(
          'COUNT', r(n, 'var'), 'DISTINCT'),
                       'count(distinct %s)' % n.args['var'])
    return self.leaf(n, by, conds, lambda a: a('COUNT', r(n, 'var')),
                     'count(%s)' % n.args['var'])

  def Max(self, n, by, conds):
    return self.leaf(n, by, conds, lambda a: a('MAX', r(n, 'var')),
                     'max(%s)' % n.args['var'])

  def Min(self, n, by, conds):
    return self.leaf(n, by, conds, lambda a: a('MIN', r(n, 'var')),
                     'min(%s)' % n.args['var'])

  def Mean(self, n, by, conds):
    w, v = n.args.get('weight'), n.args['var']
    if w:
      return self.leaf(n, by, conds, lambda a: op('/', a(
          'SUM', op('*', r(n, 'var'), r(n, 'weight'))), a(
              'SUM', r(n, 'weight'))), '%s-weighted mean(%s)' % (w, v))
    return self.leaf(n, by, conds, lambda a: a('AVG', r(n, 'var')),
                     'mean(%s)' % v)

  def Dot(self, n, by, conds):
    f = 'mean' if n.args.get('normalize') else 'sum'
    return self.leaf(n, by, conds, lambda a: a(
        {'mean': 'AVG', 'sum': 'SUM'}[f],
        op('*', r(n, 'var1'), r(n, 'var2'))), '%s(%s * %s)' % (
            f, n.args['var1'], n.args['var2']))

  def Ratio(self, n, by, conds):
    return self.leaf(n, by, conds, lambda a: op('/', a(
        'SUM', r(n, 'numerator')), a('SUM', r(n, 'denominator'))),
                     'sum(%s) / sum(%s)' % (n.args['numerator'],
                                            n.args['denominator']))

  def Quantile(self, n, by, conds):
    q = n.args.get('quantile', .5)
    if n.args.get('weight'):
      return self.weighted_quantile(n, by, conds)
    cols, labels = [], []
    for x in q if isinstance(q, list) else [q]:
      k = round(x * 100)
      if abs(k - x * 100) > 1e-9:
        raise Skip('quantile')
      label = 'quantile(%s, %s)' % (n.args['var'], x)
      o = self.leaf(n, by, conds, lambda a, k=k: st.fn('INDEX', a(
          'APPROX_QUANTILES', r(n, 'var'), num(100)), st.fn('OFFSET', num(k))),
                    label)
      cols += o.cols
      labels += [label] if isinstance(q, list) else o.labels
    return Ref([], cols, labels)

  def weighted_quantile(self, n, by, conds):
    """Interpolated between the centers of the weights of the values."""
    v, w = r(n, 'var'), r(n, 'weight')
    conds = conds | {('not', null(v)), ('not', null(w))}
    keys = by + (v[1],)
    one = agg('SUM', w, conds, keys, st.BASE)
    rel = groups(keys, [('not', null(one))])
    k = ('k', v[1])
    win = lambda f, t, order, frame='', rel=rel: (
        'win', f, t, rel, frozenset(by), ((k, 'ASC'),) if order else (), frame,
        EMPTY)
    center = op('/', sub(win(
        'SUM', one, True, 'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW'),
                         op('*', num('0.5'), one)), win('SUM', one, False))
    prev = win('LAG', center, True)
    nxt, up = win('LEAD', center, True), win('LEAD', k, True)
    out, labels = [], []
    qs = n.args.get('quantile', .5)
    for x in qs if isinstance(qs, list) else [qs]:
      q = num(str(x))
      ends = st.disj(st.conj(null(prev), ('cmp', '<', q, center)),
                     st.conj(null(nxt), ('cmp', '>=', q, center)))
      inside = st.conj(('cmp', '>=', q, center), ('cmp', '<', q, nxt))
      t = op('/', op('+', op('*', up, sub(q, center)), op(
          '*', sub(nxt, q), k)), sub(nxt, center))
      out.append(agg('SUM', ('if', ends, k, ('if', inside, t, num(0))), EMPTY,
                     by, rel))
      labels.append('%s-weighted quantile(%s, %s)' % (
          n.args['weight'], n.args['var'], x))
    if len(out) == 1:
      labels = [name_of(n, labels[0])]
    return Ref([], out, labels)

  def Variance(self, n, by, conds):
    return self.spread(n, by, conds, 'VAR', 'var')

  def StandardDeviation(self, n, by, conds):
    return self.spread(n, by, conds, 'STDDEV', 'sd')

  def spread(self, n, by, conds, f, label):
    v, w = n.args['var'], n.args.get('weight')
    unbiased = n.args.get('unbiased', True)
    label = '%s(%s)' % (label, v)
    if not w:
      return self.leaf(n, by, conds, lambda a: a(
          f + ('_SAMP' if unbiased else '_POP'), r(n, 'var')), label)

    def term(a):
      x, wt = r(n, 'var'), r(n, 'weight')
      sw, swx = a('SUM', wt), a('SUM', op('*', x, wt))
      swxx = a('SUM', op('*', op('*', x, x), wt))
      top = sub(swxx, op('/', op('*', swx, swx), sw))
      t = op('/', top, sub(sw, num(1)) if unbiased else sw)
      return op('sqrt', t) if f == 'STDDEV' else t
    return self.leaf(n, by, conds, term, '%s-weighted %s' % (w, label))

  def CV(self, n, by, conds):
    f = 'STDDEV' + ('_SAMP' if n.args.get('unbiased', True) else '_POP')
    return self.leaf(n, by, conds, lambda a: op('/', a(f, r(n, 'var')), a(
        'AVG', r(n, 'var'))), 'cv(%s)' % n.args['var'])

  def Correlation(self, n, by, conds):
    x, y, w = n.args['var1'], n.args['var2'], n.args.get('weight')
    if n.args.get('method', 'pearson') != 'pearson':
      raise Skip('method')
    label = 'corr(%s, %s)' % (x, y)
    if not w:
      return self.leaf(n, by, conds, lambda a: a('CORR', pair(
          r(n, 'var1'), r(n, 'var2'))), label)

    def term(a):
      x, y, wt = r(n, 'var1'), r(n, 'var2'), r(n, 'weight')
      m = lambda t: op('/', a('SUM', op('*', t, wt)), a('SUM', wt))
      cov = lambda p, q: sub(m(op('*', p, q)), op('*', m(p), m(q)))
      return op('/', op('/', cov(x, y), op('sqrt', cov(x, x))),
                op('sqrt', cov(y, y)))
    return self.leaf(n, by, conds, term, '%s-weighted %s' % (w, label))

  def Cov(self, n, by, conds):
    x, y = n.args['var1'], n.args['var2']
    w, fw = n.args.get('weight'), n.args.get('fweight')
    ddof = n.args.get('ddof')
    if ddof is None:
      ddof = 0 if n.args.get('bias') else 1
    label = 'cov(%s, %s)' % (x, y)
    if w:
      label = '%s-weighted %s' % (w, label)
    if fw:
      label = '%s-fweighted %s' % (fw, label)

    def term(a):
      x, y = r(n, 'var1'), r(n, 'var2')
      if not w and not fw:
        if ddof in (0, 1):
          return a(('COVAR_POP', 'COVAR_SAMP')[ddof], pair(x, y))
        raise Skip('ddof')
      ws = r(n, 'weight') if w else num(1)
      fs = r(n, 'fweight') if fw else num(1)
      u = op('*', fs, ws) if w and fw else (ws if w else fs)
      s = a('SUM', u)
      m = lambda t: op('/', a('SUM', op('*', t, u)), s)
      cov = sub(m(op('*', x, y)), op('*', m(x), m(y)))
      if not ddof:
        return cov
      # as numpy.cov: sum(w) - ddof * sum(w * aweights) / sum(w)
      k = op('/', a('SUM', op('*', u, ws)), op('*', s, s)) if w else op(
          '/', num(1), s)
      return op('/', cov, sub(num(1), op('*', num(ddof), k)))
    return self.leaf(n, by, conds, term, label)

  def Nth(self, n, by, conds):
    k = n.args.get('n')
    if not isinstance(k, int) or k < 0:
      raise Skip('n')
    up = n.args.get('ascending', True)
    extra = ['NULLS IGNORE'] if n.args.get('dropna') else []
    extra += ['ORDER', r(n, 'sort_by'), 'ASC' if up else 'DESC', 'LIMIT',
              num(k + 1)]
    suf = {1: 'st', 2: 'nd', 3: 'rd'}.get(k + 1, 'th')
    if k > 9:
      raise Skip('n')
    return self.leaf(n, by, conds, lambda a: st.fn('INDEX', a(
        'ARRAY_AGG', r(n, 'var'), *extra), st.fn('SAFE_OFFSET', num(k))),
                     '%s%s(%s) sort by %s %s' % (
                         k + 1, suf, n.args['var'], n.args['sort_by'],
                         'asc' if up else 'desc'))

  # --------------------------------------------------------------- composites
  def MetricList(self, n, by, conds):
    rs = [self.ref(k, by, conds) for k in n.kids['children']]
    if any(x.index != rs[0].index or x.cons != rs[0].cons for x in rs):
      raise Skip('different indexes')
    cols = [c for x in rs for c in x.cols]
    labels = [l for x in rs for l in x.labels]
    new = n.args.get('rename_columns')
    if isinstance(new, list) and len(new) == len(labels):
      labels = list(new)
    return Ref(rs[0].index, cols, labels, rs[0].cons)

  def CompositeMetric(self, n, by, conds):
    rs = [self.ref(k, by, conds) for k in n.kids['children']]
    text = n.args.get('op')
    if not isinstance(text, str) or '.' in text or len(rs) != 2:
      raise Skip('op')
    a, b = rs
    na, nb = [k.cls == 'Number' for k in n.kids['children']]
    if na or len(a.cols) == 1:
      pairs = [(a.cols[0], c) for c in b.cols]
    elif nb or len(b.cols) == 1:
      pairs = [(c, b.cols[0]) for c in a.cols]
    elif len(a.cols) == len(b.cols):
      pairs = list(zip(a.cols, b.cols))
    else:
      raise Skip('columns')
    index = a.index if len(a.index) >= len(b.index) else b.index
    if a.index and b.index and a.index != b.index:
      raise Skip('indexes')
    f = eval(text, {'__builtins__': {}})  # pylint: disable=eval-used
    ts = [f(Alg(x), Alg(y)).t for x, y in pairs]
    # without a template the label depends on the source of op
    l = n.args.get('name_tmpl')
    if len(ts) > 1:
      return Ref(index, ts, [None] * len(ts), a.cons | b.cons)
    if l and '{' in l:
      l = l.format(*[x.labels[0] for x in rs])
    return Ref(index, ts, [l or None], a.cons | b.cons)

  def Number(self, n, by, conds):
    return Ref([], [num(repr(n.args['value']))], [repr(n.args['value'])])

  # --------------------------------------------------------------- operations
  def shares(self, n, by, conds):
    over = lst(n.args['over'])
    c = self.only(n, by + tuple(over), conds)
    rel = groups(by + tuple(over) + tuple(c.index), c.cons)
    cols = [op('/', t, ('win', 'SUM', t, rel, frozenset(by), (), '', EMPTY))
            for t in c.cols]
    return over, c, rel, cols

  def Distribution(self, n, by, conds):
    over, c, _, cols = self.shares(n, by, conds)
    return Ref(over + c.index, cols, tmpl(n, 'Distribution of {}', c.labels),
               c.cons)

  def CumulativeDistribution(self, n, by, conds):
    over, c, rel, cols = self.shares(n, by, conds)
    d = 'ASC' if n.args.get('ascending', True) else 'DESC'
    order = n.args.get('order')
    frame = 'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW'
    out = []
    for t in cols:
      ks = [('k', k) for k in over + c.index]
      if n.args.get('sort_by_values'):
        ks = [t]
      elif order:
        ks = [position(k, order) for k in ks]
      out.append(('win', 'SUM', t, rel, frozenset(by),
                  tuple((k, d) for k in ks), frame, EMPTY))
    return Ref(over + c.index, out, tmpl(
        n, 'Cumulative Distribution of {}', c.labels), c.cons)

  def diversity(self, n, by, conds, f, label):
    _, c, rel, cols = self.shares(n, by, conds)
    if c.index:
      raise Skip('index of the child')
    return Ref([], [f(t, rel, by) for t in cols],
               [None if l is None else label.format(l)
                                       for l in c.labels])

  def HHI(self, n, by, conds):
    return self.diversity(n, by, conds, lambda t, rel, b: agg(
        'SUM', op('*', t, t), EMPTY, b, rel), 'HHI of {}')

  def Entropy(self, n, by, conds):
    return self.diversity(n, by, conds, lambda t, rel, b: op('neg', agg(
        'SUM', op('*', t, st.fn('LOG', t)), EMPTY, b, rel)), 'Entropy of {}')

  def TopK(self, n, by, conds):
    k = n.args['k']

    def f(t, rel, b):
      arr = agg('ARRAY_AGG', t, EMPTY, b, rel, ('ORDER', t, 'DESC', 'LIMIT',
                                               num(k)))
      key = 'element of %d' % st.norm(arr)
      return st.fn('QUERY', agg('SUM', ('k', key), EMPTY, (), groups([key])))
    return self.diversity(n, by, conds, f, "Top-%s's share of {}" % k)

  def Nxx(self, n, by, conds):
    share = n.args['share']

    def f(t, rel, b):
      cum = ('win', 'SUM', t, rel, frozenset(b), ((t, 'DESC'),),
             'ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW', EMPTY)
      c = ('cmp', '<', cum, num(str(share)))
      return op('+', ('agg', 'COUNTIF', ('cond', c), EMPTY, frozenset(b), rel,
                      EMPTY, ()), num(1))
    s = 100 * share
    return self.diversity(n, by, conds, f, 'N(%s) of {}' % (
        int(s) if float(s).is_integer() else s))

  def Jackknife(self, n, by, conds):
    c = self.only(n, by, conds)
    if self.unit is not None:
      raise Skip('nested')
    unit = n.args['unit'].lower()
    self.unit = unit
    try:
      l = self.only(n, by + (unit,), conds)
    except Skip:
      return self.resampled(n, by, conds, c)
    finally:
      self.unit = None
    keys = by + tuple(c.index)
    rel = groups(keys + (unit,), l.cons)
    out = []
    for t, x in zip(c.cols, l.cols):
      ct = agg('COUNT', x, EMPTY, keys, rel)
      df = sub(ct, num(1))
      se = op('*', agg('STDDEV_SAMP', x, EMPTY, keys, rel),
              op('/', df, op('sqrt', ct)))
      out += [t, se] + ([df] if n.args.get('confidence') else [])
    return self.resampled(n, by, conds, c, out)

  def resampled(self, n, by, conds, c, cols=None):
    """The point estimates are those of the child."""
    labels = []
    k = 3 if n.args.get('confidence') else 2
    for l in c.labels:
      labels += [l, l and '%s %s SE' % (l, n.cls.replace('Poisson', ''))]
      if k > 2:
        labels.append(None)
    if cols is None:
      cols = [t for x in c.cols for t in [x] + [None] * (k - 1)]
    child = n.kids['child'][0]
    if k > 2 and child.cls in ('PercentChange', 'AbsoluteChange'):
      # the values that are compared are displayed, too
      by = by + tuple(x.lower() for x in lst(child.args['condition_column']))
      v = self.only(child, by, conds | conditions(child.where, self.marks))
      cols, labels = cols + v.cols, labels + v.labels
    return Ref(c.index, cols, labels, c.cons)

  def Bootstrap(self, n, by, conds):
    return self.resampled(n, by, conds, self.only(n, by, conds))

  PoissonBootstrap = Bootstrap

  def base_of(self, n, cs):
    cond = lst(n.args['condition_column'])
    key = lst(n.args['baseline_key'])
    if len(cond) != len(key):
      raise Skip('baseline_key')
    vals = [('s', v) if isinstance(v, str) else num(v) for v in key]
    isbase = [('cmp', '=', ('k', c.lower()), v) for c, v in zip(cond, vals)]

    def pin(t):
      for c, v in zip(cond, vals):
        t = st.pin(t, c.lower(), v)
      return t
    cons = EMPTY if n.args.get('include_base') else frozenset(
        [st.negate(st.conj(*isbase))])
    return cond, pin, cons

  def change(self, n, by, c, f, default):
    cond, pin, cons = self.base_of(n, c)
    return Ref(cond + c.index, [f(t, pin(t)) for t in c.cols],
               tmpl(n, default, c.labels), c.cons | cons)

  PERCENT = staticmethod(lambda a, b: sub(op('*', op('/', a, b), num(100)),
                                          num(100)))

  def PercentChange(self, n, by, conds):
    c = self.only(n, by + tuple(lst(n.args['condition_column'])), conds)
    return self.change(n, by, c, self.PERCENT, '{} Percent Change')

  def AbsoluteChange(self, n, by, conds):
    c = self.only(n, by + tuple(lst(n.args['condition_column'])), conds)
    return self.change(n, by, c, sub, '{} Absolute Change')

  def adjusted(self, n, by, conds, f):
    """Values per condition adjusted by one covariate measured per unit."""
    cond, unit = lst(n.args['condition_column']), lst(n.args.get(
        'stratified_by'))
    keys = by + tuple(cond) + tuple(unit)
    y = self.only(n, keys, conds)
    x = self.only(n, keys, conds, 'covariates')
    if y.index or x.index or len(y.cols) != 1 or len(x.cols) != 1:
      raise Skip('columns')
    rel = groups(keys)
    c = Ref([], [f(y.cols[0], x.cols[0], rel, by, by + tuple(cond))],
            y.labels)
    return c

  def PrePostChange(self, n, by, conds):
    def f(y, x, rel, by, arm):
      # y = a + b * (x - mean(x)) fitted per condition; the result is a
      x = sub(x, ('win', 'AVG', x, rel, frozenset(by), (), '', EMPTY))
      a = lambda g, t: agg(g, t, EMPTY, arm, rel)
      b = op('/', a('COVAR_SAMP', pair(x, y)), a('VAR_SAMP', x))
      return sub(a('AVG', y), op('*', a('AVG', x), b))
    c = self.adjusted(n, by, conds, f)
    return self.change(n, by, c, self.PERCENT, '{} PrePost Percent Change')

  def CUPED(self, n, by, conds):
    def f(y, x, rel, by, arm):
      a = lambda g, t, b: agg(g, t, EMPTY, b, rel)
      theta = op('/', a('COVAR_SAMP', pair(x, y), by), a('VAR_SAMP', x, by))
      return sub(a('AVG', y, arm), a('AVG', op('*', theta, x), arm))
    c = self.adjusted(n, by, conds, f)
    return self.change(n, by, c, sub, '{} CUPED Change')

  def MH(self, n, by, conds):
    cond, strata = lst(n.args['condition_column']), lst(
        n.args['stratified_by'])
    keys = by + tuple(cond) + tuple(strata)
    m = n.kids['metric'][0]
    if m.cls != 'Ratio':
      raise Skip('ratio')
    conds = conds | conditions(m.where, self.marks)
    a, b = [agg('SUM', r(m, p), conds, keys, st.BASE)
            for p in ('numerator', 'denominator')]
    _, pin, cons = self.base_of(n, None)
    rel = groups(keys, cons)
    arm = by + tuple(cond)
    ab, bb = pin(a), pin(b)
    s = lambda p, q: st.fn('COALESCE', agg('SUM', op('/', op('*', p, q), op('+', b, bb)), EMPTY,
                         arm, rel), num(0))
    t = sub(op('*', num(100), op('/', s(a, bb), s(ab, b))), num(100))
    return Ref(cond, [t], tmpl(n, '{} MH Ratio', [name_of(m, 'sum(%s) / sum(%s)' % (
        m.args['numerator'], m.args['denominator']))]), cons)


class Alg:
  """Python arithmetic on terms."""

  def __init__(self, t):
    self.t = t

  def _bin(self, k, a, b):
    w = lambda x: x.t if isinstance(x, Alg) else num(x)
    return Alg(op(k, w(a), w(b)))

  def __add__(self, o):
    return self._bin('+', self, o)

  def __radd__(self, o):
    return self._bin('+', o, self)

  def __mul__(self, o):
    return self._bin('*', self, o)

  def __rmul__(self, o):
    return self._bin('*', o, self)

  def __truediv__(self, o):
    return self._bin('/', self, o)

  def __neg__(self):
    return Alg(op('neg', self.t))

  def __sub__(self, o):
    return self + -(o if isinstance(o, Alg) else Alg(num(o)))

  def __rsub__(self, o):
    return -self + o


def sub(a, b):
  return op('+', a, op('neg', b))


def null(t):
  return ('is', st.fn('IS_NULL', t))


def pair(x, y):
  return ('fn', 'PAIR', tuple(sorted([x, y], key=st.norm)))


def r(n, p):
  return ('r', n.args[p].lower())


def lst(x):
  return [] if x is None else [y for y in (x if isinstance(x, (
      list, tuple)) else [x])]


def position(k, order):
  """Where a value comes in an explicit order; others come last."""
  out = num(len(order))
  for i, v in reversed(list(enumerate(order))):
    out = ('if', ('cmp', '=', k, ('s', v) if isinstance(v, str) else num(v)),
           num(i), out)
  return out


def name_of(n, default):
  return n.args.get('name') or default


def tmpl(n, default, labels):
  t = n.args.get('name_tmpl') or default
  return [None if l is None else t.format(l) for l in labels]


def marks_of(root):
  return {m.lower() for n in root.walk() for w in n.where
          for m in re.findall(r'\b[wv]_\w+', w)}
