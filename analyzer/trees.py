"""Trees of built-in metrics, described twice: for the code and for a rule.

A configuration names a class, its options, what its children are, which nodes
are filtered and the columns to split by. build() constructs the abstract
instance the interpreter works on and, next to it, a plain description of the
same tree that rules use to say what the result must be.
"""
import time

from . import configs as cf, fw, influence as inf, scenario as sc
from .absint import AbsRaise, C, NONE, O, V

KINDS = ['Sum', 'Mean', 'WMean', 'CountD', 'Quantile', 'Ratio']
MIDS = ['PercentChange', 'AbsoluteChange', 'Distribution',
        'CumulativeDistribution', 'CompositeMetric', 'MetricList']
APART = ['HHI', 'MH', 'TopK', 'Jackknife']
NESTED = ['Jackknife', 'Bootstrap', 'HHI', 'MH', 'CUPED']
QUICK = ['', 'Sum', 'PercentChange', 'MetricList']
LEAVES_UNDER = ['MetricList', 'PercentChange', 'Jackknife']
FILTERS = ['each', 'none', 'same', 'leaf', 'first', 'root', 'or', 'list']
LEAVES = {
    'Sum': ('Sum', ['x'], {}), 'Mean': ('Mean', ['x'], {}),
    'WMean': ('Mean', ['x', 'wt'], {}),
    'Count': ('Count', ['x'], {}),
    'CountD': ('Count', ['x'], {'distinct': True}),
    'Quantile': ('Quantile', ['x'], {}),
    'Variance': ('Variance', ['x'], {}),
    'Max': ('Max', ['x'], {}),
    'Dot': ('Dot', ['x', 'y'], {}),
    'Ratio': ('Ratio', ['x', 'y'], {}),
}
COLUMNS = ('var', 'var1', 'var2', 'weight', 'fweight', 'numerator',
           'denominator', 'sort_by')
SPLIT = ('s1', 's2')


class Node:
  """cls, args {option: plain value}, where [text], kids {option: [Node]}."""

  def __init__(self, cls, name):
    self.cls = cls
    self.name = name
    self.args = {}
    self.where = []
    self.kids = {}

  def walk(self):
    yield self
    for ks in self.kids.values():
      for k in ks:
        yield from k.walk()

  @property
  def leaf(self):
    return not self.kids


def plain(it, v):
  """The Python value of an abstract one."""
  c = v.const()
  if c is not None:
    return c[0]
  for _, o in it.objs(v):
    if o.cls is None and isinstance(o.items, list):
      return [plain(it, x) for x in o.items]
  return Unknown


class Unknown:
  pass


def prefixed(make, prefix):
  def made(it):
    x = plain(it, make(it))
    if isinstance(x, list):
      return cf.strs(it, [prefix + y for y in x])
    return C(prefix + x if isinstance(x, str) else x)
  return made


def paired(make, columns):
  """A baseline has one value per column of the condition."""
  def made(it):
    x, cs = plain(it, make(it)), plain(it, columns(it))
    if isinstance(cs, list) and len(cs) > 1 and isinstance(x, str):
      return cf.strs(it, ['%s_%d' % (x, i) for i in range(len(cs))], 'tuple')
    return make(it)
  return made


class Tree:

  def __init__(self, it, filters='each'):
    self.it = it
    self.filters = filters
    self.first = True

  def where(self, name, leaf):
    """The filter of a node: what is passed in, None without."""
    f = self.filters
    if f == 'none' or f == 'leaf' and not leaf or f == 'root' and (
        name != 'root'):
      return None
    if f == 'same':
      return 'w_leaf' if leaf else None
    if f == 'first':
      if not leaf or not self.first:
        return None
      self.first = False
    if f == 'or':
      return 'w_%s or v_%s' % (name, name)
    if f == 'list':
      return ['w_' + name, 'v_' + name]
    return 'w_' + name

  def add_where(self, node, args, leaf):
    w = self.where(node.name, leaf)
    if w is None:
      return
    it = self.it
    node.where = [w] if isinstance(w, str) else w
    v = C(w) if isinstance(w, str) else cf.strs(it, w)
    args['where'] = inf.label(it, v, 'W.' + node.name)

  def leaf(self, kind, name):
    it = self.it
    cls, pos, kw = LEAVES[kind]
    c = fw.program().cls(cls)
    n = Node(cls, name)
    args = {}
    for q, x in list(zip(fw.ctor_params(c), pos)) + list(kw.items()):
      if q in COLUMNS:
        x = '%s_%s' % (name, x)
      n.args[q] = x
      args[q] = C(x).with_deps(frozenset(['VAR.' + name]))
    self.add_where(n, args, True)
    return it.construct(c, args), n

  def node(self, cls, name, opts, kinds, prefix=''):
    """opts: {option: maker}; prefix: of the columns that are options."""
    it = self.it
    opts = dict(opts)
    for p in opts:
      if prefix and (p in cf.LISTS or p in COLUMNS):
        opts[p] = prefixed(opts[p], prefix)
    if 'baseline_key' in opts and 'condition_column' in opts:
      opts['baseline_key'] = paired(opts['baseline_key'],
                                    opts['condition_column'])
    n = Node(cls.name, name)
    args = {}
    isleaf = not any(p in sc.METRIC_PARAMS for p in opts)
    for p, v in opts.items():
      if p == 'where':
        self.add_where(n, args, isleaf)
      elif p not in sc.METRIC_PARAMS:
        x = v(it)
        n.args[p] = plain(it, x) if p != 'op' else getattr(v, 'text', Unknown)
        args[p] = inf.label(it, x, 'OPT.' + p)
    for p in opts:
      if p not in sc.METRIC_PARAMS:
        continue
      k = kinds.get(p, kinds.get('child'))
      many = p in ('children', 'x', 'covariates')
      if callable(k):
        ks = k(self, p, many)
      elif many:
        ks = k if isinstance(k, list) else [k, 'Count']
        ks = [self.leaf(x, '%s%s%d' % (name, p, i)) for i, x in enumerate(ks)]
      else:
        ks = [self.leaf(k, name + p)]
      n.kids[p] = [d for _, d in ks]
      vs = [v for v, _ in ks]
      args[p] = cf.lst(it, vs) if many else vs[0]
    return it.construct(cls, args), n


def mid(name, kind, alike=False):
  """A child that is an operation itself; alike: so is the next one."""
  def make(tree, p, many):
    cls = fw.program().cls(name)
    vals, bs = bases(cls)
    opts = {q: vals[q][i][1] for q, i in bs[0].items()}
    k = {'child': 'Ratio' if name == 'MH' else kind, 'covariates': ['Sum']}
    out = [tree.node(cls, 'mid', opts, k, 'mid')]
    if many and alike:
      for n, c in (('mid2', 'Count'), ('mid3', 'CountD')):
        out.append(tree.node(cls, n, opts, dict(
            k, child='Ratio' if name == 'MH' else c), 'mid'))
    elif many:
      out.append(tree.leaf('Sum', 'other'))
    return out
  return make


def any_leaf(name, i):
  """A child that is the i-th variant of a class without children."""
  def make(tree, p, many):
    cls = fw.program().cls(name)
    vals, vs = variants(cls)
    opts = {q: vals[q][j][1] for q, j in vs[i].items()}
    out = [tree.node(cls, 'leafa', opts, {}, 'leafa_')]
    if many:
      out.append(tree.leaf('Sum', 'other'))
    return out
  return make


def number(x, kind, first=True):
  """A number and a metric as the children, in either order."""
  def make(tree, p, many):
    n = Node('Number', 'number')
    n.args['value'] = x
    k = [(C(x), n), tree.leaf(kind, 'othr') if kind in LEAVES else mid(
        kind, 'Sum')(tree, p, False)[0]]
    return k if first else k[::-1]
  return make


def two(a, b):
  """The i-th child is an operation or a leaf."""
  def make(tree, p, many):
    out = []
    for i, k in enumerate((a, b)):
      if k in LEAVES:
        out.append(tree.leaf(k, 'kid%d' % i))
      else:
        cls = fw.program().cls(k)
        vals, bs = bases(cls)
        opts = {q: vals[q][j][1] for q, j in bs[0].items()}
        out.append(tree.node(cls, 'mid%d' % i, opts, {
            'child': 'Sum', 'children': ['Sum', 'Mean'][::1 - 2 * i]}, 'mid'))
    return out
  return make


def apart(name):
  """Three operations over different columns."""
  def make(tree, p, many):
    cls = fw.program().cls(name)
    vals, bs = bases(cls)
    opts = {q: vals[q][i][1] for q, i in bs[0].items()}
    return [tree.node(cls, n, opts, {'child': 'Ratio' if name == 'MH' else k}, n)
            for n, k in (('mid', 'Sum'), ('mid2', 'Sum'), ('mid3', 'Count'))]
  return make


# how CompositeMetric pairs the columns of its children
PAIRS = [('2.5,Sum', number(2.5, 'Sum')), ('Sum,2.5', number(2.5, 'Sum', False)),
         ('2.5,MetricList', number(2.5, 'MetricList')),
         ('MetricList,2.5', number(2.5, 'MetricList', False)),
         ('2.5,PercentChange', number(2.5, 'PercentChange')),
         ('Distribution,2.5', number(2.5, 'Distribution', False)),
         ('MetricList,MetricList', two('MetricList', 'MetricList')),
         ('MetricList,Sum', two('MetricList', 'Sum')),
         ('Sum,MetricList', two('Sum', 'MetricList')),
         ('Distribution,Sum', two('Distribution', 'Sum')),
         ('Sum,PercentChange', two('Sum', 'PercentChange'))]


def leaf_kinds(cls):
  """Every class without children, in every variant under a MetricList."""
  out = []
  for c in fw.metric_classes():
    if any(p in sc.METRIC_PARAMS for p in cf.options(c)):
      continue
    n = len(variants(c)[1] if cls.name == 'MetricList' else bases(c)[1])
    for i in range(n):
      k = any_leaf(c.name, i)
      out.append(('%s/%d' % (c.name, i), {'child': k, 'children': k}))
  return out


_BASES = {}


def bases(cls):
  if cls.name not in _BASES:
    from .rules import c01
    _BASES[cls.name] = cf.bases(cls, c01.valid(cls))
  return _BASES[cls.name]


_VARIANTS = {}


def variants(cls):
  """Assignments: the bases and the first base with one option changed."""
  if cls.name in _VARIANTS:
    return _VARIANTS[cls.name]
  from .rules import c01
  vals, bs = bases(cls)
  ok = c01.valid(cls)
  out = list(bs)
  for p in bs[0]:
    if p in sc.METRIC_PARAMS or p in ('where', 'op') or p in cf.LABELS:
      continue
    for i in range(len(vals[p])):
      b = dict(bs[0], **{p: i})
      if i != bs[0][p] and b not in out and ok(b, vals):
        out.append(b)
      for w in ('weight', 'fweight'):
        if w in bs[0] and p != w and i != bs[0][p] and not any(
            q in sc.METRIC_PARAMS for q in bs[0]):
          b = dict(bs[0], **{p: i, w: 1})
          if b not in out and ok(b, vals):
            out.append(b)
  _VARIANTS[cls.name] = vals, out
  return _VARIANTS[cls.name]


def kinds_of(cls):
  """[(tag, kinds)] of what the children can be."""
  params = [p for p in cf.options(cls) if p in sc.METRIC_PARAMS]
  if not params:
    return [('', {})]
  if cls.name == 'MH':
    return [('Ratio', {'child': 'Ratio'})]
  out = [(k, {'child': k, 'covariates': [k]}) for k in KINDS]
  if cls.name in LEAVES_UNDER:
    out += leaf_kinds(cls)
  if 'covariates' in params:
    out += [('Sum/2', {'child': 'Sum'})]
  if cls.name == 'MetricList':
    out += [('3 ' + k, {'children': apart(k)}) for k in APART]
  if cls.name == 'CompositeMetric':
    out += [(t, {'children': k}) for t, k in PAIRS]
  mids = MIDS + (NESTED if 'children' in params else [])
  if 'child' in params or 'children' in params:
    for m in mids:
      out.append((m, {'child': mid(m, 'Sum'), 'children': mid(
          m, 'Mean', cls.name == 'MetricList'),
                      'x': 'Sum', 'covariates': 'Sum'}))
  return out


class Config:

  def __init__(self, cls, kind, variant, filters='each', split=SPLIT,
               method='to_sql', mode=None):
    self.cls, self.kind, self.variant = cls, kind, variant
    self.filters, self.split = filters, split
    self.method, self.mode = method, mode

  def of(self, method):
    return Config(self.cls, self.kind, self.variant, self.filters, self.split,
                  method)

  def __str__(self):
    c = next(c for c in fw.metric_classes() if c.name == self.cls)
    vals, vs = variants(c)
    opts = ', '.join('%s=%s' % (p, vals[p][i][0]) for p, i in vs[
        self.variant].items() if i and p not in sc.METRIC_PARAMS and (
            p != 'where'))
    s = '%s(%s)' % (self.cls, ', '.join(x for x in (self.kind, opts) if x))
    m = '%s %s' % (self.method, self.mode) if self.mode else self.method
    x = '' if self.filters == 'each' else ' filters: ' + self.filters
    return '%s.%s split by %s%s' % (s, m, list(self.split or ()), x)


def configs(thorough=False, paths=(('to_sql', None),)):
  out = []
  for c in fw.metric_classes():
    ks = kinds_of(c)
    main = [k for k, _ in ks if k in ('', 'Sum', 'Ratio') or k in MIDS + NESTED]
    for method, mode in paths:
      if mode == 'magic' and c.module.name != 'models':
        continue
      if method != 'to_sql':
        # the same queries, mostly
        some = [k for k, _ in ks if '/' not in k] if thorough else [
            k for k in main if k in QUICK or k == 'Ratio' and c.name == 'MH']
        out += [Config(c.name, k, 0, f, method=method, mode=mode)
                for k in some for f in (('each', 'leaf') if thorough else (
                    'each',))]
        continue
      nb = len(bases(c)[1])
      out += [Config(c.name, k, b) for k, _ in ks for b in range(nb)
              if b == 0 or '/' not in k and ',' not in k]
      nv = len(variants(c)[1])
      for b in range(nb, nv):
        for k, _ in [x for x in ks if '/' not in x[0] and ',' not in x[0]] if thorough else (
            ks[:1] + [x for x in ks if x[0] == 'MetricList']):
          out.append(Config(c.name, k, b))
        if ks[0][0] == '':
          out += [Config(c.name, '', b, 'each', sp) for sp in (None, ('s1',))]
      out += [Config(c.name, k, 0, 'each', None) for k, _ in ks if ',' in k]
      if c.name == 'MetricList':
        out += [Config(c.name, k, 0, f) for k, _ in ks if '/' in k
                for f in ('leaf', 'or')]
      for k in main:
        out += [Config(c.name, k, 0, f) for f in FILTERS[1:]]
        out += [Config(c.name, k, 0, 'each', sp) for sp in (None, ('s1',))]
  seen, res = set(), []
  for c in out:
    t = tuple(sorted(c.__dict__.items(), key=lambda x: x[0]))
    if repr(t) not in seen:
      seen.add(repr(t))
      res.append(c)
  return res


class OutOfTime(BaseException):
  """The run takes longer than it is worth."""


class Runner(inf.Flow):
  """Also collects the text of everything that is executed."""

  SECONDS = {'to_sql': 80}

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.executed = []
    self.after = None     # steps to follow what is done with a result
    self.deadline = None

  def deep_deps(self, *vs, **k):
    return frozenset()    # nothing here asks what a value depends on

  def stmt(self, s, fr):
    if self.deadline is not None and time.process_time() > self.deadline:
      raise OutOfTime()
    return super().stmt(s, fr)

  def call_value(self, n, fr, fv, args, kwargs, star, dstar):
    if any(r[0] == 'o' and r[1] == ('sym', 'callable', 'EXEC')
           for r in fv.refs) and args:
      c = args[0].const()
      self.executed.append(c[0] if c is not None else None)
      if self.after is not None and not self.exhausted:
        self.budget = self.steps + self.after
    return super().call_value(n, fr, fv, args, kwargs, star, dstar)


class Result:

  def __init__(self, cfg, it, root, queries, status, labels=None, value=None):
    self.cfg, self.it, self.root = cfg, it, root
    self.queries = queries    # exact texts
    self.status = status      # 'ok', 'raised' or 'inexact'
    self.labels = labels
    self.value = value


def build(cfg, it):
  cls = next(c for c in fw.metric_classes() if c.name == cfg.cls)
  vals, vs = variants(cls)
  b = vs[cfg.variant]
  tree = Tree(it, cfg.filters)
  opts = {}
  for p, i in b.items():
    opts[p] = vals[p][i][1]
  kinds = dict(kinds_of(cls))[cfg.kind]
  return tree.node(cls, 'root', opts, kinds)


def run(cfg, reverse_sets=False):
  it = Runner(fw.program(), opaque_modules=())
  it.reverse_sets = reverse_sets
  if cfg.method != 'to_sql' and cfg.method != 'compute_on':
    it.budget, it.after = 60000, 20000
  it.deadline = time.process_time() + Runner.SECONDS.get(cfg.method, 12)
  root = None
  try:
    s, root = build(cfg, it)
    split = inf.label(it, cf.strs(it, cfg.split), 'ARG.split_by') if (
        cfg.split) else NONE
    r, labels = call(it, s, cfg, split)
  except AbsRaise:
    return Result(cfg, it, root, [], 'raised')
  except OutOfTime:
    return Result(cfg, it, root, executed(it), 'cut')
  if cfg.method == 'to_sql':
    c = r.const()
    if c is None:
      return Result(cfg, it, root, [], 'inexact')
    return Result(cfg, it, root, [c[0]], 'ok', labels, r)
  return Result(cfg, it, root, executed(it), 'ok', value=r)


def executed(it):
  return list(dict.fromkeys(it.executed))


def call(it, s, cfg, split):
  if cfg.method == 'to_sql':
    q = it.call_named(s, 'to_sql', kwargs=dict(
        table=C('T').with_deps(frozenset(['ARG.table'])), split_by=split))
    labels = labels_of(it, q)
    out = None
    for r1, o in list(it.objs(q)):
      x = V(refs=frozenset([('o', r1)]), deps=q.deps)
      x = it.call_named(x, '__str__') if o.cls is not None else x
      out = x if out is None else out.join(x)
    return (out if out is not None else q), labels
  kw = dict(split_by=split)
  if cfg.method == 'compute_on':
    kw['df'] = sc.frame(it, 'DATA', 'DataFrame')
  elif cfg.method == 'compute_on_beam':
    kw.update(pcol=sc.s(it, 'ARG.table'), execute=sc.callable_(it, 'EXEC'))
  else:
    kw.update(table=C('T').with_deps(frozenset(['ARG.table'])),
              execute=sc.callable_(it, 'EXEC'), mode=C(cfg.mode))
  return it.call_named(s, cfg.method, kwargs=kw), None


def labels_of(it, q):
  """The labels of the columns of a query object, None when unknown."""
  os = [o for _, o in it.objs(q) if o.cls is not None]
  if len(os) != 1:
    return None
  out, keys = [], []
  for a in ('groupby', 'columns'):
    cs = [o for _, o in it.objs(os[0].attrs.get(a, NONE))]
    if len(cs) != 1:
      return None
    kids = [o for _, o in it.objs(cs[0].attrs.get('children', NONE))]
    if len(kids) != 1 or not isinstance(kids[0].items, list):
      return None
    for x in kids[0].items:
      for _, c in it.objs(x):
        l = c.attrs.get('alias_raw', NONE).const()
        if l is None:
          return None
        if l[0] not in keys:
          out.append(l[0])
          if a == 'groupby':
            keys.append(l[0])
  return out
