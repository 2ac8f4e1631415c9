"""C08: every option of a metric takes effect."""
import ast

from .. import configs as cf, fw, scenario as sc
from ..absint import AbsRaise, C, FALSE, Interp, NONE

RULE = (
    'Dependence analysis: the result of compute_on, the query of to_sql and the '
    'result of compute_on_sql in each mode must depend (through data or '
    'control) on every option of the metric and of its children and on every '
    'argument, or a raise must. Caches and the default names of metrics do not '
    'count as a way to depend. Parameters of constructors and functions are '
    'read somewhere.')
EXPLANATION = (
    'Every built-in class over several kinds of children with symbolic '
    'options, so one run covers all values; again with each optional option '
    'fixed to be given or not, and with and without split_by. Whether the '
    'dependence is the right one is not looked at here.')
ASSUMPTIONS = [
    'Options on how a numerical solver works need not matter in the magic mode, '
    'which does not use that solver.',
    'The result of a library call depends on all of its arguments.']

PATHS = [('compute_on', 0), ('to_sql', 0), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]
SOLVER = {'copy_X', 'warm_start', 'n_jobs', 'verbose', 'precompute', 'solver',
          'selection', 'random_state', 'dual', 'max_iter', 'tol'}
# options that need not matter: (option, path or None, why)
EXEMPT = [
    ('additional_fingerprint_attrs', None, 'only tells cache keys apart'),
    ('children_return_dataframe', 'to_sql', 'a query is always a table'),
    ('rename_columns', 'to_sql', 'changes columns in place; decided in C09'),
]
# (class, option, other option, how it is fixed): documented to be ignored
VOID = {(c, 'normalize', 'fit_intercept', 'given')
        for c in ('LinearRegression', 'Ridge', 'Lasso', 'ElasticNet')} | {
            ('Quantile', 'interpolation', 'weight', 'given')}
ARGS = ('df', 'table', 'split_by', 'execute', 'melted', 'return_dataframe')


class Influence(Interp):
  """Does not let caches carry dependence, and notes what raises depend on."""

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.raised = set()

  def call_func(self, func, bound, node, frame, *a, **k):
    if func.cls is not None and func.name == 'in_cache':
      return FALSE
    if func.name in ('wrap_cache_key', 'get_fingerprint'):
      return C('KEY')
    if func.name == 'save_to_cache':
      return NONE
    return super().call_func(func, bound, node, frame, *a, **k)

  def truth(self, v):
    if not v.top and not v.consts and v.refs:
      os = [o for _, o in self.objs(v)]
      if len(os) == len(v.refs) and all(o.cls is not None and o.cls.name in (
          'Column', 'Sql') for o in os):
        return True    # their text is never empty
    return super().truth(v)

  def s_Raise(self, s, fr):
    self.raised |= fr.pc
    return super().s_Raise(s, fr)


def unname(it):
  """Names depend on most of the options."""
  for i, o in list(it.heap.items()):
    if o.kind == 'inst' and 'name' in o.attrs and o.cls.lookup('compute_on'):
      o = o.copy()
      o.attrs = dict(o.attrs, name=C('NAME'))
      it.heap[i] = o


def pins(name):
  """{option: value or None} to fix: nothing, and each optional one."""
  cls = next(c for c in fw.metric_classes() if c.name == name)
  yield None
  for p in fw.ctor_params(cls):
    if p in sc.METRIC_PARAMS or p in ('name', 'where', 'name_tmpl'):
      continue
    d = sc.default_of(cls, p)
    if d is not None and (d[0] is None or isinstance(d[0], bool)):
      yield p, 'default'
      yield p, 'given'


def pinned(it, cls, pin):
  if pin is None:
    return {}
  p, how = pin
  d = sc.default_of(cls, p)[0]
  dep = frozenset(['p:' + p])
  if how == 'default':
    return {p: C(d).with_deps(dep)}
  if isinstance(d, bool):
    return {p: C(not d).with_deps(dep)}
  x = 1 if p in ('random_state', 'max_iter', 'ddof') else p + '1'
  return {p: C(x).with_deps(dep)}


def splits(it, cls, method):
  kw = sc.call_args(it, cls, method)
  yield 'any', kw
  if 'split_by' in kw:
    yield 'none', dict(kw, split_by=NONE.with_deps(frozenset(['a:split_by'])))
    yield 'some', dict(kw, split_by=cf.lst(it, [sc.s(
        it, 'a:split_by')]).with_deps(frozenset(['a:split_by'])))


def required(it, args):
  out = set()
  for v in args.values():
    out |= it.deep_deps(v)
  return {x for x in out if x[:2] in ('p:', 'c:') and x.rpartition('.')[
      2].rpartition(':')[2] not in ('name',)}


def exempt(name, x, method, mode, pin):
  p = x.rpartition(':')[2].rpartition('.')[2]
  if mode == 'magic' and p in SOLVER:
    return True
  if pin is not None and (x == 'p:' + pin[0] or (name, p) + pin in VOID):
    return True
  return any(p == q and m in (None, method) for q, m, _ in EXEMPT)


def job(rep, arg):
  name, kind, pin = arg
  for method, mode in PATHS:
    for i in range(3):
      it = Influence(fw.program())
      cls = next(c for c in fw.metric_classes() if c.name == name)
      try:
        args = sc.args_for(it, cls, kind, pinned(it, cls, pin))
        want = required(it, args)
        s = it.construct(cls, args)
        unname(it)
        kws = list(splits(it, cls, method))
        if i >= len(kws):
          continue
        split, kw = kws[i]
        if mode != 0:
          kw['mode'] = C(mode)
        r = it.call_named(s, method, kwargs=kw)
      except AbsRaise:
        continue
      if it.exhausted:
        rep.undecided.append('%s over %s: %s' % (name, kind, method))
        continue
      rep.funcs |= {q for _, q in it.funcs_seen}
      rep.count('runs')
      have = it.deep_deps(r) | it.raised
      want = {x for x in want if not exempt(name, x, method, mode, pin)}
      for a in kw:
        if a in ARGS and not (a == 'split_by' and split == 'none') and not (
            a == 'return_dataframe' and method == 'compute_on_sql'):
          want.add('a:' + a)
      rep.count('dependences', len(want))
      path = method + (' in mode %s' % mode if mode else '')
      for x in sorted(want - have):
        f = cls.lookup(method)
        rep.find('%s|%s|%s' % (name, x, path), '%s over %s: %s does not depend '
                 'on %s%s, split_by: %s' % (name, kind, path, describe(
                     x), ' when %s is %s' % pin if pin else '', split), f.where)


def describe(x):
  kind, _, p = x.partition(':')
  return {'p': 'its option ', 'c': 'the option of its child ',
          'a': 'the argument '}[kind] + p


def unread(rep):
  """Parameters that nothing reads."""
  p = fw.program()
  for m in p.modules.values():
    classes = [c for c in p.classes.values() if c.module is m]
    meths = {id(f.node): c for c in classes for f in c.methods.values()}
    for n in ast.walk(m.tree):
      if not isinstance(n, ast.FunctionDef):
        continue
      c = meths.get(id(n))
      if c is not None and n.name != '__init__' and any(
          n.name in d.methods for d in p.classes.values() if d is not c and (
              d.is_subclass(c) or c.is_subclass(d))):
        continue
      ps = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs
            ] + [a.arg for a in (n.args.vararg, n.args.kwarg) if a]
      used = {x.id for b in n.body for x in ast.walk(b)
              if isinstance(x, ast.Name)}
      if all(isinstance(b, (ast.Expr, ast.Pass, ast.Raise)) for b in n.body):
        continue
      rep.count('parameters', len(ps))
      for q in ps:
        if q not in used and q not in ('self', 'cls') and not q.startswith(
            ('unused', '_')):
          where = '%s.%s' % (c.name, n.name) if c else n.name
          rep.find('%s.%s|%s' % (m.name, where, q), 'nothing reads the '
                   'parameter %s of %s' % (q, where), '%s.py:%d' % (
                       m.name, n.lineno))


def run(rep, tier):
  jobs = []
  for name, kind in sc.jobs():
    for pin in pins(name):
      if kind in ('-', 'Sum', 'Ratio') or pin is None or tier == 'thorough':
        jobs.append((name, kind, pin))
  fw.parallel(rep, job, jobs)
  unread(rep)
  rep.need('runs', 500)
  rep.need('parameters', 300)
