"""Which inputs reach which computations: dependence analysis of whole trees.

A tree of built-in metrics is built with every argument labelled: 'W.<node>'
for the filter of a node, 'VAR.<node>' for the columns of a leaf, 'OPT.<name>'
for the options of the root and 'ARG.<name>' for the arguments of the
computation. The interpreter then follows a computation and records what each
leaf is computed on and what every rendered query consists of.
"""
import ast

from . import configs as cf, fw, scenario as sc
from .absint import AbsRaise, C, NONE, O, V
from .fold import Fold

PATHS = [('compute_on', None), ('to_sql', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic'),
         ('compute_on_beam', None)]
BUDGET = 300000
SLICES = ('compute', 'compute_slices', 'compute_with_split_by')


class Flow(Fold):
  nested_methods = frozenset()

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.budget = BUDGET
    self.leaf_calls = []
    self.selects = []
    self.trace = set()

  def is_inst(self, v):
    return any(o.cls is not None for _, o in self.objs(v))

  def _stmt(self, s, fr):
    if fr.func is not None:
      self.trace.add((fr.func.qualname, s.lineno, s.col_offset))
    return super()._stmt(s, fr)

  def call_func(self, func, bound, node, frame, *a, **k):
    cls = func.cls
    if cls is not None:
      me = bound.get(func.params[0]) if func.params else None
      if me is not None and func.name in SLICES and 'df' in bound:
        for r, o in self.objs(me):
          if o.cls is not None and is_leaf(self, o):
            self.leaf_calls.append(dict(
                deps=self.deep_deps(me), df=self.deep_deps(bound['df']),
                split_by=self.deep_deps(bound.get('split_by', NONE)),
                func=func, cls=o.cls))
      elif me is not None and cls.name == 'Sql' and func.name == '__str__':
        for r, o in self.objs(me):
          self.note_select(o, func)
    return super().call_func(func, bound, node, frame, *a, **k)

  def columns_of(self, v, depth=0):
    for r, o in self.objs(v):
      if o.cls is not None and o.cls.name == 'Column':
        yield r, o
      elif o.cls is not None:
        if o.cls.name in ('Sql', 'Datasource', 'Datasources') or depth > 3:
          continue
        for x in o.attrs.values():
          yield from self.columns_of(x, depth + 1)
      elif o.kind in ('list', 'tuple', 'set', 'dict') and depth < 4:
        items = o.items if isinstance(o.items, list) else (
            list(o.items.values()) if isinstance(o.items, dict) else [])
        for x in items:
          yield from self.columns_of(x, depth + 1)
        if not o.elem.is_bottom():
          yield from self.columns_of(o.elem, depth + 1)

  def note_select(self, o, func):
    src = o.attrs.get('from_data', NONE)
    nested = any(x.cls is not None and x.cls.name == 'Sql'
                 for x in self.reached(src))
    self.selects.append(dict(
        cols=[(self.deep_deps(V(refs=frozenset([('o', r)]))), self.stack_of())
              for r, _ in self.columns_of(o.attrs.get('columns', NONE))],
        where=self.deep_deps(o.attrs.get('where', NONE)),
        groupby=self.deep_deps(o.attrs.get('groupby', NONE)),
        src=self.deep_deps(src), nested=nested, func=func))

  def stack_of(self):
    for f in reversed(self.stack):
      if f.func is not None and f.func.module.name != 'sql':
        return f.func.qualname
    return '?'

  def reached(self, v):
    seen, out, todo = set(), [], [v]
    while todo:
      x = todo.pop()
      for r, o in self.objs(x):
        if r in seen:
          continue
        seen.add(r)
        out.append(o)
        todo += list(o.attrs.values())
        if isinstance(o.items, list):
          todo += o.items
        elif isinstance(o.items, dict):
          todo += list(o.items.values())
        if not o.elem.is_bottom():
          todo.append(o.elem)
    return out


def is_leaf(it, o):
  for _, c in it.objs(o.attrs.get('children', NONE)):
    return c.items is not None and not c.items
  return False


def label(it, v, name):
  """Tags a value and what a list consists of."""
  d = frozenset([name])
  for _, o in it.objs(v):
    if isinstance(o.items, list) and o.cls is None:
      o.items = [x if it.is_inst(x) else x.with_deps(d) for x in o.items]
  return v if it.is_inst(v) else v.with_deps(d)


class Tree:
  """Builds a labelled tree and knows the filters above each leaf."""

  def __init__(self, it):
    self.it = it
    self.chain = {}
    self.nodes = []

  def leaf(self, kind, name, above, where=True):
    it = self.it
    cls, pos, kw = LEAVES[kind]
    c = fw.program().cls(cls)
    ps = fw.ctor_params(c)
    args = {}
    for q, x in list(zip(ps, pos)) + list(kw.items()):
      x = '%s_%s' % (name, x) if q in ('var', 'var1', 'var2', 'weight',
                                        'numerator', 'denominator') else x
      args[q] = C(x).with_deps(frozenset(['VAR.' + name]))
    own = set(above)
    if where:
      args['where'] = C('w_' + name).with_deps(frozenset(['W.' + name]))
      own.add('W.' + name)
    self.chain['VAR.' + name] = frozenset(own)
    return it.construct(c, args)

  def node(self, cls, name, above, opts, kinds):
    """An instance of cls with labelled options and children."""
    it = self.it
    own = set(above)
    args = {}
    for p, v in opts.items():
      if p == 'where':
        v = C('w_' + name).with_deps(frozenset(['W.' + name]))
        own.add('W.' + name)
        args[p] = v
      elif p not in sc.METRIC_PARAMS:
        args[p] = label(it, v(it), 'OPT.' + p)
    for p in opts:
      if p in sc.METRIC_PARAMS:
        k = kinds.get(p, kinds.get('child'))
        if callable(k):
          args[p] = k(self, p, own)
        elif p in ('children', 'x') or p == 'covariates':
          ks = k if isinstance(k, list) else [k, 'Count']
          args[p] = cf.lst(it, [self.leaf(x, '%s%s%d' % (name, p, i), own)
                                for i, x in enumerate(ks)])
        else:
          args[p] = self.leaf(k, name + p, own)
    self.nodes.append(name)
    return it.construct(cls, args)


LEAVES = {
    'Sum': ('Sum', ['x'], {}), 'Mean': ('Mean', ['x'], {}),
    'WMean': ('Mean', ['x', 'wt'], {}),
    'Count': ('Count', ['x'], {}),
    'CountD': ('Count', ['x'], {'distinct': True}),
    'Quantile': ('Quantile', ['x'], {}),
    'Variance': ('Variance', ['x'], {}),
    'Max': ('Max', ['x'], {}),
    'Dot': ('Dot', ['x', 'y'], {}),
    'Ratio': ('Ratio', ['x', 'y'], {}),
}


def compute(it, s, method, mode):
  kw = dict(split_by=label(it, cf.strs(it, ['s1']), 'ARG.split_by'))
  if method == 'compute_on':
    kw['df'] = sc.frame(it, 'DATA', 'DataFrame')
  else:
    kw['table'] = C('T').with_deps(frozenset(['ARG.table']))
    if method == 'compute_on_sql':
      kw['execute'] = sc.callable_(it, 'EXEC')
      kw['mode'] = C(mode)
  if method == 'compute_on_beam':
    kw = dict(pcol=sc.s(it, 'ARG.table'), split_by=kw['split_by'],
              execute=sc.callable_(it, 'EXEC'))
  r = it.call_named(s, method, kwargs=kw)
  if method == 'to_sql':
    out = None
    for r1, o in list(it.objs(r)):
      x = V(refs=frozenset([('o', r1)]), deps=r.deps)
      x = it.call_named(x, '__str__') if o.cls is not None else x
      out = x if out is None else out.join(x)
    return out if out is not None else r
  return r
