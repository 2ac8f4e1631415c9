"""Abstract metric trees: every built-in class over structured children.

A scenario is a symbolic instance of one class. Strings, numbers and callables
are opaque values that carry a dependency label ('p:<param>' for options of the
root, 'c:<param>.<attr>' for options of its children); metric-valued options
are abstract instances of real metric classes.
"""
import ast

from . import fw
from .absint import C, FALSE, NONE, O, TRUE, V, ck, joinall

METRIC_PARAMS = {'child', 'metric', 'children', 'x', 'y', 'covariates'}
LISTABLE = {
    'where', 'over', 'condition_column', 'stratified_by', 'group_by',
    'split_by', 'rename_columns', 'quantile', 'order', 'sort_by', 'unit_list',
    'baseline_key_',
}
BOOL = V(frozenset([ck(True), ck(False)]))


def s(it, label, root=None):
  """An unknown string."""
  oid = ('sym', 'str', label)
  it.heap[oid] = O('ext', tag='str', deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def num(it, label):
  oid = ('sym', 'number', label)
  it.heap[oid] = O('ext', tag='number', deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def strlist(it, label, root=None, kind='list'):
  """An unknown list of unknown strings owned by the caller."""
  oid = ('sym', kind, label)
  it.heap[oid] = O(kind, elem=s(it, label), root=root or label,
                   deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def frame(it, label, tag='DataFrame'):
  oid = ('sym', tag, label)
  it.heap[oid] = O('ext', tag=tag, root=label, deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def callable_(it, label):
  oid = ('sym', 'callable', label)
  it.heap[oid] = O('ext', tag='callable', deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def instance(it, cls, args, tag):
  """Constructs a non-root metric."""
  fr = it.new_root_frame(cls.module, tag)
  v = it.alloc(fr, cls.node, O('inst', cls=cls), 'scn:%s:%s' % (tag, cls.name))
  init = cls.lookup('__init__')
  b = it.bind(init, [], args, self_val=v, frame=fr, node=cls.node)
  it.call_func(init, b, cls.node, fr)
  return v


def leaf(it, label, cls='Sum', where=True):
  c = fw.program().cls(cls)
  args = {}
  for p in fw.ctor_params(c):
    args[p] = option(it, c, p, label + '.' + p)
  if not where:
    args['where'] = NONE
  return instance(it, c, args, label)


def default_of(cls, p):
  f = cls.lookup('__init__')
  d = f.defaults.get(p)
  if d is None:
    return None
  try:
    return (ast.literal_eval(d),)
  except (ValueError, SyntaxError):
    return None


def option(it, cls, p, label):
  """A symbolic value for a non-metric option."""
  d = default_of(cls, p)
  dep = frozenset([label])
  if p in ('op',):
    return callable_(it, label)
  if p == 'additional_fingerprint_attrs':
    return NONE
  if p in ('where', 'quantile') or (p in LISTABLE):
    v = s(it, label).join(strlist(it, label)) if p != 'quantile' else num(
        it, label).join(strlist(it, label)).join(frame(it, label, 'ndarray'))
    if d is not None and d[0] is None:
      v = v.join(NONE)
    return v.with_deps(dep)
  if d is None:
    if p in ('k', 'n', 'share'):
      return num(it, label)
    return s(it, label)
  d = d[0]
  if isinstance(d, bool):
    return BOOL.with_deps(dep)
  if isinstance(d, (int, float)):
    return num(it, label)
  if isinstance(d, str):
    return s(it, label).join(C(d)).with_deps(dep)
  if p in ('weight', 'name', 'name_tmpl', 'unit', 'fweight', 'baseline_key',
           'prefix'):
    return s(it, label).join(NONE).with_deps(dep)
  return num(it, label).join(NONE).with_deps(dep)


def child(it, label, kind):
  p = fw.program()
  if kind in ('Sum', 'Mean', 'Count', 'Ratio', 'Quantile', 'Variance', 'Nth'):
    return leaf(it, label, kind)
  if kind == 'MetricList':
    lst = it.alloc(it.new_root_frame(p.cls('MetricList').module, label), None,
                   O('list', items=[leaf(it, label + '[0]', 'Sum'),
                                    leaf(it, label + '[1]', 'Mean')],
                     root='%s[]' % label), 'kids:' + label)
    return instance(it, p.cls('MetricList'), {
        'children': lst, 'where': option(it, p.cls('MetricList'), 'where',
                                         label + '.where')}, label)
  c = p.cls(kind)
  args = {q: (leaf(it, label + '.' + q) if q in METRIC_PARAMS else
              option(it, c, q, label + '.' + q)) for q in fw.ctor_params(c)}
  if c.lookup('__init__').kwarg:
    args['where'] = option(it, c, 'where', label + '.where')
  return instance(it, c, args, label)


def args_for(it, cls, kind='Sum', over=None):
  """Symbolic constructor arguments; `kind` is the class of the child."""
  p = fw.program()
  args = {}
  for q in fw.ctor_params(cls):
    if q == 'children':
      kids = [child(it, 'c:children[0]', kind), leaf(it, 'c:children[1]',
                                                     'Count')]
      args[q] = it.alloc(it.new_root_frame(cls.module, 'kids'), None,
                         O('list', items=kids, root='p:children'), 'kids')
    elif q in METRIC_PARAMS and cls.is_subclass(p.cls('Metric')):
      if q in ('x', 'covariates') and kind == 'MetricList':
        kids = [leaf(it, 'c:%s[0]' % q), leaf(it, 'c:%s[1]' % q, 'Mean')]
        args[q] = it.alloc(it.new_root_frame(cls.module, 'kids'), None,
                           O('list', items=kids, root='p:' + q), 'kids' + q)
      elif q in ('y', 'covariates', 'x'):
        args[q] = leaf(it, 'c:' + q)
      elif cls.name == 'MH':
        args[q] = child(it, 'c:' + q, 'Ratio')
      else:
        args[q] = child(it, 'c:' + q, kind)
    else:
      args[q] = option(it, cls, q, 'p:' + q)
  if cls.lookup('__init__').kwarg:
    args.setdefault('where', option(it, cls, 'where', 'p:where'))
  for k, v in (over or {}).items():
    args[k] = v
  return args


def child_kinds(cls):
  """The kinds of children a class is analysed with."""
  p = fw.program()
  params = set(fw.ctor_params(cls)) & METRIC_PARAMS
  if not params or not cls.is_subclass(p.cls('Metric')):
    return ['-']
  if 'x' in params or cls.name == 'MH':
    return ['Sum', 'MetricList'] if 'x' in params else ['Ratio']
  kinds = ['Sum', 'Mean', 'MetricList', 'PercentChange', 'Distribution']
  if cls.is_subclass(p.cls('MetricWithCI')) or 'children' in params:
    kinds += ['PrePostChange', 'Jackknife']
  return kinds


def jobs():
  """(class name, child kind) of every scenario."""
  return [(c.name, k) for c in fw.metric_classes() for k in child_kinds(c)]


def build(it, name, kind, over=None):
  cls = next(c for c in fw.metric_classes() if c.name == name)
  return cls, it.construct(cls, args_for(it, cls, kind, over))


def call_args(it, cls, method):
  """Symbolic arguments of an entry point."""
  f = cls.lookup(method)
  out = {}
  for q in f.params[1:] + f.kwonly:
    if q == 'df':
      out[q] = frame(it, 'a:' + q)
    elif q == 'pcol':
      out[q] = it.param_obj('a:' + q, root='a:' + q)
    elif q == 'table':
      out[q] = s(it, 'a:table')
    elif q == 'split_by':
      out[q] = NONE.join(s(it, 'a:split_by')).join(
          strlist(it, 'a:split_by')).with_deps(frozenset(['a:split_by']))
    elif q in ('melted', 'return_dataframe', 'apply_name_tmpl'):
      out[q] = BOOL.with_deps(frozenset(['a:' + q]))
    elif q == 'mode':
      out[q] = V(frozenset([ck(None), ck('mixed'), ck('magic')]),
                 deps=frozenset(['a:mode']))
    elif q == 'execute':
      out[q] = callable_(it, 'a:execute')
    elif q == 'cache_key':
      out[q] = NONE.join(s(it, 'a:cache_key')).with_deps(
          frozenset(['a:cache_key']))
    elif q == 'cache':
      oid = ('sym', 'dict', 'a:cache')
      it.heap[oid] = O('dict', items=None, elem=V(), keys=V(), tag='CACHE',
                       deps=frozenset())
      out[q] = NONE.join(V(refs=frozenset([('o', oid)])))
    elif q == 'batch_size':
      out[q] = NONE.join(num(it, 'a:batch_size'))
    else:
      out[q] = it.param_obj('a:' + q, root='a:' + q)
  return out


def table_obj(it):
  """A caller-owned query object used as the table."""
  oid = ('sym', 'Sql', 'a:table')
  it.heap[oid] = O('ext', root='a:table', deps=frozenset(['a:table']))
  return V(refs=frozenset([('o', oid)]), deps=frozenset(['a:table']))


def default_of_func(f, p):
  d = f.defaults.get(p)
  if d is None:
    return None
  try:
    return (ast.literal_eval(d),)
  except (ValueError, SyntaxError):
    return None


def query_table(it, tag='tbl'):
  """A caller-owned query (with a WITH clause) used as the table."""
  p = fw.program()
  m = p.modules['sql']
  fr = it.new_root_frame(m, tag)

  def inst(name, args, t):
    cls = p.cls(name)
    v = it.alloc(fr, cls.node, O('inst', cls=cls), 'tb:%s:%s' % (t, name))
    init = cls.lookup('__init__')
    b = it.bind(init, [], args, self_val=v, frame=fr, node=cls.node)
    it.call_func(init, b, cls.node, fr)
    return v
  inner = inst('Sql', {'columns': s(it, 'a:table.c1'),
                       'from_data': s(it, 'a:table.t0'),
                       'where': s(it, 'a:table.w0')}, 'in')
  ds = inst('Datasource', {'table': inner, 'alias': s(it, 'a:table.al')}, 'ds')
  wd = inst('Datasources', {'datasources': ds}, 'wd')
  return inst('Sql', {
      'columns': strlist(it, 'a:table.c2'), 'from_data': s(it, 'a:table.t1'),
      'with_data': wd.join(NONE), 'where': NONE.join(s(it, 'a:table.w')),
      'groupby': NONE.join(s(it, 'a:table.g'))}, 'out')
