"""Concrete configurations of every built-in class that differ in one option.

Each option of a constructor gets a list of alternative values. Alternatives
with the same tag mean the same; two alternatives with different tags must
never be taken for each other.
"""
import ast

from . import fw, scenario as sc
from .absint import C, FALSE, NONE, O, TRUE, Frame, V

# options that do not influence the numbers: where the result is displayed or
# how fast it is computed
LABELS = {'name', 'name_tmpl'}
PERFORMANCE = {'enable_optimization', 'sql_batch_size', 'copy_X', 'n_jobs',
               'verbose', 'warm_start', 'precompute', 'additional_fingerprint_attrs'}
LISTS = {'over', 'condition_column', 'stratified_by', 'group_by'}
VALUES = {
    'quantile': [.5, .29], 'interpolation': ['linear', 'nearest'],
    'method': ['pearson', 'kendall'], 'confidence': [.9, .95],
    'share': [.5, .25], 'k': [1, 2], 'n': [1, 2],
    'solver': ['auto', 'svd'], 'selection': ['cyclic', 'random'],
    'penalty': ['l2', 'l1'], 'l1_ratio': [.5, .25],
    'n_replicates': [10000, 100], 'class_weight': ['balanced'],
    'max_iter': [10, 20], 'random_state': [0, 1], 'ddof': [0, 1],
}


def lst(it, xs, kind='list'):
  fr = it.new_root_frame(fw.program().cls('Metric').module, 'cfg')
  return it.alloc(fr, None, O(kind, items=list(xs)), 'l')


def strs(it, xs, kind='list'):
  return lst(it, [C(x) for x in xs], kind)


def const(x):
  def make(it):
    return C(x)
  return make


def words(*xs):
  def make(it):
    return strs(it, xs)
  return make


def leaf(cls, *pos, **kw):
  def make(it):
    p = fw.program()
    c = p.cls(cls)
    ps = fw.ctor_params(c)
    a = {q: C(x) if not callable(x) else x(it) for q, x in zip(ps, pos)}
    a.update({q: C(x) if not callable(x) else x(it) for q, x in kw.items()})
    return sc.instance(it, c, a, 'cfg')
  return make


OPS = ['lambda a, b: a - b', 'lambda a, b: a + b', 'lambda a, b: a + b * 2',
       'lambda a, b: a + b * 3', 'lambda a, b: b + a', 'lambda a, b: a',
       'lambda a, b: b', 'lambda a, b: a.x + b', 'lambda a, b: a.y + b']
_OPS = {}


def op(i):
  def make(it):
    m = fw.program().cls('Metric').module
    if i not in _OPS:
      _OPS[i] = ast.parse(OPS[i], mode='eval').body
    return it.ev(_OPS[i], it.new_root_frame(m, 'op'))
  make.text = OPS[i]
  return make


def closure(k):
  """The function a factory returns for the argument k."""
  def make(it):
    m = fw.program().cls('Metric').module
    if 'clo' not in _OPS:
      _OPS['clo'] = ast.parse('lambda a, b: a + b * k', mode='eval').body
    fr = it.new_root_frame(m, 'op')
    fr2 = Frame(None, m, {'k': C(k)}, fr, ctx=('clo', k))
    return it.ev(_OPS['clo'], fr2)
  return make


def kids(*makers):
  def make(it):
    return lst(it, [m(it) for m in makers])
  return make


def metric_values(cls, p):
  if p == 'children':
    s1, s2 = leaf('Sum', 'v1'), leaf('Count', 'v2')
    return [('s1,c2', kids(s1, s2)), ('c2,s1', kids(s2, s1)),
            ('s1,c3', kids(s1, leaf('Count', 'v3'))),
            ('s1w,c2', kids(leaf('Sum', 'v1', where='w1'), s2)),
            ('s1,c2d', kids(s1, leaf('Count', 'v2', distinct=True))),
            ('s1n,c2', kids(leaf('Sum', 'v1', name='other'), s2)),
            ('s1,s2', kids(s1, leaf('Sum', 'v2')))]
  if cls.name == 'MH':
    return [('r12', leaf('Ratio', 'v1', 'v2')),
            ('r13', leaf('Ratio', 'v1', 'v3')),
            ('r21', leaf('Ratio', 'v2', 'v1')),
            ('r12w', leaf('Ratio', 'v1', 'v2', where='w1'))]
  out = [('s1', leaf('Sum', 'v1')), ('s2', leaf('Sum', 'v2')),
         ('c1', leaf('Count', 'v1')), ('m1', leaf('Mean', 'v1')),
         ('s1w', leaf('Sum', 'v1', where='w1')),
         ('s1w2', leaf('Sum', 'v1', where='w2')),
         ('s1w12', leaf('Sum', 'v1', where=words('w1', 'w2'))),
         ('s1w13', leaf('Sum', 'v1', where=words('w1', 'w3'))),
         ('s1n', leaf('Sum', 'v1', name='other')),
         ('q5', leaf('Quantile', 'v1', .5)), ('q9', leaf('Quantile', 'v1', .9)),
         ('nt', leaf('Nth', 'v1', 1, 'o1')), ('nt2', leaf('Nth', 'v1', 1, 'o2'))]
  if p == 'x':
    a, b = leaf('Sum', 'v3'), leaf('Sum', 'v4')
    out = [('x3', a), ('x4', b), ('x34', kids(a, b)), ('x43', kids(b, a)),
           ('x3w', leaf('Sum', 'v3', where='w1'))]
  if p == 'covariates':
    a, b = leaf('Sum', 'v3'), leaf('Sum', 'v4')
    # a covariate is required to compute anything
    out = [('x3', a), ('x4', b), ('x34', kids(a, b)),
           ('x3w', leaf('Sum', 'v3', where='w1'))]
  return out


def values(cls, p):
  """[(tag, maker)] for an option; the first is a base value."""
  if p in sc.METRIC_PARAMS:
    return metric_values(cls, p)
  if p == 'op':
    return [('op%d' % i, op(i)) for i in range(len(OPS))] + [
        ('clo1', closure(1)), ('clo2', closure(2))]
  if p == 'where':
    return [('none', const(None)), ('a', const('w5')), ('b', const('w6')),
            ('ab', lambda it: strs(it, ['w5', 'w6'])),
            ('ab', lambda it: strs(it, ['w6', 'w5'])),
            ('ac', lambda it: strs(it, ['w5', 'w7']))]
  d = sc.default_of(cls, p)
  if p in LISTS:
    out = [('1', const(p + '1')), ('2', const(p + '2')),
           ('12', lambda it: strs(it, [p + '1', p + '2'])),
           ('13', lambda it: strs(it, [p + '1', p + '3']))]
    if d is not None and d[0] is None:
      out.insert(0, ('none', const(None)))
    return out
  if p == 'rename_columns':
    return [('none', const(None)), ('a', lambda it: strs(it, ['n1', 'n2'])),
            ('b', lambda it: strs(it, ['n1', 'n3']))]
  if p == 'order':
    return [('none', const(None)), ('a', lambda it: strs(it, ['n1', 'n2'])),
            ('b', lambda it: strs(it, ['n2', 'n1']))]
  if p in VALUES:
    out = [(repr(x), const(x)) for x in VALUES[p]]
    if d is not None and d[0] not in VALUES[p]:
      out.insert(0, (repr(d[0]), const(d[0])))
    if p == 'quantile':
      out += [('[.1,.9]', lambda it: lst(it, [C(.1), C(.9)])),
              ('[.1,.8]', lambda it: lst(it, [C(.1), C(.8)]))]
    return out
  if d is None:
    return [('1', const(p + '1')), ('2', const(p + '2'))]
  d = d[0]
  if isinstance(d, bool):
    return [(repr(d), const(d)), (repr(not d), const(not d))]
  if isinstance(d, (int, float)):
    return [(repr(d), const(d)), (repr(d + .25), const(d + .25)),
            (repr(d + .5), const(d + .5))]
  if isinstance(d, str):
    return [(d, const(d)), (d + ' other', const(d + ' other'))]
  return [('None', const(None)), (p + '1', const(p + '1')),
          (p + '2', const(p + '2'))]


def options(cls):
  ps = list(fw.ctor_params(cls))
  if cls.lookup('__init__').kwarg and 'where' not in ps:
    ps.append('where')
  return ps


def bases(cls, make):
  """Base assignments {option: value index}; make(assignment) tells if valid."""
  ps = [p for p in options(cls) if p not in PERFORMANCE]
  vals = {p: values(cls, p) for p in ps}
  first = {p: 0 for p in ps}
  out = [first]
  for labels in (False, True):
    b = dict(first)
    for p in ps:
      if p in LABELS and not labels:
        continue
      # some options exclude each other
      for i in range(1, len(vals[p])):
        if make(dict(b, **{p: i}), vals):
          b[p] = i
          break
    if b not in out:
      out.append(b)
  return vals, out


def build(it, cls, assign, vals, deps=None):
  args = {}
  for p, i in assign.items():
    v = vals[p][i][1](it)
    args[p] = v.with_deps(frozenset([deps])) if deps else v
  return it.construct(cls, args)
