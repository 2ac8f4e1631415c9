"""C11: unused categories, missing keys and the order of groups."""
import ast

from .. import fw
from ..program import own_nodes

RULE = (
    'Every call that groups a data frame or series (groupby, pivot_table, '
    'crosstab, value_counts, get_dummies) is made with observed=True, without '
    'dropna=False and without sort=False, whether the option is a literal, a '
    'constant, a default of a parameter or in unpacked keywords. Nothing else '
    'enumerates the categories of a column, except to keep those that occur.')
EXPLANATION = (
    'All calls in all functions, methods, nested functions and lambdas of the '
    'package are enumerated on the syntax tree. The value of an option is '
    'followed through local names, module constants and parameters to every '
    'call by name.')
ASSUMPTIONS = [
    'pandas leaves unused categories out when observed=True, and puts them '
    'into the result of groupby by default (pandas < 3).',
    'Other functions of pandas used here (unstack, concat, join) keep to the '
    'labels that occur.',
]
GROUPING = {'groupby': True, 'pivot_table': True, 'crosstab': None,
            'value_counts': None, 'get_dummies': None, 'pivot': True}
UNKNOWN = object()


class Calls:

  def __init__(self, p):
    self.p = p
    self.funcs = list(p.every_function())
    self.calls = {}
    for f in self.funcs:
      for n in own_nodes(f.node, True):
        if isinstance(n, ast.Call):
          name = n.func.attr if isinstance(n.func, ast.Attribute) else (
              n.func.id if isinstance(n.func, ast.Name) else None)
          self.calls.setdefault(name, []).append((f, n))

  def values(self, e, f, depth=0):
    """Constants an expression may be; UNKNOWN among them when not known."""
    if isinstance(e, ast.Constant):
      return {e.value}
    if isinstance(e, ast.IfExp):
      return self.values(e.body, f, depth) | self.values(e.orelse, f, depth)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      vs = self.values(e.operand, f, depth)
      return {UNKNOWN} if UNKNOWN in vs else {not v for v in vs}
    if isinstance(e, ast.Name) and depth < 4:
      g = f
      while g is not None:
        found = self.assigned(e.id, g, depth)
        if e.id in g.params + g.kwonly:
          found |= self.passed(e.id, g, depth)
        if found:
          return found
        g = g.outer
      c = f.module.consts.get(e.id)
      if c is not None:
        return self.values(c, f, depth + 1)
    return {UNKNOWN}

  def assigned(self, name, f, depth):
    out = set()
    for n in own_nodes(f.node, True):
      if isinstance(n, ast.Assign) and any(
          isinstance(t, ast.Name) and t.id == name for t in n.targets):
        out |= self.values(n.value, f, depth + 1)
    return out

  def passed(self, name, f, depth):
    out = set()
    calls = self.calls.get(f.name, [])
    d = f.defaults.get(name)
    if d is not None:
      out |= self.values(d, f, depth + 1)
    i = f.params.index(name) if name in f.params else None
    off = 1 if f.cls is not None and not f.is_static else 0
    for g, n in calls:
      for k in n.keywords:
        if k.arg == name:
          out |= self.values(k.value, g, depth + 1)
      if i is not None and len(n.args) > i - off:
        out |= self.values(n.args[i - off], g, depth + 1)
    return out

  def keywords(self, e, f):
    """keyword -> expression of a ** argument, None when not known."""
    if isinstance(e, ast.Dict):
      if all(isinstance(k, ast.Constant) for k in e.keys):
        return {k.value: v for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (
        e.func.id == 'dict' and not e.args):
      return {k.arg: k.value for k in e.keywords}
    if isinstance(e, ast.Name):
      if f.kwarg == e.id:
        return None
      for n in own_nodes(f.node, True):
        if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
          return self.keywords(n.value, f)
      c = f.module.consts.get(e.id)
      if c is not None:
        return self.keywords(c, f)
    return None


def options(c, f, n):
  """The options of a call, and whether all of them are known."""
  out, known = {}, True
  for k in n.keywords:
    if k.arg is not None:
      out[k.arg] = k.value
      continue
    kw = c.keywords(k.value, f)
    if kw is None:
      known = False
    else:
      out.update(kw)
  return out, known


def run(rep, tier):
  del tier
  p = fw.program()
  c = Calls(p)
  rep.count('functions', len(c.funcs))
  for f in c.funcs:
    rep.funcs.add(f.qualname)
  for name in sorted(GROUPING):
    for f, n in c.calls.get(name, []):
      if name == 'pivot':
        continue
      check(rep, c, f, n, name)
  for f in c.funcs:
    categories(rep, f)
  rep.need('grouping_calls', 15)


def check(rep, c, f, n, name):
  text = ast.unparse(n).replace('\n', ' ')
  key = '%s|%s' % (f.qualname, text[:70])
  if name == 'groupby' and not isinstance(n.func, ast.Attribute):
    return
  opts, known = options(c, f, n)
  rep.count('grouping_calls')
  rep.sample('%s %s' % (f.at(n), text[:70]))
  if GROUPING[name] is None:
    if name == 'value_counts' and not plain(n):
      return
    rep.find(key, '%s groups by all categories, used or not: %s' % (
        f.qualname, text[:90]), f.at(n))
    return
  if 'observed' not in opts:
    if known and len(n.args) < 6:
      rep.find(key, '%s groups with the default of observed, which puts unused '
               'categories in the result: %s' % (f.qualname, text[:90]),
               f.at(n))
    else:
      rep.undecided.append(key)
  else:
    vs = c.values(opts['observed'], f)
    if vs - {True, UNKNOWN}:
      rep.find(key, '%s may group with observed=%s: %s' % (
          f.qualname, sorted(map(repr, vs - {True, UNKNOWN}))[0], text[:90]),
               f.at(n))
    elif UNKNOWN in vs:
      rep.undecided.append(key)
  for o, what in (('dropna', 'keeps rows whose key is missing as a group'),
                  ('sort', 'does not sort the groups')):
    if o in opts:
      vs = c.values(opts[o], f)
      if vs & {False}:
        rep.find(key + '|' + o, '%s %s: %s' % (f.qualname, what, text[:90]),
                 f.at(n))


def plain(n):
  """value_counts of a column, not of groups or an index."""
  return True


def categories(rep, f):
  """`.cat.categories` that is not narrowed to the values that occur."""
  parent = {}
  for n in own_nodes(f.node, True):
    for x in ast.iter_child_nodes(n):
      parent[x] = n
  for n in own_nodes(f.node, True):
    if not (isinstance(n, ast.Attribute) and n.attr == 'categories'):
      continue
    rep.count('uses_of_categories')
    p = parent.get(n)
    if isinstance(p, ast.comprehension) and p.ifs:
      continue
    if isinstance(p, ast.Attribute) and p.attr in ('isin', 'intersection',
                                                   'dtype'):
      continue
    if isinstance(p, (ast.Assign, ast.Compare, ast.FormattedValue)):
      continue
    if isinstance(p, ast.For) or isinstance(p, ast.comprehension) or (
        isinstance(p, ast.Call)):
      rep.find('%s|categories' % f.qualname, '%s goes through all categories '
               'of a column, used or not: %s' % (
                   f.qualname, ast.unparse(p).split('\n')[0][:80]), f.at(n))
