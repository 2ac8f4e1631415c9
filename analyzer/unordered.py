"""Where the order of a set gets into something ordered.

Types of expressions: 'S' a set or a directory listing, whose order means
nothing, 'F' sql.Filters, which sorts when rendered, 'U' a sequence in the
order of an S. Attributes, parameters and results of functions of the package
are typed by a fixpoint; local names by their assignments.
"""
import ast

from .program import own_nodes

SET_CALLS = {'set', 'frozenset'}
LISTINGS = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'os.walk'}
LISTING_METHODS = {'iterdir', 'rglob'}
SET_METHODS = {'union', 'difference', 'intersection', 'symmetric_difference',
               'copy'}
SET_OPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)
# Builtins for which the order of the argument does not matter.
NEUTRAL = {'set', 'frozenset', 'sorted', 'len', 'any', 'all', 'sum', 'max',
           'min', 'bool', 'isinstance', 'type', 'id', 'hash', 'getattr',
           'hasattr', 'issubclass', 'callable', 'fsum', 'Counter'}
LAZY = {'map', 'filter', 'reversed', 'zip', 'enumerate', 'iter', 'list',
        'tuple', 'chain', 'from_iterable'}


def dotted(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = dotted(n.value)
    return b + '.' + n.attr if b else None
  return None


def last(n):
  return n.attr if isinstance(n, ast.Attribute) else (
      n.id if isinstance(n, ast.Name) else None)


def snake(name):
  return ''.join('_' + c.lower() if c.isupper() else c for c in name).strip('_')


# Methods of containers, whoever else defines them.
CONTAINER = {'add', 'update', 'copy', 'get', 'pop', 'append', 'remove',
             'difference', 'union', 'join', 'extend', 'items', 'keys',
             'values', 'index', 'count', 'sort', 'format', 'replace'}


class Types:
  """The types of attributes, parameters and results."""

  def __init__(self, program):
    self.p = program
    self.attrs = {}      # (class name, attr) -> type
    self.plain = set()   # (class name, attr) assigned something else
    self.params = {}     # (id of function, param) -> type
    self.rets = {}       # id of function -> type
    self.funcs = list(program.every_function())
    self.by_name = {}
    for f in self.funcs:
      self.by_name.setdefault(f.name, []).append(f)
    self.locals = {}     # id of function -> {name: type}
    self.changed = True
    for _ in range(12):
      self.changed = False
      for f in self.funcs:
        self.visit(f)
      if not self.changed:
        break

  def put(self, d, k, t):
    if t is None or d.get(k) == t:
      return
    if d.get(k) == 'S' and t != 'S':
      return
    d[k] = t
    self.changed = True

  def body(self, f):
    return list(own_nodes(f.node, True))

  def visit(self, f):
    loc = self.locals.setdefault(id(f.node), {})
    for p in f.params + f.kwonly:
      t = self.params.get((id(f.node), p))
      if t:
        self.put(loc, p, t)
    for n in self.body(f):
      pairs = []
      if isinstance(n, ast.Assign):
        for t in n.targets:
          pairs.append((t, n.value))
      elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and (
          n.value is not None):
        pairs.append((n.target, n.value))
      for t, v in pairs:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
            v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
          for a, b in zip(t.elts, v.elts):
            self.assign(f, a, b, loc)
        else:
          self.assign(f, t, v, loc)
      if isinstance(n, ast.Return) and n.value is not None:
        self.put(self.rets, id(f.node), self.of(n.value, f))
      if isinstance(n, ast.Call):
        self.args(f, n)
    if isinstance(f.node, ast.Lambda):
      self.put(self.rets, id(f.node), self.of(f.node.body, f))

  def assign(self, f, t, v, loc):
    ty = self.of(v, f)
    if isinstance(t, ast.Name):
      self.put(loc, t.id, ty)
    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
      c = self.owner(f)
      if t.value.id == 'self' and c:
        self.note(c, t.attr, ty)
      elif ty == 'S':
        for c in self.classes_of(t.value):
          self.note(c, t.attr, ty)

  def note(self, c, attr, ty):
    setter = c.lookup_setter(attr)
    if setter is not None:
      if ty in ('S', 'U') and len(setter.params) > 1:
        self.put(self.params, (id(setter.node), setter.params[1]), ty)
      return
    if ty in ('S', 'F'):
      self.put(self.attrs, (c.name, attr), ty)

  def owner(self, f):
    while f is not None and f.cls is None:
      f = f.outer
    return f.cls if f is not None else None

  def classes_of(self, n):
    """Classes an expression may be an instance of, by its name."""
    name = last(n)
    if name is None:
      return []
    out = []
    for m in self.p.modules.values():
      for c in m.classes.values():
        s = snake(c.name)
        if name == s or s.endswith('_' + name) or name.endswith('_' + s) or (
            name.split('_')[-1] == s.split('_')[-1] and '_' in s):
          out.append(c)
    return out

  def callees(self, f, n):
    """Functions of the package a call may reach (by name)."""
    name = last(n.func)
    fs = self.by_name.get(name, [])
    d = dotted(n.func)
    if name is None or name.startswith('__') or name in CONTAINER:
      return []
    if isinstance(n.func, ast.Name):
      return [g for g in fs if g.cls is None]
    if d and d.split('.')[0] in self.p.modules:
      return [g for g in fs if g.cls is None]
    return [g for g in fs if g.cls is not None]

  def class_called(self, f, n):
    name = last(n.func)
    for m in self.p.modules.values():
      if name in m.classes:
        return m.classes[name]
    return None

  def args(self, f, n):
    gs = self.callees(f, n)
    shift = 0
    c = self.class_called(f, n)
    if c is not None:
      init = c.lookup('__init__')
      gs, shift = ([init] if init else []), 1
    for g in gs:
      off = 1 if g.cls is not None and not g.is_static else 0
      for i, a in enumerate(n.args):
        ty = self.of(a, f)
        if ty in ('S', 'U') and i + off < len(g.params):
          self.put(self.params, (id(g.node), g.params[i + off]), ty)
      for k in n.keywords:
        ty = self.of(k.value, f)
        if ty in ('S', 'U') and k.arg in g.params + g.kwonly:
          self.put(self.params, (id(g.node), k.arg), ty)
    del shift

  def of(self, n, f):
    """Type of an expression."""
    if isinstance(n, (ast.Set, ast.SetComp)):
      return 'S'
    if isinstance(n, ast.Name):
      g = f
      while g is not None:
        t = self.locals.get(id(g.node), {}).get(n.id)
        if t:
          return t
        g = g.outer
      return None
    if isinstance(n, ast.Attribute):
      c = self.owner(f)
      if isinstance(n.value, ast.Name) and n.value.id == 'self' and c:
        for k in c.mro():
          t = self.attrs.get((k.name, n.attr))
          if t:
            return t
        return None
      for c in self.classes_of(n.value):
        t = self.attrs.get((c.name, n.attr))
        if t:
          return t
      return None
    if isinstance(n, ast.IfExp):
      return self.of(n.body, f) or self.of(n.orelse, f)
    if isinstance(n, ast.BoolOp):
      for v in n.values:
        t = self.of(v, f)
        if t:
          return t
      return None
    if isinstance(n, ast.NamedExpr):
      return self.of(n.value, f)
    if isinstance(n, ast.BinOp):
      l, r = self.of(n.left, f), self.of(n.right, f)
      if isinstance(n.op, SET_OPS) and 'S' in (l, r):
        return 'S'
      if isinstance(n.op, ast.Add) and 'U' in (l, r):
        return 'U'
      return None
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
      if any(self.of(g.iter, f) in ('S', 'U') for g in n.generators):
        return 'U'
      return None
    if isinstance(n, ast.Call):
      name, d = last(n.func), dotted(n.func)
      if isinstance(n.func, ast.Name) and name in SET_CALLS:
        return 'S'
      if d in LISTINGS or name in LISTING_METHODS:
        return 'S'
      if d and d.split('.')[0] in SET_CALLS:
        return 'S'
      if isinstance(n.func, ast.Attribute) and name in SET_METHODS:
        t = self.of(n.func.value, f)
        if t:
          return t
      if name in LAZY and any(self.of(a, f) in ('S', 'U') for a in n.args):
        return 'U'
      if name == 'Filters':
        return 'F'
      for g in self.callees(f, n):
        t = self.rets.get(id(g.node))
        if t and not g.is_property:
          return t
    return None


class Scan:
  """The uses of S and U in one function."""

  def __init__(self, types, f, found):
    self.t, self.f, self.found = types, f, found
    self.nodes = types.body(f)
    self.parent = {}
    for n in [f.node] + self.nodes:
      for c in ast.iter_child_nodes(n):
        self.parent[c] = n
    self.uses = 0

  def run(self):
    for n in self.nodes:
      t = self.t.of(n, self.f) if isinstance(n, ast.expr) else None
      if isinstance(getattr(n, 'ctx', None), (ast.Store, ast.Del)):
        continue
      if t == 'S':
        self.uses += 1
        self.use(n, t)
      elif t == 'U':
        self.use(n, t)
      if isinstance(n, ast.Call) and last(n.func) in ('sorted', 'sort'):
        for k in n.keywords:
          if k.arg == 'key' and any(
              isinstance(x, ast.Name) and x.id in ('id', 'hash')
              for x in ast.walk(k.value)):
            self.report(n, 'sorts by the address or hash of objects')
    return self

  def report(self, n, what):
    self.found(self.f, n, what)

  def use(self, n, t):
    """n is a set or a sequence in the order of a set: is this use safe?"""
    p = self.parent.get(n)
    if p is None:
      return
    if isinstance(p, ast.keyword):
      n, p = p, self.parent.get(p)
    if isinstance(p, ast.Starred):
      q = self.parent.get(p)
      if isinstance(q, ast.Call) and self.neutral_call(q):
        return
      if isinstance(q, ast.Set):
        return
      return self.report(n, 'unpacks a set')
    if isinstance(p, ast.comprehension) and p.iter is n:
      comp = self.parent.get(p)
      if isinstance(comp, (ast.SetComp, ast.DictComp)):
        return
      return   # the comprehension is a U itself
    if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is n:
      return self.loop(p)
    if isinstance(p, ast.Attribute) and p.value is n:
      return self.method(n, p, t)
    if isinstance(p, ast.Call) and n is not p.func:
      return self.argument(n, p, t)
    if isinstance(p, ast.Subscript) and p.value is n and t == 'U':
      return self.report(n, 'indexes a sequence in the order of a set')
    if isinstance(p, (ast.FormattedValue, ast.JoinedStr)):
      return self.text(n, p)
    if isinstance(p, ast.BinOp):
      if isinstance(p.op, ast.Mod) and p.right is n:
        return self.text(n, p)
      return
    if isinstance(p, ast.Compare):
      if t == 'U' and any(isinstance(o, (ast.Eq, ast.NotEq))
                          for o in p.ops):
        return self.report(n, 'compares sequences in the order of a set')
      return
    if isinstance(p, (ast.Yield, ast.YieldFrom)) and (
        t == 'U' or isinstance(p, ast.YieldFrom)):
      return self.report(n, 'yields the members of a set in its order')
    if t == 'U' and isinstance(p, ast.Assign):
      for x in p.targets:
        if isinstance(x, ast.Name) and self.sorted_later(x.id):
          return
        if isinstance(x, ast.Name):
          continue   # the uses of the name are looked at
        if isinstance(x, (ast.Tuple, ast.List, ast.Attribute, ast.Subscript)):
          return self.report(n, 'keeps the members of a set in its order')
    if isinstance(p, ast.Assign) and t == 'S' and any(
        isinstance(x, (ast.Tuple, ast.List)) for x in p.targets):
      return self.report(n, 'unpacks a set')
    if isinstance(p, ast.AugAssign) and p.value is n:
      if isinstance(p.op, ast.Add) and not self.only_raises(p):
        return self.report(n, 'appends the members of a set in its order')
      return
    if t == 'U' and isinstance(p, ast.Return) and not self.private_neutral():
      return self.report(n, 'returns the members of a set in its order')
    if t == 'U' and isinstance(p, (ast.List, ast.Tuple, ast.Dict)):
      return self.report(n, 'keeps the members of a set in its order')

  def private_neutral(self):
    return False

  def sorted_later(self, name):
    for n in self.nodes:
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
          n.func.attr == 'sort' and isinstance(n.func.value, ast.Name) and
          n.func.value.id == name):
        return True
      if isinstance(n, ast.Assign) and any(
          isinstance(x, ast.Name) and x.id == name for x in n.targets) and (
              isinstance(n.value, ast.Call) and
              last(n.value.func) == 'sorted'):
        return True
    return False

  def only_raises(self, n):
    """The statement is part of the message of an error."""
    while n is not None and not isinstance(n, ast.FunctionDef):
      if isinstance(n, (ast.Raise, ast.Assert)):
        return True
      if isinstance(n, ast.Call) and last(n.func) in (
          'warn', 'warning', 'print', 'info', 'debug', 'error', 'exception'):
        return True
      n = self.parent.get(n)
    return False

  def text(self, n, p):
    if not self.only_raises(p):
      self.report(n, 'formats a set into text')

  def neutral_call(self, c):
    name = last(c.func)
    if name in NEUTRAL:
      return True
    d = dotted(c.func)
    if d and d.split('.')[0] in SET_CALLS:
      return True
    if isinstance(c.func, ast.Attribute):
      r = self.t.of(c.func.value, self.f)
      if r in ('S', 'F'):
        return True
      if name in ('isin', 'issubset', 'issuperset', 'isdisjoint', 'union',
                  'intersection', 'difference_update', 'symmetric_difference',
                  'intersection_update'):
        return True
    return name == 'Filters'

  def argument(self, n, c, t):
    if self.neutral_call(c) or self.only_raises(c):
      return
    name = last(c.func)
    if isinstance(c.func, ast.Name) and name in ('str', 'repr'):
      return self.text(n, c)
    if name == 'join':
      return self.report(n, 'joins the members of a set into text')
    if name in ('next',):
      return self.report(n, 'takes the first member of a set')
    if name in LAZY:
      return   # a U
    if name in ('deepcopy', 'copy'):
      return
    if t == 'S' or t == 'U':
      if name in ('extend', 'fromkeys'):
        return self.report(n, 'appends the members of a set in its order')
      if self.t.callees(self.f, c) or self.t.class_called(self.f, c):
        return   # the parameter has the type
      if t == 'U' or name in ('array', 'Series', 'Index', 'DataFrame',
                              'concat', 'groupby', 'reindex', 'drop',
                              'Categorical', 'sort_values', 'set_index'):
        if t == 'S' and name == 'drop':
          return
        return self.report(n, 'passes the members of a set in its order')

  def method(self, n, p, t):
    c = self.parent.get(p)
    if not (isinstance(c, ast.Call) and c.func is p):
      return
    if t == 'S' and p.attr == 'pop':
      return self.report(n, 'takes an arbitrary member of a set')
    if t == 'U' and p.attr in ('pop', 'index'):
      return self.report(n, 'indexes a sequence in the order of a set')

  def loop(self, loop):
    """A for over a set: does the order show?"""
    names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    for s in loop.body:
      for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          pass
    dep = set(names)
    for _ in range(3):
      for s in loop.body:
        for n in ast.walk(s):
          if isinstance(n, ast.Assign) and self.reads(n.value, dep):
            for x in n.targets:
              if isinstance(x, ast.Name):
                dep.add(x.id)
    for s in loop.body:
      for n in ast.walk(s):
        if self.only_raises(n):
          continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
          return self.report(loop, 'yields in the order of a set')
        if isinstance(n, ast.Return) and n.value is not None and self.reads(
            n.value, dep):
          return self.report(loop, 'returns the first match in a set')
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and (
            self.reads(n.value, dep) and not isinstance(
                n.target, ast.Subscript) and not self.number(n.value)):
          if isinstance(n.target, ast.Name) and (
              n.target.id in dep or self.sorted_later(n.target.id)):
            continue
          return self.report(loop, 'appends in the order of a set')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
            n.func.attr in ('append', 'extend', 'insert', 'write', 'concat')):
          r = n.func.value
          if isinstance(r, ast.Name) and (
              r.id in dep or self.sorted_later(r.id) or
              self.neutral_name(r.id, loop)):
            continue
          if any(self.reads(a, dep) for a in n.args):
            return self.report(loop, 'appends in the order of a set')

  def number(self, n):
    return isinstance(n, ast.Constant) and isinstance(n.value, (int, float))

  def reads(self, n, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n))

  def neutral_name(self, name, loop):
    """Every use of the list outside of the loop ignores its order."""
    inside = set(ast.walk(loop))
    uses = [n for n in self.nodes if isinstance(n, ast.Name) and
            n.id == name and isinstance(n.ctx, ast.Load) and n not in inside]
    ok = 0
    for u in uses:
      p = self.parent.get(u)
      if isinstance(p, ast.Call) and u in p.args and self.neutral_call(p):
        ok += 1
      elif isinstance(p, ast.Compare) and all(
          isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        ok += 1
    return bool(uses) and ok == len(uses)


def scan(program, found):
  """found(function, node, what) for every use; returns counts."""
  t = Types(program)
  uses = 0
  for f in t.funcs:
    if not isinstance(f.node, ast.Lambda):
      uses += Scan(t, f, found).run().uses
  return len(t.funcs), uses
