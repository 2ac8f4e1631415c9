"""C16: no call ends in an internal error."""
import ast
import builtins

from .. import fw
from ..program import own_nodes

RULE = (
    'Every name that is read is bound: in the function on every path that '
    'reaches the read, or in an enclosing function, the module or builtins. '
    'Every attribute of self or of a module of the package that is read is '
    'defined by the class, a base, a subclass or an assignment. Every call that '
    'resolves to a function, method of self or constructor of the package '
    'passes its required arguments, each once, and none it does not accept. '
    'Formats take the arguments they are given.')
EXPLANATION = (
    'All functions, methods, nested functions and methods of local classes. '
    'Binding is a must-assign dataflow analysis in which loops run at least '
    'once up to their end. A read under a condition that no binding is under is taken to be '
    'related to one of them.')
ASSUMPTIONS = [
    'Loops run at least once, and once up to their end.',
    'Attributes of values other than self and modules of the package are not '
    'checked.']
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__',
                                 '__path__', '__package__'}
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__'}


def targets(t):
  for n in ast.walk(t):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      yield n.id


def bound_in(fn):
  """Names bound anywhere in a function, parameters included."""
  a = fn.args
  out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
  for x in (a.vararg, a.kwarg):
    if x is not None:
      out.add(x.arg)
  free = set()
  for n in own_nodes(fn, True):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
      out.add(n.id)
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      out.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
      out |= {(x.asname or x.name).split('.')[0] for x in n.names}
    elif isinstance(n, ast.ExceptHandler) and n.name:
      out.add(n.name)
    elif isinstance(n, ast.arg):
      out.add(n.arg)
    elif isinstance(n, (ast.Global, ast.Nonlocal)):
      free |= set(n.names)
  return out


def module_names(p, m, seen=None):
  seen = seen or set()
  if m.name in seen:
    return set()
  seen.add(m.name)
  out = set()
  for s in ast.walk(m.tree):
    if isinstance(s, ast.Global):
      out |= set(s.names)
  stack = list(m.tree.body)
  while stack:
    s = stack.pop()
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      out.add(s.name)
      continue
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      for x in s.names:
        if x.name == '*':
          o = p.module_of(s.module or '')
          if o is None:
            return None
          r = module_names(p, o, seen)
          if r is None:
            return None
          out |= r
        else:
          out.add((x.asname or x.name).split('.')[0])
    for n in ast.iter_child_nodes(s):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        out.add(n.id)
      stack.append(n)
  return out


class Assigned:
  """Must-assign analysis of one function; reports reads of unbound names."""

  def __init__(self, fn, report):
    self.fn = fn
    self.report = report
    a = fn.args
    self.local = bound_in(fn)
    comp = set()
    self.free = set()
    stores = set()
    for n in own_nodes(fn, False):
      if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                        ast.GeneratorExp)):
        for g in n.generators:
          comp |= set(id(x) for x in ast.walk(g.target))
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        self.free |= set(n.names)
    for n in own_nodes(fn, False):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (
          id(n) not in comp):
        stores.add(n.id)
      elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        stores.add(n.name)
      elif isinstance(n, (ast.Import, ast.ImportFrom)):
        stores |= {(x.asname or x.name).split('.')[0] for x in n.names}
      elif isinstance(n, ast.ExceptHandler) and n.name:
        stores.add(n.name)
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    params |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    self.stores = stores - self.free
    self.when = {}  # name -> list of sets of conditions it was bound under
    self.conds = ()
    self.loops = []
    self.reads = 0
    self.block(fn.body, frozenset(params & self.stores) | frozenset(params))

  # a state is a frozenset of bound names, or None when unreachable
  @staticmethod
  def join(a, b):
    if a is None:
      return b
    if b is None:
      return a
    return a & b

  def read(self, e, st):
    """Checks the reads of an expression; returns the state after it."""
    if e is None or st is None:
      return st
    if isinstance(e, ast.Name):
      if isinstance(e.ctx, ast.Load) and e.id in self.stores:
        self.reads += 1
        here, when = set(self.conds), self.when.get(e.id, [])
        # under a condition of its own, a read is taken to be related to one
        # of the bindings
        if e.id not in st and not any(c <= here for c in when) and all(
            here <= c for c in when):
          self.report(e)
      return st
    if isinstance(e, ast.NamedExpr):
      st = self.read(e.value, st)
      return self.bind([e.target.id], st)
    if isinstance(e, ast.Lambda):
      return st
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp,
                      ast.GeneratorExp)):
      inner = st
      for g in e.generators:
        inner = self.read(g.iter, inner)
        inner = inner | set(targets(g.target))
        for c in g.ifs:
          inner = self.read(c, inner)
      for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
        self.read(x, inner)
      return st
    if isinstance(e, ast.BoolOp):
      st = self.read(e.values[0], st)
      saved, inner = self.conds, st
      for i, x in enumerate(e.values[1:]):
        self.conds = self.conds + tuple(
            conds(e.values[i], isinstance(e.op, ast.And)))
        inner = self.read(x, inner)
      self.conds = saved
      return st
    if isinstance(e, ast.IfExp):
      st = self.read(e.test, st)
      saved = self.conds
      self.conds = saved + tuple(conds(e.test, True))
      self.read(e.body, st)
      self.conds = saved + tuple(conds(e.test, False))
      self.read(e.orelse, st)
      self.conds = saved
      return st
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        st = self.read(c, st)
      elif isinstance(c, (ast.keyword, ast.FormattedValue)):
        st = self.read(c.value, st)
      elif isinstance(c, ast.slice if hasattr(ast, 'slice') else ()):
        for d in ast.iter_child_nodes(c):
          st = self.read(d, st)
    return st

  def bind(self, names, st):
    names = [n for n in names]
    for n in names:
      # a condition on a name that is bound again says nothing any more
      if self.conds:
        self.when.setdefault(n, []).append(set(self.conds))
    return None if st is None else st | set(names)

  def block(self, body, st):
    for s in body:
      if st is None:
        return None
      st = self.stmt(s, st)
    return st

  def stmt(self, s, st):
    if isinstance(s, (ast.Return, ast.Raise)):
      for e in ast.iter_child_nodes(s):
        st = self.read(e, st)
      return None
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
      if s.value is not None:
        st = self.read(s.value, st)
      ts = s.targets if isinstance(s, ast.Assign) else [s.target]
      for t in ts:
        if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name):
          self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
        for n in ast.walk(t):
          if isinstance(n, (ast.Attribute, ast.Subscript)):
            st = self.read(n, st)
            break
        if s.value is not None:
          st = self.bind(list(targets(t)), st)
      return st
    if isinstance(s, ast.If):
      st = self.read(s.test, st)
      saved = self.conds
      self.conds = saved + tuple(conds(s.test, True))
      a = self.block(s.body, st)
      self.conds = saved + tuple(conds(s.test, False))
      b = self.block(s.orelse, st)
      self.conds = saved
      if a is None and b is not None:
        # only the negation goes on
        self.conds = saved + tuple(conds(s.test, False))
      elif b is None and a is not None:
        self.conds = saved + tuple(conds(s.test, True))
      out = self.join(a, b)
      if out is not None:
        self.bind(out - st, out)
      return out
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
      saved = self.conds
      if isinstance(s, ast.While):
        st = self.read(s.test, st)
      else:
        st = self.read(s.iter, st)
        st = self.bind(list(targets(s.target)), st)
      self.loops.append([])
      out = self.block(s.body, st)
      self.conds = saved
      exits = self.loops.pop()
      for kind, x in exits:
        if kind == 'continue' and out is None:
          out = x
      if isinstance(s, ast.While) and isinstance(
          s.test, ast.Constant) and s.test.value:
        out = None
      out = self.block(s.orelse, out) if out is not None else None
      for kind, x in exits:
        if kind == 'break':
          out = self.join(out, x)
      self.conds = saved
      return out
    if isinstance(s, (ast.Break, ast.Continue)):
      if self.loops:
        self.loops[-1].append(
            ('break' if isinstance(s, ast.Break) else 'continue', st))
      return None
    if isinstance(s, ast.Try):
      saved = self.conds
      a = self.block(s.body, st)
      if a is not None:
        a = self.block(s.orelse, a)
      for h in s.handlers:
        self.conds = saved
        b = self.bind([h.name], st) if h.name else st
        a = self.join(a, self.block(h.body, b))
      self.conds = saved
      if s.finalbody:
        f = self.block(s.finalbody, st)
        a = None if a is None or f is None else a | f
      return a
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        st = self.read(i.context_expr, st)
        if i.optional_vars is not None:
          st = self.bind(list(targets(i.optional_vars)), st)
      return self.block(s.body, st)
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      return self.bind([s.name], st)
    if isinstance(s, (ast.Import, ast.ImportFrom)):
      return self.bind([(x.asname or x.name).split('.')[0] for x in s.names],
                       st)
    if isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Name):
          st = st - {t.id}
        else:
          st = self.read(t, st)
      return st
    if isinstance(s, ast.Assert):
      return self.read(s.test, st)
    if isinstance(s, ast.Expr):
      return self.read(s.value, st)
    if isinstance(s, ast.Match):
      st = self.read(s.subject, st)
      out, total = None, False
      for c in s.cases:
        total |= isinstance(c.pattern, ast.MatchAs) and (
            c.pattern.pattern is None and c.guard is None)
        names = [n.name for n in ast.walk(c.pattern) if isinstance(
            n, (ast.MatchAs, ast.MatchStar)) and n.name]
        out = self.join(out, self.block(c.body, self.bind(names, st)))
      return out if total else self.join(out, st)
    return st


def conds(test, positive):
  """The facts a test establishes, as texts."""
  if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
    return conds(test.operand, not positive)
  if isinstance(test, ast.BoolOp) and (
      isinstance(test.op, ast.And) == positive):
    out = []
    for v in test.values:
      out += conds(v, positive)
    return out + [(ast.unparse(test), positive)]
  if isinstance(test, ast.Compare) and len(test.ops) == 1:
    flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
    for neg, pos in flip.items():
      if isinstance(test.ops[0], neg):
        t = ast.Compare(test.left, [pos()], test.comparators)
        return [(ast.unparse(t), not positive)]
  return [(ast.unparse(test), positive)]


def own_dict(e):
  return isinstance(e, ast.Attribute) and e.attr == '__dict__' or (
      isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (
          e.func.id == 'vars'))


def copies(c, n):
  """If a computed attribute is that of another object."""
  for l in ast.walk(c.node):
    if isinstance(l, ast.For) and any(own_dict(x) for x in ast.walk(l.iter)):
      if any(x is n for x in ast.walk(l)):
        return True
  return False


class Shapes:
  """Attributes and signatures of the classes of the package."""

  def __init__(self, p):
    self.p = p
    self.sets = {}
    self.dynamic = set()  # classes that set attributes by computed names
    for m in p.modules.values():
      for c in m.classes.values():
        self.sets[c] = set(c.methods) | set(c.setters) | set(c.consts)
        for n in ast.walk(c.node):
          if isinstance(n, ast.Attribute) and isinstance(
              n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.sets[c].add(n.attr)
          if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            self.sets[c].add(n.target.id)
          if isinstance(n, ast.Call) and isinstance(
              n.func, ast.Name) and n.func.id == 'setattr':
            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
              self.sets[c].add(n.args[1].value)
            elif not copies(c, n):
              self.dynamic.add(c)
          if isinstance(n, ast.Call) and isinstance(
              n.func, ast.Attribute) and n.func.attr == 'update' and (
                  own_dict(n.func.value)) and not all(
                      own_dict(a) for a in n.args):
            self.dynamic.add(c)
          if isinstance(n, ast.Subscript) and isinstance(
              n.ctx, ast.Store) and own_dict(n.value) and not copies(c, n):
            self.dynamic.add(c)
    # attributes set on objects of any class from outside
    self.anywhere = set()
    for m in p.modules.values():
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
          self.anywhere.add(n.attr)
    self.subs = {c: p.subclasses(c) for c in self.sets}

  def external(self, c):
    return any(b not in ('object', 'ABC', 'abc.ABC') for k in c.mro()
               for b in k.ext_bases)

  def has(self, c, name):
    if name in OBJECT or name in self.anywhere or self.external(c):
      return True
    ks = set(c.mro())
    for s in self.subs.get(c, []):
      ks |= set(s.mro())
    return any(name in self.sets.get(k, ()) for k in ks) or any(
        '__getattr__' in k.methods or k in self.dynamic for k in ks)


def check_args(f, call, skip):
  """What is wrong with the arguments of a call to f; skip bound parameters."""
  if any(isinstance(a, ast.Starred) for a in call.args):
    star = True
  else:
    star = False
  kwstar = any(k.arg is None for k in call.keywords)
  params = f.params[skip:]
  npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
  if not star and npos > len(params) and f.vararg is None:
    return 'takes %d positional arguments but gets %d' % (len(params), npos)
  given = set(params[:npos])
  posonly = {x.arg for x in f.node.args.posonlyargs}
  for k in call.keywords:
    if k.arg is None:
      continue
    if k.arg in given and not star:
      return 'gets %s twice' % k.arg
    if k.arg not in params + f.kwonly and f.kwarg is None:
      return 'does not take %s' % k.arg
    if k.arg in posonly and f.kwarg is None:
      return 'does not take %s by name' % k.arg
    given.add(k.arg)
  if not star and not kwstar:
    for q in params + f.kwonly:
      if q not in given and q not in f.defaults:
        return 'is not given %s' % q
  return None


def self_of(f):
  """(the name of self, the class) where a function is, closures included."""
  g = f
  while g is not None:
    if g.cls is not None:
      if g.is_static or not g.params or g.is_classmethod:
        return None, None
      if g is not f and g.params[0] in bound_in(f.node):
        return None, None
      return g.params[0], g.cls
    g = g.outer
  return None, None


def run(rep, tier):
  del tier
  p = fw.program()
  shapes = Shapes(p)
  globs = {m.name: module_names(p, m) for m in p.modules.values()}
  local_classes = {}
  for f in p.every_function():
    rep.funcs.add(f.qualname)
    rep.count('functions')
    names(rep, p, f, globs, local_classes)
    assigned(rep, f)
    attributes(rep, p, shapes, f)
    calls(rep, p, f, shapes)
    formats(rep, f)
  top(rep, p, globs)
  rep.need('functions', 200)
  rep.need('reads_of_locals', 1000)
  rep.need('resolved_calls', 150)


def names(rep, p, f, globs, local_classes):
  del local_classes
  g = globs[f.module.name]
  if g is None:
    return
  known = set(BUILTINS) | g
  h = f
  while h is not None:
    known |= bound_in(h.node)
    h = h.outer
  for n in own_nodes(f.node, True):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      continue
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
      rep.count('names')
      if n.id not in known:
        rep.find('%s|name|%s' % (f.qualname, n.id),
                 '%s reads %s, which is not defined anywhere' % (
                     f.qualname, n.id), f.at(n))


def top(rep, p, globs):
  """Code of modules and classes outside of functions."""
  for m in p.modules.values():
    g = globs[m.name]
    if g is None:
      continue
    for s in m.tree.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        exprs = list(s.decorator_list)
        if not isinstance(s, ast.ClassDef):
          exprs += [d for d in s.args.defaults + s.args.kw_defaults if d]
        else:
          exprs += s.bases
      else:
        exprs = [s]
      for e in exprs:
        local = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)}
        local |= {n.arg for n in ast.walk(e) if isinstance(n, ast.arg)}
        for n in ast.walk(e):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and (
              n.id not in g | local | BUILTINS):
            rep.find('%s|name|%s' % (m.name, n.id),
                     '%s reads %s, which is not defined anywhere' % (
                         m.name, n.id), '%s:%s' % (m.relpath, n.lineno))


def assigned(rep, f):
  if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
    return

  def report(n):
    rep.find('%s|unbound|%s' % (f.qualname, n.id),
             '%s may read %s before it is bound' % (f.qualname, n.id), f.at(n))

  a = Assigned(f.node, report)
  rep.count('reads_of_locals', a.reads)


def attributes(rep, p, shapes, f):
  me, c = self_of(f)
  for n in own_nodes(f.node, True):
    if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
            and isinstance(n.value, ast.Name)):
      continue
    if me is not None and n.value.id == me:
      rep.count('attributes_of_self')
      if not shapes.has(c, n.attr):
        rep.find('%s|attribute|%s' % (f.qualname, n.attr),
                 '%s reads self.%s, which nothing defines' % (
                     f.qualname, n.attr), f.at(n))
    elif n.value.id not in bound_in(f.node):
      r = p.resolve_name(f.module, n.value.id)
      if r and r[0] == 'mod':
        rep.count('attributes_of_modules')
        g = module_names(p, r[1])
        if g is not None and n.attr not in g | {'__name__', '__file__'}:
          rep.find('%s|attribute|%s.%s' % (f.qualname, n.value.id, n.attr),
                   '%s reads %s.%s, which the module does not define' % (
                       f.qualname, n.value.id, n.attr), f.at(n))


def resolve(p, f, call):
  """[(function, parameters bound already)] a call may go to, or []."""
  fn = call.func
  local = set()
  g = f
  while g is not None:
    local |= bound_in(g.node)
    g = g.outer
  if isinstance(fn, ast.Name):
    if fn.id in local:
      return []
    r = p.resolve_name(f.module, fn.id)
  elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
    me, c = self_of(f)
    if me is not None and fn.value.id == me:
      return methods(p, c, fn.attr, call)
    if fn.value.id in local:
      return []
    r = p.resolve_name(f.module, fn.value.id)
    if r and r[0] == 'mod':
      r = p.resolve_name(r[1], fn.attr)
    elif r and r[0] == 'cls':
      m = r[1].lookup(fn.attr)
      if m is None or m.decorators and not (m.is_static or m.is_classmethod):
        return []
      return [(m, 1 if m.is_classmethod else 0)]
    else:
      return []
  elif isinstance(fn, ast.Attribute) and isinstance(
      fn.value, ast.Call) and isinstance(
          fn.value.func, ast.Name) and fn.value.func.id == 'super':
    me, c = self_of(f)
    if c is None:
      return []
    a = fn.value.args
    after = c
    if a:
      after = p.resolve_class(f.module, a[0])
      if after is None:
        return []
    m = None
    for k in after.mro()[1:]:
      if k.ext_bases and k.ext_bases != ['object']:
        return []
      if fn.attr in k.methods:
        m = k.methods[fn.attr]
        break
    if m is None or m.decorators:
      return []
    return [(m, 1)]
  else:
    return []
  if not r:
    return []
  if r[0] == 'fn' and not r[1].decorators:
    return [(r[1], 0)]
  if r[0] == 'cls':
    return ctor(r[1])
  return []


def ctor(c):
  for k in c.mro():
    if '__new__' in k.methods:
      return []
    if k.node.decorator_list:
      return []
    if '__init__' in k.methods:
      return [(k.methods['__init__'], 1)]
    if k.ext_bases and k.ext_bases != ['object']:
      return []
  return []


def methods(p, c, name, call):
  """The method as defined for the class itself or first in a subclass."""
  m = c.lookup(name)
  if m is None:
    return []
  if m.is_property or (m.decorators and not (
      m.is_static or m.is_classmethod)):
    return []
  return [(m, 0 if m.is_static else 1)]


def calls(rep, p, f, shapes):
  for n in own_nodes(f.node, True):
    if not isinstance(n, ast.Call):
      continue
    for g, skip in resolve(p, f, n):
      if g.cls is not None and g.name in shapes.anywhere:
        continue  # may be hidden by an attribute of an object
      rep.count('resolved_calls')
      bad = check_args(g, n, skip)
      if bad:
        rep.find('%s|call|%s|%s' % (f.qualname, g.qualname, bad),
                 '%s calls %s, which %s: %s' % (
                     f.qualname, g.qualname, bad,
                     ast.unparse(n).replace('\n', ' ')[:80]), f.at(n))


def may_be_tuple(f, n):
  """If a formatted name was found to be a tuple before."""
  name = n.right.id
  tests = {ast.unparse(ast.parse(t % name, mode='eval')) for t in (
      'isinstance(%s, tuple)', 'isinstance(%s, (list, tuple))',
      'isinstance(%s, (tuple, list))', 'type(%s) == tuple')}
  found = []

  def walk(body, facts):
    for s in body:
      if isinstance(s, ast.If):
        yes = facts | {t for t, v in conds(s.test, True) if v}
        no = facts | {t for t, v in conds(s.test, False) if v}
        if any(x is n for x in ast.walk(s.test)) and facts & tests:
          found.append(n)
        a, b = walk(s.body, yes), walk(s.orelse, no)
        if a is None and b is None:
          return None
        facts = b if a is None else a if b is None else a & b
        continue
      if not any(hasattr(s, x) for x in ('body', 'handlers')) and any(
          x is n for x in ast.walk(s)) and facts & tests:
        found.append(n)
      if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return None
      for part in ('body', 'orelse', 'finalbody'):
        if isinstance(getattr(s, part, None), list):
          walk(getattr(s, part), facts)
      for h in getattr(s, 'handlers', []):
        walk(h.body, facts)
      if name in set(targets(s)):
        facts = facts - tests
    return facts

  if isinstance(f.node.body, list):
    walk(f.node.body, set())
  return bool(found)


def formats(rep, f):
  import re
  import string
  for n in own_nodes(f.node, True):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(
        n.left, ast.Constant) and isinstance(n.left.value, str):
      specs = re.findall(r'%(\(\w+\))?[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?'
                         r'([a-zA-Z%])', n.left.value)
      if any(k for k, _ in specs):
        continue
      want = len([1 for _, t in specs if t != '%'])
      if isinstance(n.right, ast.Tuple) and not any(
          isinstance(e, ast.Starred) for e in n.right.elts):
        have = len(n.right.elts)
      elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp,
                                ast.ListComp, ast.List)):
        have = 1
      else:
        have = want if want == 1 else None
      rep.count('formats')
      if isinstance(n.right, ast.Name) and want and may_be_tuple(f, n):
        rep.find('%s|format|%s' % (f.qualname, n.left.value[:40]),
                 '%s formats %s, which may be a tuple, as if it was one '
                 'argument: %r' % (f.qualname, n.right.id, n.left.value[:60]),
                 f.at(n))
      if have is not None and have != want:
        rep.find('%s|format|%s' % (f.qualname, n.left.value[:40]),
                 '%s formats %d arguments with %d placeholders: %r' % (
                     f.qualname, have, want, n.left.value[:60]), f.at(n))
    elif isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(
            n.func.value, ast.Constant) and isinstance(
                n.func.value.value, str):
      if any(isinstance(a, ast.Starred) for a in n.args) or any(
          k.arg is None for k in n.keywords):
        continue
      rep.count('formats')
      try:
        fields = [x for _, x, _, _ in string.Formatter().parse(
            n.func.value.value) if x is not None]
      except ValueError:
        continue
      auto, keys = 0, {k.arg for k in n.keywords}
      for x in fields:
        x = re.split(r'[.\[]', x)[0]
        if x == '':
          auto += 1
          ok = auto <= len(n.args)
        elif x.isdigit():
          ok = int(x) < len(n.args)
        else:
          ok = x in keys
        if not ok:
          rep.find('%s|format|%s' % (f.qualname, n.func.value.value[:40]),
                   '%s formats %r without its argument %r' % (
                       f.qualname, n.func.value.value[:60], x), f.at(n))
