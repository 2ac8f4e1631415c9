"""Whole-program model of /repo: modules, classes, MRO, functions, imports.

Everything is parsed from the current working tree with the standard library's
ast; nothing under analysis is imported or executed.
"""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
  """An anchor vanished or the analysed program could not be resolved."""


class FuncInfo:
  def __init__(self, node, module, cls=None, outer=None):
    self.node = node
    self.module = module
    self.cls = cls
    self.name = getattr(node, 'name', '<lambda>')
    self.outer = outer
    a = node.args
    self.params = [x.arg for x in a.posonlyargs + a.args]
    self.kwonly = [x.arg for x in a.kwonlyargs]
    self.vararg = a.vararg.arg if a.vararg else None
    self.kwarg = a.kwarg.arg if a.kwarg else None
    pos = a.posonlyargs + a.args
    self.defaults = {}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
      self.defaults[p.arg] = d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        self.defaults[p.arg] = d
    self.decorators = []
    for d in getattr(node, 'decorator_list', []):
      if isinstance(d, ast.Name):
        self.decorators.append(d.id)
      elif isinstance(d, ast.Attribute):
        self.decorators.append(d.attr)
      elif isinstance(d, ast.Call):
        self.decorators.append(ast.unparse(d.func))
    self.is_static = 'staticmethod' in self.decorators
    self.is_classmethod = 'classmethod' in self.decorators
    self.is_property = any(
        d in ('property', 'cached_property') for d in self.decorators)
    self.is_setter = 'setter' in self.decorators
    self.is_generator = any(
        isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

  @property
  def qualname(self):
    q = self.name
    if self.cls:
      q = self.cls.name + '.' + q
    elif self.outer:
      q = self.outer.qualname + '.' + q
    return q

  @property
  def where(self):
    return '%s:%s' % (self.module.relpath, getattr(self.node, 'lineno', '?'))

  def at(self, node):
    return '%s:%s' % (self.module.relpath, getattr(node, 'lineno', '?'))

  def __repr__(self):
    return '<Func %s.%s>' % (self.module.name, self.qualname)


def own_nodes(fn, lambdas=False):
  """Nodes of a function excluding nested function/class bodies."""
  body = fn.body if isinstance(fn.body, list) else [fn.body]
  stack = list(body)
  while stack:
    n = stack.pop()
    yield n
    for c in ast.iter_child_nodes(n):
      if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                        ast.AsyncFunctionDef)):
        continue
      if isinstance(n, ast.Lambda) and not lambdas:
        continue
      stack.append(c)


class ClassInfo:
  def __init__(self, node, module):
    self.node = node
    self.module = module
    self.name = node.name
    self.base_exprs = node.bases
    self.bases = []
    self.ext_bases = []
    self.methods = {}
    self.setters = {}
    self.consts = {}
    for s in node.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = FuncInfo(s, module, self)
        if f.is_setter:
          self.setters[s.name] = f
        else:
          self.methods[s.name] = f
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            if isinstance(s.value, ast.Name) and s.value.id in self.methods:
              self.methods[t.id] = self.methods[s.value.id]
            else:
              self.consts[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(
          s.target, ast.Name):
        self.consts[s.target.id] = s.value
    self._mro = None

  def mro(self):
    if self._mro is None:
      self._mro = _c3(self)
    return self._mro

  def lookup(self, name, after=None):
    """Resolves a method; `after` is the class whose super() is taken."""
    mro = self.mro()
    if after is not None:
      mro = mro[mro.index(after) + 1:] if after in mro else []
    for c in mro:
      if name in c.methods:
        return c.methods[name]
      if name in c.consts:
        return None
    return None

  def lookup_setter(self, name):
    for c in self.mro():
      if name in c.setters:
        return c.setters[name]
    return None

  def lookup_const(self, name):
    for c in self.mro():
      if name in c.consts:
        return c, c.consts[name]
    return None

  def is_subclass(self, other):
    return other in self.mro()

  def __repr__(self):
    return '<Class %s>' % self.name


def _c3(cls):
  seqs = [list(b.mro()) for b in cls.bases] + [list(cls.bases)]
  res = [cls]
  while True:
    seqs = [s for s in seqs if s]
    if not seqs:
      return res
    for s in seqs:
      cand = s[0]
      if not any(cand in t[1:] for t in seqs):
        break
    else:
      raise AnalysisBroken('inconsistent MRO for %s' % cls.name)
    res.append(cand)
    for s in seqs:
      if s[0] is cand:
        del s[0]


class Module:
  def __init__(self, name, path, source):
    self.name = name
    self.path = path
    self.relpath = os.path.relpath(path, REPO)
    self.source = source
    self.tree = ast.parse(source, path)
    self.functions = {}
    self.classes = {}
    self.imports = {}
    self.consts = {}
    self.aliases = {}
    for s in self.tree.body:
      self._top(s)

  def _top(self, s):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      self.functions[s.name] = FuncInfo(s, self)
    elif isinstance(s, ast.ClassDef):
      self.classes[s.name] = ClassInfo(s, self)
    elif isinstance(s, ast.Import):
      for a in s.names:
        self.imports[a.asname or a.name.split('.')[0]] = (
            a.name if a.asname else a.name.split('.')[0])
    elif isinstance(s, ast.ImportFrom):
      for a in s.names:
        self.imports[a.asname or a.name] = '%s.%s' % (s.module or '', a.name)
    elif isinstance(s, ast.Assign):
      for t in s.targets:
        if isinstance(t, ast.Name):
          if isinstance(s.value, ast.Name):
            self.aliases[t.id] = s.value.id
          self.consts[t.id] = s.value
    elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(
        s.target, ast.Name):
      self.consts[s.target.id] = s.value
    elif isinstance(s, (ast.If, ast.Try)):
      for b in ast.iter_child_nodes(s):
        if isinstance(b, ast.stmt):
          self._top(b)

  def resolve(self, name):
    seen = set()
    while name in self.aliases and name not in seen and (
        name not in self.classes and name not in self.functions):
      seen.add(name)
      name = self.aliases[name]
    return name


class Program:
  PACKAGE = 'meterstick'

  def __init__(self, root=None, extra=None):
    """extra: {module name: source} of code written by a user."""
    self.root = root or REPO
    self.modules = {}
    names = sorted(
        f for f in os.listdir(self.root)
        if f.endswith('.py') and not f.endswith('_test.py') and
        not f.startswith('test_') and f not in ('setup.py', 'conftest.py'))
    for f in names:
      path = os.path.join(self.root, f)
      with open(path, encoding='utf-8') as h:
        src = h.read()
      name = f[:-3]
      try:
        self.modules[name] = Module(name, path, src)
      except SyntaxError as e:
        raise AnalysisBroken('cannot parse %s: %s' % (path, e))
    for name, src in (extra or {}).items():
      self.modules[name] = Module(name, name + '.py', src)
    self.classes = {}
    for m in self.modules.values():
      for c in m.classes.values():
        self.classes.setdefault(c.name, c)
    for m in self.modules.values():
      for c in m.classes.values():
        for b in c.base_exprs:
          r = self.resolve_class(m, b)
          if r is not None:
            c.bases.append(r)
          else:
            c.ext_bases.append(ast.unparse(b))

  def module_of(self, dotted):
    """'meterstick.sql' / 'meterstick' / '.sql' -> Module or None."""
    if dotted in ('meterstick', ''):
      return self.modules.get('__init__')
    for p in ('meterstick.', '.'):
      if dotted.startswith(p):
        d = dotted[len(p):]
        if d in self.modules:
          return self.modules[d]
    return None

  def resolve_name(self, module, name, _seen=None):
    """Resolves a module level name to ('cls'|'fn'|'mod'|'const'|'ext', x)."""
    _seen = _seen or set()
    if (module.name, name) in _seen:
      return None
    _seen.add((module.name, name))
    name = module.resolve(name)
    if name in module.classes:
      return 'cls', module.classes[name]
    if name in module.functions:
      return 'fn', module.functions[name]
    if name in module.imports:
      dotted = module.imports[name]
      m = self.module_of(dotted)
      if m is not None:
        return 'mod', m
      head, _, last = dotted.rpartition('.')
      hm = self.module_of(head) if head else None
      if hm is not None:
        r = self.resolve_name(hm, last, _seen)
        if r:
          return r
      return 'ext', dotted
    if name in module.consts:
      return 'const', (module, module.consts[name])
    # star imports
    for s in module.tree.body:
      if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
        m = self.module_of(s.module or '')
        if m:
          r = self.resolve_name(m, name, _seen)
          if r:
            return r
    return None

  def resolve_class(self, module, expr):
    if isinstance(expr, ast.Name):
      r = self.resolve_name(module, expr.id)
      if r and r[0] == 'cls':
        return r[1]
    elif isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
      r = self.resolve_name(module, expr.value.id)
      if r and r[0] == 'mod':
        r = self.resolve_name(r[1], expr.attr)
        if r and r[0] == 'cls':
          return r[1]
    return None

  def cls(self, name):
    if name not in self.classes:
      raise AnalysisBroken('class %s not found in the source tree' % name)
    return self.classes[name]

  def fn(self, module, name):
    m = self.modules.get(module)
    if m is None or name not in m.functions:
      raise AnalysisBroken('function %s.%s not found' % (module, name))
    return m.functions[name]

  def subclasses(self, cls):
    out = []
    for m in self.modules.values():
      for c in m.classes.values():
        if c.is_subclass(cls):
          out.append(c)
    return out

  def all_functions(self):
    """Every function, method and nested function/lambda of the package."""
    for m in self.modules.values():
      for f in m.functions.values():
        yield f
        yield from self._nested(f)
      for c in m.classes.values():
        for f in list(c.methods.values()) + list(c.setters.values()):
          if f.cls is c:
            yield f
            yield from self._nested(f)

  def every_function(self):
    """Also methods of classes defined in functions."""
    for f in self.all_functions():
      yield f
      yield from self._local_classes(f)

  def _local_classes(self, f):
    for n in own_nodes(f.node):
      if isinstance(n, ast.ClassDef):
        for m in n.body:
          if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = FuncInfo(m, f.module, None, outer=f)
            yield g
            for h in self._nested(g):
              yield h

  def _nested(self, f):
    for n in own_nodes(f.node):
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        g = FuncInfo(n, f.module, None, outer=f)
        yield g
        yield from self._nested(g)

  def built_ins(self):
    """The BUILT_INS table of the metrics module (class names)."""
    m = self.modules.get('metrics')
    node = m and m.consts.get('BUILT_INS')
    if node is None:
      raise AnalysisBroken('metrics.BUILT_INS not found')
    try:
      v = ast.literal_eval(node)
    except ValueError:
      v = [n.value for n in ast.walk(node)
           if isinstance(n, ast.Constant) and isinstance(n.value, str)]
    return [self.modules[m_].resolve(x) if False else x for m_ in ['metrics']
            for x in v]
