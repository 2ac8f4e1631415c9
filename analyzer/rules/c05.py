"""C05: process-wide state is left as it was found, on every exit."""
import ast

from .. import fw
from ..program import AnalysisBroken, own_nodes

RULE = (
    'Every call, store and deletion in the package is resolved through the '
    'imports. One that sets process-wide state (random generators, pandas '
    'options, warning filters, numpy error handling, environment, module or '
    'class level data, attributes of foreign modules) must be dynamically '
    'enclosed by a context manager that restores that state or by a '
    'try/finally whose finally block writes a value that was read before; an '
    'unprotected setter in a helper is charged to the call sites of the '
    'helper, transitively.')
EXPLANATION = (
    'All functions of all non-test modules are walked; setters are looked up '
    'by resolved dotted name, so aliases of modules and of functions do not '
    'hide them.')
ASSUMPTIONS = [
    'Setters of process-wide state in libraries are those of the table in '
    'analyzer/rules/c05.py.',
    'Drawing from the global numpy generator is allowed, only (re)seeding or '
    'replacing its state is not.',
]

# dotted prefix -> (family, restoring context managers)
SETTERS = {
    'numpy.random.seed': 'random', 'numpy.random.set_state': 'random',
    'random.seed': 'random', 'random.setstate': 'random',
    'pandas.set_option': 'pandas', 'pandas.reset_option': 'pandas',
    'pandas.set_eng_float_format': 'pandas', 'pandas.options': 'pandas',
    'pandas.describe_option': None,
    'warnings.simplefilter': 'warnings', 'warnings.filterwarnings': 'warnings',
    'warnings.resetwarnings': 'warnings', 'warnings.filters': 'warnings',
    'warnings.showwarning': 'warnings',
    'numpy.seterr': 'np_err', 'numpy.seterrcall': 'np_err',
    'numpy.setbufsize': 'np_err', 'numpy.set_printoptions': 'np_print',
    'numpy.set_string_function': 'np_print',
    'os.environ': 'os', 'os.putenv': 'os', 'os.unsetenv': 'os',
    'os.chdir': 'os', 'os.umask': 'os', 'os.nice': 'os',
    'locale.setlocale': 'locale', 'sys.setrecursionlimit': 'sys',
    'sys.path': 'sys', 'sys.modules': 'sys', 'sys.stdout': 'stdout',
    'sys.stderr': 'stdout', 'sys.argv': 'sys', 'sys.excepthook': 'sys',
    'logging.basicConfig': 'logging', 'logging.disable': 'logging',
    'logging.root': 'logging', 'gc.disable': 'gc', 'gc.enable': 'gc',
    'decimal.setcontext': 'decimal', 'signal.signal': 'signal',
    'socket.setdefaulttimeout': 'socket', 'tempfile.tempdir': 'os',
    'matplotlib.rcParams': 'mpl', 'matplotlib.pyplot.rcParams': 'mpl',
    'matplotlib.use': 'mpl', 'matplotlib.rc': 'mpl',
    'matplotlib.pyplot.style.use': 'mpl', 'pandas.plotting': 'pandas',
    'altair.data_transformers': 'altair', 'locale.resetlocale': 'locale',
    'threading.setprofile': 'sys', 'sys.settrace': 'sys',
    'sklearn.set_config': 'sklearn',
}
CONTEXTS = {
    'pandas': {'pandas.option_context'},
    'warnings': {'warnings.catch_warnings'},
    'np_err': {'numpy.errstate'},
    'np_print': {'numpy.printoptions'},
    'mpl': {'matplotlib.rc_context', 'matplotlib.pyplot.rc_context'},
    'decimal': {'decimal.localcontext'},
    'stdout': {'contextlib.redirect_stdout', 'contextlib.redirect_stderr'},
    'sklearn': {'sklearn.config_context'},
}
GETTERS = {
    'random': {'numpy.random.get_state', 'random.getstate'},
    'pandas': {'pandas.get_option', 'pandas.options'},
    'np_err': {'numpy.seterr', 'numpy.geterr', 'numpy.geterrcall'},
    'np_print': {'numpy.get_printoptions'},
    'os': {'os.environ', 'os.getcwd', 'os.getenv', 'os.umask'},
    'warnings': {'warnings.filters'},
    'sys': {'sys.getrecursionlimit', 'sys.path'},
    'locale': {'locale.getlocale', 'locale.setlocale'},
    'stdout': {'sys.stdout', 'sys.stderr'},
}
MUT = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'add',
    'setdefault', 'discard', 'sort', 'reverse', 'popitem', '__setitem__',
    'appendleft', 'enable', 'register', 'setLevel', 'addFilter', 'addHandler',
    'difference_update', 'intersection_update',
}
ALIASES = {'np': 'numpy', 'pd': 'pandas'}
# Not process-wide although reached through a foreign module.
OK_STORES = ()


class Ctx:
  """Resolves names inside one function."""

  def __init__(self, p, f):
    self.p, self.f = p, f
    self.locals = set()
    self.globals_ = set()
    self.local_imports = {}
    self.alias = {}
    g = f
    self.params = set()
    chain = []
    while g is not None:
      chain.append(g)
      g = g.outer
    for g in chain:
      self.params |= set(g.params + g.kwonly)
      for x in (g.vararg, g.kwarg):
        if x:
          self.params.add(x)
    self.locals |= self.params
    for g in chain:
      for n in own_nodes(g.node):
        if isinstance(n, ast.Global):
          self.globals_ |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                            ast.Del)):
          self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
          for a in n.names:
            if isinstance(n, ast.Import):
              d = a.name if a.asname else a.name.split('.')[0]
            else:
              d = '%s.%s' % (n.module or '', a.name)
            self.local_imports[a.asname or a.name.split('.')[0]] = d
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
          self.locals.add(n.name)
    self.locals -= self.globals_
    self.locals -= set(self.local_imports)
    # single assignment aliases: x = <dotted>
    asg = {}
    for n in own_nodes(f.node):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
          n.targets[0], ast.Name):
        asg.setdefault(n.targets[0].id, []).append(n.value)
    for k, v in asg.items():
      if k in self.locals and k not in self.params:
        for x in v:
          if isinstance(x, (ast.Name, ast.Attribute)):
            self.alias.setdefault(k, []).append(x)

  def dotted(self, e, depth=0):
    """The set of foreign dotted names or ('repo', ...) an expression is."""
    if depth > 6:
      return set()
    if isinstance(e, ast.Name):
      if e.id in self.alias:
        out = set()
        for x in self.alias[e.id]:
          out |= self.dotted(x, depth + 1)
        return out
      if e.id in self.locals:
        return set()
      if e.id in self.local_imports:
        d = self.local_imports[e.id]
        m = self.p.module_of(d)
        if m is not None:
          return {('mod', m)}
        head, _, last = d.rpartition('.')
        hm = self.p.module_of(head)
        if hm is not None:
          return self.repo(self.p.resolve_name(hm, last))
        return {d}
      return self.repo(self.p.resolve_name(self.f.module, e.id), e.id)
    if isinstance(e, ast.Attribute):
      out = set()
      for b in self.dotted(e.value, depth + 1):
        if isinstance(b, str):
          out.add(b + '.' + e.attr)
        elif b[0] == 'mod':
          r = self.p.resolve_name(b[1], e.attr)
          out |= self.repo(r, e.attr, b[1])
        elif b[0] == 'cls':
          m = b[1].lookup(e.attr)
          if m is not None:
            out.add(('fn', m))
          elif b[1].lookup_const(e.attr):
            out.add(('clsconst', b[1], e.attr))
          else:
            out.add(('clsattr', b[1], e.attr))
        elif b[0] == 'self':
          m = b[1].lookup(e.attr)
          if m is not None:
            out.add(('fn', m))
      if isinstance(e.value, ast.Name) and self.f.cls is not None or True:
        if isinstance(e.value, ast.Name):
          g = self.f
          while g.outer is not None:
            g = g.outer
          if g.cls is not None and g.params and e.value.id == g.params[0] and (
              not g.is_static):
            if g.is_classmethod:
              out.add(('clsattr', g.cls, e.attr))
            else:
              m = g.cls.lookup(e.attr)
              if m is not None:
                out.add(('fn', m))
              elif g.cls.lookup_const(e.attr) and not assigned(
                  self.p, g.cls, e.attr):
                out.add(('clsconst', g.cls, e.attr))
      if isinstance(e.value, ast.Attribute) and e.value.attr == '__class__':
        out.add(('clsattr', None, e.attr))
      if isinstance(e.value, ast.Call) and isinstance(
          e.value.func, ast.Name) and e.value.func.id in ('type', 'super'):
        if e.value.func.id == 'type':
          out.add(('clsattr', None, e.attr))
      return out
    if isinstance(e, ast.Subscript):
      return {b for b in self.dotted(e.value, depth + 1)
              if isinstance(b, str) or b[0] in ('const', 'clsconst')}
    if isinstance(e, ast.Call):
      # a container reached through a call: logging.getLogger(..), getcontext()
      return {b + '()' for b in self.dotted(e.func, depth + 1)
              if isinstance(b, str)}
    return set()

  def repo(self, r, name=None, mod=None):
    if r is None:
      return set()
    if r[0] == 'ext':
      d = r[1]
      head = d.split('.')[0]
      return {ALIASES.get(head, head) + d[len(head):]}
    if r[0] == 'const':
      return {('const', r[1][0], name)}
    return {(r[0], r[1])}


def assigned(p, cls, attr):
  """Some method stores the attribute on self."""
  for c in p.classes.values():
    if c.is_subclass(cls) or cls.is_subclass(c):
      for m in list(c.methods.values()) + list(c.setters.values()):
        for n in own_nodes(m.node):
          if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(
              n.ctx, ast.Store):
            return True
  return False


def family(d):
  """The family of state a dotted name belongs to when written/called."""
  if not isinstance(d, str):
    return None
  parts = d.split('.')
  for i in range(len(parts), 0, -1):
    k = '.'.join(parts[:i])
    if k in SETTERS:
      return SETTERS[k]
  return None


def effects(ctx, n):
  """(family, description) of process-wide writes done by node n itself."""
  out = []
  if isinstance(n, ast.Call):
    for d in ctx.dotted(n.func):
      if isinstance(d, str):
        fam = SETTERS.get(d)
        if fam:
          out.append((fam, d))
          continue
        base, _, meth = d.rpartition('.')
        if meth in MUT and (family(base) or base.endswith('()')):
          fam = family(base)
          if fam is None and base in ('logging.getLogger()',):
            fam = 'logging'
          if fam:
            out.append((fam, d))
      elif False:
        pass
    if isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr'):
      if n.args:
        for d in ctx.dotted(n.args[0]):
          if isinstance(d, str) and '()' not in d:
            out.append((family(d) or 'patch:' + d, 'setattr(%s)' % d))
          elif not isinstance(d, str) and d[0] in ('mod', 'cls'):
            out.append(('repo', 'setattr(%s)' % d[1].name))
    if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
      for d in ctx.dotted(n.func.value):
        if not isinstance(d, str) and d[0] in ('const', 'clsconst'):
          out.append(('repo', '%s.%s' % (
              d[2], n.func.attr)))
  targets = []
  if isinstance(n, ast.Assign):
    targets = n.targets
  elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
    targets = [n.target] if getattr(n, 'value', None) is not None else []
  elif isinstance(n, ast.Delete):
    targets = n.targets
  elif isinstance(n, (ast.For,)):
    targets = [n.target]
  flat = []
  while targets:
    t = targets.pop()
    if isinstance(t, (ast.Tuple, ast.List)):
      targets += t.elts
    elif isinstance(t, ast.Starred):
      targets.append(t.value)
    else:
      flat.append(t)
  for t in flat:
    if isinstance(t, ast.Name) and t.id in ctx.globals_:
      out.append(('repo', 'global ' + t.id))
    elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
      pass
    elif isinstance(t, ast.Attribute):
      for d in ctx.dotted(t):
        if isinstance(d, str) and '()' not in d:
          out.append((family(d) or 'patch:' + d, 'store to ' + d))
        elif not isinstance(d, str) and d[0] in ('clsattr',):
          out.append(('repo', 'class attribute ' + d[2]))
        elif not isinstance(d, str) and d[0] in ('const',):
          out.append(('repo', 'module attribute ' + str(d[2])))
        elif not isinstance(d, str) and d[0] == 'clsconst' and not (
            isinstance(t.value, ast.Name)):
          out.append(('repo', 'class attribute ' + d[2]))
        elif isinstance(d, tuple) and d[0] in ('fn', 'cls') and any(
            not isinstance(b, str) and b[0] in ('mod', 'cls')
            for b in ctx.dotted(t.value)):
          out.append(('repo', 'patched ' + t.attr))
      for b in ctx.dotted(t.value):
        if not isinstance(b, str) and b[0] == 'cls' and not any(
            e[0] == 'repo' for e in out):
          out.append(('repo', 'class attribute ' + t.attr))
        if not isinstance(b, str) and b[0] == 'fn' and not any(
            e[0] == 'repo' for e in out) and not isinstance(
                t.value, ast.Attribute):
          out.append(('repo', 'function attribute ' + t.attr))
        if not isinstance(b, str) and b[0] == 'const':
          out.append(('repo', 'module level object %s.%s' % (b[2], t.attr)))
    elif isinstance(t, ast.Subscript):
      for d in ctx.dotted(t.value):
        if isinstance(d, str):
          if '()' in d and not d.startswith(('globals', 'vars')):
            continue
          fam = family(d)
          if fam:
            out.append((fam, 'store to ' + d))
        elif d[0] in ('const', 'clsconst', 'clsattr'):
          out.append(('repo', 'item of ' + str(d[-1])))
      if isinstance(t.value, ast.Call) and isinstance(
          t.value.func, ast.Name) and t.value.func.id == 'globals':
        out.append(('repo', 'globals()[...]'))
  return out


def mutable_default_writes(ctx, f):
  """Writes to a mutable default argument."""
  bad = {}
  for p, d in f.defaults.items():
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)
                  ) or (isinstance(d, ast.Call) and isinstance(
                      d.func, ast.Name) and d.func.id in (
                          'list', 'dict', 'set', 'defaultdict')):
      bad[p] = d
  if not bad:
    return
  rebound = {n.id for n in own_nodes(f.node) if isinstance(n, ast.Name) and
             isinstance(n.ctx, ast.Store)}
  for n in own_nodes(f.node):
    if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr in MUT and isinstance(
            n.func.value, ast.Name) and n.func.value.id in bad and (
                n.func.value.id not in rebound):
      yield n, n.func.value.id
    elif isinstance(n, ast.Subscript) and isinstance(
        n.ctx, (ast.Store, ast.Del)) and isinstance(
            n.value, ast.Name) and n.value.id in bad and (
                n.value.id not in rebound):
      yield n, n.value.id
    elif isinstance(n, ast.AugAssign) and isinstance(
        n.target, ast.Name) and n.target.id in bad:
      yield n, n.target.id


def getter_names(ctx, fam):
  """Local names that hold a saved value of the state."""
  out = set()
  for n in own_nodes(ctx.f.node):
    if isinstance(n, ast.Assign):
      for x in ast.walk(n.value):
        if isinstance(x, (ast.Call, ast.Attribute, ast.Name)):
          e = x.func if isinstance(x, ast.Call) else x
          for d in ctx.dotted(e):
            if isinstance(d, str) and any(
                d == g or d.startswith(g + '.') for g in GETTERS.get(fam, ())):
              for t in n.targets:
                for y in ast.walk(t):
                  if isinstance(y, ast.Name):
                    out.add(y.id)
  return out


class Walk:
  """Finds unprotected effects of every function, then propagates."""

  def __init__(self, p, rep):
    self.p, self.rep = p, rep
    self.funcs = list(p.all_functions())
    self.ctx = {id(f): Ctx(p, f) for f in self.funcs}
    self.by_node = {id(f.node): f for f in self.funcs}
    self.local = {}     # id(f) -> list of (fam, desc, node, guards)
    self.calls = {}     # id(f) -> list of (callee FuncInfo, guards, node)
    self.restores = {}
    for f in self.funcs:
      self.scan(f)

  def cm_families(self, ctx, item):
    """Families restored by a with item."""
    out = set()
    e = item.context_expr
    f = e.func if isinstance(e, ast.Call) else e
    for d in ctx.dotted(f):
      if isinstance(d, str):
        for fam, names in CONTEXTS.items():
          if d in names:
            out.add(fam)
      elif d[0] == 'fn' and any('contextmanager' in x
                                for x in d[1].decorators):
        out |= self.cm_restores(d[1])
    return out

  def cm_restores(self, f):
    """Families a repo generator context manager restores around its yield."""
    out = set()
    ctx = self.ctx[id(self.by_node.get(id(f.node), f))] if id(
        f.node) in self.by_node else Ctx(self.p, f)

    def walk(stmts, guards):
      for s in stmts:
        if any(isinstance(x, ast.Yield) for x in ast.walk(s)) and not (
            isinstance(s, (ast.With, ast.Try, ast.If, ast.For))):
          out.update(guards)
        if isinstance(s, ast.With):
          g = set(guards)
          for i in s.items:
            g |= self.cm_families(ctx, i)
          walk(s.body, g)
        elif isinstance(s, ast.Try):
          g = set(guards) | self.finally_families(ctx, s)
          walk(s.body, g)
        elif isinstance(s, (ast.If, ast.For, ast.While)):
          walk(s.body, guards)
          walk(s.orelse, guards)
    walk(f.node.body, set())
    return out

  def finally_families(self, ctx, s):
    """Families the finally block of a try writes back from a saved value."""
    out = set()
    for st in s.finalbody:
      for n in ast.walk(st):
        for fam, _ in effects(ctx, n):
          saved = getter_names(ctx, fam)
          if fam == 'repo' or fam.startswith('patch'):
            if isinstance(n, (ast.Assign, ast.Call, ast.Delete)):
              out.add(fam)
          elif any(isinstance(x, ast.Name) and x.id in saved
                   for x in ast.walk(n)) or not GETTERS.get(fam):
            out.add(fam)
        if isinstance(n, ast.Call):
          for d in ctx.dotted(n.func):
            if not isinstance(d, str) and d[0] == 'fn':
              for k in own_nodes(d[1].node):
                for fam, _ in effects(Ctx(self.p, d[1]), k):
                  out.add(fam)
    return out

  def scan(self, f):
    ctx = self.ctx[id(f)]
    loc, calls = [], []

    def expr(n, guards):
      for x in ([n] if not isinstance(n, ast.stmt) else []) :
        pass
      stack = [n]
      while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
          continue
        for fam, desc in effects(ctx, x):
          loc.append((fam, desc, x, frozenset(guards)))
        if isinstance(x, ast.Call):
          for d in ctx.dotted(x.func):
            if not isinstance(d, str) and d[0] == 'fn':
              calls.append((d[1], frozenset(guards), x))
            elif not isinstance(d, str) and d[0] == 'cls':
              m = d[1].lookup('__init__')
              if m is not None:
                calls.append((m, frozenset(guards), x))
        stack += [c for c in ast.iter_child_nodes(x)
                  if not isinstance(c, ast.stmt)]
        if isinstance(x, ast.stmt):
          pass

    def block(stmts, guards):
      for i, s in enumerate(stmts):
        if isinstance(s, ast.With):
          g = set(guards)
          for it in s.items:
            expr(it.context_expr, guards)
            g |= self.cm_families(ctx, it)
          block(s.body, g)
        elif isinstance(s, ast.Try):
          fin = self.finally_families(ctx, s)
          block(s.body, set(guards) | fin)
          for h in s.handlers:
            block(h.body, set(guards) | fin)
          block(s.orelse, set(guards) | fin)
          block(s.finalbody, set(guards) | fin)
        elif isinstance(s, (ast.If, ast.While)):
          expr(s.test, guards)
          block(s.body, guards)
          block(s.orelse, guards)
        elif isinstance(s, ast.For):
          for fam, desc in effects(ctx, s):
            loc.append((fam, desc, s, frozenset(guards)))
          expr(s.iter, guards)
          block(s.body, guards)
          block(s.orelse, guards)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
          continue
        else:
          # `x = set(..)` directly followed by try/finally restoring it
          nxt = stmts[i + 1] if i + 1 < len(stmts) else None
          g = set(guards)
          if isinstance(nxt, ast.Try):
            g |= self.finally_families(ctx, nxt)
          expr(s, g)
    body = f.node.body if isinstance(f.node.body, list) else []
    if body:
      block(body, set())
    else:
      expr(f.node.body, set())
    self.local[id(f)] = loc
    self.calls[id(f)] = calls


def run(rep, tier):
  p = fw.program()
  w = Walk(p, rep)
  rep.count('functions', len(w.funcs))
  for f in w.funcs:
    rep.funcs.add(f.qualname)
  callers = {}
  for f in w.funcs:
    for callee, guards, node in w.calls[id(f)]:
      callers.setdefault(id(callee.node), []).append((f, guards, node))
  rep.count('resolved_calls', sum(len(v) for v in callers.values()))

  def charge(f, fam, desc, node, seen, path):
    """Reports unless every way to reach f is protected."""
    cs = [c for c in callers.get(id(f.node), []) if c[0] is not f]
    private = f.name.startswith('_') or f.outer is not None
    generator = any('contextmanager' in d for d in f.decorators)
    if generator:
      return
    if cs and id(f) not in seen and private:
      for g, guards, n in cs:
        if fam not in guards:
          charge(g, fam, desc, node, seen | {id(f)},
                 path + ['%s (%s)' % (g.qualname, g.at(n))])
      return
    rep.find('%s|%s|%s' % (path[0], fam, desc),
             '%s changes process-wide state (%s) and does not restore it on '
             'every exit; reached from %s' % (path[0], desc, path[-1]),
             node)

  n_eff = 0
  for f in w.funcs:
    for fam, desc, node, guards in w.local[id(f)]:
      n_eff += 1
      rep.sample('%s: %s (%s)' % (f.at(node), desc, 'protected' if fam in guards
                                 else 'unprotected'))
      if fam not in guards:
        charge(f, fam, desc, f.at(node), set(), [f.qualname])
    for node, name in mutable_default_writes(w.ctx[id(f)], f):
      rep.find('%s|default|%s' % (f.qualname, name),
               'the mutable default of %s is written' % name, f.at(node))
  rep.count('writes_to_process_state', n_eff)
  rep.need('functions', 300)
  # the resolver must be able to see the calls the rule is about
  probes = 0
  for f in w.funcs:
    for n in own_nodes(f.node):
      if isinstance(n, ast.Call):
        if any(isinstance(d, str) and d.split('.')[0] in (
            'numpy', 'pandas', 'warnings', 'os') for d in
               w.ctx[id(f)].dotted(n.func)):
          probes += 1
  rep.count('library_calls_resolved', probes)
  if probes < 50:
    raise AnalysisBroken('only %d library calls resolved' % probes)
  return rep
