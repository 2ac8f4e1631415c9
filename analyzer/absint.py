"""A small abstract interpreter for the Python subset /repo is written in.

Abstract domain
  value V  = possible constants x possible references x dependency labels x top
  heap     = allocation-site objects (instances of repo classes, containers,
             and `ext` regions for everything external, e.g. a DataFrame)
It is interprocedural by inlining (context = call string, bounded), resolves
methods through the repo's class hierarchy, joins at control-flow merges, and
tracks data and control dependencies. No repo code is ever executed.

Rules subscribe to events (calls, stores, mutations, iterations) or query the
value/heap a method ends with.
"""
import ast

from .program import AnalysisBroken, ClassInfo, FuncInfo

EMPTY = frozenset()
MAX_CONSTS = 40

MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update',
    'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem',
    'difference_update', 'intersection_update', 'symmetric_difference_update',
    'appendleft', 'popleft', 'move_to_end', 'fill', 'put', 'itemset',
    'partition_inplace',
}
MASK_METHODS = {
    'isin', 'notnull', 'isnull', 'notna', 'isna', 'between', 'eq', 'ne', 'lt',
    'gt', 'le', 'ge', 'duplicated', 'contains', 'startswith', 'endswith',
    'tolist', 'difference', 'isdigit', 'match', 'fullmatch', 'to_list',
}
FRAME_MUTATORS = {
    'insert', 'pop', 'update', '__setitem__', '__delitem__', 'setdefault',
    'put', 'itemset', 'fill', 'isetitem', '__setattr__', 'sort', 'partition',
    'set_names_inplace', '__iadd__', '__isub__', '__imul__', '__itruediv__',
    'setflags', 'resize',
}
# library functions whose result can be (a view of) their first argument
MAY_ALIAS = {
    'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d',
    'numpy.ravel', 'numpy.reshape', 'numpy.squeeze', 'numpy.transpose',
    'numpy.ascontiguousarray', 'numpy.require', 'numpy.expand_dims',
    'numpy.broadcast_to', 'numpy.swapaxes',
}
# library functions that write into their first argument
EXT_MUTATORS = {
    'numpy.put', 'numpy.copyto', 'numpy.random.shuffle', 'random.shuffle',
    'numpy.fill_diagonal', 'numpy.place', 'numpy.putmask',
    'numpy.put_along_axis', 'heapq.heapify', 'heapq.heappush', 'heapq.heappop',
    'bisect.insort', 'bisect.insort_left', 'bisect.insort_right',
    'operator.setitem', 'operator.delitem', 'operator.iadd',
    'numpy.nan_to_num_inplace', 'numpy.add.at',
}
VIEW_METHODS = {
    'items', 'values', 'keys', 'get', 'pop', 'setdefault', 'traverse',
    'transpose', 'view', 'ravel', '__iter__', '__getitem__', 'popitem',
    'iteritems', 'swapaxes', 'to_numpy',
}
# builtins whose result does not depend on what the argument contains
SHALLOW = {'isinstance', 'id', 'type', 'hasattr', 'getattr', 'callable',
           'issubclass'}
STR_METHODS = {
    'format', 'join', 'strip', 'lstrip', 'rstrip', 'split', 'startswith',
    'endswith', 'upper', 'lower', 'replace', 'isdigit', 'find', 'count',
    'index', 'encode', 'title', 'rsplit', 'splitlines', 'zfill',
}
BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(
    __builtins__, dict) else set(__builtins__)


# calls that do not raise on the arguments a caller gives them
SAFE_CALLS = ('builtins.isinstance', 'builtins.super', 'builtins.type',
              'builtins.hasattr', 'builtins.bool', 'builtins.str',
              'builtins.list', 'builtins.dict', 'builtins.tuple',
              'builtins.len', 'builtins.set')
# isinstance() answers for external values of a known type.
EXT_TYPES = {
    'str': {'builtins.str', 'typing.Text', 'collections.abc.Iterable',
            'typing.Iterable', 'typing.Sequence', 'typing.Hashable',
            'collections.abc.Hashable'},
    'DataFrame': {'pandas.DataFrame', 'pandas.core.frame.DataFrame'},
    'Series': {'pandas.Series', 'pandas.core.series.Series'},
    'number': {'builtins.float', 'builtins.int', 'numbers.Number',
               'typing.Hashable', 'collections.abc.Hashable'},
    'callable': {'typing.Callable', 'collections.abc.Callable'},
}


def ck(v):
  return (type(v).__name__, v)


class V:
  __slots__ = ('consts', 'refs', 'deps', 'top')

  def __init__(self, consts=EMPTY, refs=EMPTY, deps=EMPTY, top=False):
    if len(consts) > MAX_CONSTS:
      consts, top = EMPTY, True
    self.consts = consts
    self.refs = refs
    self.deps = deps
    self.top = top

  def join(self, o):
    if o is None or o is self:
      return self
    return V(self.consts | o.consts, self.refs | o.refs, self.deps | o.deps,
             self.top or o.top)

  def with_deps(self, deps):
    if not deps or deps <= self.deps:
      return self
    return V(self.consts, self.refs, self.deps | deps, self.top)

  def is_bottom(self):
    return not self.top and not self.consts and not self.refs

  def const(self):
    """The single known constant as a 1-tuple, or None."""
    if not self.top and not self.refs and len(self.consts) == 1:
      return (next(iter(self.consts))[1],)
    return None

  def strs(self):
    return {c[1] for c in self.consts if c[0] == 'str'}

  def same(self, o):
    return (self.consts == o.consts and self.refs == o.refs and
            self.deps == o.deps and self.top == o.top)

  def __repr__(self):
    return 'V(c=%s r=%s d=%s%s)' % (
        sorted(map(str, self.consts)), [str(r)[:60] for r in self.refs],
        sorted(map(str, self.deps)), ' TOP' if self.top else '')


BOT = V()
TOP = V(top=True)
NONE = V(frozenset([ck(None)]))


def C(v):
  try:
    hash(v)
  except TypeError:
    return TOP
  return V(frozenset([ck(v)]))


TRUE, FALSE = C(True), C(False)


def joinall(vs):
  r = BOT
  for v in vs:
    r = r.join(v)
  return r


class O:
  """Abstract heap object; treated as immutable (copy on write)."""
  __slots__ = ('kind', 'cls', 'attrs', 'elem', 'items', 'keys', 'summary',
               'root', 'deps', 'node', 'tag', 'site', 'val')

  def __init__(self, kind, cls=None, attrs=None, elem=BOT, items=None,
               keys=BOT, summary=False, root=None, deps=EMPTY, node=None,
               tag=None, site=None, val=None):
    self.site = site
    self.val = val       # what a data frame holds, see frames.py
    self.kind = kind
    self.cls = cls
    self.attrs = attrs or {}
    self.elem = elem
    self.items = items
    self.keys = keys
    self.summary = summary
    self.root = root
    self.deps = deps
    self.node = node
    self.tag = tag

  def copy(self, **kw):
    o = O(self.kind, self.cls, dict(self.attrs), self.elem,
          (list(self.items) if isinstance(self.items, list) else
           dict(self.items) if isinstance(self.items, dict) else self.items),
          self.keys, self.summary, self.root, self.deps, self.node, self.tag,
          self.site, self.val)
    for k, v in kw.items():
      setattr(o, k, v)
    return o

  def all_elem(self):
    e = self.elem
    if isinstance(self.items, list):
      for i in self.items:
        e = e.join(i)
    elif isinstance(self.items, dict):
      for i in self.items.values():
        e = e.join(i)
    return e


def join_obj(a, b):
  if a is b:
    return a
  r = a.copy()
  for k, v in b.attrs.items():
    r.attrs[k] = v.join(r.attrs.get(k, BOT))
  r.elem = a.elem.join(b.elem)
  r.keys = a.keys.join(b.keys)
  if isinstance(a.items, list) and isinstance(b.items, list) and len(
      a.items) == len(b.items):
    r.items = [x.join(y) for x, y in zip(a.items, b.items)]
  elif isinstance(a.items, dict) and isinstance(b.items, dict):
    r.items = dict(a.items)
    for k, v in b.items.items():
      r.items[k] = v.join(r.items.get(k, BOT))
  elif a.items is None and b.items is None:
    r.items = None
  else:
    r.elem = a.all_elem().join(b.all_elem())
    r.items = None
  r.summary = a.summary or b.summary
  r.root = a.root or b.root
  r.deps = a.deps | b.deps
  r.val = a.val if a.val is b.val else 'mixed'
  return r


def join_heap(a, b):
  if a is b:
    return dict(a)
  r = dict(a)
  get = a.get
  for k, o in b.items():
    x = get(k)
    if x is not o:
      r[k] = o if x is None else join_obj(x, o)
  return r


def join_locals(a, b):
  r = dict(a)
  for k, v in b.items():
    r[k] = v.join(r.get(k, BOT))
  return r


class AbsRaise(Exception):
  """Evaluation of an expression cannot complete normally."""


class Frame:
  def __init__(self, func, module, locals_, parent=None, cls=None, ctx=()):
    self.func = func
    self.module = module
    self.locals = locals_
    self.parent = parent
    self.cls = cls
    self.ctx = ctx
    self.returns = []
    self.yields = BOT
    self.return_marks = {}
    self.loops = []
    self.pc = EMPTY
    self.self_val = None

  def lookup(self, name):
    f = self
    while f is not None:
      if name in f.locals:
        return f.locals[name]
      f = f.parent
    return None


class Interp:
  MAX_DEPTH = 60

  def __init__(self, program, policy=None, budget=400000,
               opaque_modules=('sql',)):
    self.p = program
    self.opaque_modules = set(opaque_modules)
    self.heap = {}
    self.policy = policy
    self.listeners = []
    self.stack = []
    self.raise_states = []
    self.budget = budget
    self.steps = 0
    self.exhausted = False
    self.funcs_seen = set()
    self.calls_seen = 0
    self.self_mutating, self.returns_self = self._repo_method_effects()
    # attributes watched on exceptional exits: [(oid, attr)] -> joined values
    self.exc_watch = ()
    self.exc = [{}]

  # Entry points of a metric's computation. On any metric other than the one
  # under analysis they are summarised: the result depends on everything
  # reachable from the metric and the arguments.
  NESTED = frozenset([
      'compute_on', 'compute_on_sql', 'compute_on_beam', 'to_sql',
      'get_sql_and_with_clause', 'compute_slices', 'compute_through',
      'compute_through_sql', 'compute_children_sql', 'compute_equivalent',
      '_compute_with_caching_and_postprocessing', 'compute_on_sql_sql_mode',
      'compute_on_sql_mixed_mode', 'compute_children', 'get_sql_columns',
      'compute_util_metric_on', 'compute_util_metric_on_sql',
      'is_metric_precomputable', 'compute_child',
  ])
  nested_methods = NESTED
  MAX_REC = 3  # activations of one function
  # Tree rewriting helpers: never inlined inside themselves.
  EXPAND = frozenset([
      'get_fully_expanded_equivalent_metric_tree', 'get_equivalent',
      'get_equivalent_metric_tree', 'get_equivalent_metric',
      'get_equivalent_without_filter', 'get_auxiliary_cols',
  ])
  # Helpers summarised everywhere: result depends on all arguments.
  SUMMARIES = frozenset([
      'add_auxiliary_cols', 'parse_auxiliary_col', 'is_metric_precomputable',
      'get_fingerprint', 'wrap_cache_key', 'replace_key', 'replace_metric',
      'replace_split_by', 'replace_where', 'add_extra_info'])
  summaries = SUMMARIES

  def is_nested(self, sv):
    """True if the receiver is a constructed metric, not the one analysed."""
    for _, o in self.objs(sv):
      if o.kind == 'inst' and o.tag == 'ROOT':
        return False
    return True

  # ---------------------------------------------------------------- utilities
  def emit(self, event, **kw):
    if event == 'nested' or (event == 'call' and kw.get('kind') in (
        'ext', 'ext_method', 'unknown', 'opaque')) and not str(
            kw.get('name')).startswith(SAFE_CALLS):
      self.note_exc()
    for l in self.listeners:
      l(event, kw)

  def _repo_method_effects(self):
    """Names of repo methods that write self (syntactic) / return self."""
    if hasattr(self.p, '_effects'):
      return self.p._effects
    mut, ret = set(), set()
    life = {'cache', 'cache_key', '_runtime_batch_size', '_is_root_node'}
    for m in self.p.modules.values():
      for c in m.classes.values():
        for f in c.methods.values():
          if not f.params or f.is_static:
            continue
          s = f.params[0]
          for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
              ts = n.targets if isinstance(n, ast.Assign) else [n.target]
              for t in ts:
                if isinstance(t, ast.Attribute) and isinstance(
                    t.value, ast.Name) and t.value.id == s and (
                        f.name != '__init__' and t.attr not in life):
                  mut.add(f.name)
                if isinstance(t, ast.Subscript) and ast.unparse(
                    t.value).startswith(s + '.') and not any(
                        ('.' + x) in ast.unparse(t.value) for x in life):
                  mut.add(f.name)
            if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in MUTATORS:
              if ast.unparse(n.func.value).startswith(s + '.') and not any(
                  ('.' + x) in ast.unparse(n.func.value) for x in life):
                mut.add(f.name)
            if isinstance(n, ast.Return) and isinstance(
                n.value, ast.Name) and n.value.id == s:
              ret.add(f.name)
    mut -= {'compute_on', '__init__'}
    self.p._effects = (mut, ret)
    return mut, ret

  def alloc(self, frame, node, obj, extra=''):
    oid = (frame.ctx if frame else (), id(node) if node is not None else 0,
           obj.kind, extra)
    old = self.heap.get(oid)
    if old is not None:
      obj = join_obj(old, obj)
      obj.summary = True
    obj.node = node
    if obj.site is None:
      obj.site = oid[1:]
    self.heap[oid] = obj
    return V(refs=frozenset([('o', oid)]))

  def ext(self, frame, node, deps, extra=''):
    v = self.alloc(frame, node, O('ext', deps=frozenset(deps)), extra)
    return v.with_deps(frozenset(deps))

  def obj(self, ref):
    return self.heap.get(ref[1]) if ref[0] == 'o' else None

  def objs(self, v):
    for r in v.refs:
      if r[0] == 'o':
        o = self.obj(r)
        if o is not None:
          yield r[1], o

  # (object id, attribute) pairs a summarised call is assumed not to read
  summary_skip = frozenset()

  def deep_deps(self, *vs, skip=(), skip_attrs=()):
    seen, out, stack = set(skip), set(), list(vs)
    while stack:
      v = stack.pop()
      if v is None:
        continue
      out |= v.deps
      for r in v.refs:
        if r[0] == 'o':
          if r[1] in seen:
            continue
          seen.add(r[1])
          o = self.obj(r)
          if o is None:
            continue
          out |= o.deps
          stack.extend(v for a, v in o.attrs.items()
                       if (r[1], a) not in skip_attrs)
          stack.append(o.elem)
          stack.append(o.keys)
          if isinstance(o.items, list):
            stack.extend(o.items)
          elif isinstance(o.items, dict):
            stack.extend(o.items.values())
        elif r[0] == 'bound':
          stack.append(r[2])
        elif r[0] == 'closure':
          pass
    return frozenset(out)

  def reach(self, *vs):
    """Ids of heap objects reachable from the values."""
    seen, stack = set(), list(vs)
    while stack:
      v = stack.pop()
      for r in v.refs:
        if r[0] == 'o' and r[1] not in seen:
          seen.add(r[1])
          o = self.obj(r)
          if o is None:
            continue
          stack.extend(o.attrs.values())
          stack.append(o.elem)
          stack.append(o.keys)
          if isinstance(o.items, list):
            stack.extend(o.items)
          elif isinstance(o.items, dict):
            stack.extend(o.items.values())
        elif r[0] == 'bound':
          stack.append(r[2])
    return seen

  def roots(self, v):
    return {o.root for _, o in self.objs(v) if o.root}

  def snapshot(self, frame):
    return dict(frame.locals), dict(self.heap)

  def restore(self, frame, snap):
    frame.locals, self.heap = dict(snap[0]), dict(snap[1])

  def join_into(self, frame, snaps):
    """Sets the state to the join of snaps. Returns False if there is none."""
    if not snaps:
      return False
    l, h = snaps[0]
    l, h = dict(l), dict(h)
    for l2, h2 in snaps[1:]:
      l, h = join_locals(l, l2), join_heap(h, h2)
    frame.locals, self.heap = l, h
    return True

  # ------------------------------------------------------------------- truth
  def truth(self, v):
    res = set()
    if v.top:
      return None
    for t, c in v.consts:
      res.add(bool(c))
    for r in v.refs:
      if r[0] != 'o':
        res.add(True)
        continue
      o = self.obj(r)
      if o is None or o.kind == 'ext':
        return None
      if o.kind == 'inst':
        m = o.cls.lookup('__bool__') or o.cls.lookup('__len__')
        if m is not None:
          if o.cls.module.name in self.opaque_modules or len(
              self.stack) > self.MAX_DEPTH - 5:
            return None
          try:
            x = self.call_func(m, self.bind(m, [], {}, self_val=V(
                refs=frozenset([r]))), m.node, self.stack[-1] if self.stack
                               else None)
          except AbsRaise:
            return None
          if x.top or x.refs or not x.consts:
            return None
          res |= {bool(c) for _, c in x.consts}
          continue
        res.add(True)
      elif o.summary or o.items is None:
        return None
      else:
        if isinstance(o.items, dict) and not o.elem.is_bottom():
          res.add(True) if o.items else None
          if not o.items:
            return None
        else:
          res.add(bool(len(o.items)))
    if len(res) == 1:
      return res.pop()
    return None

  # --------------------------------------------------------------- functions
  def call_func(self, func, bound, node, frame, self_val=None, parent=None,
                extra_pc=EMPTY):
    """Inlines func with params bound in dict `bound`."""
    self.calls_seen += 1
    count = sum(1 for f in self.stack if f.func is func)
    if (len(self.stack) > self.MAX_DEPTH or count >= self.MAX_REC or
        self.steps > self.budget):
      if self.steps > self.budget:
        self.exhausted = True
      return self.ext(frame, node, self.deep_deps(*bound.values()), 'rec')
    ctx = (frame.ctx if frame else ()) + (id(node),)
    if len(ctx) > 40:
      ctx = ctx[-40:]
    fr = Frame(func, func.module, dict(bound), parent, func.cls, ctx)
    if frame is not None:
      fr.pc = frame.pc | extra_pc
    self.funcs_seen.add((func.module.name, func.qualname))
    self.stack.append(fr)
    heap0 = self.heap
    try:
      if isinstance(func.node, ast.Lambda):
        return self.ev(func.node.body, fr)
      ft = self.block(func.node.body, fr)
      outs = list(fr.returns)
      if ft:
        outs.append((NONE, dict(self.heap)))
      if func.is_generator:
        if not outs:
          outs = [(NONE, dict(self.heap))]
        h = outs[0][1]
        for _, h2 in outs[1:]:
          h = join_heap(h, h2)
        self.heap = h
        return self.alloc(frame, node, O('list', elem=fr.yields), 'gen')
      if not outs:
        raise AbsRaise()
      v, h = outs[0]
      for v2, h2 in outs[1:]:
        v, h = v.join(v2), join_heap(h, h2)
      self.heap = dict(h)
      return v
    finally:
      self.stack.pop()

  def bind(self, func, args, kwargs, star=None, dstar=None, self_val=None,
           frame=None, node=None):
    """Binds call arguments. args: [V]; kwargs: {name: V}."""
    params = list(func.params)
    bound = {}
    pos = list(args)
    if self_val is not None and not func.is_static:
      pos = [self_val] + pos
    i = 0
    for p in params:
      if i < len(pos):
        bound[p] = pos[i]
        i += 1
      else:
        break
    rest = pos[i:]
    kw = dict(kwargs)
    starv = star
    extra = {}
    if dstar is not None:
      for _, o in self.objs(dstar):
        if o.kind == 'dict' and isinstance(o.items, dict):
          for k, v in o.items.items():
            if isinstance(k, str) and k not in kw:
              kw[k] = v
    for p in params + func.kwonly:
      if p not in bound and p in kw:
        bound[p] = kw.pop(p)
    if starv is not None:
      ev = self.elem_of(starv)
      exact = self.exact_items(starv)
      unb = [p for p in params if p not in bound]
      if exact is not None:
        for p, v in zip(unb, exact):
          bound[p] = v
        rest = rest + exact[len(unb):]
      else:
        for p in unb:
          bound[p] = ev
        rest = rest + ([ev] if not ev.is_bottom() else [])
    for p in params + func.kwonly:
      if p not in bound:
        d = func.defaults.get(p)
        if d is not None:
          bound[p] = self.const_expr(d, func.module)
        elif dstar is not None:
          bound[p] = self.elem_of(dstar).join(TOP)
        else:
          bound[p] = TOP
    if func.vararg:
      bound[func.vararg] = self.alloc(
          frame, node, O('tuple', items=list(rest)), 'va')
    if func.kwarg:
      items = dict(kw)
      el = BOT
      if dstar is not None:
        for _, o in self.objs(dstar):
          el = el.join(o.elem)
      bound[func.kwarg] = self.alloc(
          frame, node, O('dict', items=items, elem=el), 'kw')
    return bound

  def const_expr(self, node, module):
    try:
      v = ast.literal_eval(node)
    except (ValueError, TypeError, SyntaxError):
      fr = Frame(None, module, {}, ctx=(id(node),))
      try:
        return self.ev(node, fr)
      except AbsRaise:
        return TOP
    return self.lift(v, node)

  def lift(self, v, node, tag=''):
    if isinstance(v, (list, tuple, set, dict)):
      fr = Frame(None, None, {}, ctx=(id(node),))
      if isinstance(v, dict):
        o = O('dict', items={k: self.lift(x, node, tag + str(k))
                             for k, x in v.items()})
      elif isinstance(v, set):
        o = O('set', elem=joinall(self.lift(x, node) for x in v))
      else:
        o = O(type(v).__name__,
              items=[self.lift(x, node, tag + str(i))
                     for i, x in enumerate(v)])
      return self.alloc(fr, node, o, 'lift' + tag)
    return C(v)

  # ------------------------------------------------------------ container ops
  def exact_items(self, v):
    if v.top or v.consts or len(v.refs) != 1:
      return None
    for _, o in self.objs(v):
      if o.kind in ('list', 'tuple') and isinstance(
          o.items, list) and not o.summary:
        return list(o.items)
    return None

  def elem_of(self, v, frame=None, node=None):
    """Join of what iterating over v yields."""
    out = BOT
    if v.top:
      out = out.join(TOP)
    for t, c in v.consts:
      if t == 'str':
        out = out.join(TOP)
    for r in v.refs:
      o = self.obj(r)
      if o is None:
        out = out.join(TOP)
      elif o.kind == 'ext':
        out = out.join(V(refs=frozenset([r]), deps=o.deps))
        out = out.join(o.elem)
      elif o.kind == 'dict':
        out = out.join(o.keys)
        if isinstance(o.items, dict):
          for k in o.items:
            out = out.join(C(k))
        if o.items is None or not o.elem.is_bottom():
          out = out.join(TOP)
      elif o.kind == 'inst':
        m = o.cls.lookup('__iter__')
        if m:
          try:
            res = self.call_func(
                m, self.bind(m, [], {}, self_val=V(refs=frozenset([r]))),
                m.node, frame or Frame(None, m.module, {}))
            out = out.join(self.elem_of(res) if res.refs else TOP)
          except AbsRaise:
            pass
        else:
          out = out.join(TOP)
      else:
        out = out.join(o.all_elem())
        if o.items is None and o.elem.is_bottom():
          out = out.join(BOT)
    return out.with_deps(v.deps)

  def value_elem(self, v):
    """Join of stored values (dict values or sequence elements)."""
    out = BOT
    if v.top:
      out = out.join(TOP)
    for r in v.refs:
      o = self.obj(r)
      if o is None:
        out = out.join(TOP)
      elif o.kind == 'ext':
        out = out.join(V(refs=frozenset([r]), deps=o.deps)).join(o.elem)
      else:
        out = out.join(o.all_elem())
    return out.with_deps(v.deps)

  def add_elem(self, v, val, keys=None):
    for r in v.refs:
      o = self.obj(r)
      if o is None:
        continue
      n = o.copy()
      if n.kind == 'ext':
        n.deps = n.deps | self.deep_deps(val)
        n.elem = n.elem.join(val)
      elif n.kind == 'inst':
        n.elem = n.elem.join(val)
      else:
        n.elem = n.elem.join(val)
        if isinstance(n.items, list):
          for i in n.items:
            n.elem = n.elem.join(i)
          n.items = None
        if keys is not None:
          n.keys = n.keys.join(keys)
      self.heap[r[1]] = n

  def deepcopy(self, v, frame, node, shallow=False):
    mapping, counts, used = {}, {}, set()

    def clone_ref(r):
      if r[0] != 'o':
        return r
      if r[1] in mapping:
        return ('o', mapping[r[1]])
      o = self.obj(r)
      if o is None:
        return r
      k = min(counts.get(o.site, 0), 3)
      counts[o.site] = k + 1
      nid = ((frame.ctx if frame else ()), id(node), 'dc', o.site, k)
      fresh = nid not in used
      used.add(nid)
      mapping[r[1]] = nid
      fix = (lambda x: x) if shallow else clone
      n = o.copy()
      n.root = None
      summary = nid in self.heap or not fresh
      n.attrs = {k: fix(x) for k, x in o.attrs.items()}
      n.elem = fix(o.elem)
      n.keys = fix(o.keys)
      if isinstance(o.items, list):
        n.items = [fix(x) for x in o.items]
      elif isinstance(o.items, dict):
        n.items = {k: fix(x) for k, x in o.items.items()}
      if summary:
        if nid in self.heap:
          n = join_obj(self.heap[nid], n)
        n.summary = True
      if shallow and o.kind == 'ext' and o.root:
        # A shallow copy of an unknown region still reaches the region.
        n.elem = n.elem.join(V(refs=frozenset([r])))
      self.heap[nid] = n
      return ('o', nid)

    def clone(x):
      return V(x.consts, frozenset(clone_ref(r) for r in x.refs), x.deps,
               x.top)

    if shallow:
      return V(v.consts, frozenset(clone_ref(r) for r in v.refs), v.deps,
               v.top)
    return clone(v)

  # ---------------------------------------------------------------- attribute
  def load_attr(self, base, name, frame, node):
    out = BOT
    if base.top:
      out = out.join(TOP)
    for t, c in base.consts:
      if t == 'str':
        out = out.join(V(refs=frozenset([('extm', base, name)]))
                       if False else TOP)
      elif c is not None:
        out = out.join(TOP)
    for r in base.refs:
      k = r[0]
      if k == 'o':
        o = self.obj(r)
        if o is None:
          out = out.join(TOP)
        elif o.kind == 'ext':
          if name in o.attrs:
            out = out.join(o.attrs[name])
          out = out.join(V(refs=frozenset([r]), deps=o.deps))
        elif o.kind == 'inst':
          out = out.join(self.inst_attr(r, o, name, frame, node))
        else:
          out = out.join(TOP)
      elif k == 'mod':
        out = out.join(self.module_attr(r[1], name, frame, node))
      elif k == 'ext':
        out = out.join(V(refs=frozenset([('ext', r[1] + '.' + name)])))
      elif k == 'cls':
        m = r[1].lookup(name)
        if m:
          out = out.join(V(refs=frozenset([('fn', m, None)])))
        elif name == '__name__':
          out = out.join(C(r[1].name))
        else:
          c = r[1].lookup_const(name)
          if c:
            out = out.join(self.const_expr(c[1], c[0].module))
          else:
            out = out.join(TOP)
      elif k == 'super':
        m = None
        cls, after, selfv = r[1], r[2], r[3]
        m = cls.lookup(name, after)
        if m:
          if m.is_property:
            out = out.join(self.safe_call(
                m, [], {}, node, frame, self_val=selfv))
          else:
            out = out.join(V(refs=frozenset([('bound', m, selfv)])))
        else:
          out = out.join(V(refs=frozenset([('ext', 'object.' + name)])))
      elif k == 'typeof':
        if name == '__name__':
          out = out.join(V(r[1].consts, deps=r[1].deps) if r[1].consts
                         else TOP)
        else:
          out = out.join(TOP)
      else:
        out = out.join(TOP)
    return out.with_deps(base.deps)

  def inst_attr(self, r, o, name, frame, node):
    if name == '__class__':
      return V(refs=frozenset([('cls', o.cls)]))
    if name == '__dict__':
      e = joinall(o.attrs.values())
      return self.alloc(frame, node, O('dict', items=None, elem=e, keys=TOP))
    m = o.cls.lookup(name)
    if m is not None and m.is_property:
      return self.safe_call(m, [], {}, node, frame,
                            self_val=V(refs=frozenset([r])))
    if name in o.attrs:
      v = o.attrs[name]
      if '*' in o.attrs:
        v = v.join(o.attrs['*'])
      return v
    if m is not None:
      if m.is_static:
        return V(refs=frozenset([('fn', m, None)]))
      return V(refs=frozenset([('bound', m, V(refs=frozenset([r])))]))
    c = o.cls.lookup_const(name)
    if c:
      return self.const_expr(c[1], c[0].module)
    if '*' in o.attrs:
      return o.attrs['*']
    if o.root:
      return V(refs=frozenset([r]), top=True)
    return TOP

  def safe_call(self, m, args, kwargs, node, frame, self_val=None):
    b = self.bind(m, args, kwargs, self_val=self_val, frame=frame, node=node)
    return self.call_func(m, b, node, frame)

  def module_attr(self, mod, name, frame, node):
    r = self.p.resolve_name(mod, name)
    return self.resolved(r, frame, node, name)

  def resolved(self, r, frame, node, name):
    if r is None:
      return TOP
    k, x = r
    if k == 'cls':
      return V(refs=frozenset([('cls', x)]))
    if k == 'fn':
      return V(refs=frozenset([('fn', x, None)]))
    if k == 'mod':
      return V(refs=frozenset([('mod', x)]))
    if k == 'const':
      return self.const_expr(x[1], x[0])
    return V(refs=frozenset([('ext', x)]))

  def store_attr(self, base, name, val, frame, node):
    self.emit('store', frame=frame, node=node, base=base, attr=name, val=val)
    refs = [r for r in base.refs if r[0] == 'o']
    strong = len(base.refs) == 1 and not base.top and len(refs) == 1
    for r in refs:
      o = self.obj(r)
      if o is None:
        continue
      if o.kind == 'inst':
        s = o.cls.lookup_setter(name)
        if s is not None:
          try:
            self.safe_call(s, [val], {}, node, frame,
                           self_val=V(refs=frozenset([r])))
          except AbsRaise:
            pass
          continue
        o = self.obj(r)
        n = o.copy()
        if strong and not o.summary:
          n.attrs[name] = val
        else:
          n.attrs[name] = val.join(n.attrs.get(name, BOT))
        self.heap[r[1]] = n
      else:
        n = o.copy()
        n.attrs[name] = val.join(n.attrs.get(name, BOT))
        self.heap[r[1]] = n

  # --------------------------------------------------------------- statements
  def block(self, stmts, fr):
    saved = fr.pc
    for s in stmts:
      if not self.stmt(s, fr):
        return False
    return True

  def stmt(self, s, fr):
    self.steps += 1
    try:
      return self._stmt(s, fr)
    except AbsRaise:
      self.note_raise(fr)
      return False

  def note_exc(self):
    """An exception may leave the current statement."""
    if not self.exc_watch:
      return
    d = self.exc[-1]
    for oid, attr in self.exc_watch:
      o = self.heap.get(oid)
      if o is not None and attr in o.attrs:
        v = o.attrs[attr]
        old = d.get((oid, attr))
        if old is not v:
          d[oid, attr] = v if old is None else old.join(v)

  def note_raise(self, fr):
    self.note_exc()
    if self.raise_states:
      self.raise_states[-1].append((fr, self.snapshot(fr)))

  def _stmt(self, s, fr):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      for c in ast.iter_child_nodes(s):
        if isinstance(c, ast.expr):
          self.ev(c, fr)
      return True
    return m(s, fr)

  def s_Expr(self, s, fr):
    self.ev(s.value, fr)
    return True

  def s_Pass(self, s, fr):
    return True

  s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

  def s_Import(self, s, fr):
    for a in s.names:
      name = a.name if a.asname else a.name.split('.')[0]
      fr.locals[a.asname or name] = self.import_val(name)
    return True

  def s_ImportFrom(self, s, fr):
    for a in s.names:
      fr.locals[a.asname or a.name] = self.import_val(
          '%s.%s' % (s.module or '', a.name))
    return True

  def import_val(self, dotted):
    m = self.p.module_of(dotted)
    if m:
      return V(refs=frozenset([('mod', m)]))
    head, _, last = dotted.rpartition('.')
    hm = self.p.module_of(head) if head else None
    if hm:
      return self.resolved(self.p.resolve_name(hm, last), None, None, last)
    return V(refs=frozenset([('ext', dotted)]))

  def s_FunctionDef(self, s, fr):
    f = FuncInfo(s, fr.module, None, outer=fr.func)
    fr.locals[s.name] = V(refs=frozenset([('closure', f, fr)]))
    return True

  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, s, fr):
    c = ClassInfo(s, fr.module)
    for b in c.base_exprs:
      r = self.p.resolve_class(fr.module, b)
      if r:
        c.bases.append(r)
    fr.locals[s.name] = V(refs=frozenset([('cls', c)]))
    return True

  def s_Return(self, s, fr):
    v = self.ev(s.value, fr) if s.value is not None else NONE
    v = v.with_deps(fr.pc)
    self.emit('return', frame=fr, node=s, val=v)
    fr.returns.append((v, dict(self.heap)))
    return False

  def s_Raise(self, s, fr):
    if s.exc is not None:
      try:
        self.ev(s.exc, fr)
      except AbsRaise:
        pass
    self.emit('raise', frame=fr, node=s)
    self.note_raise(fr)
    return False

  def s_Break(self, s, fr):
    if len(fr.loops):
      fr.loops[-1][0].append(self.snapshot(fr))
    return False

  def s_Continue(self, s, fr):
    if len(fr.loops):
      fr.loops[-1][1].append(self.snapshot(fr))
    return False

  def s_Assert(self, s, fr):
    self.ev(s.test, fr)
    return True

  def s_Delete(self, s, fr):
    for t in s.targets:
      if isinstance(t, ast.Subscript):
        b = self.ev(t.value, fr)
        self.emit('mutate', frame=fr, node=s, base=b, how='del')
      elif isinstance(t, ast.Attribute):
        b = self.ev(t.value, fr)
        self.emit('store', frame=fr, node=s, base=b, attr=t.attr, val=BOT)
      elif isinstance(t, ast.Name):
        fr.locals.pop(t.id, None)
    return True

  def s_Assign(self, s, fr):
    v = self.ev(s.value, fr).with_deps(fr.pc)
    for t in s.targets:
      self.assign(t, v, fr, s)
    return True

  def s_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, fr).with_deps(fr.pc), fr, s)
    return True

  def s_AugAssign(self, s, fr):
    t = s.target
    rhs = self.ev(s.value, fr)
    load = self.as_load(t)
    cur = self.ev(load, fr)
    handled = False
    inplace_refs = [r for r, o in ((r, self.obj(r)) for r in cur.refs)
                    if o is not None and o.kind in ('list', 'set', 'dict',
                                                    'ext')]
    if inplace_refs:
      iv = V(refs=frozenset(inplace_refs), deps=cur.deps)
      self.emit('mutate', frame=fr, node=s, base=iv, how='aug', val=rhs,
                op=type(s.op).__name__)
    lists = [r for r in inplace_refs
             if self.obj(r).kind in ('list', 'set')]
    if lists and len(lists) == len(cur.refs) and not cur.top:
      self.add_elem(cur, self.elem_of(rhs))
      res = cur.with_deps(rhs.deps)
    else:
      res = self.binop(type(s.op).__name__, cur, rhs, fr, s)
      if inplace_refs:
        # may be the same (mutated) object
        res = res.join(V(refs=frozenset(inplace_refs)))
        self.add_elem(V(refs=frozenset(inplace_refs)),
                      V(deps=self.deep_deps(rhs) | fr.pc))
    self.assign(t, res.with_deps(fr.pc), fr, s, aug=True)
    return True

  def as_load(self, t):
    key = id(t)
    cache = getattr(self, '_loads', None)
    if cache is None:
      cache = self._loads = {}
    if key not in cache:
      n = ast.parse(ast.unparse(t), mode='eval').body
      for x in ast.walk(n):
        if hasattr(x, 'lineno'):
          x.lineno = t.lineno
      cache[key] = n
    return cache[key]

  def assign(self, t, v, fr, node, aug=False):
    if isinstance(t, ast.Name):
      fr.locals[t.id] = v
    elif isinstance(t, ast.Attribute):
      b = self.ev(t.value, fr)
      self.store_attr(b, t.attr, v, fr, node)
      self.weak_name(t.value, v, fr)
    elif isinstance(t, ast.Subscript):
      b = self.ev(t.value, fr)
      k = self.ev(t.slice, fr)
      self.emit('mutate', frame=fr, node=node, base=b, how='setitem', val=v,
                key=k)
      self.set_item(b, k, v, fr)
      self.weak_name(t.value, v, fr)
    elif isinstance(t, (ast.Tuple, ast.List)):
      items = self.exact_items(v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if items is not None and not star and len(items) == len(t.elts):
        for e, x in zip(t.elts, items):
          self.assign(e, x.with_deps(v.deps | fr.pc), fr, node)
      else:
        # join over alternative exact tuples position by position
        cols = None
        refs = [self.obj(r) for r in v.refs]
        if refs and not v.top and not star and all(
            o is not None and o.kind in ('tuple', 'list') and isinstance(
                o.items, list) and len(o.items) == len(t.elts)
            for o in refs):
          cols = [joinall(o.items[i] for o in refs)
                  for i in range(len(t.elts))]
        for i, e in enumerate(t.elts):
          if isinstance(e, ast.Starred):
            el = self.elem_of(v)
            lv = self.alloc(fr, e, O('list', elem=el))
            self.assign(e.value, lv, fr, node)
          else:
            x = cols[i] if cols else self.elem_of(v)
            self.assign(e, x.with_deps(v.deps | fr.pc), fr, node)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, fr, node)

  def set_item(self, b, k, v, fr):
    for r in b.refs:
      o = self.obj(r)
      if o is None:
        continue
      n = o.copy()
      if o.kind == 'dict':
        kc = k.const()
        if kc is not None and isinstance(n.items, dict):
          if len(b.refs) == 1 and not o.summary:
            n.items[kc[0]] = v
          else:
            n.items[kc[0]] = v.join(n.items.get(kc[0], BOT))
        else:
          n.elem = n.elem.join(v)
          n.keys = n.keys.join(k)
      elif o.kind in ('list', 'tuple'):
        n.elem = n.all_elem().join(v)
        n.items = None
      elif o.kind == 'inst':
        m = o.cls.lookup('__setitem__')
        if m:
          try:
            self.safe_call(m, [k, v], {}, m.node, fr,
                           self_val=V(refs=frozenset([r])))
          except AbsRaise:
            pass
          continue
        n.elem = n.elem.join(v)
      else:
        n.deps = n.deps | self.deep_deps(v) | k.deps
        n.elem = n.elem.join(v)
      self.heap[r[1]] = n

  def weak_name(self, expr, v, fr):
    """x.a[b].c = v on an untracked x: remember the dependency on x."""
    while isinstance(expr, (ast.Attribute, ast.Subscript, ast.Call)):
      expr = expr.func if isinstance(expr, ast.Call) else expr.value
    if isinstance(expr, ast.Name) and expr.id in fr.locals:
      cur = fr.locals[expr.id]
      if cur.top and not cur.refs:
        fr.locals[expr.id] = cur.with_deps(self.deep_deps(v))

  def s_If(self, s, fr):
    v = self.ev(s.test, fr)
    t = self.truth(v)
    if t is not None and not self.force_both(fr, s):
      return self.block(s.body if t else s.orelse, fr)
    cdeps = self.deep_deps(v)
    saved_pc = fr.pc
    snap = self.snapshot(fr)
    fr.pc = saved_pc | cdeps
    nret = len(fr.returns)
    self.refine(s.test, True, fr)
    ft1 = self.block(s.body, fr)
    r1 = len(fr.returns) > nret
    s1 = self.snapshot(fr)
    self.restore(fr, snap)
    fr.pc = saved_pc | cdeps
    nret = len(fr.returns)
    self.refine(s.test, False, fr)
    ft2 = self.block(s.orelse, fr)
    r2 = len(fr.returns) > nret
    s2 = self.snapshot(fr)
    outs = [x for x, f in ((s1, ft1), (s2, ft2)) if f]
    # a branch that returns makes what follows control dependent; one that
    # only raises does not.
    fr.pc = saved_pc | (cdeps if (r1 or r2) else EMPTY)
    return self.join_into(fr, outs)

  def force_both(self, fr, s):
    return False

  def refine(self, test, outcome, fr):
    """Simple refinement: None-ness / truthiness of a local name."""
    neg = False
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      test, outcome = test.operand, not outcome
    if isinstance(test, ast.BoolOp):
      if isinstance(test.op, ast.And) and outcome:
        for x in test.values:
          self.refine(x, True, fr)
      elif isinstance(test.op, ast.Or) and not outcome:
        for x in test.values:
          self.refine(x, False, fr)
      return
    if isinstance(test, ast.Name) and test.id in fr.locals:
      v = fr.locals[test.id]
      if outcome:
        fr.locals[test.id] = V(
            frozenset(c for c in v.consts if c[1]), v.refs, v.deps, v.top)
      else:
        refs = frozenset(r for r in v.refs if self.truth(
            V(refs=frozenset([r]))) is not True)
        fr.locals[test.id] = V(
            frozenset(c for c in v.consts if not c[1]), refs, v.deps,
            v.top)
    elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
        test.left, ast.Name) and isinstance(
            test.comparators[0], ast.Constant
        ) and test.comparators[0].value is None and test.left.id in fr.locals:
      isnot = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
      if not isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
        return
      none = outcome != isnot
      v = fr.locals[test.left.id]
      if none:
        fr.locals[test.left.id] = V(
            frozenset([ck(None)]), deps=v.deps)
      else:
        fr.locals[test.left.id] = V(
            frozenset(c for c in v.consts if c[1] is not None), v.refs,
            v.deps, v.top)

  def loop(self, fr, body, pre, orelse, cond=None):
    outs = []
    saved_pc = fr.pc
    g = fr.func.name if fr.func is not None else ''
    for it in range(1 if g in self.EXPAND else 3):
      before = self.snapshot(fr)
      fr.loops.append(([], []))
      entered = pre()
      ft = self.block(body, fr) if entered else False
      brk, cont = fr.loops.pop()
      ends = ([self.snapshot(fr)] if ft else []) + cont
      outs += brk
      fr.pc = saved_pc
      if not self.join_into(fr, [before] + ends):
        break
      if it and self.same_state(before, self.snapshot(fr)):
        break
    fr.pc = saved_pc
    ok = self.block(orelse, fr) if orelse else True
    outs += [self.snapshot(fr)] if ok else []
    return self.join_into(fr, outs)

  def same_state(self, a, b):
    if a[0].keys() != b[0].keys() or len(a[1]) != len(b[1]):
      return False
    if not all(a[0][k].same(b[0][k]) for k in a[0]):
      return False
    for k, o in a[1].items():
      p = b[1].get(k)
      if p is None:
        return False
      if p is o:
        continue
      if not (o.elem.same(p.elem) and o.keys.same(p.keys) and
              o.deps == p.deps and o.attrs.keys() == p.attrs.keys() and
              all(o.attrs[x].same(p.attrs[x]) for x in o.attrs)):
        return False
      if isinstance(o.items, dict) != isinstance(p.items, dict) or (
          isinstance(o.items, list) != isinstance(p.items, list)):
        return False
      if isinstance(o.items, dict):
        if o.items.keys() != p.items.keys() or not all(
            o.items[x].same(p.items[x]) for x in o.items):
          return False
      elif isinstance(o.items, list):
        if len(o.items) != len(p.items) or not all(
            x.same(y) for x, y in zip(o.items, p.items)):
          return False
    return True

  def s_For(self, s, fr):
    it = self.ev(s.iter, fr)
    self.emit('iter', frame=fr, node=s, val=it, how='for')
    items = self.exact_items(it)
    if items is not None and len(items) <= 12 and not any(
        isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
      ok = True
      for x in items:
        self.assign(s.target, x.with_deps(it.deps | fr.pc), fr, s)
        ok = self.block(s.body, fr)
        if not ok:
          break
      if ok and s.orelse:
        ok = self.block(s.orelse, fr)
      return ok

    def pre():
      el = self.elem_of(it, fr, s)
      if el.is_bottom() and not it.refs and not it.top:
        return False
      if el.is_bottom():
        el = TOP.with_deps(el.deps) if any(
            o.kind == 'ext' for _, o in self.objs(it)) else el
        if el.is_bottom():
          return False
      fr.pc = fr.pc | it.deps
      self.assign(s.target, el.with_deps(it.deps), fr, s)
      return True

    return self.loop(fr, s.body, pre, s.orelse)

  s_AsyncFor = s_For

  def s_While(self, s, fr):
    def pre():
      c = self.ev(s.test, fr)
      if self.truth(c) is False:
        return False
      fr.pc = fr.pc | c.deps
      self.refine(s.test, True, fr)
      return True
    const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
    if const_true:
      # only leaves through break/return
      saved_pc = fr.pc
      outs = []
      for it in range(4):
        before = self.snapshot(fr)
        fr.loops.append(([], []))
        ft = self.block(s.body, fr)
        brk, cont = fr.loops.pop()
        outs += brk
        fr.pc = saved_pc
        ends = ([self.snapshot(fr)] if ft else []) + cont
        if not ends:
          break
        self.join_into(fr, [before] + ends)
        if it and self.same_state(before, self.snapshot(fr)):
          break
      return self.join_into(fr, outs)
    r = self.loop(fr, s.body, pre, s.orelse)
    return r

  def s_With(self, s, fr):
    for i in s.items:
      v = self.ev(i.context_expr, fr)
      if i.optional_vars is not None:
        self.assign(i.optional_vars, v, fr, s)
    return self.block(s.body, fr)

  s_AsyncWith = s_With

  def catches_all(self, s):
    for h in s.handlers:
      names = [] if h.type is None else (
          h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
      if h.type is None or any(
          isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException')
          for x in names):
        return True
    return False

  def s_Try(self, s, fr):
    pre = self.snapshot(fr)
    fr.return_marks[id(s)] = len(fr.returns)
    self.raise_states.append([])
    self.exc.append({})
    ft = self.block(s.body, fr)
    raised = self.raise_states.pop()
    after = self.snapshot(fr)
    outs = []
    if ft:
      if s.orelse:
        ft = self.block(s.orelse, fr)
        after = self.snapshot(fr)
      if ft:
        outs.append(after)
    body_exc = self.exc.pop()
    hstates = [pre] + ([after] if ft else [])
    for rf, sn in raised:
      hstates.append((sn[0] if rf is fr else pre[0], sn[1]))
    self.exc.append({} if self.catches_all(s) else body_exc)
    for h in s.handlers:
      self.join_into(fr, hstates)
      if h.name:
        fr.locals[h.name] = self.ext(fr, h, EMPTY)
      if self.block(h.body, fr):
        outs.append(self.snapshot(fr))
    escaping = self.exc.pop()
    if s.finalbody:
      if escaping:
        self.exceptional_finally(s, fr, hstates, escaping)
      # the finally body also runs after return statements of the body
      self.finally_after_return(s, fr)
      ok = self.join_into(fr, outs or hstates)
      f = self.block(s.finalbody, fr)
      if not outs:
        return False
      return f
    if escaping:
      self.merge_exc(escaping)
    if not s.handlers and raised and self.raise_states:
      self.raise_states[-1].extend(raised)
    return self.join_into(fr, outs)

  def merge_exc(self, d):
    cur = self.exc[-1]
    for k, v in d.items():
      cur[k] = v.join(cur[k]) if k in cur else v

  def exceptional_finally(self, s, fr, hstates, escaping):
    """Runs the finally body in the state an escaping exception leaves."""
    keep = self.snapshot(fr)
    returns = list(fr.returns)
    self.join_into(fr, hstates)
    for (oid, attr), v in escaping.items():
      o = self.heap.get(oid)
      if o is not None:
        o = o.copy()
        o.attrs[attr] = v
        self.heap[oid] = o
    self.block(s.finalbody, fr)
    self.note_exc()
    fr.returns = returns
    self.restore(fr, keep)

  def finally_after_return(self, s, fr):
    """Applies the finally body to the states saved by return statements."""
    n = len(fr.returns)
    start = fr.return_marks.get(id(s), 0)
    if n <= start:
      return
    keep = self.snapshot(fr)
    todo = fr.returns[start:]
    del fr.returns[start:]
    done = []
    for v, h in todo:
      self.heap = dict(h)
      if self.block(s.finalbody, fr):
        done.append((v, dict(self.heap)))
      # a return inside finally overrides
    fr.returns += done
    self.restore(fr, keep)

  s_TryStar = s_Try

  def s_Match(self, s, fr):
    v = self.ev(s.subject, fr)
    snap = self.snapshot(fr)
    outs = [snap]
    for c in s.cases:
      self.restore(fr, snap)
      for n in ast.walk(c.pattern):
        nm = getattr(n, 'name', None)
        if isinstance(nm, str):
          fr.locals[nm] = self.elem_of(v).join(v)
      if self.block(c.body, fr):
        outs.append(self.snapshot(fr))
    return self.join_into(fr, outs)

  # -------------------------------------------------------------- expressions
  def ev(self, n, fr):
    self.steps += 1
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      deps = EMPTY
      for c in ast.iter_child_nodes(n):
        if isinstance(c, ast.expr):
          deps |= self.deep_deps(self.ev(c, fr))
      return V(top=True, deps=deps)
    return m(n, fr)

  def e_Constant(self, n, fr):
    return C(n.value)

  def e_Name(self, n, fr):
    v = fr.lookup(n.id)
    if v is not None:
      return v
    if fr.module is not None:
      r = self.p.resolve_name(fr.module, n.id)
      if r is not None:
        return self.resolved(r, fr, n, n.id)
    if n.id in BUILTIN_NAMES:
      return V(refs=frozenset([('ext', 'builtins.' + n.id)]))
    return TOP

  def e_Attribute(self, n, fr):
    b = self.ev(n.value, fr)
    return self.load_attr(b, n.attr, fr, n)

  def on_read(self, b, k, fr, n):
    """b[k] is read."""

  def e_Subscript(self, n, fr):
    b = self.ev(n.value, fr)
    k = self.ev(n.slice, fr)
    self.on_read(b, k, fr, n)
    is_slice = isinstance(n.slice, ast.Slice)
    out = BOT
    if b.top or b.consts:
      out = out.join(TOP)
    kc = k.const()
    for r in b.refs:
      o = self.obj(r)
      if o is None:
        out = out.join(TOP)
        continue
      if o.kind == 'ext':
        if is_slice and o.tag == 'list':
          out = out.join(self.alloc(fr, n, O('list', elem=V(
              refs=frozenset([r]), deps=o.deps)), 'sl'))
        elif o.tag != 'list' and self.takes_copy(n.slice, k):
          # pandas: selecting with a list or a mask copies
          out = out.join(self.ext(fr, n, o.deps | k.deps | fr.pc, 'take'))
        else:
          out = out.join(V(refs=frozenset([r]), deps=o.deps))
      elif o.kind in ('list', 'tuple'):
        if is_slice:
          out = out.join(self.slice_obj(n, o, fr))
        elif kc is not None and isinstance(kc[0], int) and isinstance(
            o.items, list) and not o.summary and (
                -len(o.items) <= kc[0] < len(o.items)):
          out = out.join(o.items[kc[0]])
        else:
          out = out.join(o.all_elem())
      elif o.kind == 'dict':
        if k.consts and not k.top and not k.refs and isinstance(
            o.items, dict):
          hit = False
          for _, c in k.consts:
            if c in o.items:
              out = out.join(o.items[c])
              hit = True
          out = out.join(o.elem)
        else:
          out = out.join(o.all_elem())
      elif o.kind == 'inst':
        m = o.cls.lookup('__getitem__')
        if m:
          try:
            out = out.join(self.safe_call(m, [k], {}, n, fr,
                                          self_val=V(refs=frozenset([r]))))
          except AbsRaise:
            pass
        else:
          out = out.join(TOP)
      else:
        out = out.join(o.all_elem())
    return out.with_deps(b.deps | k.deps)

  def takes_copy(self, node, k):
    if isinstance(node, (ast.List, ast.ListComp, ast.Compare)) or (
        isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Invert)) or (
            isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.BitAnd, ast.BitOr))):
      return True
    objs = [self.obj(r) for r in k.refs]
    if not k.refs and not k.top and k.consts:
      return all(isinstance(c[1], bool) for c in k.consts)
    return bool(objs) and not k.top and not k.consts and all(
        o is not None and (o.kind == 'list' or o.tag == 'mask') for o in objs)

  def mask(self, fr, n, deps, extra='mask'):
    v = self.ext(fr, n, deps, extra)
    for r in v.refs:
      o = self.heap[r[1]].copy()
      o.tag = 'mask'
      self.heap[r[1]] = o
    return v

  def slice_obj(self, n, o, fr):
    items = None
    if isinstance(o.items, list) and not o.summary:
      s = n.slice
      try:
        lo = ast.literal_eval(s.lower) if s.lower else None
        hi = ast.literal_eval(s.upper) if s.upper else None
        st = ast.literal_eval(s.step) if s.step else None
        items = o.items[lo:hi:st]
      except (ValueError, TypeError):
        items = None
    if items is not None:
      return self.alloc(fr, n, O(o.kind, items=list(items)), 'sl')
    return self.alloc(fr, n, O(o.kind, elem=o.all_elem()), 'sl')

  def e_Slice(self, n, fr):
    deps = EMPTY
    for x in (n.lower, n.upper, n.step):
      if x is not None:
        deps |= self.ev(x, fr).deps
    return V(top=True, deps=deps)

  def e_Index(self, n, fr):
    return self.ev(n.value, fr)

  def e_Starred(self, n, fr):
    return self.ev(n.value, fr)

  def e_Tuple(self, n, fr, kind='tuple'):
    items, exact, extra = [], True, BOT
    deps = EMPTY
    for e in n.elts:
      v = self.ev(e, fr)
      if isinstance(e, ast.Starred):
        ex = self.exact_items(v)
        if ex is not None:
          items += ex
        else:
          exact = False
          extra = extra.join(self.elem_of(v))
        deps |= v.deps
      else:
        items.append(v)
    o = O(kind, items=items) if exact else O(
        kind, elem=joinall(items).join(extra))
    return self.alloc(fr, n, o).with_deps(deps)

  def e_List(self, n, fr):
    return self.e_Tuple(n, fr, 'list')

  def e_Set(self, n, fr):
    el = BOT
    for e in n.elts:
      v = self.ev(e, fr)
      el = el.join(self.elem_of(v) if isinstance(e, ast.Starred) else v)
    return self.alloc(fr, n, O('set', elem=el))

  def e_Dict(self, n, fr):
    items, el, keys = {}, BOT, BOT
    for k, v in zip(n.keys, n.values):
      vv = self.ev(v, fr)
      if k is None:
        for _, o in self.objs(vv):
          if isinstance(o.items, dict):
            items.update(o.items)
          el = el.join(o.elem)
          keys = keys.join(o.keys)
        continue
      kv = self.ev(k, fr)
      kc = kv.const()
      if kc is not None:
        items[kc[0]] = vv
      else:
        el = el.join(vv)
        keys = keys.join(kv)
    return self.alloc(fr, n, O('dict', items=items, elem=el, keys=keys))

  def comp(self, n, fr, kind):
    sub = Frame(fr.func, fr.module, {}, fr, fr.cls, fr.ctx + (id(n),))
    sub.pc = fr.pc
    sub.self_val = fr.self_val
    deps = EMPTY
    dead = False
    exact = None
    for gi, g in enumerate(n.generators):
      it = self.ev(g.iter, sub)
      self.emit('iter', frame=fr, node=n, val=it, how='comp:' + kind)
      if kind in ('list', 'gen') and len(n.generators) == 1 and not g.ifs:
        exact = self.exact_items(it)
      el = self.elem_of(it, sub, n)
      deps |= it.deps
      if el.is_bottom() and exact != []:
        if any(o.kind == 'ext' for _, o in self.objs(it)) or it.top:
          el = TOP.with_deps(el.deps)
        else:
          dead = True
      if exact:
        continue
      self.assign(g.target, el.with_deps(it.deps), sub, n)
      for c in g.ifs:
        cv = self.ev(c, sub)
        deps |= self.deep_deps(cv)
        self.refine(c, True, sub)
    if exact is not None and exact:
      items = []
      g = n.generators[0]
      for x in exact:
        self.assign(g.target, x, sub, n)
        sub.ctx = fr.ctx + (id(n), len(items))
        items.append(self.ev(n.elt, sub))
      return self.alloc(fr, n, O('list', items=items)).with_deps(deps)
    if dead or exact == []:
      return self.alloc(fr, n, O(kind if kind != 'gen' else 'list',
                                 items=[] if kind in ('list', 'gen')
                                 else None)).with_deps(deps)
    if kind == 'dict':
      k = self.ev(n.key, sub)
      v = self.ev(n.value, sub)
      return self.alloc(fr, n, O('dict', items=None, elem=v,
                                 keys=k)).with_deps(deps)
    v = self.ev(n.elt, sub)
    return self.alloc(fr, n, O('list' if kind == 'gen' else kind, elem=v)
                      ).with_deps(deps)

  def e_ListComp(self, n, fr):
    return self.comp(n, fr, 'list')

  def e_GeneratorExp(self, n, fr):
    return self.comp(n, fr, 'gen')

  def e_SetComp(self, n, fr):
    return self.comp(n, fr, 'set')

  def e_DictComp(self, n, fr):
    return self.comp(n, fr, 'dict')

  def e_Lambda(self, n, fr):
    f = FuncInfo(n, fr.module, None, outer=fr.func)
    cache = getattr(self, '_lams', None)
    if cache is None:
      cache = self._lams = {}
    key = (id(n), fr.ctx)
    if key not in cache:
      cache[key] = ('closure', f, fr)
    else:
      cache[key] = ('closure', cache[key][1], fr)
    return V(refs=frozenset([cache[key]]))

  def e_IfExp(self, n, fr):
    t = self.ev(n.test, fr)
    tr = self.truth(t)
    if tr is True:
      return self.ev(n.body, fr)
    if tr is False:
      return self.ev(n.orelse, fr)
    snap = self.snapshot(fr)
    deps = self.deep_deps(t)
    outs, vals = [], []
    for br, e in ((True, n.body), (False, n.orelse)):
      self.restore(fr, snap)
      self.refine(n.test, br, fr)
      try:
        vals.append(self.ev(e, fr))
        outs.append(self.snapshot(fr))
      except AbsRaise:
        self.note_raise(fr)
    if not outs:
      raise AbsRaise()
    l = {k: v for k, v in snap[0].items()}
    self.join_into(fr, outs)
    for k, v in l.items():
      fr.locals.setdefault(k, v)
    return joinall(vals).with_deps(deps)

  def e_BoolOp(self, n, fr):
    is_and = isinstance(n.op, ast.And)
    out, deps = BOT, EMPTY
    for i, e in enumerate(n.values):
      v = self.ev(e, fr)
      deps |= v.deps
      t = self.truth(v)
      last = i == len(n.values) - 1
      if last:
        out = out.join(v)
        break
      if t is not None and t != is_and:
        out = out.join(v)
        break
      if t is None:
        # keep the part that can short-circuit
        if is_and:
          refs = frozenset(r for r in v.refs if self.truth(
              V(refs=frozenset([r]))) is not True)
          out = out.join(V(frozenset(c for c in v.consts if not c[1]), refs,
                           v.deps, v.top))
        else:
          out = out.join(V(frozenset(c for c in v.consts if c[1]), v.refs,
                           v.deps, v.top))
    return out.with_deps(deps)

  def e_UnaryOp(self, n, fr):
    v = self.ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
      t = self.truth(v)
      if t is None:
        return V(frozenset([ck(True), ck(False)]), deps=self.deep_deps(v))
      return C(not t).with_deps(v.deps)
    c = v.const()
    if c is not None and isinstance(c[0], (int, float)):
      if isinstance(n.op, ast.USub):
        return C(-c[0]).with_deps(v.deps)
    if isinstance(n.op, ast.USub):
      for r in v.refs:
        o = self.obj(r)
        if o is not None and o.kind == 'inst':
          m = o.cls.lookup('__neg__')
          if m:
            return self.safe_call(m, [], {}, n, fr,
                                  self_val=V(refs=frozenset([r])))
    if isinstance(n.op, ast.Invert):
      return self.mask(fr, n, self.deep_deps(v))
    return self.ext(fr, n, self.deep_deps(v))

  DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
            'Pow': 'pow', 'Mod': 'mod', 'FloorDiv': 'floordiv',
            'BitOr': 'or', 'BitAnd': 'and', 'MatMult': 'matmul',
            'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}

  def e_BinOp(self, n, fr):
    l = self.ev(n.left, fr)
    r = self.ev(n.right, fr)
    self.emit('binop', frame=fr, node=n, left=l, right=r,
              op=type(n.op).__name__)
    return self.binop(type(n.op).__name__, l, r, fr, n)

  def binop(self, op, l, r, fr, n):
    out = BOT
    d = self.DUNDER.get(op)
    handled = False
    for a, b, name in ((l, r, '__%s__' % d), (r, l, '__r%s__' % d)):
      insts = [(x, self.obj(x)) for x in a.refs]
      insts = [(x, o) for x, o in insts
               if o is not None and o.kind == 'inst' and o.cls.lookup(name)]
      if insts:
        handled = True
        for x, o in insts:
          try:
            out = out.join(self.safe_call(o.cls.lookup(name), [b], {}, n, fr,
                                          self_val=V(refs=frozenset([x]))))
          except AbsRaise:
            pass
        if len(insts) == len(a.refs) and not a.top and not a.consts:
          return out.with_deps(a.deps | b.deps)
        break
    lc, rc = l.const(), r.const()
    if lc is not None and rc is not None:
      try:
        v = self.fold(op, lc[0], rc[0])
        return out.join(C(v)).with_deps(l.deps | r.deps)
      except Exception:  # pylint: disable=broad-except
        pass
    seq = [o for x in (l, r) for _, o in self.objs(x)
           if o.kind in ('list', 'tuple')]
    if op == 'Add' and seq:
      kind = seq[0].kind
      li, ri = self.exact_items(l), self.exact_items(r)
      if li is not None and ri is not None:
        v = self.alloc(fr, n, O(kind, items=li + ri))
      else:
        v = self.alloc(fr, n, O(kind, elem=self.elem_of(l).join(
            self.elem_of(r))))
      return out.join(v).with_deps(l.deps | r.deps)
    sets = [o for x in (l, r) for _, o in self.objs(x) if o.kind == 'set']
    if sets and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
      return self.alloc(fr, n, O('set', elem=self.elem_of(l).join(
          self.elem_of(r)))).with_deps(l.deps | r.deps)
    if op == 'Mult' and seq:
      src = l if any(o.kind in ('list', 'tuple') for _, o in self.objs(l)
                     ) else r
      return self.alloc(fr, n, O(seq[0].kind, elem=self.elem_of(src))
                        ).with_deps(l.deps | r.deps)
    deps = self.deep_deps(l, r)
    if handled:
      return out.join(V(top=True, deps=deps))
    if self.is_strish(l) or (op == 'Mod' and self.is_strish(l)):
      return V(top=True, deps=deps)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
      return self.mask(fr, n, deps)
    return self.ext(fr, n, deps)

  def is_strish(self, v):
    return bool(v.strs()) and not v.refs

  def fold(self, op, a, b):
    if op == 'Add':
      return a + b
    if op == 'Sub':
      return a - b
    if op == 'Mult' and not isinstance(a, str) and not isinstance(b, str):
      return a * b
    if op == 'Div':
      return a / b
    if op == 'Pow' and abs(a) < 1000 and abs(b) < 10:
      return a**b
    if op == 'Mod':
      return a % b
    raise ValueError(op)

  def e_Compare(self, n, fr):
    l = self.ev(n.left, fr)
    vals = [l] + [self.ev(c, fr) for c in n.comparators]
    deps = frozenset().union(*[self.deep_deps(v) for v in vals])
    self.emit('compare', frame=fr, node=n, vals=vals)
    h = self.compared(n, fr, vals)
    if h is not None:
      return h
    if len(n.ops) == 1:
      t = self.compare(n.ops[0], vals[0], vals[1])
      if t is not None:
        return C(t).with_deps(deps)
    return V(frozenset([ck(True), ck(False)]), deps=deps)

  def compared(self, n, fr, vals):
    return None

  def compare(self, op, a, b):
    ac, bc = a.const(), b.const()
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
      pos = isinstance(op, (ast.Is, ast.Eq))
      for x, xc, y in ((a, ac, b), (b, bc, a)):
        if xc is not None and xc[0] is None:
          if not y.top and ck(None) not in y.consts and all(
              r[0] != 'o' or (self.obj(r) is not None and
                              self.obj(r).kind != 'ext') for r in y.refs):
            return not pos
          if y.const() is not None and y.const()[0] is None:
            return pos
      if ac is not None and bc is not None:
        return (ac[0] == bc[0]) == pos
      if not a.top and not b.top and not a.refs and not b.refs and (
          a.consts and b.consts) and not (
              {c[1] for c in a.consts} & {c[1] for c in b.consts}):
        return not pos
      ca = [r for r in a.refs if r[0] == 'cls']
      cb = [r for r in b.refs if r[0] == 'cls']
      if len(ca) == 1 == len(a.refs) and len(cb) == 1 == len(b.refs) and (
          not a.top and not b.top and not a.consts and not b.consts):
        return (ca[0][1] is cb[0][1]) == pos
      return None
    if isinstance(op, (ast.In, ast.NotIn)):
      pos = isinstance(op, ast.In)
      items = self.exact_items(b)
      if items is not None and ac is not None and all(
          i.const() is not None for i in items):
        return (ac[0] in [i.const()[0] for i in items]) == pos
      return None
    if ac is not None and bc is not None:
      try:
        x, y = ac[0], bc[0]
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
      except (TypeError, KeyError):
        return None
    return None

  def e_JoinedStr(self, n, fr):
    deps = EMPTY
    consts = ['']
    exact = True
    for x in n.values:
      if isinstance(x, ast.Constant):
        consts[0] += str(x.value)
      else:
        v = self.ev(x.value, fr)
        deps |= self.deep_deps(v)
        c = v.const()
        if c is not None and x.format_spec is None and x.conversion == -1:
          consts[0] += str(c[0])
        else:
          exact = False
    if exact:
      return C(consts[0]).with_deps(deps)
    return V(top=True, deps=deps)

  def e_NamedExpr(self, n, fr):
    v = self.ev(n.value, fr)
    self.assign(n.target, v, fr, n)
    return v

  def e_Yield(self, n, fr):
    v = self.ev(n.value, fr) if n.value is not None else NONE
    f = fr
    f.yields = f.yields.join(v.with_deps(fr.pc))
    return TOP

  def e_YieldFrom(self, n, fr):
    v = self.ev(n.value, fr)
    fr.yields = fr.yields.join(self.elem_of(v))
    return TOP

  def e_Await(self, n, fr):
    return self.ev(n.value, fr)

  # --------------------------------------------------------------------- call
  def e_Call(self, n, fr):
    f = n.func
    if isinstance(f, ast.Name) and f.id == 'super' and fr.lookup(
        'super') is None:
      return self.make_super(n, fr)
    args, kwargs, star, dstar = [], {}, None, None
    recv = None
    mname = None
    if isinstance(f, ast.Attribute):
      recv = self.ev(f.value, fr)
      mname = f.attr
      fv = None
    else:
      fv = self.ev(f, fr)
    for a in n.args:
      v = self.ev(a, fr)
      if isinstance(a, ast.Starred):
        ex = self.exact_items(v)
        if ex is not None and star is None:
          args += ex
        else:
          star = v if star is None else star.join(v)
      elif star is None:
        args.append(v)
      else:
        star = star.join(self.alloc(fr, a, O('list', elem=v), 'st'))
    for k in n.keywords:
      v = self.ev(k.value, fr)
      if k.arg is None:
        dstar = v if dstar is None else dstar.join(v)
      else:
        kwargs[k.arg] = v
    if fv is None:
      return self.call_method(n, fr, recv, mname, args, kwargs, star, dstar)
    return self.call_value(n, fr, fv, args, kwargs, star, dstar)

  def make_super(self, n, fr):
    if n.args:
      c = self.ev(n.args[0], fr)
      s = self.ev(n.args[1], fr)
      after = next((r[1] for r in c.refs if r[0] == 'cls'), None)
    else:
      g = fr
      while g is not None and (g.cls is None or not g.func.params):
        g = g.parent
      if g is None:
        return TOP
      after = g.cls
      s = g.locals.get(g.func.params[0], TOP)
    out = BOT
    for r in s.refs:
      o = self.obj(r)
      if o is not None and o.kind == 'inst' and after is not None:
        out = out.join(V(refs=frozenset([
            ('super', o.cls, after, V(refs=frozenset([r])))])))
    return out if not out.is_bottom() else TOP

  def call_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    out = BOT
    allargs = args + list(kwargs.values()) + [x for x in (star, dstar)
                                              if x is not None]
    if recv.top:
      out = out.join(self.unknown_method(n, fr, V(
          deps=recv.deps, top=True), name, args, kwargs, star, dstar))
    if recv.consts:
      cs = V(recv.consts, deps=recv.deps)
      if recv.strs():
        out = out.join(self.str_method(n, fr, cs, name, args, kwargs, star))
      elif not recv.refs and not recv.top and all(
          c[1] is None for c in recv.consts):
        raise AbsRaise()
    reached = bool(recv.top or recv.strs())
    for r in sorted(recv.refs, key=lambda x: str(x)[:80]):
      try:
        one = V(refs=frozenset([r]), deps=recv.deps)
        k = r[0]
        if k == 'o':
          o = self.obj(r)
          if o is None or o.kind == 'ext':
            res = self.ext_method(n, fr, one, name, args, kwargs, star, dstar)
          elif o.kind == 'inst':
            av = self.load_attr(V(refs=frozenset([r])), name, fr, n)
            res = self.call_value(n, fr, av, args, kwargs, star, dstar)
          else:
            res = self.container_method(n, fr, one, o, name, args, kwargs,
                                        star)
        else:
          av = self.load_attr(V(refs=frozenset([r])), name, fr, n)
          res = self.call_value(n, fr, av, args, kwargs, star, dstar)
        out = out.join(res)
        reached = True
      except AbsRaise:
        self.note_raise(fr)
    if not reached and recv.refs:
      raise AbsRaise()
    if not reached and not recv.refs:
      return self.ext(fr, n, self.deep_deps(recv, *allargs))
    return out

  def str_method(self, n, fr, recv, name, args, kwargs, star):
    c = recv.const()
    deps = self.deep_deps(recv, *args, *kwargs.values())
    if star is not None:
      deps |= self.deep_deps(star)
    for a in args:
      self.emit('iter', frame=fr, node=n, val=a, how='str.' + name)
    if c is not None and star is None:
      acs = [a.const() for a in args]
      kcs = {k: v.const() for k, v in kwargs.items()}
      if all(x is not None for x in acs) and all(
          x is not None for x in kcs.values()) and name in STR_METHODS:
        try:
          v = getattr(c[0], name)(*[x[0] for x in acs],
                                  **{k: x[0] for k, x in kcs.items()})
          if isinstance(v, (str, bool, int)):
            return C(v).with_deps(deps)
        except Exception:  # pylint: disable=broad-except
          pass
    if name in ('split', 'rsplit', 'splitlines'):
      return self.alloc(fr, n, O('list', elem=V(top=True, deps=deps)))
    if name in ('startswith', 'endswith', 'isdigit'):
      return V(frozenset([ck(True), ck(False)]), deps=deps)
    return V(top=True, deps=deps)

  def unknown_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    self.emit('call', frame=fr, node=n, kind='unknown', name=name, recv=recv,
              args=args, kwargs=kwargs, star=star, dstar=dstar)
    deps = self.deep_deps(recv, *args, *kwargs.values(),
                          *[x for x in (star, dstar) if x is not None])
    deps |= self.callback_deps(n, fr, args + list(kwargs.values()), deps)
    if name in STR_METHODS and not any(True for _ in self.objs(recv)):
      return V(top=True, deps=deps)
    return self.ext(fr, n, deps, name)

  def callback_deps(self, n, fr, vals, deps):
    """Callables handed to unknown code are assumed to be called."""
    out = set()
    for v in vals:
      for r in v.refs:
        if r[0] in ('closure', 'fn', 'bound'):
          f = r[1]
          a = [TOP.with_deps(deps) for p in f.params]
          if r[0] == 'bound':
            a = a[1:]
          elif r[0] == 'fn' and f.cls is not None and not f.is_static:
            continue
          try:
            res = self.call_value(n, fr, V(refs=frozenset([r])), a, {}, None,
                                  None)
            out |= self.deep_deps(res)
          except AbsRaise:
            pass
    return frozenset(out)

  def ext_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    vals = args + list(kwargs.values()) + [x for x in (star, dstar)
                                           if x is not None]
    o1 = next((self.obj(r) for r in recv.refs), None)
    if o1 is not None and o1.tag == 'str' and name in STR_METHODS:
      self.emit('call', frame=fr, node=n, kind='str', name=name,
                recv=recv, args=args, kwargs=kwargs, star=star, dstar=dstar)
      for a in args:
        self.emit('iter', frame=fr, node=n, val=a, how='str.' + name)
      d = self.deep_deps(recv, *vals)
      if name in ('split', 'rsplit', 'splitlines'):
        return self.alloc(fr, n, O('list', elem=V(top=True, deps=d)))
      if name in ('startswith', 'endswith', 'isdigit'):
        return V(frozenset([ck(True), ck(False)]), deps=d)
      return V(top=True, deps=d)
    if self.policy is not None:
      r = self.policy.ext_method(self, n, fr, recv, name, args, kwargs)
      if r is not None:
        return r
    self.emit('call', frame=fr, node=n, kind='ext_method', name=name,
              recv=recv, args=args, kwargs=kwargs, star=star, dstar=dstar)
    deps = self.deep_deps(recv, *vals)
    deps |= self.callback_deps(n, fr, args + list(kwargs.values()), deps)
    inplace = kwargs.get('inplace')
    data = o1 is not None and o1.tag in ('DataFrame', 'Series', 'ndarray')
    if data:
      rv = n.func.value if isinstance(n, ast.Call) and isinstance(
          n.func, ast.Attribute) else None
      writes = name in FRAME_MUTATORS and not (
          isinstance(rv, ast.Attribute) and rv.attr in (
              'index', 'columns', 'str', 'dt', 'cat', 'dtypes'))
    else:
      writes = name in MUTATORS or name in self.self_mutating
    if writes or (
        inplace is not None and self.truth(inplace) is not False):
      how = name if inplace is None else name + '(inplace)'
      self.emit('mutate', frame=fr, node=n, base=recv, how=how,
                val=joinall(vals))
      d = self.deep_deps(*vals) | fr.pc
      for r in recv.refs:
        o = self.obj(r)
        if o is not None:
          nn = o.copy()
          nn.deps = nn.deps | d
          for v in vals:
            nn.elem = nn.elem.join(V(refs=v.refs, deps=v.deps))
          self.heap[r[1]] = nn
    if name in MASK_METHODS:
      return self.mask(fr, n, deps | fr.pc, name)
    res = self.ext(fr, n, deps | fr.pc, name)
    if name in VIEW_METHODS or name in self.returns_self:
      res = res.join(recv)
      if name in ('get', 'setdefault', 'pop') and len(args) > 1:
        res = res.join(args[1])
    if name in ('groupby', 'query', 'copy'):
      pass
    return res

  def container_method(self, n, fr, recv, o, name, args, kwargs, star):
    r = next(iter(recv.refs))
    kind = o.kind
    self.emit('call', frame=fr, node=n, kind='container', name=name,
              recv=recv, args=args, kwargs=kwargs, star=star, dstar=None)
    vals = args + list(kwargs.values())
    if name in MUTATORS:
      self.emit('mutate', frame=fr, node=n, base=recv, how=name,
                val=joinall(vals))
    pc = V(deps=fr.pc)
    if kind in ('list', 'tuple', 'set'):
      if name in ('append', 'add', 'appendleft'):
        v = (args[0] if args else BOT).with_deps(fr.pc)
        if (name == 'append' and isinstance(o.items, list) and
            not o.summary and not fr.loops):
          nn = o.copy()
          nn.items = nn.items + [v]
          self.heap[r[1]] = nn
        else:
          self.add_elem(recv, v)
        return NONE
      if name == 'insert':
        self.add_elem(recv, args[1] if len(args) > 1 else BOT)
        return NONE
      if name in ('extend', 'update', 'union', 'intersection', 'difference',
                  'symmetric_difference'):
        for a in args:
          self.emit('iter', frame=fr, node=n, val=a, how=kind + '.' + name)
        el = joinall(self.elem_of(a) for a in args)
        if star is not None:
          el = el.join(self.elem_of(self.elem_of(star)))
        if name in ('extend', 'update'):
          self.add_elem(recv, el.with_deps(fr.pc))
          return NONE
        return self.alloc(fr, n, O('set', elem=o.all_elem().join(el))
                          ).with_deps(recv.deps)
      if name == 'pop':
        if isinstance(o.items, list):
          nn = o.copy()
          nn.elem = o.all_elem()
          nn.items = None
          self.heap[r[1]] = nn
        return o.all_elem().with_deps(recv.deps)
      if name == 'copy':
        return self.deepcopy(recv, fr, n, shallow=True)
      if name in ('index', 'count'):
        return V(top=True, deps=self.deep_deps(recv, *args))
      if name in ('sort', 'reverse', 'remove', 'clear', 'discard'):
        nn = o.copy()
        nn.elem = o.all_elem()
        nn.items = None
        self.heap[r[1]] = nn
        return NONE
      if name in ('issubset', 'issuperset', 'isdisjoint'):
        return V(frozenset([ck(True), ck(False)]),
                 deps=self.deep_deps(recv, *args))
    if kind == 'dict':
      if name == 'items':
        if isinstance(o.items, dict):
          vs = []
          for i, (k, v) in enumerate(o.items.items()):
            vs.append(self.alloc(fr, n, O('tuple', items=[C(k), v]),
                                 'it%d' % i))
          if not o.elem.is_bottom():
            t = self.alloc(fr, n, O('tuple', items=[
                o.keys if not o.keys.is_bottom() else TOP, o.elem]), 'itx')
            return self.alloc(fr, n, O('list', elem=joinall(vs).join(t)),
                              'its').with_deps(recv.deps)
          return self.alloc(fr, n, O('list', items=vs), 'its').with_deps(
              recv.deps)
        t = self.alloc(fr, n, O('tuple', items=[
            o.keys if not o.keys.is_bottom() else TOP, o.elem]), 'itx')
        return self.alloc(fr, n, O('list', elem=t), 'its').with_deps(recv.deps)
      if name == 'values':
        if isinstance(o.items, dict) and o.elem.is_bottom():
          return self.alloc(fr, n, O('list', items=list(o.items.values()))
                            ).with_deps(recv.deps)
        return self.alloc(fr, n, O('list', elem=o.all_elem())).with_deps(
            recv.deps)
      if name == 'keys':
        return self.alloc(fr, n, O('list', elem=self.elem_of(recv))
                          ).with_deps(recv.deps)
      if name in ('get', 'pop', 'setdefault'):
        k = args[0] if args else TOP
        d = args[1] if len(args) > 1 else (NONE if name == 'get' else BOT)
        kc = k.const()
        out = o.elem
        if kc is not None and isinstance(o.items, dict):
          if kc[0] in o.items:
            out = out.join(o.items[kc[0]])
            if o.elem.is_bottom() and not o.summary:
              d = BOT
          out = out.join(d)
        else:
          out = o.all_elem().join(d)
        if name == 'setdefault':
          self.set_item(recv, k, d if not d.is_bottom() else out, fr)
        return out.with_deps(recv.deps | k.deps)
      if name == 'update':
        for a in args:
          for _, x in self.objs(a):
            if x.kind == 'dict':
              nn = self.obj(r).copy()
              if isinstance(x.items, dict) and isinstance(nn.items, dict):
                nn.items.update(x.items)
              else:
                nn.elem = nn.elem.join(x.all_elem())
              nn.elem = nn.elem.join(x.elem)
              nn.keys = nn.keys.join(x.keys)
              self.heap[r[1]] = nn
            else:
              self.add_elem(recv, V(refs=a.refs, deps=self.deep_deps(a)))
          if a.top:
            self.add_elem(recv, a)
        for k, v in kwargs.items():
          self.set_item(recv, C(k), v, fr)
        return NONE
      if name == 'copy':
        return self.deepcopy(recv, fr, n, shallow=True)
      if name == 'clear':
        return NONE
    return self.ext(fr, n, self.deep_deps(recv, *vals), name)

  # ---- calling values
  def call_value(self, n, fr, fv, args, kwargs, star, dstar):
    out = BOT
    ok = False
    vals = args + list(kwargs.values()) + [x for x in (star, dstar)
                                           if x is not None]
    if fv.top or fv.consts or not fv.refs:
      self.emit('call', frame=fr, node=n, kind='opaque', name=None, recv=fv,
                args=args, kwargs=kwargs, star=star, dstar=dstar)
      deps = self.deep_deps(fv, *vals)
      deps |= self.callback_deps(n, fr, args + list(kwargs.values()), deps)
      out = out.join(self.ext(fr, n, deps, 'opq'))
      ok = True
    for r in sorted(fv.refs, key=lambda x: str(x)[:80]):
      try:
        out = out.join(self.call_ref(n, fr, r, args, kwargs, star, dstar))
        ok = True
      except AbsRaise:
        self.note_raise(fr)
    if not ok:
      raise AbsRaise()
    return out.with_deps(fv.deps)

  def call_ref(self, n, fr, r, args, kwargs, star, dstar):
    k = r[0]
    vals = args + list(kwargs.values()) + [x for x in (star, dstar)
                                           if x is not None]
    if k in ('bound', 'fn'):
      f = r[1]
      sv = r[2]
      if f.is_classmethod:
        sv = V(refs=frozenset([('cls', f.cls)]))
      b = self.bind(f, args, kwargs, star, dstar,
                    self_val=sv if k == 'bound' or f.is_classmethod else None,
                    frame=fr, node=n)
      self.emit('call', frame=fr, node=n, kind='repo', name=f.name, func=f,
                bound=b, args=args, kwargs=kwargs, star=star, dstar=dstar,
                recv=sv)
      if f.module.name in self.opaque_modules:
        deps = self.deep_deps(*b.values())
        return self.ext(fr, n, deps | fr.pc, f.name)
      if f.name in self.summaries:
        return self.ext(fr, n, self.deep_deps(
            *b.values(), skip_attrs=self.summary_skip) | fr.pc, f.name)
      if f.name in self.EXPAND and any(
          x.func is not None and x.func.name == f.name for x in self.stack):
        return self.ext(fr, n, self.deep_deps(
            *b.values(), skip_attrs=self.summary_skip) | fr.pc, f.name)
      if f.name in self.nested_methods and k == 'bound' and (
          self.is_nested(sv) or any(x.func is f for x in self.stack)):
        self.emit('nested', frame=fr, node=n, func=f, bound=b, recv=sv)
        return self.ext(fr, n, self.deep_deps(
            *b.values(), skip_attrs=self.summary_skip) | fr.pc, f.name)
      if self.policy is not None:
        res = self.policy.repo_call(self, n, fr, f, b, sv)
        if res is not None:
          return res
      return self.call_func(f, b, n, fr)
    if k == 'closure':
      f = r[1]
      b = self.bind(f, args, kwargs, star, dstar, frame=fr, node=n)
      return self.call_func(f, b, n, fr, parent=r[2])
    if k == 'cls':
      return self.instantiate(n, fr, r[1], args, kwargs, star, dstar)
    if k == 'ext':
      return self.call_ext(n, fr, r[1], args, kwargs, star, dstar)
    if k == 'o':
      o = self.obj(r)
      if o is not None and o.kind == 'inst':
        m = o.cls.lookup('__call__')
        if m:
          return self.safe_call(m, args, kwargs, n, fr,
                                self_val=V(refs=frozenset([r])))
      deps = self.deep_deps(V(refs=frozenset([r])), *vals)
      self.emit('call', frame=fr, node=n, kind='opaque', name=None,
                recv=V(refs=frozenset([r])), args=args, kwargs=kwargs,
                star=star, dstar=dstar)
      deps |= self.callback_deps(n, fr, args + list(kwargs.values()), deps)
      return self.ext(fr, n, deps, 'opq')
    if k == 'typeof':
      return self.ext(fr, n, self.deep_deps(*vals), 'typeof')
    return self.ext(fr, n, self.deep_deps(*vals), 'other')

  def instantiate(self, n, fr, cls, args, kwargs, star, dstar):
    if cls.module.name in self.opaque_modules:
      vals = args + list(kwargs.values()) + [x for x in (star, dstar)
                                             if x is not None]
      init = cls.lookup('__init__')
      bound = self.bind(init, args, kwargs, star, dstar,
                        self_val=TOP, frame=fr, node=n) if init else {}
      v = self.alloc(fr, n, O('ext', cls=cls, tag=cls.name,
                              deps=self.deep_deps(*vals) | fr.pc,
                              elem=V(refs=joinall(vals).refs)),
                     'sum:' + cls.name)
      v = v.with_deps(self.deep_deps(*vals))
      self.emit('new', frame=fr, node=n, cls=cls, args=args, kwargs=kwargs,
                val=v, star=star, dstar=dstar, bound=bound)
      return v
    v = self.alloc(fr, n, O('inst', cls=cls), 'inst:' + cls.name)
    self.emit('new', frame=fr, node=n, cls=cls, args=args, kwargs=kwargs,
              val=v, star=star, dstar=dstar)
    init = cls.lookup('__init__')
    if init:
      b = self.bind(init, args, kwargs, star, dstar, self_val=v, frame=fr,
                    node=n)
      self.emit('init', frame=fr, node=n, cls=cls, func=init, bound=b)
      self.call_func(init, b, n, fr)
    else:
      self.add_elem(v, joinall(args + list(kwargs.values())))
    return v

  def call_ext(self, n, fr, name, args, kwargs, star, dstar):
    vals = args + list(kwargs.values()) + [x for x in (star, dstar)
                                           if x is not None]
    self.emit('call', frame=fr, node=n, kind='ext', name=name, recv=None,
              args=args, kwargs=kwargs, star=star, dstar=dstar)
    short = name[len('builtins.'):] if name.startswith('builtins.') else None
    a0 = args[0] if args else BOT
    if name in EXT_MUTATORS and args:
      self.emit('mutate', frame=fr, node=n, base=a0, how=name,
                val=joinall(vals))
    if kwargs.get('out') is not None:
      self.emit('mutate', frame=fr, node=n, base=kwargs['out'], how='out=',
                val=joinall(vals))
    if name in ('copy.deepcopy', 'copy.copy'):
      return self.deepcopy(a0, fr, n, shallow=name == 'copy.copy')
    if short in SHALLOW:
      deps = frozenset().union(*[v.deps for v in vals], *[
          o.deps for v in vals for _, o in self.objs(v)])
    else:
      deps = self.deep_deps(*vals)
    if short:
      r = self.builtin(n, fr, short, a0, args, kwargs, star, vals, deps)
      if r is not None:
        return r
    if name.startswith('object.__init__'):
      return NONE
    if name in ('itertools.chain', 'itertools.cycle', 'itertools.product',
                'functools.reduce', 'collections.OrderedDict') and not (
                    name == 'collections.OrderedDict' and not args):
      el = joinall(self.elem_of(a) for a in args)
      return self.alloc(fr, n, O('list', elem=el)).with_deps(deps)
    if name == 'collections.OrderedDict':
      return self.alloc(fr, n, O('dict', items={}))
    deps |= self.callback_deps(n, fr, args + list(kwargs.values()), deps)
    res = self.ext(fr, n, deps | fr.pc, name)
    copies = kwargs.get('copy')
    if name in MAY_ALIAS or (name == 'numpy.array' and copies is not None and
                             self.truth(copies) is not True):
      # the result can share its memory with an array passed in
      al = frozenset(r for r in a0.refs if r[0] == 'o' and self.obj(
          r) is not None and self.obj(r).tag in ('ndarray', 'Series'))
      if al:
        res = res.join(V(refs=al))
    return res

  def type_matches(self, v, tv):
    """isinstance(v, tv) -> True/False/None."""
    types = []
    stack = [tv]
    while stack:
      t = stack.pop()
      if t.top or t.consts:
        return None
      for r in t.refs:
        if r[0] in ('cls', 'ext'):
          types.append(r)
        elif r[0] == 'o':
          it = self.obj(r)
          if it is None or it.kind not in ('tuple', 'list'):
            return None
          stack.append(it.all_elem())
        else:
          return None
    if not types or v.top:
      return None
    res = set()
    extn = {t[1] for t in types if t[0] == 'ext'}
    clss = [t[1] for t in types if t[0] == 'cls']
    CONT = {'list': {'builtins.list', 'collections.abc.Iterable',
                     'typing.Iterable', 'typing.List', 'typing.Sequence'},
            'tuple': {'builtins.tuple', 'collections.abc.Iterable',
                      'typing.Iterable', 'typing.Tuple', 'typing.Sequence'},
            'set': {'builtins.set', 'collections.abc.Iterable',
                    'typing.Iterable'},
            'dict': {'builtins.dict', 'collections.abc.Iterable',
                     'typing.Iterable', 'typing.Dict'}}
    for t, c in v.consts:
      names = {'builtins.' + b.__name__ for b in type(c).__mro__}
      if isinstance(c, str):
        names |= {'collections.abc.Iterable', 'typing.Iterable',
                  'typing.Text', 'typing.Sequence'}
      if isinstance(c, (int, float)):
        names.add('numbers.Number')
      res.add(bool(extn & names))
    for r in v.refs:
      if r[0] != 'o':
        res.add(False)
        continue
      o = self.obj(r)
      if o is not None and o.kind == 'ext' and o.tag in EXT_TYPES:
        res.add(bool(extn & EXT_TYPES[o.tag]))
        continue
      if o is None or o.kind == 'ext':
        return None
      if o.kind == 'inst':
        if any(o.cls.is_subclass(c) for c in clss):
          res.add(True)
        elif extn & {'collections.abc.Iterable', 'typing.Iterable'} and (
            o.cls.lookup('__iter__')):
          res.add(True)
        else:
          res.add(False)
      else:
        res.add(bool(extn & CONT.get(o.kind, set())))
    return res.pop() if len(res) == 1 else None

  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    BOOL = V(frozenset([ck(True), ck(False)]), deps=deps)
    if name == 'isinstance':
      t = self.type_matches(a0, args[1]) if len(args) > 1 else None
      return C(t).with_deps(a0.deps) if t is not None else V(
          BOOL.consts, deps=a0.deps)
    if name in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed',
                'iter', 'enumerate'):
      if args:
        self.emit('iter', frame=fr, node=n, val=a0, how=name)
      kind = {'set': 'set', 'frozenset': 'set', 'tuple': 'tuple'}.get(
          name, 'list')
      if not args:
        return self.alloc(fr, n, O(kind, items=[] if kind != 'set' else None))
      if name == 'enumerate':
        ex = self.exact_items(a0)
        if ex is not None:
          return self.alloc(fr, n, O('list', items=[
              self.alloc(fr, n, O('tuple', items=[C(i), x]), 'en%d' % i)
              for i, x in enumerate(ex)])).with_deps(a0.deps)
        t = self.alloc(fr, n, O('tuple', items=[
            V(top=True), self.elem_of(a0, fr, n)]), 'en')
        return self.alloc(fr, n, O('list', elem=t)).with_deps(a0.deps)
      ex = self.exact_items(a0)
      if name == 'sorted':
        ex = None
      if ex is not None and kind != 'set':
        if name == 'reversed':
          ex = ex[::-1]
        return self.alloc(fr, n, O(kind, items=ex)).with_deps(a0.deps)
      el = self.elem_of(a0, fr, n)
      d = a0.deps
      if name == 'sorted' and 'key' in kwargs:
        d |= self.callback_deps(n, fr, [kwargs['key']], deps)
      return self.alloc(fr, n, O(kind, elem=el)).with_deps(d)
    if name == 'dict':
      items = dict(kwargs)
      el, keys = BOT, BOT
      for _, o in self.objs(a0):
        if o.kind == 'dict':
          if isinstance(o.items, dict):
            items.update(o.items)
          else:
            el = el.join(o.elem)
          el = el.join(o.elem)
          keys = keys.join(o.keys)
        else:
          e = self.elem_of(V(refs=frozenset([('o', _)])))
          for _, t in self.objs(e):
            if t.kind == 'tuple' and isinstance(t.items, list) and len(
                t.items) == 2:
              keys = keys.join(t.items[0])
              el = el.join(t.items[1])
            else:
              el = el.join(self.elem_of(e))
              keys = keys.join(TOP)
          if e.top or (e.is_bottom() and o.kind == 'ext'):
            el = el.join(TOP.with_deps(deps))
      if a0.top:
        el = el.join(TOP.with_deps(deps))
      return self.alloc(fr, n, O('dict', items=items, elem=el, keys=keys)
                        ).with_deps(a0.deps)
    if name == 'zip':
      exs = [self.exact_items(a) for a in args]
      if args and all(e is not None for e in exs) and star is None:
        rows = list(zip(*exs))
        return self.alloc(fr, n, O('list', items=[
            self.alloc(fr, n, O('tuple', items=list(r)), 'z%d' % i)
            for i, r in enumerate(rows)])).with_deps(deps)
      t = self.alloc(fr, n, O('tuple', items=[
          self.elem_of(a, fr, n) for a in args]), 'z')
      d = frozenset().union(*[a.deps for a in args]) if args else EMPTY
      return self.alloc(fr, n, O('list', elem=t)).with_deps(d)
    if name in ('map', 'filter'):
      if len(args) > 1:
        els = [self.elem_of(a, fr, n) for a in args[1:]]
        for a in args[1:]:
          self.emit('iter', frame=fr, node=n, val=a, how=name)
        if name == 'filter':
          el = els[0]
          self.call_quiet(n, fr, a0, els)
        elif any(e.is_bottom() for e in els):
          el = BOT
        else:
          el = self.call_quiet(n, fr, a0, els)
        return self.alloc(fr, n, O('list', elem=el)).with_deps(
            frozenset().union(*[a.deps for a in args[1:]]))
      if star is not None:
        el = self.call_quiet(n, fr, a0, [self.elem_of(self.elem_of(star))])
        return self.alloc(fr, n, O('list', elem=el)).with_deps(deps)
    if name == 'next':
      r = self.elem_of(a0, fr, n)
      if len(args) > 1:
        r = r.join(args[1])
      return r
    if name == 'range':
      return self.alloc(fr, n, O('list', elem=V(top=True, deps=deps)))
    if name == 'type' and len(args) == 1:
      out = BOT
      for r in a0.refs:
        o = self.obj(r)
        if o is not None and o.kind == 'inst':
          out = out.join(V(refs=frozenset([('cls', o.cls)])))
        else:
          out = out.join(TOP)
      if a0.top or a0.consts:
        out = out.join(TOP)
      return out.with_deps(a0.deps)
    if name in ('getattr', 'hasattr'):
      key = args[1] if len(args) > 1 else TOP
      if name == 'hasattr':
        res = set()
        for r in a0.refs:
          o = self.obj(r)
          for s in key.strs():
            if o is None or o.kind == 'ext' or key.top:
              res.add(None)
            elif o.kind == 'inst':
              res.add(s in o.attrs or o.cls.lookup(s) is not None or
                      o.cls.lookup_const(s) is not None)
            else:
              res.add(None)
        if a0.top or a0.consts:
          res.add(None)
        if len(res) == 1 and None not in res:
          return C(res.pop())
        return BOOL
      out = BOT
      d = args[2] if len(args) > 2 else BOT
      if key.consts and not key.top and not key.refs:
        for s in key.strs():
          for r in a0.refs:
            o = self.obj(r)
            one = V(refs=frozenset([r]))
            if o is not None and o.kind == 'inst' and s not in o.attrs and (
                o.cls.lookup(s) is None and o.cls.lookup_const(s) is None
            ) and not o.root:
              out = out.join(d)
            else:
              try:
                out = out.join(self.load_attr(one, s, fr, n))
              except AbsRaise:
                pass
              if o is None or o.kind == 'ext':
                out = out.join(d)
      else:
        for _, o in self.objs(a0):
          out = out.join(joinall(o.attrs.values()))
          if o.kind == 'ext':
            out = out.join(V(refs=a0.refs, deps=o.deps))
        out = out.join(d).join(TOP)
      if a0.top or a0.consts or any(r[0] != 'o' for r in a0.refs):
        out = out.join(TOP).join(d)
      return out.with_deps(a0.deps | key.deps)
    if name == 'setattr' and len(args) == 3:
      key = args[1].const()
      if key is not None:
        self.store_attr(a0, key[0], args[2], fr, n)
      else:
        self.store_attr(a0, '*', args[2], fr, n)
      return NONE
    if name in ('str', 'repr', 'int', 'float', 'len', 'abs', 'round', 'hash',
                'id', 'ord', 'chr', 'format'):
      c = a0.const()
      if name in ('str', 'int', 'float', 'len') and c is not None and len(
          args) == 1:
        try:
          return C({'str': str, 'int': int, 'float': float,
                    'len': len}[name](c[0])).with_deps(deps)
        except Exception:  # pylint: disable=broad-except
          pass
      if name == 'len':
        ex = self.exact_items(a0)
        if ex is not None:
          return C(len(ex)).with_deps(a0.deps)
        return V(top=True, deps=deps)
      return V(top=True, deps=deps)
    if name == 'bool':
      t = self.truth(a0)
      return C(t).with_deps(deps) if t is not None else BOOL
    if name in ('any', 'all', 'callable', 'issubclass'):
      return BOOL
    if name in ('min', 'max', 'sum'):
      for a in args:
        self.emit('iter', frame=fr, node=n, val=a, how=name)
      return self.ext(fr, n, deps, name)
    if name in ('print',):
      return NONE
    if name in ('ValueError', 'NotImplementedError', 'Exception'):
      return self.ext(fr, n, EMPTY, name)
    return None

  def call_quiet(self, n, fr, fv, args):
    try:
      return self.call_value(n, fr, fv, args, {}, None, None)
    except AbsRaise:
      return BOT

  # ------------------------------------------------------------------ drivers
  def new_root_frame(self, module, tag):
    return Frame(None, module, {}, ctx=(tag,))

  def param_obj(self, label, root=None, tag=None, deps=None, extra=''):
    """An unknown external object handed in from outside."""
    oid = ('param', label, extra)
    self.heap[oid] = O('ext', root=root, tag=tag,
                       deps=frozenset(deps if deps is not None else [label]))
    return V(refs=frozenset([('o', oid)]), top=True,
             deps=frozenset(deps if deps is not None else [label]))

  def construct(self, cls, arg_values, tag='ctor'):
    """Builds an instance by abstractly running its constructor."""
    fr = self.new_root_frame(cls.module, tag)
    node = cls.node
    v = self.alloc(fr, node, O('inst', cls=cls, tag='ROOT'),
                   'root:' + cls.name)
    init = cls.lookup('__init__')
    if init is None:
      return v
    b = self.bind(init, [], arg_values, self_val=v, frame=fr, node=node)
    self.emit('init', frame=fr, node=node, cls=cls, func=init, bound=b)
    self.call_func(init, b, node, fr)
    return v

  def call_named(self, selfv, name, args=(), kwargs=None, tag='drv'):
    """Calls a method by name on an abstract instance."""
    (oid, o), = list(self.objs(selfv))
    m = o.cls.lookup(name)
    if m is None:
      raise AnalysisBroken('method %s.%s not found' % (o.cls.name, name))
    fr = self.new_root_frame(o.cls.module, tag + ':' + name)
    b = self.bind(m, list(args), dict(kwargs or {}), self_val=selfv, frame=fr,
                  node=m.node)
    return self.call_func(m, b, m.node, fr)
