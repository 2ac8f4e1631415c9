"""Constant and symbol propagation without merging, for keys and fingerprints.

Values built only from constants and distinct opaque symbols stay exact: lists,
dicts and sets keep their members, pure functions of exact values become
interned terms. Two exact values can then be compared: equal for all values of
the symbols, different whenever the symbols are, or unknown.
"""
import ast

from .absint import (BOT, C, EMPTY, Frame, Interp, NONE, O, TOP, V, AbsRaise,
                     ck, joinall)

# term constructors that map different arguments to different results
INJECTIVE = {'str', 'repr', 'tuple', 'list', 'frozenset', 'set', 'format', '%',
             '+', 'id', 'join', 'dict', 'array'}


def sym(it, label, tag='str'):
  oid = ('sym', tag, label)
  it.heap[oid] = O('ext', tag=tag, deps=frozenset([label.split('#')[0]]))
  return V(refs=frozenset([('o', oid)]),
           deps=frozenset([label.split('#')[0]]))


class Loops(list):
  """The enclosing loops of a statement; those unrolled exactly do not count."""

  def __bool__(self):
    return any(len(x) == 2 for x in self)


IMMUTABLE = ('str', 'number', 'callable')


class ExactInterp(Interp):
  """Interp that keeps containers of known members exact."""
  summaries = frozenset()
  MAX_FRESH = 60
  MAX_REC = 6
  epoch = 0  # objects of earlier epochs are never reused
  reverse_sets = False  # iterate over sets in another order

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.fresh = {}
    self.codes = {}
    self.models = {}

  def alloc(self, frame, node, obj, extra=''):
    key = (frame.ctx if frame else (), id(node), obj.kind, extra)
    n = self.fresh.get(key, 0)
    if n < self.MAX_FRESH:
      self.fresh[key] = n + 1
      if n:
        extra = (extra, n)
    if self.epoch:
      extra = (extra, 'e%d' % self.epoch)
    return super().alloc(frame, node, obj, extra)

  def forget(self, *keep):
    """Starts a new epoch: drops everything not reachable from the values."""
    seen, todo = set(), [r for v in keep for r in v.refs]
    while todo:
      r = todo.pop()
      if r in seen:
        continue
      seen.add(r)
      if r[0] != 'o':
        todo += [y for x in r[2:] if isinstance(x, V) for y in x.refs]
        for x in r[2:]:
          if isinstance(x, Frame):
            f = x
            while f is not None:
              todo += [y for v in f.locals.values() if isinstance(v, V)
                       for y in v.refs]
              f = f.parent
        continue
      o = self.obj(r)
      if o is None:
        continue
      vs = list(o.attrs.values()) + [o.elem, o.keys]
      if isinstance(o.items, dict):
        vs += list(o.items.values())
      elif o.items is not None:
        vs += list(o.items)
      todo += [y for v in vs if isinstance(v, V) for y in v.refs]
    ids = {r[1] for r in seen if r[0] == 'o'}
    self.heap = {i: o for i, o in self.heap.items()
                 if i in ids or (isinstance(i, tuple) and i and i[0] in (
                     'sym', 'model'))}
    self.fresh = {}
    self.epoch += 1

  # ------------------------------------------------------------ canonical form
  def canon(self, v, seen=()):
    """A hashable description of a definite value, or None."""
    if v.top or len(v.consts) + len(v.refs) != 1:
      return None
    for t, c in v.consts:
      if isinstance(c, bool):
        c, t = int(c), 'num'
      elif isinstance(c, (int, float)):
        t = 'num'
      return ('c', t, c)
    for r in v.refs:
      if r[0] == 'cls':
        return ('cls', r[1].name)
      if r[0] == 'ext':
        return ('ext', r[1])
      if r[0] in ('fn', 'bound', 'closure'):
        f = r[1]
        cap = tuple(self.canon(x, seen) for x in r[2:] if isinstance(x, V))
        # a closure is identified by its code and what it captures
        caps = [(nm, self.canon(cv, seen)) for nm, cv in self.captured(r)]
        cap += tuple(sorted(set(caps), key=repr))
        return ('fn', f.module.name, f.qualname, id(f.node), cap)
      if r[0] != 'o':
        return None
      if r[1] in seen:
        return ('rec', len(seen) - seen.index(r[1]))
      o = self.obj(r)
      if o is None:
        return None
      s2 = seen + (r[1],)
      if o.kind == 'ext':
        return r[1] if r[1][0] == 'sym' else None
      if o.kind == 'inst':
        return ('inst', r[1])
      if o.summary:
        return None
      if isinstance(o.items, list) and o.elem.is_bottom():
        xs = [self.canon(x, s2) for x in o.items]
        if any(x is None for x in xs):
          return None
        return (o.kind, frozenset(xs) if o.kind == 'set' else tuple(xs))
      if isinstance(o.items, dict) and o.elem.is_bottom() and (
          o.kind == 'dict'):
        xs = {k: self.canon(x, s2) for k, x in o.items.items()}
        if any(x is None for x in xs.values()):
          return None
        return ('dict', frozenset(xs.items()))
    return None

  def captured(self, r):
    """The variables of enclosing functions a function refers to."""
    f = r[1]
    fr = next((x for x in r[2:] if isinstance(x, Frame)), None)
    if fr is None:
      return []
    own = set(f.params) | set(f.kwonly) | {f.vararg, f.kwarg}
    own |= {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Store)}
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    return [(nm, fr.lookup(nm)) for nm in sorted(names - own)
            if isinstance(fr.lookup(nm), V)]

  def func_attr(self, r, name):
    """An attribute of a function object."""
    f = r[1]
    if name == '__closure__':
      return None if self.captured(r) else NONE
    if name == '__defaults__':
      return None if f.defaults else NONE
    if name in ('__module__',):
      return C(f.module.name)
    if name in ('__name__', '__qualname__'):
      return C(f.name)
    if name == '__code__':
      oid = ('sym', 'code', id(f.node))
      self.heap[oid] = O('ext', tag='code')
      self.codes[oid] = f
      return V(refs=frozenset([('o', oid)]))
    return None

  def code_attr(self, oid, name):
    f = self.codes[oid]
    if name == 'co_code':
      # the byte code does not contain the constants and names
      import copy
      t = copy.deepcopy(f.node.body)
      for n in (x for b in (t if isinstance(t, list) else [t])
                for x in ast.walk(b)):
        if isinstance(n, ast.Constant):
          n.value = 0
        elif isinstance(n, ast.Name):
          n.id = '_'
        elif isinstance(n, ast.Attribute):
          n.attr = '_'
      return C('co_code ' + ' '.join(
          ast.dump(x) for x in (t if isinstance(t, list) else [t])))
    if name == 'co_consts':
      cs = [repr(n.value) for n in ast.walk(f.node)
            if isinstance(n, ast.Constant)]
      return C('co_consts ' + ' '.join(cs))
    if name == 'co_name':
      return C(f.name)
    return None

  def may_equal(self, a, b, seen=()):
    """Can the two values be equal? Symbols stand for different values."""
    if a.top or b.top or a.is_bottom() or b.is_bottom():
      return True
    for x in self.alts(a):
      for y in self.alts(b):
        if self.alt_equal(x, y, seen):
          return True
    return False

  def alts(self, v):
    return [V(frozenset([c])) for c in v.consts] + [
        V(refs=frozenset([r])) for r in v.refs]

  def alt_equal(self, x, y, seen):
    cx, cy = self.canon(x), self.canon(y)
    if cx is not None and cy is not None:
      return canon_may_equal(cx, cy)
    kx, ky = self.kind(x), self.kind(y)
    if kx is None or ky is None:
      return True
    if kx != ky:
      return False
    if kx in ('list', 'tuple', 'dict'):
      (i, ox), = self.objs(x)
      (j, oy), = self.objs(y)
      if (i, j) in seen:
        return True
      seen = seen + ((i, j),)
      if ox.summary or oy.summary or not ox.elem.is_bottom() or (
          not oy.elem.is_bottom()):
        return True
      if isinstance(ox.items, list) and isinstance(oy.items, list):
        if len(ox.items) != len(oy.items):
          return False
        return all(self.may_equal(p, q, seen)
                   for p, q in zip(ox.items, oy.items))
      if isinstance(ox.items, dict) and isinstance(oy.items, dict):
        if set(ox.items) != set(oy.items):
          return False
        return all(self.may_equal(p, oy.items[k], seen)
                   for k, p in ox.items.items())
    return True

  def kind(self, x):
    for _ in x.consts:
      return 'const'
    for r in x.refs:
      if r[0] != 'o':
        return r[0]
      o = self.obj(r)
      if o is None:
        return None
      if o.kind == 'ext':
        return ('ext:' + o.tag) if o.tag in ('str', 'number') else None
      return o.kind
    return None

  # ----------------------------------------------------------------- term algebra
  def term(self, name, args, tag, deps=EMPTY):
    cs = [self.canon(a) for a in args]
    if any(c is None for c in cs):
      return None
    oid = ('sym', 'term', name) + tuple(cs)
    d = frozenset(deps).union(*[self.deep_deps(a) for a in args])
    self.heap[oid] = O('ext', tag=tag, deps=d)
    return V(refs=frozenset([('o', oid)]), deps=d)

  # --------------------------------------------------------------------- overrides
  def truth(self, v):
    if not v.top and not v.consts and v.refs and all(
        r[0] == 'o' and r[1][0] == 'sym' and self.obj(r) is not None and
        self.obj(r).tag in ('str', 'number', 'callable', 'ndarray')
        for r in v.refs):
      return True
    if not v.top and not v.consts and len(v.refs) == 1:
      for _, o in self.objs(v):
        if o.kind == 'set' and isinstance(o.items, list):
          return bool(o.items)
    return super().truth(v)

  def exact_items(self, v):
    if not v.top and not v.consts and len(v.refs) == 1:
      for _, o in self.objs(v):
        if o.kind in ('set', 'list', 'tuple') and isinstance(
            o.items, list) and o.elem.is_bottom() and not o.summary:
          return list(o.items)
        if o.kind == 'dict' and isinstance(o.items, dict) and (
            o.elem.is_bottom() and not o.summary):
          return [C(k) for k in o.items]
    return super().exact_items(v)

  def make_set(self, fr, n, items, extra=''):
    out, seen = [], set()
    for x in items:
      c = self.canon(x)
      if c is None:
        return self.alloc(fr, n, O('set', elem=joinall(items)), extra)
      if c not in seen:
        seen.add(c)
        out.append(x)
    out.sort(key=lambda x: repr(self.canon(x)), reverse=self.reverse_sets)
    return self.alloc(fr, n, O('set', items=out), extra)

  def e_Set(self, n, fr):
    if any(isinstance(e, ast.Starred) for e in n.elts):
      return super().e_Set(n, fr)
    return self.make_set(fr, n, [self.ev(e, fr) for e in n.elts])

  def lift(self, v, node, tag=''):
    if isinstance(v, set):
      fr = Frame(None, None, {}, ctx=(id(node),))
      return self.make_set(fr, node, [self.lift(x, node) for x in v])
    return super().lift(v, node, tag)

  def comp(self, n, fr, kind):
    sub = Frame(fr.func, fr.module, {}, fr, fr.cls, fr.ctx + (id(n),))
    sub.pc = fr.pc
    sub.self_val = fr.self_val
    rows = []
    if self.unroll(n, sub, 0, rows, [0]):
      deps = EMPTY
      items = []
      for vals in rows:
        items.append(vals)
      if kind == 'dict':
        d = {}
        for k, v in items:
          kc = self.key_const(k)
          if kc is None:
            return super().comp(n, fr, kind)
          d[kc] = v
        return self.alloc(fr, n, O('dict', items=d)).with_deps(deps)
      if kind == 'set':
        return self.make_set(fr, n, items)
      return self.alloc(fr, n, O('list', items=items)).with_deps(deps)
    return super().comp(n, fr, kind)

  def key_const(self, k):
    c = k.const()
    return c[0] if c is not None else None

  def unroll(self, n, sub, gi, rows, cnt):
    """Enumerates a comprehension whose iterables and conditions are exact."""
    if gi == len(n.generators):
      cnt[0] += 1
      sub.ctx = sub.ctx[:-1] + ((id(n), cnt[0]),) if isinstance(
          sub.ctx[-1], tuple) else sub.ctx + ((id(n), cnt[0]),)
      if isinstance(n, ast.DictComp):
        rows.append((self.ev(n.key, sub), self.ev(n.value, sub)))
      else:
        rows.append(self.ev(n.elt, sub))
      return cnt[0] < 200
    g = n.generators[gi]
    itv = self.ev(g.iter, sub)
    self.emit('iter', frame=sub, node=n, val=itv, how='comp')
    ex = self.exact_items(itv)
    if ex is None:
      return False
    for x in ex:
      self.assign(g.target, x, sub, n)
      ok = True
      for c in g.ifs:
        t = self.truth(self.ev(c, sub))
        if t is None:
          return False
        if not t:
          ok = False
          break
      if ok and not self.unroll(n, sub, gi + 1, rows, cnt):
        return False
    return True

  def compare(self, op, a, b):
    t = super().compare(op, a, b)
    if t is not None:
      return t
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
      pos = isinstance(op, (ast.Is, ast.Eq))
      ca, cb = self.canon(a), self.canon(b)
      if ca is not None and cb is not None:
        if ca == cb:
          return pos
        if not canon_may_equal(ca, cb):
          return not pos
      elif not self.may_equal(a, b):
        return not pos
    if isinstance(op, (ast.In, ast.NotIn)):
      pos = isinstance(op, ast.In)
      items = self.exact_items(b)
      ca = self.canon(a)
      if items is not None and ca is not None:
        cs = [self.canon(i) for i in items]
        if all(c is not None for c in cs):
          if ca in cs:
            return pos
          if not any(canon_may_equal(ca, c) for c in cs):
            return not pos
      if ca is not None and ca[0] == 'c' and b.const() is not None and (
          isinstance(b.const()[0], str) and isinstance(ca[2], str)):
        return (ca[2] in b.const()[0]) == pos
    return None

  def e_Compare(self, n, fr):
    if len(n.ops) == 1:
      return super().e_Compare(n, fr)
    vals = [self.ev(x, fr) for x in [n.left] + n.comparators]
    deps = frozenset().union(*[self.deep_deps(v) for v in vals])
    res = [self.compare(o, a, b) for o, a, b in zip(n.ops, vals, vals[1:])]
    if False in res:
      return C(False).with_deps(deps)
    if all(res):
      return C(True).with_deps(deps)
    return V(frozenset([ck(True), ck(False)]), deps=deps)

  def e_JoinedStr(self, n, fr):
    v = super().e_JoinedStr(n, fr)
    if not v.top:
      return v
    parts = []
    for x in n.values:
      if isinstance(x, ast.Constant):
        parts.append(C(x.value))
      else:
        parts.append(self.ev(x.value, fr))
        parts.append(C('!%s%s' % (x.conversion, ast.dump(
            x.format_spec) if x.format_spec is not None else '')))
    t = self.term('format', parts, 'str')
    return t if t is not None else v

  def binop(self, op, l, r, fr, n):
    v = super().binop(op, l, r, fr, n)
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
      a, b = self.exact_items(l), self.exact_items(r)
      if a is not None and b is not None and self.kind(l) == 'set':
        return self.set_op({'BitOr': 'union', 'BitAnd': 'intersection',
                            'Sub': 'difference', 'BitXor': None}[op],
                           fr, n, a, [b]) or v
    if self.canon(v) is not None or any(
        o.kind == 'inst' for _, o in list(self.objs(l)) + list(self.objs(r))):
      return v
    tag = 'str' if self.kind(l) in ('const', 'ext:str') and (
        self.kind(l) != 'const' or l.strs()) else 'number'
    t = self.term({'Mod': '%', 'Add': '+'}.get(op, op), [l, r], tag)
    return t if t is not None else v

  def load_attr(self, base, name, frame, node):
    if not base.top and len(base.refs) == 1 and not base.consts:
      (r,) = base.refs
      x = None
      if r[0] in ('fn', 'closure', 'bound'):
        x = self.func_attr(r, name)
      elif r[0] == 'o' and r[1] in self.codes:
        x = self.code_attr(r[1], name)
      if x is not None:
        return x.with_deps(base.deps)
    v = super().load_attr(base, name, frame, node)
    if v.top and not base.top and len(base.refs) == 1 and not base.consts and (
        next(iter(base.refs))[0] in ('fn', 'closure', 'bound')):
      t = self.term('attr:' + name, [base], 'number', base.deps)
      if t is not None:
        return t
    return v

  def s_For(self, s, fr):
    it = self.ev(s.iter, fr)
    items = self.exact_items(it)
    if items is None or len(items) > 40:
      return super().s_For(s, fr)
    self.emit('iter', frame=fr, node=s, val=it, how='for')
    if not isinstance(fr.loops, Loops):
      fr.loops = Loops(fr.loops)
    ok, broke, ends = True, False, []
    for x in items:
      fr.loops.append(([], [], 'exact'))
      self.assign(s.target, x.with_deps(it.deps | fr.pc), fr, s)
      ok = self.block(s.body, fr)
      brk, cont = fr.loops.pop()[:2]
      if ok and not brk and not cont:
        continue
      if not ok and len(cont) == 1 and not brk:
        self.restore(fr, cont[0])
        ok = True
        continue
      if not ok and not cont and not brk:
        break
      ends += brk
      if not ok and not cont:
        broke = True
        break
      ok = self.join_into(fr, ([self.snapshot(fr)] if ok else []) + cont)
      if not ok:
        break
    if ok and s.orelse and not broke:
      ok = self.block(s.orelse, fr)
    if ends:
      if ok and not broke:
        ends.append(self.snapshot(fr))
      return self.join_into(fr, ends)
    return ok

  def s_AugAssign(self, s, fr):
    cur = self.ev(self.as_load(s.target), fr)
    if not cur.top and not cur.consts and len(cur.refs) == 1:
      (r,) = cur.refs
      o = self.obj(r)
      if o is not None and o.kind == 'ext' and o.tag in IMMUTABLE:
        rhs = self.ev(s.value, fr)
        res = self.binop(type(s.op).__name__, cur, rhs, fr, s)
        self.assign(s.target, res.with_deps(fr.pc), fr, s, aug=True)
        return True
      if o is not None and o.kind == 'list' and not o.summary and (
          isinstance(s.op, ast.Add) and not fr.loops):
        a = self.exact_items(cur)
        rhs = self.ev(s.value, fr)
        b = self.exact_items(rhs)
        if a is not None and b is not None:
          self.emit('mutate', frame=fr, node=s, base=cur, how='aug', val=rhs,
                    op='Add')
          nn = self.obj(r).copy()
          nn.items = a + b
          self.heap[r[1]] = nn
          self.assign(s.target, cur.with_deps(rhs.deps | fr.pc), fr, s,
                      aug=True)
          return True
    return super().s_AugAssign(s, fr)

  def set_op(self, name, fr, n, a, others):
    ca = [self.canon(x) for x in a]
    if None in ca or name is None:
      return None
    out = list(a)
    for b in others:
      cb = [self.canon(x) for x in b]
      if None in cb:
        return None
      if name in ('union', 'update'):
        out += b
      elif name in ('intersection', 'intersection_update'):
        out = [x for x in out if self.canon(x) in cb]
      else:
        out = [x for x in out if self.canon(x) not in cb]
    return self.make_set(fr, n, out)

  def container_method(self, n, fr, recv, o, name, args, kwargs, star):
    items = self.exact_items(recv)
    if star is not None:
      se = self.exact_items(star)
      if se is not None:
        args, star = list(args) + se, None
    if o.kind == 'set' and items is not None and star is None and (
        name in ('add', 'update', 'union', 'difference', 'intersection',
                 'copy', 'discard', 'remove')):
      self.emit('call', frame=fr, node=n, kind='container', name=name,
                recv=recv, args=args, kwargs=kwargs, star=star, dstar=None)
      if name == 'copy':
        return self.make_set(fr, n, items)
      if name in ('add', 'discard', 'remove'):
        others = [[args[0]]]
      else:
        others = [self.exact_items(a) for a in args]
      if all(x is not None for x in others):
        new = self.set_op('update' if name in ('add', 'union', 'update') else
                          'intersection' if name == 'intersection' else
                          'difference', fr, n, items, others)
        if new is not None:
          if name in ('union', 'difference', 'intersection'):
            return new
          self.emit('mutate', frame=fr, node=n, base=recv, how=name,
                    val=joinall(args))
          (_, no), = self.objs(new)
          r = next(iter(recv.refs))
          nn = self.heap[r[1]].copy()
          nn.items, nn.elem = list(no.items or []), no.elem
          if no.items is None:
            nn.items = None
          self.heap[r[1]] = nn
          return NONE
    if o.kind == 'set' and name in ('add', 'update', 'discard', 'remove') and (
        isinstance(o.items, list)):
      r = next(iter(recv.refs))
      nn = o.copy()
      nn.elem, nn.items = o.all_elem(), None
      self.heap[r[1]] = nn
    if name == 'extend' and o.kind == 'list' and items is not None and (
        len(args) == 1) and not o.summary and not fr.loops:
      more = self.exact_items(args[0])
      if more is not None:
        self.emit('mutate', frame=fr, node=n, base=recv, how=name,
                  val=args[0])
        r = next(iter(recv.refs))
        nn = o.copy()
        nn.items = items + more
        self.heap[r[1]] = nn
        return NONE
    if o.kind == 'dict' and name == 'update' and args and not kwargs:
      (r,) = recv.refs
      if len(args[0].refs) == 1 and not args[0].top:
        for _, d2 in self.objs(args[0]):
          if d2.kind == 'dict' and isinstance(d2.items, dict) and (
              d2.elem.is_bottom() and isinstance(o.items, dict)):
            nn = o.copy()
            nn.items.update(d2.items)
            self.heap[r[1]] = nn
            return NONE
    return super().container_method(n, fr, recv, o, name, args, kwargs, star)

  def str_method(self, n, fr, recv, name, args, kwargs, star):
    if star is not None:
      se = self.exact_items(star)
      if se is not None:
        args, star = list(args) + se, None
    v = super().str_method(n, fr, recv, name, args, kwargs, star)
    if self.canon(v) is not None or star is not None:
      return v
    if name == 'join' and len(args) == 1:
      ex = self.exact_items(args[0])
      if ex is None:
        return v
      args = ex
    t = self.term(name if name in ('format', 'join') else 'm:' + name,
                  [recv] + args + [x for _, x in sorted(kwargs.items())],
                  'str')
    return t if t is not None else v

  def ext_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    if name == 'get_params' and len(recv.refs) == 1 and not recv.top:
      (r,) = recv.refs
      if r[1] in self.models:
        return self.alloc(fr, n, O('dict', items=dict(self.models[r[1]])))
    v = super().ext_method(n, fr, recv, name, args, kwargs, star, dstar)
    o1 = next((self.obj(r) for r in recv.refs), None)
    if o1 is not None and o1.tag == 'str' and star is None and dstar is None:
      t = self.term('m:' + name, [recv] + args + [
          x for _, x in sorted(kwargs.items())], 'str')
      if t is not None:
        return t
    return v

  def call_ext(self, n, fr, name, args, kwargs, star, dstar):
    if dstar is not None and len(dstar.refs) == 1 and not dstar.top:
      for _, o in self.objs(dstar):
        if o.kind == 'dict' and isinstance(o.items, dict) and (
            o.elem.is_bottom() and not o.summary):
          kwargs, dstar = {**kwargs, **o.items}, None
    if name == 'builtins.dict.fromkeys' and 1 <= len(args) <= 2 and (
        star is None and not kwargs):
      ex = self.exact_items(args[0])
      if ex is not None:
        cs = [self.canon(x) for x in ex]
        val = args[1] if len(args) > 1 else NONE
        if all(x.const() is not None for x in ex):
          return self.alloc(fr, n, O('dict', items={
              x.const()[0]: val for x in ex})).with_deps(args[0].deps)
        if None not in cs and len(args) == 1:
          # Only iterated: keys are not constants.
          return self.alloc(fr, n, O('tuple', items=list(dict(
              zip(cs, ex)).values()))).with_deps(args[0].deps)
    if name == 'inspect.isfunction' and args and not args[0].top:
      ks = {r[0] for r in args[0].refs} | {'c' for _ in args[0].consts}
      if ks and ks <= {'fn', 'closure'}:
        return C(True)
    if name.startswith('sklearn.') and star is None and dstar is None and (
        name.rsplit('.', 1)[-1][:1].isupper()):
      d = {('pos%d' % i): a for i, a in enumerate(args)}
      d.update(kwargs)
      # an estimator is identified by its class and parameters
      self.emit('call', frame=fr, node=n, kind='ext', name=name, recv=None,
                args=args, kwargs=kwargs, star=star, dstar=dstar)
      oid = ('model', id(n), fr.ctx, len(self.models))
      self.models[oid] = d
      self.heap[oid] = O('ext', tag='model', deps=self.deep_deps(*d.values()))
      return V(refs=frozenset([('o', oid)]), deps=self.heap[oid].deps)
    v = super().call_ext(n, fr, name, args, kwargs, star, dstar)
    if self.canon(v) is None and star is None and dstar is None and len(
        v.refs) == 1 and not v.top:
      o = next((o for _, o in self.objs(v)), None)
      if o is not None and o.kind == 'ext' and o.tag is None and (
          name.startswith('numpy.') and 'random' not in name):
        t = self.term('array' if name in ('numpy.array', 'numpy.asarray')
                      else name, args + [x for _, x in sorted(kwargs.items())],
                      'ndarray')
        if t is not None:
          return t
    return v

  def same_rest(self, firsts, ex):
    """Whether tuples with the same first member are the same."""
    return False

  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    if name in ('set', 'frozenset') and len(args) == 1:
      ex = self.exact_items(a0)
      if ex is not None:
        return self.make_set(fr, n, ex).with_deps(a0.deps)
    if name in ('set', 'frozenset') and not args:
      return self.make_set(fr, n, [])
    if name == 'sorted' and args and 'key' in kwargs and set(kwargs) <= {
        'key', 'reverse'}:
      ex = self.exact_items(a0)
      rev = self.truth(kwargs.get('reverse', C(False)))
      if ex is not None and len(ex) <= 40 and rev is not None:
        ks = [self.call_value(n, fr, kwargs['key'], [x], {}, None, None)
              for x in ex]
        ks = [k.const() for k in ks]
        if None not in ks:
          try:
            order = sorted(range(len(ex)), key=lambda i: ks[i][0],
                           reverse=rev)
            return self.alloc(fr, n, O('list', items=[
                ex[i] for i in order])).with_deps(deps)
          except TypeError:
            pass
    if name == 'sorted' and args and 'key' not in kwargs:
      ex = self.exact_items(a0)
      if ex is not None:
        if all(self.canon(x) is not None for x in ex):
          ex = sorted(ex, key=lambda x: repr(self.canon(x)))
        elif all(self.kind(x) in ('tuple', 'list') and self.exact_items(x)
                 for x in ex):
          # pairs sorted by their constant first members
          f = [self.exact_items(x)[0].const() for x in ex]
          if any(c is None for c in f) or len({c[0] for c in f}) != len(
              f) and not self.same_rest(f, ex):
            return super().builtin(n, fr, name, a0, args, kwargs, star, vals,
                                   deps)
          ex = [x for _, x in sorted(zip([str(c[0]) for c in f], ex),
                                     key=lambda p: p[0])]
        else:
          return super().builtin(n, fr, name, a0, args, kwargs, star, vals,
                                 deps)
        return self.alloc(fr, n, O('list', items=ex)).with_deps(a0.deps)
    if name in ('any', 'all') and len(args) == 1:
      ex = self.exact_items(a0)
      if ex is not None:
        ts = [self.truth(x) for x in ex]
        if name == 'any' and True in ts:
          return C(True).with_deps(deps)
        if name == 'all' and False in ts:
          return C(False).with_deps(deps)
        if None not in ts:
          return C(name == 'all').with_deps(deps)
    if name == 'hasattr' and len(args) > 1 and len(a0.refs) == 1 and not (
        a0.top or a0.consts):
      (r,) = a0.refs
      if r[0] == 'o' and r[1] in self.models:
        return C(args[1].strs() == ['get_params'] or
                 list(args[1].strs()) == ['get_params'] or
                 set(args[1].strs()) <= {'get_params', 'set_params', 'fit',
                                         'coef_', 'intercept_'})
    if name == 'map' and len(args) == 2:
      ex = self.exact_items(args[1])
      if ex is not None and len(ex) <= 40:
        return self.alloc(fr, n, O('list', items=[
            self.call_value(n, fr, a0, [x], {}, None, None) for x in ex
        ])).with_deps(deps)
    if name in ('str', 'repr') and len(args) == 1 and len(a0.refs) == 1 and (
        not a0.consts and not a0.top):
      for _, o in self.objs(a0):
        if o.kind == 'inst':
          m = (o.cls.lookup('__str__') if name == 'str' else None) or (
              o.cls.lookup('__repr__'))
          if m is not None:
            return self.call_func(m, self.bind(m, [], {}, self_val=a0), n, fr)
    if name == 'hash' and len(args) == 1 and len(a0.refs) == 1:
      for _, o in self.objs(a0):
        if o.kind == 'inst' and o.cls.lookup('__hash__') is not None:
          return self.call_func(o.cls.lookup('__hash__'), self.bind(
              o.cls.lookup('__hash__'), [], {}, self_val=a0), n, fr)
    if name == 'id' and args:
      return self.term('id', args[:1], 'number') or V(top=True, deps=deps)
    if name in ('hash', 'len', 'abs', 'round', 'int', 'float', 'str', 'repr',
                'bool', 'type', 'min', 'max', 'sum') and args and star is None:
      if name == 'bool':
        t = self.truth(a0)
        if t is not None:
          return C(t).with_deps(deps)
      v = super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)
      if v is not None and self.canon(v) is not None:
        return v
      t = self.term(name, args + [x for _, x in sorted(kwargs.items())],
                    'str' if name in ('str', 'repr') else 'number')
      return t if t is not None else v
    return super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)


def canon_may_equal(a, b):
  """a, b: canonical forms."""
  if a == b:
    return True
  if a[0] == 'sym' and b[0] == 'sym':
    if a[1] == 'term' and b[1] == 'term':
      if a[2] != b[2]:
        return not (a[2] in INJECTIVE and b[2] in INJECTIVE)
      if a[2] in INJECTIVE:
        if len(a) != len(b):
          return False
        return all(canon_may_equal(x, y) for x, y in zip(a[3:], b[3:]))
      return True
    if a[1] == 'term' or b[1] == 'term':
      t = a if a[1] == 'term' else b
      return t[2] not in INJECTIVE
    return False
  if a[0] == 'sym' or b[0] == 'sym':
    t = a if a[0] == 'sym' else b
    return t[1] == 'term' and t[2] not in INJECTIVE
  if a[0] != b[0]:
    return False
  if a[0] in ('list', 'tuple'):
    return len(a[1]) == len(b[1]) and all(
        canon_may_equal(x, y) for x, y in zip(a[1], b[1]))
  if a[0] == 'set':
    if len(a[1]) != len(b[1]):
      return False
    ra, rb = a[1] - b[1], b[1] - a[1]
    return all(any(canon_may_equal(x, y) for y in rb) for x in ra)
  if a[0] == 'dict':
    da, db = dict(a[1]), dict(b[1])
    return set(da) == set(db) and all(
        canon_may_equal(da[k], db[k]) for k in da)
  if a[0] == 'c':
    return a[2] == b[2] and a[1] == b[1]
  return False
