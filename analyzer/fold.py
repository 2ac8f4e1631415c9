"""Constant folding of text: SQL components become known strings.

Extends the exact interpreter with the parts of the language the SQL builders
use: formatting, joining, character sets, regular expressions, iteration and
comparison protocols of repo classes, generators. Strings keep the labels of
everything they were made of.
"""
import ast
import itertools
import re

from .absint import (BOT, C, EMPTY, Frame, NONE, O, TOP, V, AbsRaise, ck,
                     joinall)
from .exact import ExactInterp, Loops

RE = {'search', 'match', 'fullmatch', 'sub', 'findall', 'split', 'escape'}


def re_flag(v):
  if len(v.refs) == 1 and not v.top and not v.consts:
    (r,) = v.refs
    if r[0] == 'ext' and r[1].startswith('re.') and isinstance(
        getattr(re, r[1][3:], None), re.RegexFlag):
      return C(int(getattr(re, r[1][3:]))).with_deps(v.deps)
  return v


class Fold(ExactInterp):
  MAX_FRESH = 100000
  MAX_REC = 40
  MAX_DEPTH = 250
  EXPAND = frozenset()
  summaries = frozenset()

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.gens = []
    self.matches = {}
    self.serial = 0
    self.pre = {}
    self.reads = []
    self.news = []
    self.memo = {}
    self.hits = 0

  # ------------------------------------------------------------- memoisation
  def alloc(self, frame, node, obj, extra=''):
    self.serial += 1
    oid = ('f', self.serial)
    obj.node = node
    if obj.site is None:
      obj.site = (id(node) if node is not None else 0, obj.kind, extra)
    self.heap[oid] = obj
    return V(refs=frozenset([('o', oid)]))

  def obj(self, ref):
    if ref[0] != 'o':
      return None
    o = self.heap.get(ref[1])
    if self.reads:
      self.reads[-1].setdefault(ref[1], o)
    return o

  def objs(self, v):
    for r in v.refs:
      if r[0] == 'o':
        o = self.heap.get(r[1])
        if self.reads:
          self.reads[-1].setdefault(r[1], o)
        if o is not None:
          yield r[1], o

  def memo_call(self, func, bound, frame, run):
    """Reuses the constant result of a call that read and wrote nothing new.

    A result is valid while every object the call read is the same object;
    calls that changed an object they did not create are not remembered.
    """
    key = (func, frozenset((k, v.consts, v.refs, v.top, v.deps)
                           for k, v in bound.items()),
           frame.pc if frame is not None else None)
    for reads, v in self.memo.get(key, ()):
      if all(self.heap.get(i) is o for i, o in reads.items()):
        self.hits += 1
        if self.reads:
          for i, o in reads.items():
            self.reads[-1].setdefault(i, o)
        return v
    start = self.serial
    self.reads.append({})
    try:
      v = run()
    finally:
      reads = self.reads.pop()
      if self.reads:
        top = self.reads[-1]
        for i, o in reads.items():
          top.setdefault(i, o)
    if v.const() is not None and not self.exhausted:
      old = {i: o for i, o in reads.items()
             if not (i[0] in ('f', 'dcx') and i[1] > start)}
      if all(self.heap.get(i) is o for i, o in old.items()):
        self.memo.setdefault(key, []).append((old, v))
    return v

  # ---------------------------------------------------------------- strings
  def text(self, v, n, fr):
    """(str, deps) of a value, or None."""
    c = v.const()
    if c is not None:
      return str(c[0]), v.deps
    if v.top or v.consts or len(v.refs) != 1:
      return None
    for _, o in self.objs(v):
      if o.kind == 'inst':
        m = o.cls.lookup('__str__') or o.cls.lookup('__repr__')
        if m is None:
          return None
        r = self.safe_str(m, v, n, fr)
        c = r.const() if r is not None else None
        return (str(c[0]), r.deps | v.deps) if c is not None else None
      if o.kind in ('list', 'tuple') and self.exact_items(v) is not None:
        out, deps = [], v.deps
        for x in self.exact_items(v):
          t = x.const()
          if t is None:
            return None
          out.append(t[0])
          deps |= x.deps
        return str(tuple(out) if o.kind == 'tuple' else out), deps
    return None

  def safe_str(self, m, v, n, fr):
    try:
      return self.call_func(m, self.bind(m, [], {}, self_val=v), n, fr)
    except AbsRaise:
      return None

  def e_JoinedStr(self, n, fr):
    out, deps = [], EMPTY
    for x in n.values:
      if isinstance(x, ast.Constant):
        if out is not None:
          out.append(str(x.value))
        continue
      v = self.ev(x.value, fr)
      deps |= self.deep_deps(v)
      spec = ''
      if x.format_spec is not None:
        s = self.e_JoinedStr(x.format_spec, fr).const()
        if s is None:
          out = None
        else:
          spec = s[0]
      if out is None:
        continue
      c = v.const()
      if x.conversion == 114:
        t = (repr(c[0]), v.deps) if c is not None else None
      elif spec:
        try:
          t = (format(c[0], spec), v.deps) if c is not None else None
        except (TypeError, ValueError):
          t = None
      else:
        t = self.text(v, n, fr)
      if t is None:
        out = None
      else:
        out.append(t[0])
        deps |= t[1]
    if out is not None:
      return C(''.join(out)).with_deps(deps)
    return V(top=True, deps=deps)

  def binop(self, op, l, r, fr, n):
    c = l.const()
    if op == 'Mod' and c is not None and isinstance(c[0], str):
      items = None
      for _, o in self.objs(r):
        if o.kind == 'tuple':
          items = self.exact_items(r)
      args = items if items is not None else [r]
      d = self.mapping_of(r)
      if d is not None:
        return self.mod_map(c[0], d, l.deps | self.deep_deps(r), n, fr)
      vals, deps = [], l.deps | self.deep_deps(r)
      for a in args:
        ac = a.const()
        if ac is not None:
          vals.append(ac[0])
          continue
        t = self.text(a, n, fr)
        if t is None:
          return V(top=True, deps=deps)
        vals.append(t[0])
        deps |= t[1]
      try:
        return C(c[0] % tuple(vals)).with_deps(deps)
      except (TypeError, ValueError):
        raise AbsRaise()
    if op == 'Mult' and c is not None and isinstance(c[0], str):
      rc = r.const()
      if rc is not None and isinstance(rc[0], int) and rc[0] < 1000:
        return C(c[0] * rc[0]).with_deps(l.deps | r.deps)
    return super().binop(op, l, r, fr, n)

  def mapping_of(self, r):
    if len(r.refs) == 1 and not r.top and not r.consts:
      for _, o in self.objs(r):
        if o.kind == 'dict' and isinstance(o.items, dict) and (
            o.elem.is_bottom() and not o.summary):
          return o.items
    return None

  def mod_map(self, c, d, deps, n, fr):
    vals = {}
    for k, v in d.items():
      t = v.const() or self.text(v, n, fr)
      if t is None:
        return V(top=True, deps=deps)
      vals[k] = t[0]
      deps |= v.deps
    try:
      return C(c % vals).with_deps(deps)
    except (TypeError, ValueError, KeyError):
      raise AbsRaise()

  def call_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    c = recv.const()
    if c is not None and isinstance(c[0], (int, float)) and not args and (
        not kwargs and star is None and dstar is None):
      m = getattr(c[0], name, None)
      if m is None:
        raise AbsRaise()
      try:
        r = m()
      except (TypeError, ValueError):
        raise AbsRaise()
      if isinstance(r, (bool, int, float, str)):
        return C(r).with_deps(recv.deps)
    return super().call_method(n, fr, recv, name, args, kwargs, star, dstar)

  def load_attr(self, base, name, frame, node):
    c = base.const()
    if c is not None and isinstance(c[0], str) and hasattr(str, name):
      return self.alloc(frame, node, O('strmeth', items=[base], tag=name))
    return super().load_attr(base, name, frame, node)

  def call_value(self, n, fr, fv, args, kwargs, star, dstar):
    if len(fv.refs) == 1 and not fv.top and not fv.consts:
      for _, o in self.objs(fv):
        if o.kind == 'strmeth':
          return self.str_method(n, fr, o.items[0], o.tag, args, kwargs, star)
    return super().call_value(n, fr, fv, args, kwargs, star, dstar)

  def str_method(self, n, fr, recv, name, args, kwargs, star):
    c = recv.const()
    if star is not None:
      se = self.exact_items(star)
      if se is not None:
        args, star = list(args) + se, None
    deps = self.deep_deps(recv, *args, *kwargs.values())
    if c is not None and star is None and isinstance(c[0], str):
      if name == 'format':
        vals, kvals = [], {}
        ok = True
        for a in args:
          ac = a.const()
          t = (ac[0], a.deps) if ac is not None else self.text(a, n, fr)
          ok = ok and t is not None
          if ok:
            vals.append(t[0])
            deps |= t[1]
        for k, a in kwargs.items():
          ac = a.const()
          t = (ac[0], a.deps) if ac is not None else self.text(a, n, fr)
          ok = ok and t is not None
          if ok:
            kvals[k] = t[0]
            deps |= t[1]
        if ok:
          try:
            return C(c[0].format(*vals, **kvals)).with_deps(deps)
          except (IndexError, KeyError, ValueError, TypeError):
            raise AbsRaise()
        return V(top=True, deps=deps)
      if name == 'join' and len(args) == 1:
        ex = self.exact_items(args[0])
        if ex is not None:
          ts = [x.const() for x in ex]
          if all(t is not None and isinstance(t[0], str) for t in ts):
            return C(c[0].join(t[0] for t in ts)).with_deps(deps)
          if any(t is not None and not isinstance(t[0], str) for t in ts):
            raise AbsRaise()
        return V(top=True, deps=deps)
      if name in ('split', 'rsplit', 'splitlines', 'partition'):
        acs = [a.const() for a in args]
        if all(a is not None for a in acs):
          res = getattr(c[0], name)(*[a[0] for a in acs])
          return self.alloc(fr, n, O('list', items=[
              C(x).with_deps(deps) for x in res])).with_deps(deps)
      acs = [a.const() for a in args]
      kcs = {k: v.const() for k, v in kwargs.items()}
      if all(a is not None for a in acs) and all(
          k is not None for k in kcs.values()) and hasattr(str, name):
        try:
          v = getattr(c[0], name)(*[a[0] for a in acs],
                                  **{k: x[0] for k, x in kcs.items()})
          if isinstance(v, (str, bool, int)):
            return C(v).with_deps(deps)
        except (TypeError, ValueError):
          pass
    if c is None:
      return V(top=True, deps=deps)
    return super().str_method(n, fr, recv, name, args, kwargs, star)

  def type_key(self, k):
    """A class used as the key of a dict."""
    if len(k.refs) == 1 and not k.top and not k.consts:
      (r,) = k.refs
      if r[0] in ('cls', 'ext'):
        return r
    return None

  def e_Dict(self, n, fr):
    kvs = [(self.ev(k, fr), self.ev(v, fr)) if k is not None else (None, None)
           for k, v in zip(n.keys, n.values)]
    ks = [self.type_key(k) if k is not None else None for k, _ in kvs]
    if ks and None not in ks:
      return self.alloc(fr, n, O('dict', items=dict(
          zip(ks, [v for _, v in kvs]))))
    for k, v, (kv, vv) in zip(n.keys, n.values, kvs):
      if k is not None:
        self.pre[id(k)], self.pre[id(v)] = kv, vv
    return super().e_Dict(n, fr)

  def e_Slice(self, n, fr):
    parts = [self.ev(x, fr) if x is not None else NONE
             for x in (n.lower, n.upper, n.step)]
    if any(p.const() is None for p in parts):
      return V(top=True, deps=self.deep_deps(*parts))
    return self.alloc(fr, n, O('slice', items=parts))

  def e_Subscript(self, n, fr):
    b, k = self.ev(n.value, fr), self.ev(n.slice, fr)
    c = b.const()
    key = self.key_of(k)
    if key is not None:
      seq, kind = (c[0], 'str') if c is not None and isinstance(
          c[0], str) else (None, None)
      if c is None and not b.top and not b.consts and len(b.refs) == 1:
        for _, o in self.objs(b):
          if o.kind in ('list', 'tuple') and isinstance(o.items, list):
            seq, kind = self.exact_items(b), o.kind
      if c is None and isinstance(key, (str, tuple)):
        m = self.mapping_of(b)
        if m is not None:
          if key not in m:
            raise AbsRaise()
          return m[key].with_deps(b.deps | k.deps)
      if seq is not None and isinstance(key, (int, slice)):
        try:
          got = seq[key]
        except (IndexError, TypeError, ValueError):
          raise AbsRaise()
        if kind == 'str':
          return C(got).with_deps(b.deps)
        if isinstance(key, slice):
          return self.alloc(fr, n, O(kind, items=got), 'sl').with_deps(b.deps)
        return got.with_deps(b.deps)
    self.pre[id(n.value)], self.pre[id(n.slice)] = b, k
    return super().e_Subscript(n, fr)

  def key_of(self, k):
    c = k.const()
    if c is not None:
      return c[0]
    if len(k.refs) == 1 and not k.top and not k.consts:
      for _, o in self.objs(k):
        if o.kind == 'slice':
          return slice(*[x.const()[0] for x in o.items])
    return self.type_key(k)

  def ev(self, n, fr):
    if self.pre and id(n) in self.pre:
      return self.pre.pop(id(n))
    return super().ev(n, fr)

  # -------------------------------------------------------------- containers
  def exact_items(self, v):
    c = v.const()
    if c is not None and isinstance(c[0], str):
      return [C(x).with_deps(v.deps) for x in c[0]]
    if not v.top and not v.consts and len(v.refs) == 1:
      for _, o in self.objs(v):
        if o.kind == 'inst':
          m = o.cls.lookup('__iter__')
          if m is None or not self.stack:
            return None
          try:
            r = self.call_func(m, self.bind(m, [], {}, self_val=v), m.node,
                               self.stack[-1])
          except AbsRaise:
            return None
          if r is v or r.refs == v.refs:
            return None
          return self.exact_items(r)
    return super().exact_items(v)

  def in_exact(self):
    """No enclosing loop or branch is merged."""
    return not any(bool(f.loops) for f in self.stack)

  def e_Yield(self, n, fr):
    v = self.ev(n.value, fr) if n.value is not None else NONE
    if getattr(fr, 'ylist', None) is not None:
      if fr.loops or getattr(fr, 'both', 0):
        fr.ylist = None
      else:
        fr.ylist.append(v)
    fr.yields = fr.yields.join(v.with_deps(fr.pc))
    return TOP

  def e_YieldFrom(self, n, fr):
    v = self.ev(n.value, fr)
    ex = self.exact_items(v)
    if getattr(fr, 'ylist', None) is not None:
      if ex is None or fr.loops or getattr(fr, 'both', 0):
        fr.ylist = None
      else:
        fr.ylist += ex
    fr.yields = fr.yields.join(self.elem_of(v))
    return TOP

  def block(self, stmts, fr):
    f = fr.func
    if f is not None and f.is_generator and stmts is f.node.body and (
        not hasattr(fr, 'ylist')):
      fr.loops = fr.loops if isinstance(fr.loops, Loops) else Loops(fr.loops)
      fr.ylist = []
      self.gens.append(fr)
    return super().block(stmts, fr)

  def call_func(self, func, bound, node, frame, *a, **k):
    if not func.is_generator:
      run = super().call_func
      if k or a or func.name == '__init__' or isinstance(
          func.node, ast.Lambda):
        return run(func, bound, node, frame, *a, **k)
      return self.memo_call(func, bound, frame,
                            lambda: run(func, bound, node, frame))
    n0 = len(self.gens)
    try:
      v = super().call_func(func, bound, node, frame, *a, **k)
      mine = self.gens[n0:]
    finally:
      del self.gens[n0:]
    if len(mine) == 1 and mine[0].ylist is not None:
      return self.alloc(frame, node, O('list', items=mine[0].ylist),
                        'gen').with_deps(v.deps)
    return v

  def s_If(self, s, fr):
    v = self.ev(s.test, fr)
    t = self.truth(v)
    if t is not None:
      return self.block(s.body if t else s.orelse, fr) if (
          s.body if t else s.orelse) else True
    self.pre[id(s.test)] = v
    fr.both = getattr(fr, 'both', 0) + 1
    try:
      return super().s_If(s, fr)
    finally:
      fr.both -= 1

  def s_While(self, s, fr):
    if not isinstance(fr.loops, Loops):
      fr.loops = Loops(fr.loops)
    for _ in range(60):
      t = self.truth(self.ev(s.test, fr))
      if t is None:
        return super().s_While(s, fr)
      if t is False:
        return self.block(s.orelse, fr) if s.orelse else True
      fr.loops.append(([], [], 'exact'))
      ok = self.block(s.body, fr)
      brk, cont = fr.loops.pop()[:2]
      if not ok and len(cont) == 1 and not brk:
        self.restore(fr, cont[0])
        continue
      if ok and not brk and not cont:
        continue
      if not ok and not cont:
        return self.join_into(fr, brk) if brk else False
      ends = ([self.snapshot(fr)] if ok else []) + cont + brk
      self.join_into(fr, ends)
      return super().s_While(s, fr)
    return super().s_While(s, fr)

  def deepcopy(self, v, frame, node, shallow=False):
    if shallow or not self.in_exact():
      return super().deepcopy(v, frame, node, shallow)
    self.serial += 1
    mapping = {}

    def clone_ref(r):
      if r[0] != 'o':
        return r
      if r[1] in mapping:
        return ('o', mapping[r[1]])
      o = self.heap.get(r[1])
      if o is None or (isinstance(r[1], tuple) and r[1][:1] == ('sym',)):
        return r
      nid = ('dcx', self.serial, len(mapping))
      mapping[r[1]] = nid
      n = o.copy()
      n.root = None
      keep = shared_attrs(o.cls) if o.kind == 'inst' else ()
      n.attrs = {k: x if k in keep else clone(x) for k, x in o.attrs.items()}
      n.elem, n.keys = clone(o.elem), clone(o.keys)
      if isinstance(o.items, list):
        n.items = [clone(x) for x in o.items]
      elif isinstance(o.items, dict):
        n.items = {k: clone(x) for k, x in o.items.items()}
      self.heap[nid] = n
      if r[1] in self.models:
        self.models[nid] = self.models[r[1]]
      return ('o', nid)

    def clone(x):
      if not x.refs:
        return x
      return V(x.consts, frozenset(clone_ref(r) for r in x.refs), x.deps,
               x.top)

    return clone(v)

  # ------------------------------------------------------------- comparison
  def eq_method(self, a):
    if a.top or a.consts or len(a.refs) != 1:
      return None
    for _, o in self.objs(a):
      if o.kind == 'inst':
        return o.cls.lookup('__eq__')
    return None

  def is_array(self, v):
    return v.const() is None and any(
        o.kind == 'list' and o.tag == 'ndarray' for _, o in self.objs(v))

  def compared(self, n, fr, vals):
    if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt,
                                                 ast.GtE)):
      l, r = vals
      ex = self.exact_items(l) if self.is_array(l) else None
      if ex is not None and r.const() is not None:
        return self.alloc(fr, n, O('list', tag='ndarray', items=[
            C(self.compare(n.ops[0], x, r)) for x in ex])).with_deps(
                l.deps | r.deps)
    return None

  def compare(self, op, a, b):
    if isinstance(op, (ast.Eq, ast.NotEq)):
      for x, y in ((a, b), (b, a)):
        m = self.eq_method(x)
        if m is not None and self.stack:
          if x.refs == y.refs and not y.consts and not y.top:
            t = True
          else:
            try:
              r = self.call_func(m, self.bind(m, [y], {}, self_val=x), m.node,
                                 self.stack[-1])
            except AbsRaise:
              return None
            t = self.truth(r)
          if t is None:
            return None
          return t == isinstance(op, ast.Eq)
    if isinstance(op, (ast.In, ast.NotIn)):
      items = self.exact_items(b) if not (
          b.const() is not None and isinstance(b.const()[0], str)) else None
      if items is not None and (self.eq_method(a) is not None or any(
          self.eq_method(i) is not None for i in items)):
        res = [self.compare(ast.Eq(), i, a) for i in items]
        if True in res:
          return isinstance(op, ast.In)
        if None in res:
          return None
        return isinstance(op, ast.NotIn)
    return super().compare(op, a, b)

  # --------------------------------------------------------------- functions
  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    if name in ('str', 'repr') and len(args) == 1:
      if name == 'repr' and a0.const() is not None:
        return C(repr(a0.const()[0])).with_deps(deps)
      t = self.text(a0, n, fr)
      if t is not None:
        return C(t[0]).with_deps(t[1] | a0.deps)
    if name == 'len' and len(args) == 1:
      for _, o in self.objs(a0):
        if o.kind == 'inst' and len(a0.refs) == 1 and (
            o.cls.lookup('__len__')):
          m = o.cls.lookup('__len__')
          return self.call_func(m, self.bind(m, [], {}, self_val=a0), n, fr)
    if name == 'sorted' and args and 'key' not in kwargs:
      ex = self.exact_items(a0)
      if ex is not None:
        cs = [x.const() for x in ex]
        if all(c is not None for c in cs):
          try:
            order = sorted(range(len(ex)), key=lambda i: cs[i][0])
          except TypeError:
            raise AbsRaise()
          if self.truth(kwargs.get('reverse', C(False))):
            order = order[::-1]
          return self.alloc(fr, n, O('list', items=[
              ex[i] for i in order])).with_deps(a0.deps)
    if name == 'range' and args and all(a.const() is not None for a in args):
      try:
        xs = range(*[a.const()[0] for a in args])
        if len(xs) < 200:
          return self.alloc(fr, n, O('list', items=[
              C(x).with_deps(deps) for x in xs])).with_deps(deps)
      except TypeError:
        pass
    if name == 'hasattr' and len(args) == 2 and args[1].const() is not None:
      c = a0.const()
      if c is not None:
        return C(hasattr(c[0], args[1].const()[0])).with_deps(a0.deps)
    if name == 'getattr' and len(args) == 3 and args[1].const() is not None:
      c = a0.const()
      if c is not None and not hasattr(c[0], args[1].const()[0]):
        return args[2].with_deps(a0.deps)
    if name == 'callable' and len(args) == 1:
      if a0.const() is not None:
        return C(False).with_deps(a0.deps)
      if a0.refs and not a0.top and not a0.consts and all(
          r[0] in ('cls', 'fn', 'bound', 'closure') for r in a0.refs):
        return C(True).with_deps(a0.deps)
    if name in ('int', 'float', 'round', 'abs') and args:
      cs = [a.const() for a in args]
      if all(c is not None for c in cs) and not kwargs:
        try:
          return C({'int': int, 'float': float, 'round': round, 'abs': abs}[
              name](*[c[0] for c in cs])).with_deps(deps)
        except (TypeError, ValueError):
          raise AbsRaise()
    if name == 'zip' and star is not None and not args:
      exs = self.exact_items(star)
      exs = [self.exact_items(e) for e in exs] if exs is not None else [None]
      if all(e is not None for e in exs):
        return self.new_list(fr, n, [
            self.alloc(fr, n, O('tuple', items=list(r)))
            for r in zip(*exs)], deps)
    if name == 'dict' and len(args) == 1 and star is None:
      m = self.mapping_of(a0)
      if m is None:
        rows = [self.exact_items(r) for r in self.exact_items(a0) or ()]
        if rows and all(r is not None and len(r) == 2 and self.key_of(
            r[0]) is not None for r in rows):
          m = {self.key_of(r[0]): r[1] for r in rows}
      if m is not None:
        m = dict(m)
        m.update(kwargs)
        return self.alloc(fr, n, O('dict', items=m)).with_deps(a0.deps)
    if name == 'next' and args:
      ex = self.exact_items(a0)
      if ex:
        return ex[0]
      if ex == [] and len(args) > 1:
        return args[1]
    if name == 'filter' and len(args) == 2:
      ex = self.exact_items(args[1])
      if ex is not None and len(ex) <= 60:
        ts = [self.truth(x if a0.const() == (None,) else self.call_value(
            n, fr, a0, [x], {}, None, None)) for x in ex]
        if None not in ts:
          return self.alloc(fr, n, O('list', items=[
              x for x, t in zip(ex, ts) if t])).with_deps(deps)
    if name in ('min', 'max', 'sum') and args and star is None and (
        not kwargs):
      ex = self.exact_items(a0) if len(args) == 1 else args
      cs = [x.const() for x in ex] if ex is not None else [None]
      if cs and all(c is not None for c in cs):
        try:
          return C({'min': min, 'max': max, 'sum': sum}[name](
              c[0] for c in cs)).with_deps(deps)
        except (TypeError, ValueError):
          pass
    return super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)

  def call_ext(self, n, fr, name, args, kwargs, star, dstar):
    mod, _, fn = name.rpartition('.')
    deps = self.deep_deps(*args, *kwargs.values())
    if mod in ('itertools', 'itertools.chain', 'functools') and (
        dstar is None and not kwargs):
      r = self.iter_func(n, fr, name, args, star, deps)
      if r is not None:
        return r
    if mod in ('builtins.set', 'builtins.frozenset') and dstar is None and (
        not kwargs):
      more = self.exact_items(star) if star is not None else []
      sets = [self.exact_items(a) for a in list(args) + more] if (
          more is not None) else [None]
      if sets and all(x is not None for x in sets):
        r = self.set_op({'union': 'union', 'intersection': 'intersection',
                         'difference': 'difference'}.get(fn), fr, n, sets[0],
                        sets[1:])
        if r is not None:
          return r.with_deps(deps)
    if mod == 'numpy' and args and not kwargs and star is None and (
        dstar is None):
      ex = self.exact_items(args[0]) if args[0].const() is None else None
      cs = [x.const() for x in ex] if ex is not None else [None]
      if all(c is not None and isinstance(c[0], (int, float)) for c in cs):
        if fn in ('array', 'asarray'):
          return self.alloc(fr, n, O('list', items=list(ex), tag='ndarray')
                            ).with_deps(deps)
        if fn in ('all', 'any'):
          return C({'all': all, 'any': any}[fn](c[0] for c in cs)).with_deps(
              deps)
    if mod == 're':
      args = [re_flag(a) for a in args]
      kwargs = {k: re_flag(v) for k, v in kwargs.items()}
    if mod == 're' and fn in RE and star is None and dstar is None:
      cs = [a.const() for a in args]
      ks = {k: v.const() for k, v in kwargs.items()}
      if all(c is not None for c in cs) and all(
          k is not None for k in ks.values()):
        r = getattr(re, fn)(*[c[0] for c in cs],
                            **{k: v[0] for k, v in ks.items()})
        if r is None or isinstance(r, str):
          return C(r).with_deps(deps)
        if isinstance(r, list):
          return self.alloc(fr, n, O('list', items=[
              C(x).with_deps(deps) for x in r])).with_deps(deps)
        self.serial += 1
        oid = ('sym', 'match', self.serial)
        self.heap[oid] = O('ext', tag='match', deps=deps)
        self.matches[oid] = r
        return V(refs=frozenset([('o', oid)]), deps=deps)
    return super().call_ext(n, fr, name, args, kwargs, star, dstar)

  def new_list(self, fr, n, items, deps=EMPTY):
    return self.alloc(fr, n, O('list', items=items)).with_deps(deps)

  def iter_func(self, n, fr, name, args, star, deps):
    more = self.exact_items(star) if star is not None else []
    if more is None:
      return None
    args = list(args) + more
    if name == 'functools.reduce' and len(args) > 1:
      xs = self.exact_items(args[1])
      if xs is None or len(xs) > 40:
        return None
      if len(args) > 2:
        xs = [args[2]] + xs
      if not xs:
        raise AbsRaise()
      out = xs[0]
      for x in xs[1:]:
        out = self.call_value(n, fr, args[0], [out, x], {}, None, None)
      return out
    xs = [self.exact_items(a) for a in args]
    if not args or any(x is None for x in xs):
      return None
    if name == 'itertools.cycle':
      # only ever consumed together with a shorter sequence
      return self.new_list(fr, n, (xs[0] * 120)[:120], deps)
    if name == 'itertools.chain':
      return self.new_list(fr, n, [y for x in xs for y in x], deps)
    if name == 'itertools.chain.from_iterable':
      ys = [self.exact_items(x) for x in xs[0]]
      if any(y is None for y in ys):
        return None
      return self.new_list(fr, n, [y for x in ys for y in x], deps)
    if name == 'itertools.product':
      return self.new_list(fr, n, [
          self.alloc(fr, n, O('tuple', items=list(r)))
          for r in itertools.product(*xs)][:400], deps)
    return None

  def truth(self, v):
    if not v.top and not v.consts and len(v.refs) == 1:
      for r, o in self.objs(v):
        if r in self.matches:
          return True
    return super().truth(v)

  def ext_method(self, n, fr, recv, name, args, kwargs, star, dstar):
    if len(recv.refs) == 1 and not recv.top and not recv.consts:
      (r,) = recv.refs
      if r[0] == 'o' and r[1] in self.matches:
        cs = [a.const() for a in args]
        if all(c is not None for c in cs):
          x = getattr(self.matches[r[1]], name)(*[c[0] for c in cs])
          if isinstance(x, (str, int)) or x is None:
            return C(x).with_deps(recv.deps)
    return super().ext_method(n, fr, recv, name, args, kwargs, star, dstar)

  def container_method(self, n, fr, recv, o, name, args, kwargs, star):
    items = self.exact_items(recv)
    if o.kind == 'list' and items is not None and not fr.loops and (
        not o.summary) and star is None:
      r = next(iter(recv.refs))
      new, ret = None, NONE
      if name == 'append':
        new = items + [args[0]]
      elif name == 'insert' and args[0].const() is not None:
        new = list(items)
        new.insert(args[0].const()[0], args[1])
      elif name == 'pop' and items and (not args or args[0].const()):
        new = list(items)
        ret = new.pop(*[a.const()[0] for a in args])
      elif name == 'reverse':
        new = items[::-1]
      if new is not None:
        self.emit('call', frame=fr, node=n, kind='container', name=name,
                  recv=recv, args=args, kwargs=kwargs, star=star, dstar=None)
        self.emit('mutate', frame=fr, node=n, base=recv, how=name,
                  val=joinall(args))
        nn = o.copy()
        nn.items = new
        self.heap[r[1]] = nn
        return ret
    if o.kind == 'dict' and isinstance(o.items, dict) and (
        o.elem.is_bottom()) and not o.summary:
      if name == 'keys':
        return self.alloc(fr, n, O('list', items=[C(k) for k in o.items])
                          ).with_deps(recv.deps)
      if name == 'pop' and args and args[0].const() is not None and (
          not fr.loops):
        k = args[0].const()[0]
        if k in o.items:
          r = next(iter(recv.refs))
          nn = o.copy()
          nn.items = dict(o.items)
          out = nn.items.pop(k)
          self.heap[r[1]] = nn
          return out
        if len(args) > 1:
          return args[1]
        raise AbsRaise()
    if o.kind == 'set' and items is not None and name in (
        'isdisjoint', 'issubset', 'issuperset') and args:
      other = self.exact_items(args[0])
      if other is not None:
        a = [self.canon(x) for x in items]
        b = [self.canon(x) for x in other]
        if None not in a and None not in b:
          res = {'isdisjoint': not set(a) & set(b),
                 'issubset': set(a) <= set(b),
                 'issuperset': set(a) >= set(b)}[name]
          return C(res).with_deps(self.deep_deps(recv, args[0]))
    return super().container_method(n, fr, recv, o, name, args, kwargs, star)


def shared_attrs(cls):
  """Attributes __deepcopy__ assigns as they are."""
  m = cls.lookup('__deepcopy__') if cls is not None else None
  if m is None:
    return ()
  if m not in SHARED:
    names = {x.id for a in ast.walk(m.node) if isinstance(a, ast.For)
             for x in ast.walk(a.target) if isinstance(x, ast.Name)}
    SHARED[m] = {
        t.attr for a in ast.walk(m.node) if isinstance(a, ast.Assign)
        for t in a.targets if isinstance(t, ast.Attribute)
        and isinstance(a.value, (ast.Name, ast.Attribute)) and (
            isinstance(a.value, ast.Name) and a.value.id in names or
            isinstance(a.value, ast.Attribute) and a.value.attr == t.attr)}
  return SHARED[m]


SHARED = {}
