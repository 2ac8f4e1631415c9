"""C04: computing or rendering does not change a metric's definition."""
from .. import effects as ef
from .. import fw, scenario as sc
from ..absint import AbsRaise, C, Interp, NONE, O, V, ck

RULE = (
    'Every entry point is abstractly interpreted on symbolic trees of every '
    'built-in class. (a) No store, deletion or in-place operation may reach '
    'an object that was part of the metric tree after construction, except '
    'the framework\'s per-run attributes. (b) On every normal and every '
    'exceptional exit the per-run attributes hold their initial values again. '
    '(c) A second computation on the same tree depends on no argument of the '
    'first one.')
EXPLANATION = (
    'Exceptional exits are the join of the states at every library, callback '
    'or nested call and raise statement that is not caught, pushed through '
    'the enclosing finally blocks.')
ASSUMPTIONS = [
    'Metric.traverse yields every metric of the tree.',
    'Part (b) treats attribute loads and indexing as non-raising.',
]
# attributes that carry state of one run
PER_RUN = ('cache_key', '_runtime_batch_size', '_is_root_node')
ENTRY = ('compute_on', 'compute_on_sql', 'to_sql')
# looking at a metric must not change it either
INSPECT = ('get_fingerprint', 'get_equivalent', 'to_dot', '__str__',
           '__hash__', '__eq__')
# neither must combining it with other metrics
COMBINE = ('__call__', '__add__', '__radd__', '__sub__', '__mul__',
           '__truediv__', '__rtruediv__', '__pow__', '__neg__', '__or__')
# analysed on their own through INSPECT or unable to reach the metric
SUMMARIES = Interp.SUMMARIES - {'add_auxiliary_cols'}


class Traverse:
  """Metric.traverse yields the exact list of the tree's metrics."""

  def __init__(self, p):
    self.metric = p.cls('Metric')

  def ext_method(self, *a):
    return None

  def repo_call(self, it, n, fr, f, b, sv):
    if f.name != 'traverse' or sv is None:
      return None
    if f.cls is None or not f.cls.is_subclass(self.metric):
      return None
    objs = list(it.objs(sv))
    if len(objs) != 1 or sv.top:
      return None
    incl = b.get('include_self')
    t = it.truth(incl) if incl is not None else True
    if t is None:
      return None
    items, todo, seen = [], [V(refs=frozenset([('o', objs[0][0])]))], set()
    first = True
    while todo:
      v = todo.pop(0)
      os_ = list(it.objs(v))
      if len(os_) != 1 or v.top:
        if v.consts or not os_:
          continue
        return None
      oid, o = os_[0]
      if o.kind != 'inst' or not o.cls.is_subclass(self.metric):
        continue
      if oid in seen:
        continue
      seen.add(oid)
      if not first or t:
        items.append(v)
      first = False
      ch = o.attrs.get('children')
      if ch is None:
        continue
      ex = it.exact_items(ch)
      if ex is None:
        return None
      todo += ex
    return it.alloc(fr, n, O('list', items=items), 'traverse')


def call_args(it, cls, m, tag):
  """Arguments whose labels start with tag."""
  args = sc.call_args(it, cls, m)
  out = {}
  for q, v in args.items():
    lab = tag + q
    if q in ('df',):
      out[q] = sc.frame(it, lab)
    elif q in ('table',):
      out[q] = sc.s(it, lab)
    elif q == 'execute':
      out[q] = sc.callable_(it, lab)
    elif q == 'split_by':
      out[q] = NONE.join(sc.strlist(it, lab))
    elif q == 'cache_key':
      out[q] = NONE.join(C('a key'))
    elif q == 'cache':
      out[q] = NONE
    elif q == 'batch_size':
      out[q] = NONE.join(sc.num(it, lab))
    else:
      out[q] = v
  return out


def job(rep, nk):
  name, kind = nk
  p = fw.program()
  for m in ENTRY + INSPECT + COMBINE:
    it = Interp(p, policy=Traverse(p))
    it.summaries = SUMMARIES
    if m not in ENTRY:
      it.summaries = frozenset()
    cls, s = sc.build(it, name, kind)
    if cls.lookup(m) is None:
      continue
    own = it.reach(s)
    insts = [i for i in own if it.heap[i].kind == 'inst']
    initial = {(i, a): it.heap[i].attrs.get(a) for i in insts
               for a in PER_RUN}
    keys = {i: set(it.heap[i].attrs) for i in insts}
    before = {i: it.heap[i].copy() for i in own}
    n_w = [0]

    def on_write(ev, objs, how, kw, own=own, keys=keys, m=m, n_w=n_w):
      n_w[0] += 1
      q, w = fw.where_of(kw)
      for i, o in objs:
        if i not in own:
          continue
        if ev == 'store' and (how in ef.TRANSIENT or (
            o.kind == 'inst' and how not in keys[i] and not const_of(o, how))):
          continue
        rep.find('%s|%s|%s' % (q, o.cls.name if o.cls else o.kind, how),
                 '%s writes (%s) into the definition of the metric [%s over '
                 '%s .%s]' % (q, how, name, kind, m), w)
    ef.writes(it, on_write)
    it.exc_watch = [k for k in initial if initial[k] is not None]
    it.exc = [{}]
    rep.count('writes_checked')
    ok = False
    for attempt in (1, 2):
      args = {}
      if m in ENTRY:
        args = call_args(it, cls, m, 'run%d:' % attempt)
      elif len(cls.lookup(m).params) > 1:
        q = cls.lookup(m).params[1]
        args[q] = sc.callable_(it, 'fn') if m == '__or__' else sc.leaf(
            it, 'run%d:other' % attempt)
      res = None
      queries = []

      def on_call(ev, kw, queries=queries, it=it, skip=frozenset(insts)):
        if ev == 'call' and kw.get('kind') == 'opaque' or (
            ev == 'call' and kw.get('kind') == 'ext_method'):
          for a in kw['args']:
            queries.append((it.deep_deps(a, skip=skip), kw))
      if attempt == 2:
        it.listeners.append(on_call)
        # Parts (a) and (b) show that nothing of this was written; only
        # attributes that run 1 added to metrics survive it.
        for i in own:
          o = before[i].copy()
          if o.kind == 'inst':
            for a, v in it.heap[i].attrs.items():
              if a not in keys[i] and a not in ef.TRANSIENT:
                o.attrs[a] = v
                it.summary_skip |= {(i, a)}
            if o.cls.is_subclass(p.cls('Metric')):
              o.attrs['cache'] = it.alloc(None, None, O('dict', items={}),
                                          'cache%s' % (i,))
          it.heap[i] = o
      try:
        res = it.call_named(s, m, kwargs=args, tag='run%d' % attempt)
        ok = True
      except AbsRaise:
        pass
      if ok:
        check_exit(rep, it, initial, nk, m, 'a normal', lambda k: it.heap[
            k[0]].attrs.get(k[1]))
      exc = it.exc[0]
      check_exit(rep, it, initial, nk, m, 'an exceptional', exc.get,
                 only=exc.keys())
      it.exc = [{}]
      if attempt == 2:
        leak = [(d, kw) for d, kw in queries
                if any(x.startswith('run1:') for x in d)]
        if res is not None and any(
            x.startswith('run1:') for x in it.deep_deps(res, skip=insts)):
          d = sorted(x for x in it.deep_deps(res, skip=insts) if x.startswith('run1:'))
          rep.find('%s|%s|second run' % (name, m),
                   'the result of a second %s on the same %s (over %s) '
                   'depends on %s of the first' % (m, name, kind, d),
                   cls.lookup(m).where)
        for d, kw in leak[:1]:
          q, w = fw.where_of(kw)
          rep.find('%s|%s|second run call' % (name, q),
                   'a call made by the second %s of the same %s depends on '
                   '%s of the first' % (m, name, sorted(
                       x for x in d if x.startswith('run1:'))), w)
      rep.count('runs')
      if not ok:
        break
    rep.count('writes_checked', n_w[0])
    rep.count('exit_states_checked', len(initial))
    rep.count('abstract_steps', it.steps)
    rep.funcs |= {q for _, q in it.funcs_seen}
    if it.exhausted:
      rep.undecided.append('%s over %s .%s: budget' % (name, kind, m))


def const_of(o, attr):
  return o.cls is not None and o.cls.lookup_const(attr) is not None


def check_exit(rep, it, initial, nk, m, kind, get, only=None):
  for k, v0 in initial.items():
    if only is not None and k not in only:
      continue
    v = get(k)
    if v0 is None or v is None:
      if (v0 is None) != (v is None) and v is not None and not v.is_bottom():
        pass
      else:
        continue
    if v0 is not None and v.same(v0):
      continue
    if v0 is not None and not v.top and not v.refs and v.consts == v0.consts:
      continue
    if v0 is None and not v.top and not v.refs and v.consts == {ck(None)}:
      continue
    o = it.heap[k[0]]
    c = o.cls.lookup(m) or o.cls.lookup('__init__')
    rep.find('%s|%s|%s|%s exit' % (
        'root' if o.tag == 'ROOT' else 'descendant', m, k[1], kind),
             'after %s exit of %s.%s (over %s) the per-run attribute %s of a '
             '%s is not what it was before: %r' % (
                 kind, nk[0], m, nk[1], k[1], o.cls.name, v), c.where)


def run(rep, tier):
  fw.parallel(rep, job, sc.jobs())
  rep.need('runs', 400)
  rep.need('writes_checked', 20000)
