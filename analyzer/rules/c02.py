"""C02: a cached result is only reused in the context it was computed in."""
import ast

from .. import configs as cf
from .. import fw, scenario as sc
from ..absint import AbsRaise, C, Frame, NONE, O, V
from ..exact import ExactInterp
from ..program import Program

RULE = (
    'Every key under which a computation stores or looks up a result is '
    'collected by constant propagation through compute_on and compute_on_sql '
    'of every built-in class. The keys of two computations that differ only '
    'in the cache_key of the caller, the columns split by, the filters of the '
    'metric or the way the data are resampled must not be equal, and the key '
    'for a slice or a resample must depend on the slice or resample.')
EXPLANATION = (
    'Contexts are enumerated: cache_key, split_by (other columns, more '
    'columns, another order, none), filters, unit and class of the resampling, '
    'with and without optimisation, on data frames and in every SQL mode; '
    'every nested computation of the tree is covered. Values that come from '
    'the data are one wildcard that equals itself, so a key that differs only '
    'in data does not count as different.')
ASSUMPTIONS = [
    'Columns and keys are compared by the names of the enumerated contexts; '
    'the code treats other names alike.']

CTX = [
    ('cache_key', 'k', {}),
    ('cache_key', 'k2', {'cache_key': cf.const('k2')}),
    ('split_by', 'none', {'split_by': cf.const(None)}),
    ('split_by', 's2', {'split_by': cf.words('s2')}),
    ('split_by', 's1,s2', {'split_by': cf.words('s1', 's2')}),
    ('split_by', 's2,s1', {'split_by': cf.words('s2', 's1')}),
    ('where', 'w1', {}),
    ('where', 'w1,w2', {}),
    ('children', 'c1', {}),
    ('children', 'c2', {}),
]
BUDGET = 40000
RESAMPLED = ('Jackknife', 'Bootstrap', 'PoissonBootstrap')


def raw_keys(rep, _):
  """The keys of the caller keep their identity."""
  it = start()
  alts = [('k', cf.const('k')), ('1', cf.const(1)), ('2', cf.const(2)),
          ('(k,1)', lambda it: tup(it, [C('k'), C(1)])),
          ('(k,2)', lambda it: tup(it, [C('k'), C(2)])),
          ('(1,k)', lambda it: tup(it, [C(1), C('k')]))]
  runs = []
  for t, make in alts:
    s = cf.leaf('Sum', 'v1')(it)
    runs.append((t, compute(it, s, 'compute_on', None, {'cache_key': make})))
  for i, (ti, ki) in enumerate(runs):
    for tj, kj in runs[i + 1:]:
      clash(rep, it, ki, kj, 'cache_key|raw',
            'Sum with cache_key=%s and with cache_key=%s uses the same cache '
            'key for %%s' % (ti, tj))


def tup(it, xs):
  fr = it.new_root_frame(fw.program().cls('Metric').module, 'tup')
  return it.alloc(fr, None, O('tuple', items=list(xs)), 't')


class Run(ExactInterp):
  """Collects the keys of a computation."""
  wild = False
  hashed = False
  hit = False  # are results found in the cache
  in_listener = False

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.keys = []
    self.caches = set()
    self.collect = True
    self.listeners.append(self.on_event)

  def new_cache(self):
    fr = self.new_root_frame(fw.program().cls('Metric').module, 'cache')
    v = self.alloc(fr, None, O('dict', items={}, root='cache'), 'cache')
    self.caches |= set(v.refs)
    return v

  def canon(self, v, seen=()):
    c = super().canon(v, seen)
    if c is None and self.wild:
      if not v.top and len(v.consts) + len(v.refs) > 1:
        # the same key made in different iterations of a loop
        cs = {self.canon(x, seen) for x in self.alts(v)}
        return cs.pop() if len(cs) == 1 else None
      if 'DATA' in self.deep_deps(v) and not any(
          o.kind in ('tuple', 'list', 'dict', 'inst') and o.items is not None
          for _, o in self.objs(v)):
        return ('data',)
    return c

  def alt_equal(self, x, y, seen):
    if self.wild:
      # an exact value never equals a value of the data
      cx, cy = self.canon(x), self.canon(y)
      if (cx == ('data',)) != (cy == ('data',)) and cx and cy:
        return False
    return super().alt_equal(x, y, seen)

  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    if name == 'hash':
      self.hashed = True
    return super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)

  def call_func(self, func, bound, node, frame, *a, **k):
    if func.name == 'to_sql' and frame is not None:
      # rendering does not compute anything
      return self.ext(frame, node, frozenset(['DATA']), 'to_sql')
    return super().call_func(func, bound, node, frame, *a, **k)

  def set_item(self, b, k, v, fr):
    if b.refs & self.caches and self.collect:
      for alt in self.alts(k):
        self.note('store', alt, fr)
    return super().set_item(b, k, v, fr)

  def on_read(self, b, k, fr, n):
    if b.refs & self.caches and self.collect:
      for alt in self.alts(k):
        self.note('read', alt, fr)

  def compare(self, op, a, b):
    if self.hit is not None and isinstance(op, (ast.In, ast.NotIn)) and (
        b.refs & self.caches):
      return self.hit == isinstance(op, ast.In)
    return super().compare(op, a, b)

  def note(self, how, key, fr, **kw):
    objs = [o for _, o in self.objs(key)]
    if len(objs) == 1 and objs[0].cls is not None:
      self.keys.append(dict(how=how, key=key, func=fr.func.qualname if fr.func
                            else '?', where=fr.func.at(None) if fr.func
                            else '?', order=len(self.keys), via=tuple(
                                f.func.qualname for f in self.stack[-4:]
                                if f.func is not None), **kw))

  def on_event(self, ev, kw):
    if ev != 'nested' or not self.collect or self.in_listener:
      return
    self.in_listener = True
    try:
      b = kw['bound']
      cache = b.get('cache', NONE)
      shared = bool(cache.refs & self.caches)
      data = b.get('df', b.get('table'))
      fr = kw['frame']
      whole = data is not None and data.refs == self.data.refs
      loop = any(bool(f.loops) for f in self.stack)
      for alt in self.alts(b.get('cache_key', NONE)):
        if not shared and alt.const() == (None,):
          continue
        if not shared and not cache.top and cache.const() == (None,):
          continue
        if alt.const() == (None,) or (alt.consts and self.truth(alt) is False):
          alt = NONE
        try:
          k = self.call_named(kw['recv'], 'wrap_cache_key', [
              alt, b.get('split_by', NONE)])
        except AbsRaise:
          continue
        for ka in self.alts(k):
          self.note('nested', ka, fr, whole=whole, loop=loop,
                    at=fr.func.at(kw['node']) if fr.func else '?')
    finally:
      self.in_listener = False


def data_of(it, label='DATA', tag='DataFrame'):
  return sc.frame(it, label, tag)


def start(program=None, nested=True):
  it = Run(program or fw.program())
  if not nested:
    it.nested_methods = frozenset()
  it.data = V()
  return it


def labelled(it, v, label):
  for _, o in it.objs(v):
    if isinstance(o.items, list):
      o.items = [x.with_deps(frozenset([label])) for x in o.items]
  return v.with_deps(frozenset([label]))


def wheres(t):
  return lambda it: labelled(it, cf.words(*t.split(','))(it), 'CTX.where')


def own_deps(it, key):
  return frozenset().union(*[
      it.deep_deps(v) for _, o in it.objs(key)
      for a, v in o.attrs.items() if a not in ('metric', 'fingerprint')])


MODES = [('compute_on', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]


def compute(it, s, method, mode, ctx):
  """Runs one computation with its own cache; returns the keys."""
  it.keys = []
  kw = dict(split_by=cf.strs(it, ['s1']), cache_key=C('k'))
  for k, make in ctx.items():
    kw[k] = make(it)
  for k in ('split_by', 'cache_key'):
    kw[k] = labelled(it, kw[k], 'CTX.' + k)
  kw['cache'] = it.new_cache()
  if method == 'compute_on':
    it.data = kw['df'] = data_of(it)
  else:
    it.data = kw['table'] = sc.s(it, 'DATA.table')
    kw['execute'] = sc.callable_(it, 'DATA')
    kw['mode'] = C(mode)
  try:
    it.call_named(s, method, kwargs=kw)
  except AbsRaise:
    pass
  out, seen = [], set()
  it.collect = False
  for k in it.keys:
    f = fp(it, k['key'])
    i = (f, k['how'], k.get('whole'), k['via'])
    if f is None or i not in seen:
      seen.add(i)
      out.append(k)
  it.collect = True
  it.kept = getattr(it, 'kept', []) + [k['key'] for k in out]
  it.forget(*it.kept)
  return out


def fp(it, key):
  it.wild = True
  try:
    for _, o in it.objs(key):
      return tuple(sorted(((a, it.canon(v)) for a, v in o.attrs.items()
                           if a != 'metric'), key=repr))
  finally:
    it.wild = False


def metric_cls(it, key):
  for _, o in it.objs(key):
    m = o.attrs.get('metric')
    if m is not None:
      return {x.cls.name for _, x in it.objs(m) if x.cls is not None}
  return set()


def name_of(it, key):
  return '/'.join(sorted(metric_cls(it, key))) or '?'


def same(it, a, b):
  it.wild, it.hashed = True, False
  collect, it.collect = it.collect, False
  try:
    if not metric_cls(it, a) & metric_cls(it, b):
      return False
    return it.truth(it.call_named(a, '__eq__', [b]))
  except AbsRaise:
    return None
  finally:
    it.wild = False
    it.collect = collect


def unique(it, keys):
  out, seen = [], set()
  for k in keys:
    i = (fp(it, k['key']), metric_key(it, k['key']))
    if k['how'] != 'read' and i not in seen:
      seen.add(i)
      out.append(k)
  return out


def metric_key(it, key):
  return tuple(sorted(metric_cls(it, key)))


def consistent(rep, it, keys, extra, key):
  """What is read was stored, and nothing else is stored in its place."""
  stores = [k for k in keys + extra if k['how'] == 'store']
  for k in keys:
    if k['how'] == 'read':
      rep.count('reads')
      own = [s for s in stores if metric_key(it, s['key']) == metric_key(
          it, k['key'])]
      if not own:
        # the run that stores it could not be followed to its end
        rep.count('reads_undecided')
      elif all(same(it, k['key'], s['key']) is False for s in own):
        rep.find('%s|read|%s' % (key, k['via'][-2] if len(k['via']) > 1 else
                                 k['func']),
                 '%s reads a result under a key under which no result of the '
                 'same computation is stored' % ' > '.join(k['via']),
                 k['where'])
      else:
        rep.count('reads_of_own_results')


def overwritten(rep, it, keys, root, key):
  stores = [k for k in keys if k['how'] == 'store' and root in metric_cls(
      it, k['key'])]
  for i, a in enumerate(stores):
    for b in stores[i + 1:]:
      if a['via'][-2:-1] != b['via'][-2:-1] and same(
          it, a['key'], b['key']) is True:
        rep.find('%s|overwritten' % key, '%s and %s store different results '
                 'under the same key' % (a['via'][-2:-1], b['via'][-2:-1]),
                 b['where'])


def clash(rep, it, ka, kb, key, msg, what=''):
  """Reports keys of one computation that equal a key of another."""
  ka, kb = unique(it, ka), unique(it, kb)
  for a in ka:
    for b in kb:
      eq = same(it, a['key'], b['key'])
      rep.count('key_pairs')
      if eq is False:
        rep.count('key_pairs_different')
      elif eq is True:
        rep.find('%s|%s' % (key, name_of(it, a['key'])),
                 msg % name_of(it, a['key']), a.get('at', a['where']))
      elif what and not 'CTX.' + what in own_deps(it, a['key']) | own_deps(
          it, b['key']):
        # the keys vary, but not with what is different
        rep.find('%s|%s|unrelated' % (key, name_of(it, a['key'])),
                 (msg % name_of(it, a['key'])) + ' for some data',
                 a.get('at', a['where']))
      elif what:
        rep.count('key_pairs_dependent')
      elif it.hashed:
        rep.find('CacheKey.__eq__|hash', 'the comparison of cache keys only '
                 'compares their hashes, which different keys can share',
                 a['where'])


def sliced(rep, it, keys, key):
  """Keys of resamples and slices depend on them."""
  for k in keys:
    if k['how'] != 'nested' or k['whole'] or not k['loop']:
      continue
    rep.count('slice_keys')
    it.wild = True
    f = fp(it, k['key'])
    it.wild = False
    d = frozenset().union(*[
        it.deep_deps(v) for _, o in it.objs(k['key'])
        for a, v in o.attrs.items() if a != 'metric'])
    if 'DATA' not in d and 'DATA.table' not in d and f is not None:
      rep.find('%s|slice|%s' % (key, k['func']),
               '%s computes a child on a part of the data under a key that '
               'does not depend on the part' % k['func'], k['at'])


def exactly(rep, it, keys):
  for k in keys:
    rep.count('keys')
    if fp(it, k['key']) is not None and all(
        v is not None for _, v in fp(it, k['key'])):
      rep.count('keys_exact')


def is_ci(cls):
  return cls.is_subclass(fw.program().cls('MetricWithCI'))


from . import c01  # noqa: E402


def job(rep, arg):
  name, method, mode = arg
  p = fw.program()
  cls = next(c for c in fw.metric_classes() if c.name == name)
  vals, bases = cf.bases(cls, c01.valid(cls))
  tag = method + (':' + mode if mode else '')
  ci = is_ci(cls)
  opts = [{}]
  if ci:
    vals = dict(vals, enable_optimization=[('True', cf.const(True)),
                                           ('False', cf.const(False))])
    opts = [{'enable_optimization': 0}, {'enable_optimization': 1}]
  for b in bases[:2]:
    for o in opts:
      b2 = dict(b, **o)
      contexts(rep, cls, vals, b2, method, mode, tag, ci)


def contexts(rep, cls, vals, b, method, mode, tag, ci):
  name = cls.name
  nested = ci
  if not ci:
    # large trees are covered by the analysis of the classes they consist of
    it = start(nested=False)
    it.budget = BUDGET
    compute(it, cf.build(it, cls, b, vals), method, mode, {})
    nested = it.exhausted
    rep.count('cut' if nested else 'whole_trees')
  it = start(nested=nested)
  runs = []
  for what, t, ctx in CTX:
    v2, b2 = vals, dict(b)
    if 'where' in vals:
      v2 = dict(vals, where=[(t, wheres(t) if what == 'where' else cf.const(
          'p' if what == 'children' else None))])
      b2['where'] = 0
    elif what == 'where':
      continue
    s = cf.build(it, cls, b2, v2)
    if what == 'children' and not filter_children(it, s, t):
      continue
    runs.append((what, t, compute(it, s, method, mode, ctx)))
  rep.funcs |= {q for _, q in it.funcs_seen}
  rep.count('runs', len(runs))
  for _, _, ks in runs:
    exactly(rep, it, ks)
  sliced(rep, it, runs[0][2], '%s|%s' % (name, tag))
  for _, _, ks in runs:
    consistent(rep, it, ks, [], '%s|%s' % (name, tag))
    overwritten(rep, it, ks, name, '%s|%s' % (name, tag))
  # the same again, this time found in the cache
  it.hit = True
  for (what, t, ctx), (_, _, ks) in zip(
      [c for c in CTX if c[0] not in ('where', 'children')], runs):
    v2, b2 = vals, dict(b)
    if 'where' in vals:
      v2 = dict(vals, where=[('none', cf.const(None))])
      b2['where'] = 0
    s = cf.build(it, cls, b2, v2)
    found = compute(it, s, method, mode, ctx)
    consistent(rep, it, found, ks, '%s|%s|hit' % (name, tag))
  it.hit = False
  for i, (wi, ti, ki) in enumerate(runs):
    for wj, tj, kj in runs[i + 1:]:
      if 'children' in (wi, wj):
        if wi != wj:
          continue
        kids = kid_cls(it, cls, s)
        ki, kj = ([k for k in ks if metric_cls(it, k['key']) & kids]
                  for ks in (ki, kj))
      clash(rep, it, ki, kj, '%s|%s' % (wj, tag),
            '%s.%s with %s=%s and with %s=%s use the same cache key for %%s'
            % (name, tag, wi, ti, wj, tj), wi if wi == wj else '')
  rep.count('abstract_steps', it.steps)
  if ci:
    resampled(rep, cls, vals, b, method, mode, tag)


def kids_of(it, s):
  for _, o in it.objs(s):
    for _, c in it.objs(o.attrs.get('children', NONE)):
      for x in c.items if isinstance(c.items, list) else []:
        yield from it.objs(x)


def kid_cls(it, cls, s):
  return {o.cls.name for _, o in kids_of(it, s) if o.cls is not None} - {
      cls.name}


def filter_children(it, s, t):
  n = 0
  fr = it.new_root_frame(fw.program().cls('Metric').module, 'filter')
  for r, o in list(kids_of(it, s)):
    if o.cls is not None:
      it.store_attr(V(refs=frozenset([('o', r)])), 'where', C(t).with_deps(
          frozenset(['CTX.children'])), fr, None)
      n += 1
  return n


def resampled(rep, cls, vals, b, method, mode, tag):
  """Results on resamples of different units or by different methods."""
  it = start()
  runs = []
  unit = lambda u: (u, lambda it: labelled(it, C(u), 'CTX.unit'))
  vals = dict(vals, unit=[unit('u1'), unit('u2')])
  for u in (0, 1):
    s = cf.build(it, cls, dict(b, unit=u), vals)
    runs.append(('%s(%s)' % (cls.name, vals['unit'][u][0]),
                 compute(it, s, method, mode, {})))
  for n in RESAMPLED:
    c2 = fw.program().cls(n)
    if c2 is cls:
      continue
    b2 = {p: i for p, i in b.items() if p in cf.options(c2)}
    try:
      s = cf.build(it, c2, dict(b2, unit=0), vals)
    except (AbsRaise, KeyError):
      continue
    runs.append(('%s(u1)' % n, compute(it, s, method, mode, {})))
  parts = lambda ks: [k for k in ks if part(it, k, cls)]
  for tj, kj in runs[1:]:
    rep.count('resample_pairs')
    clash(rep, it, parts(runs[0][1]), kj, 'resample|' + tag,
          'results on resamples of %s and of %s share the cache key of %%s' % (
              runs[0][0], tj), 'unit' if tj.endswith('(u2)') else '')
    clash(rep, it, [k for k in runs[0][1] if not part(it, k, cls)], parts(kj),
          'resample|' + tag,
          'results on resamples of %s and of %s share the cache key of %%s' % (
              tj, runs[0][0]), 'unit' if tj.endswith('(u2)') else '')


def part(it, k, cls):
  """A result on a part of the data, as opposed to the whole."""
  if k['how'] == 'nested':
    return k['loop']
  return cls.name not in metric_cls(it, k['key'])


CUSTOM = '''
from . import metrics
from . import operations

class UserMetric(metrics.Metric):
  def __init__(self, child):
    super().__init__('user', child)
  def compute(self, df):
    a = self.compute_util_metric_on(self.children[0], df, None)
    b = self.compute_util_metric_on(self.children[0], df, ['z'])
    return a + b

class UserSplit(metrics.Metric):
  def __init__(self, child):
    super().__init__('user', child)
  def compute_with_split_by(self, df, split_by=None, slice_value=None):
    return self.compute_util_metric_on(self.children[0], df, split_by)

class UserOperation(operations.Operation):
  def __init__(self, child):
    super().__init__(child, 'user {}')
  def compute_slices(self, df, split_by=None):
    a = self.compute_child(df, split_by)
    b = self.compute_child(df)
    c = self.compute_child(df, split_by + ['z'])
    return a / b + c

class UserOperation2(operations.Operation):
  def __init__(self, child):
    super().__init__(child, 'user {}')
  def compute(self, df):
    return self.compute_child(df)
  def compute_children(self, df, split_by=None, melted=False,
                       return_dataframe=True, cache_key=None):
    raise NotImplementedError
'''


def user(rep, name):
  """Metrics written by users."""
  p = Program(extra={'user_metrics': CUSTOM})
  cls = p.cls(name)
  old, fw._PROGRAM = fw._PROGRAM, p
  try:
    for kid in ('Sum', 'Mean', 'PercentChange'):
      it = start(p, nested=False)
      runs = []
      for t, ctx in (('k', {}), ('k2', {'cache_key': cf.const('k2')}),
                     ('s2', {'split_by': cf.words('s2')})):
        k = p.cls(kid)
        vals, bases = cf.bases(k, c01.valid(k))
        child = cf.build(it, k, bases[0], vals)
        s = it.construct(cls, {'child': child})
        runs.append((t, compute(it, s, 'compute_on', None, ctx)))
      ks = runs[0][1]
      exactly(rep, it, ks)
      rep.count('user_runs', len(runs))
      for t, kj in runs[1:]:
        if t == 's2' and name == 'UserOperation':
          # the total over all the data is the same for every split
          continue
        clash(rep, it, ks, kj, 'user|' + name,
              'a metric of a user run with another cache_key or split_by uses '
              'the same cache key for %s')
      # keys of one run on different data or with different splits
      nested = [k for k in ks if k['how'] == 'nested' or k['how'] == 'store']
      for k in nested:
        f = dict(fp(it, k['key']) or ())
        rep.count('user_keys')
        del f
      if name == 'UserOperation':
        splits = {}
        for k in ks:
          if k['how'] == 'store' and kid in metric_cls(it, k['key']):
            splits.setdefault(fp(it, k['key']), k)
        rep.count('user_splits', len(splits))
        if len(splits) < 3:
          rep.find('user|splits', 'a child computed with three different '
                   'splits in one computation gets %d keys' % len(splits),
                   'utils.CacheKey')
      else:
        for k in ks:
          if k['how'] == 'store' and kid in metric_cls(it, k['key']):
            rep.count('user_slice_keys')
            d = frozenset().union(*[
                it.deep_deps(v) for _, o in it.objs(k['key'])
                for a, v in o.attrs.items() if a != 'metric'])
            if 'DATA' not in d:
              rep.find('user|slice', 'the results of a child on the slices of '
                       'the data are cached under a key that does not depend '
                       'on the slice', k['where'])
  finally:
    fw._PROGRAM = old


def dispatch(rep, a):
  if a[0] == 'user':
    user(rep, a[1])
  elif a[0] == 'raw':
    raw_keys(rep, a[1])
  else:
    job(rep, a[1:])


def run(rep, tier):
  jobs = []
  for c in fw.metric_classes():
    for method, mode in MODES:
      if mode == 'magic' and c.module.name != 'models':
        continue
      if mode and not any(q in sc.METRIC_PARAMS for q in cf.options(c)):
        continue
      jobs.append(('job', c.name, method, mode))
  jobs += [('raw', '')] + [('user', n) for n in ('UserMetric', 'UserSplit', 'UserOperation',
                                 'UserOperation2')]
  fw.parallel(rep, dispatch, jobs)
  rep.need('keys_exact', 100)
  rep.need('key_pairs_different', 1000)
