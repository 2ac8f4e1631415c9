"""C01: results are never shared between differently configured metrics."""
from .. import configs as cf
from .. import fw, scenario as sc
from ..absint import AbsRaise, C, Interp
from ..exact import ExactInterp

RULE = (
    'The cache key of a metric is computed by constant propagation through '
    'its constructor, get_fingerprint, wrap_cache_key and CacheKey. For two '
    'metrics of the same class that differ in one option, two metrics of '
    'different classes with the same arguments, and the same metric over '
    'children that differ, the keys must not be equal.')
EXPLANATION = (
    'Every built-in class; every option except labels and performance knobs '
    'is varied over alternative values on top of several base configurations. '
    'A pair whose comparison does not fold to a constant is decided by '
    'whether the comparison depends on the option at all.')
ASSUMPTIONS = [
    'Options are compared by the values they take in the enumerated '
    'configurations; the code treats other values of the same type alike.']


class Keys(ExactInterp):
  """Notes whether the comparison of keys went through hash()."""
  hashed = False

  def builtin(self, n, fr, name, a0, args, kwargs, star, vals, deps):
    if name == 'hash':
      self.hashed = True
    return super().builtin(n, fr, name, a0, args, kwargs, star, vals, deps)


def key_of(it, s):
  return it.call_named(s, 'wrap_cache_key', [C('k'), cf.strs(it, ['split1'])])


def equal(it, a, b):
  """True, False or None."""
  r = it.call_named(a, '__eq__', [b])
  return it.truth(r), r


def differ(rep, it, mk_a, mk_b, key, msg, where):
  """Reports when the two metrics can be taken for each other."""
  try:
    a, b = mk_a(it), mk_b(it)
  except AbsRaise:
    return
  try:
    ka, kb = key_of(it, a), key_of(it, b)
    it.hashed = False
    eq, _ = equal(it, ka, kb)
  except AbsRaise:
    rep.undecided.append(key)
    return
  rep.funcs |= {q for _, q in it.funcs_seen}
  rep.count('pairs')
  rep.count('abstract_steps', it.steps)
  if eq is True:
    rep.find(key, msg, where)
    return
  if eq is None and it.hashed:
    rep.find('CacheKey.__eq__|hash', 'the comparison of cache keys only '
             'compares their hashes, which different keys can share', where)
    return
  if eq is False:
    rep.count('pairs_decided')
  return eq


def valid(cls):
  def make(assign, vals):
    it = ExactInterp(fw.program())
    try:
      key_of(it, cf.build(it, cls, assign, vals))
      return True
    except AbsRaise:
      return False
  return make


def where_of(cls):
  f = cls.lookup('get_fingerprint')
  return f.where if f else cls.module.name


def job(rep, name):
  cls = next(c for c in fw.metric_classes() if c.name == name)
  vals, bases = cf.bases(cls, valid(cls))
  for bi, b in enumerate(bases):
    # the same configuration twice: shows that the keys are known exactly
    it = Keys(fw.program())
    try:
      k1 = key_of(it, cf.build(it, cls, b, vals))
      k2 = key_of(it, cf.build(it, cls, b, vals))
      if equal(it, k1, k2)[0]:
        rep.count('identical_recognised')
    except AbsRaise:
      pass
    for p in b:
      if p in cf.LABELS:
        continue
      for i in range(len(vals[p])):
        for j in range(i + 1, len(vals[p])):
          ti, tj = vals[p][i][0], vals[p][j][0]
          if ti == tj or (ti == 'None' and tj == 'none'):
            continue
          it = Keys(fw.program())
          k = '%s|%s' % (name, p)
          msg = '%s with %s=%s and with %s=%s have the same cache key' % (
              name, p, ti, p, tj)
          eq = differ(
              rep, it, lambda it: cf.build(it, cls, dict(b, **{p: i}), vals),
              lambda it: cf.build(it, cls, dict(b, **{p: j}), vals), k, msg,
              where_of(cls))
          if eq is not None or it.hashed:
            continue
          if depends(cls, b, vals, p):
            rep.count('pairs_decided_by_dependence')
          else:
            rep.find(k, '%s: the cache key does not depend on %s' % (name, p),
                     where_of(cls))
    rep.count('bases')


def depends(cls, b, vals, p):
  """Can the option influence the comparison of two keys?"""
  if p in sc.METRIC_PARAMS:
    return True
  it = Interp(fw.program())
  it.summaries = frozenset()
  try:
    args = {q: vals[q][k][1](it) for q, k in b.items()}
    args[p] = sc.option(it, cls, p, 'OPTION')
    k = key_of(it, it.construct(cls, args))
    _, r = equal(it, k, k)
    fp = [x for _, o in it.objs(k) for a, x in o.attrs.items()
          if a != 'metric']
    return 'OPTION' in it.deep_deps(r, *fp)
  except AbsRaise:
    return True


def simple_args(cls, variant):
  vals = {}
  roles = {'var': 'v1', 'var1': 'v1', 'var2': 'v2', 'weight': None}
  for p in cf.options(cls):
    if p in cf.PERFORMANCE:
      continue
    if p in roles:
      vals[p] = [(str(roles[p]), cf.const(roles[p]))]
    else:
      vals[p] = cf.values(cls, p)[:1]
      if p in ('numerator', 'denominator'):
        vals[p] = [('', cf.const('v1' if p == 'numerator' else 'v2'))]
      if p == 'over' or p == 'condition_column':
        vals[p] = [('', cf.const('g1'))]
  return vals


def cross(rep, name):
  """Different classes with the same arguments."""
  classes = fw.metric_classes()
  a = next(c for c in classes if c.name == name)
  va = simple_args(a, 0)
  for c in classes[classes.index(a) + 1:]:
    vb = simple_args(c, 0)
    for where in (None, 'w1'):
      ma, mb = dict(va), dict(vb)
      if where:
        ma['where'] = mb['where'] = [('', cf.const(where))]
      it = Keys(fw.program())
      eq = differ(
          rep, it, lambda it: cf.build(it, a, {p: 0 for p in ma}, ma),
          lambda it: cf.build(it, c, {p: 0 for p in mb}, mb),
          '%s|%s' % (name, c.name),
          '%s and %s over the same columns have the same cache key' % (
              name, c.name), where_of(a))
      rep.count('class_pairs')
      del eq


def neighbours(rep, _):
  """Metrics that are written differently and resemble each other."""
  L = cf.leaf
  pairs = []
  weighted = L('Mean', 'v1', weight='w')
  ratio = L('Ratio', 'v1', 'v2')
  p = fw.program()

  def comp(op, a, b):
    def make(it):
      return it.call_named(a(it), op, [b(it)])
    return make

  def wrap(cls, child, **kw):
    def make(it):
      c = p.cls(cls)
      a = {q: C(x) for q, x in kw.items()}
      a['child'] = child(it)
      return sc.instance(it, c, a, 'w')
    return make
  s, ct = L('Sum', 'v1'), L('Count', 'v1')
  sw, cw = L('Sum', 'v1', where='w1'), L('Count', 'v1', where='w1')
  mean, meanw = L('Mean', 'v1'), L('Mean', 'v1', where='w1')
  for o in ('__add__', '__sub__', '__mul__', '__pow__'):
    pairs += [('mean / sum %s count' % o, mean, comp(o, s, ct)),
              ('sum/count vs sum %s count' % o, comp('__truediv__', s, ct),
               comp(o, s, ct))]
  pairs += [
      ('mean vs count/sum', mean, comp('__truediv__', ct, s)),
      ('mean vs filtered sum/count', mean, comp('__truediv__', sw, ct)),
      ('mean vs sum/filtered count', mean, comp('__truediv__', s, cw)),
      ('mean vs filtered sum/filtered count', mean,
       comp('__truediv__', sw, cw)),
      ('filtered mean vs filtered sum/count', meanw,
       comp('__truediv__', sw, ct)),
      ('mean vs sum/distinct count', mean, comp(
          '__truediv__', s, L('Count', 'v1', distinct=True))),
      ('mean vs sum/count of another', mean, comp(
          '__truediv__', s, L('Count', 'v2'))),
      ('mean of v2 vs sum v1/count v2', L('Mean', 'v2'), comp(
          '__truediv__', s, L('Count', 'v2'))),
      ('weighted mean vs sum/count', weighted, comp('__truediv__', s, ct)),
      ('ratio vs reversed', ratio, L('Ratio', 'v2', 'v1')),
      ('sum+2 vs sum-2', comp('__add__', s, cf.const(2)),
       comp('__sub__', s, cf.const(2))),
      ('sum+2 vs sum+3', comp('__add__', s, cf.const(2)),
       comp('__add__', s, cf.const(3))),
      ('sum/2 vs 2/sum', comp('__truediv__', s, cf.const(2)),
       comp('__rtruediv__', s, cf.const(2))),
      ('sum-2 vs 2-sum', comp('__sub__', s, cf.const(2)),
       comp('__rsub__', s, cf.const(2))),
      ('sum**2 vs 2**sum', comp('__pow__', s, cf.const(2)),
       comp('__rpow__', s, cf.const(2))),
  ]
  ck = dict(condition_column='g1', baseline_key='b')
  for outer, kw in (('Distribution', dict(over='g1')), ('PercentChange', ck),
                    ('AbsoluteChange', ck), ('Jackknife', dict(unit='u')),
                    ('HHI', dict(over='g1')),
                    ('CumulativeDistribution', dict(over='g1'))):
    pairs += [
        ('%s of mean / of sum+count' % outer, wrap(outer, mean, **kw),
         wrap(outer, comp('__add__', s, ct), **kw)),
        ('%s of filtered mean' % outer, wrap(outer, mean, **kw),
         wrap(outer, meanw, **kw)),
        ('%s of filtered sum/count' % outer, wrap(outer, mean, **kw),
         wrap(outer, comp('__truediv__', sw, cw), **kw)),
        ('filter on %s or on its child' % outer, wrap(outer, meanw, **kw),
         wrap(outer, mean, where='w1', **kw)) if outer != 'HHI' else (
             '', None, None),
    ]
  for name, a, b in pairs:
    if a is None:
      continue
    # pushing a filter down to the leaves does not change most operations
    if name.startswith('filter on') and 'Jackknife' not in name:
      continue
    it = Keys(p)
    differ(rep, it, a, b, 'neighbours|' + name,
           'the cache keys of different metrics are equal: ' + name,
           where_of(p.cls('Metric')))
    rep.count('neighbour_pairs')


def nested(rep, name):
  """A difference deep inside of the tree."""
  p = fw.program()
  cls = next(c for c in fw.metric_classes() if c.name == name)
  vals, bases = cf.bases(cls, valid(cls))
  mps = [q for q in vals if q in sc.METRIC_PARAMS and q != 'children']
  wrapd = {'PercentChange': dict(condition_column='g1', baseline_key='b'),
           'Jackknife': dict(unit='u'), 'Distribution': dict(over='g1')}
  for q in mps:
    for outer, kw in wrapd.items():
      c = p.cls(outer)

      def mk(child):
        def make(it, child=child):
          a = {k: C(x) for k, x in kw.items()}
          a['child'] = child(it)
          inner = sc.instance(it, c, a, 'w')
          args = {r: vals[r][i][1](it) for r, i in bases[0].items()}
          args[q] = inner
          return it.construct(cls, args)
        return make
      L = cf.leaf
      for t, a, b in (('var', L('Sum', 'v1'), L('Sum', 'v2')),
                      ('where', L('Sum', 'v1'), L('Sum', 'v1', where='w')),
                      ('class', L('Max', 'v1'), L('Min', 'v1')),
                      ('option', L('Quantile', 'v1', .5),
                       L('Quantile', 'v1', .9)),
                      ('ratio', L('Ratio', 'v1', 'v2'),
                       L('Ratio', 'v1', 'v3'))):
        it = Keys(p)
        differ(rep, it, mk(a), mk(b), '%s|nested %s' % (name, t),
               '%s over %s of metrics that differ in %s have the same cache '
               'key' % (name, outer, t), where_of(cls))
        rep.count('nested_pairs')


def dispatch(rep, a):
  {'opt': job, 'cross': cross, 'near': neighbours, 'nested': nested}[a[0]](
      rep, a[1])


def run(rep, tier):
  names = [c.name for c in fw.metric_classes()]
  fw.parallel(rep, dispatch, [(k, n) for k in ('opt', 'cross', 'nested')
                              for n in names] + [('near', '')])
  rep.need('pairs', 3000)
  d = rep.counts.get('pairs_decided', 0)
  rep.count('decided', d + rep.counts.get('pairs_decided_by_dependence', 0))
  rep.need('decided', 1500)
