"""C06: the caller's objects are never modified."""
from .. import effects as ef
from .. import fw, scenario as sc
from ..absint import AbsRaise, Interp, NONE, O, V
from ..program import AnalysisBroken

RULE = (
    'Every entry point is abstractly interpreted for every built-in class '
    'over structured children; objects handed in by the caller carry an '
    'ownership mark that follows aliases, views and containers but not '
    'copies. No item/attribute store, deletion, in-place operator, in-place '
    'library method or container mutator may reach a marked object.')
EXPLANATION = (
    'Entry points: compute_on, compute_on_sql, to_sql, compute_on_beam of all '
    'built-in classes, the constructors, the display functions and the '
    'display method attached to results with confidence intervals.')
ASSUMPTIONS = [
    'Library methods write their receiver only when listed as mutators or '
    'called with inplace=; library functions only when listed.',
    'Selecting from a DataFrame with a list or a mask copies.',
    'The caller\'s cache dict is meant to be filled and is exempt.',
]


# public methods that configure an existing metric with caller-owned values
CONFIG = ('add_where', 'setter:where', 'rename_columns', 'set_name',
          'setter:stratified_by')


def watch(it, rep, label):
  seen = [0]

  def on_write(ev, objs, how, kw):
    seen[0] += 1
    q, w = fw.where_of(kw)
    for _, o in objs:
      if o.root and o.tag != 'CACHE':
        rep.find('%s|%s|%s' % (q, o.root.split('[')[0], how),
                 '%s writes (%s) into the caller\'s %s [%s]' % (
                     q, how, o.root, label), w)
  ef.writes(it, on_write)
  return seen


def job(rep, nk):
  name, kind = nk
  p = fw.program()
  it = Interp(p)
  watch(it, rep, '%s(%s) constructor' % nk)
  cls, s = sc.build(it, name, kind)
  rep.count('constructors')
  for m in ef.entry_points(cls):
    it = Interp(p)
    it.summaries = frozenset()
    cls, s = sc.build(it, name, kind)
    seen = watch(it, rep, '%s over %s .%s' % (name, kind, m))
    ok = ef.run_entry(it, cls, s, m)
    rep.count('runs_returning' if ok else 'runs_always_raising')
    rep.count('writes_checked', seen[0])
    rep.count('abstract_steps', it.steps)
    rep.funcs |= {q for _, q in it.funcs_seen}
  it = Interp(p)
  cls, s = sc.build(it, name, kind)
  seen = watch(it, rep, '%s over %s configuration' % nk)
  for m in CONFIG:
    f = cls.lookup_setter(m[7:]) if m.startswith('setter:') else cls.lookup(m)
    if f is None:
      continue
    fr = it.new_root_frame(f.module, 'cfg:' + m)
    args = {q: sc.strlist(it, 'a:' + q).join(sc.s(it, 'a:' + q))
            for q in f.params[1:]}
    if m in ('rename_columns', 'stratified_by'):
      args = {q: sc.strlist(it, 'a:' + q) for q in f.params[1:]}
    b = it.bind(f, [], args, self_val=s, frame=fr, node=f.node)
    try:
      it.call_func(f, b, f.node, fr)
      rep.count('configuration_calls')
    except AbsRaise:
      pass
  rep.count('writes_checked', seen[0])
  rep.sample('%s over %s: %s' % (name, kind, ', '.join(ef.entry_points(cls))))


def query_job(rep, arg):
  """The table is itself a query object of the sql module."""
  name, kind, m, budget = arg
  it = Interp(fw.program(), opaque_modules=(), budget=budget)
  it.summaries = frozenset()
  cls, s = sc.build(it, name, kind)
  t = sc.query_table(it)
  own = it.reach(t)
  seen = [0]

  def on_write(ev, objs, how, kw):
    seen[0] += 1
    for i, o in objs:
      if i in own:
        q, w = fw.where_of(kw)
        rep.find('%s|table|%s' % (q, how),
                 '%s writes (%s) into the query passed as the table '
                 '[%s over %s .%s]' % (q, how, name, kind, m), w)
  ef.writes(it, on_write)
  args = sc.call_args(it, cls, m)
  args['table'] = t
  ef.run_entry(it, cls, s, m, args)
  rep.count('query_table_runs')
  rep.count('query_table_runs_cut_at_budget', int(it.exhausted))
  rep.count('writes_checked', seen[0])
  rep.count('abstract_steps', it.steps)


def display_job(rep, fname):
  p = fw.program()
  it = Interp(p)
  seen = watch(it, rep, fname)
  if fname == 'display':
    f = p.fn('operations', 'get_display_fn')
    fn = ef.call_function(it, f, ef.display_args(it, f))
    r = next((r for r in fn.refs if r[0] in ('fn', 'closure')), None)
    if r is None:
      raise AnalysisBroken('get_display_fn returns no function: %r' % fn)
    args = ef.display_args(it, r[1])
    (oid,) = [x[1] for x in args['res'].refs]
    base = sc.frame(it, 'a:res.meterstick_change_base')
    it.heap[oid].attrs['meterstick_change_base'] = NONE.join(base)
    node = f.node
    fr = it.new_root_frame(f.module, 'display')
    it.call_value(node, fr, fn, [], args, None, None)
  else:
    f = p.fn('confidence_interval_display', fname)
    try:
      ef.call_function(it, f, ef.display_args(it, f))
    except AbsRaise:
      raise AnalysisBroken('%s always raises' % fname)
  rep.count('display_functions')
  rep.count('writes_checked', seen[0])
  rep.funcs |= {q for _, q in it.funcs_seen}


def run(rep, tier):
  fw.parallel(rep, job, sc.jobs())
  fw.parallel(rep, display_job, ['get_formatted_df', 'display_formatted_df',
                                 'render', 'display'])
  simple = [j for j in sc.jobs() if j[1] in ('-', 'Sum', 'Ratio')]
  deep = tier == 'thorough'
  mixed = None if deep else {
      'Sum', 'Ratio', 'PercentChange', 'MH', 'CUPED', 'Jackknife', 'Bootstrap',
      'Distribution', 'Ridge', 'LogisticRegression', 'CumulativeDistribution'}
  budget = 1200000 if deep else 250000
  fw.parallel(rep, query_job, [
      (n, k, m, budget) for n, k in reversed(simple)
      for m in ('compute_on_sql', 'to_sql')
      if m == 'to_sql' or mixed is None or n in mixed])
  rep.need('query_table_runs', 40)
  rep.need('runs_returning', 400)
  rep.need('configuration_calls', 200)
  rep.need('display_functions', 4)
  rep.need('writes_checked', 2000)
