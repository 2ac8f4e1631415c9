"""Which heap objects an entry point writes."""
import ast

from . import fw, scenario as sc
from .absint import AbsRaise, Frame, Interp, NONE, O, V, C, joinall
from .program import AnalysisBroken

ENTRY = ('compute_on', 'compute_on_sql', 'to_sql', 'compute_on_beam')
# per-run bookkeeping the framework owns; restored by rule C04's second part
TRANSIENT = {'cache', 'cache_key', '_runtime_batch_size', '_is_root_node'}
SCALAR_TAGS = ('str', 'number', 'callable')


def entry_points(cls):
  """The public ways to compute or render a metric of the class."""
  out = []
  for m in ENTRY:
    if cls.lookup(m) is not None:
      out.append(m)
  return out


def writes(it, on_write):
  """Subscribes to every write: on_write(kind, objs, how, kw)."""
  def listener(ev, kw):
    if ev not in ('mutate', 'store'):
      return
    how = kw.get('attr') if ev == 'store' else kw.get('how')
    objs = [(i, o) for i, o in it.objs(kw['base'])
            if o.tag not in SCALAR_TAGS]
    if objs:
      on_write(ev, objs, how, kw)
  it.listeners.append(listener)


def run_entry(it, cls, self_val, method, args=None):
  """True when some path returns."""
  try:
    it.call_named(self_val, method, kwargs=args or sc.call_args(
        it, cls, method))
    return True
  except AbsRaise:
    return False


def call_function(it, f, args):
  fr = it.new_root_frame(f.module, 'fn:' + f.name)
  b = it.bind(f, [], args, frame=fr, node=f.node)
  return it.call_func(f, b, f.node, fr)


def record(it, label, keys):
  """A caller-owned dict with the given constant keys and unknown others."""
  oid = ('sym', 'rec', label)
  it.heap[oid] = O('dict', items={k: v for k, v in keys.items()},
                   elem=sc.s(it, label + '.*'), keys=sc.s(it, label + '.k'),
                   root=label, deps=frozenset([label]))
  return V(refs=frozenset([('o', oid)]), deps=frozenset([label]))


def display_args(it, f):
  """Caller-owned arguments of a display function."""
  out = {}
  for q in f.params + f.kwonly:
    lab = 'a:' + q
    if q in ('df', 'res', 'formatted_df'):
      out[q] = sc.frame(it, lab)
    elif q == 'metric_formats':
      out[q] = NONE.join(record(it, lab, {'Value': sc.s(it, lab + '.v')}))
    elif q == 'sort_by':
      el = record(it, lab + '[]', {'column': sc.s(it, lab + '.column')})
      oid = ('sym', 'list', lab)
      it.heap[oid] = O('list', elem=el, root=lab, deps=frozenset([lab]))
      out[q] = NONE.join(V(refs=frozenset([('o', oid)])))
    elif q in ('dims', 'metric_order', 'flip_color', 'split_by',
               'condition_column'):
      out[q] = NONE.join(sc.strlist(it, lab))
    elif q == 'ctrl_id':
      out[q] = NONE.join(sc.s(it, lab)).join(record(it, lab, {}))
    elif q == 'default_metric_formats':
      out[q] = NONE.join(record(it, lab, {}))
    else:
      d = sc.default_of_func(f, q)
      if d is not None and isinstance(d[0], bool) or (
          q in ('show_control',)):
        out[q] = sc.BOOL.with_deps(frozenset([lab]))
      else:
        out[q] = sc.s(it, lab)
  return out
