"""Shared driver code of the rules: parallel per-class runs, reports."""
import ast
import concurrent.futures
import os
import traceback

from .absint import C, EMPTY, Interp, NONE, O, TOP, V, AbsRaise
from .program import AnalysisBroken, Program

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Report:
  """What one rule found and what it looked at."""

  def __init__(self):
    self.findings = {}    # key -> dict(message, where)
    self.counts = {}
    self.samples = []
    self.undecided = []
    self.funcs = set()
    self.assumptions = []

  def find(self, key, message, where=''):
    """key identifies the construct without line numbers."""
    self.findings.setdefault(key, {'message': message, 'where': where})

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def sample(self, s, limit=12):
    if len(self.samples) < limit and s not in self.samples:
      self.samples.append(s)

  def merge(self, other):
    for k, v in other.findings.items():
      self.findings.setdefault(k, v)
    for k, v in other.counts.items():
      self.count(k, v)
    for s in other.samples:
      self.sample(s)
    self.undecided += other.undecided
    self.funcs |= other.funcs

  def need(self, name, minimum):
    """Fails the analysis when a rule matched fewer instances than confirmed."""
    if self.counts.get(name, 0) < minimum and not self.findings:
      raise AnalysisBroken('only %d %s analysed, at least %d expected' % (
          self.counts.get(name, 0), name, minimum))


_PROGRAM = None


def program():
  global _PROGRAM
  if _PROGRAM is None:
    _PROGRAM = Program()
  return _PROGRAM


def _job(args):
  import sys
  sys.setrecursionlimit(20000)
  fn, arg = args
  rep = Report()
  try:
    fn(rep, arg)
  except AnalysisBroken:
    raise
  except Exception as e:  # an obligation the interpreter could not decide
    if os.environ.get('VERIF_DEBUG'):
      traceback.print_exc()
    rep.undecided.append('%s: %s: %s' % (str(arg)[:200], type(e).__name__, e))
  return rep


def parallel(rep, fn, args):
  args = [(fn, a) for a in args]
  program()
  if WORKERS <= 1 or len(args) <= 1:
    for a in args:
      rep.merge(_job(a))
    return rep
  with concurrent.futures.ProcessPoolExecutor(WORKERS) as ex:
    for r in ex.map(_job, args):
      rep.merge(r)
  return rep


def metric_classes(p=None):
  """Every built-in metric class, aliases resolved, in a fixed order."""
  p = p or program()
  out = []
  for n in p.built_ins():
    c = p.classes.get(n)
    if c is None:
      for m in p.modules.values():
        r = p.resolve_name(m, n)
        if r and r[0] == 'cls':
          c = r[1]
          break
    if c is None:
      raise AnalysisBroken('built-in %s is not defined' % n)
    if c not in out:
      out.append(c)
  return out


def all_metric_classes(p=None):
  """Subclasses of Metric, built in or not."""
  p = p or program()
  return p.subclasses(p.cls('Metric'))


def ctor_params(cls):
  init = cls.lookup('__init__')
  return [x for x in init.params[1:] + init.kwonly]


def default_args(it, cls, **over):
  args = {k: it.param_obj('p:' + k) for k in ctor_params(cls)}
  args.update(over)
  return args


def make(it, cls, **over):
  return it.construct(cls, default_args(it, cls, **over))


def where_of(ev):
  fr, node = ev.get('frame'), ev.get('node')
  f = fr.func if fr is not None else None
  while f is not None and f.name == '<lambda>' and fr.parent is not None:
    fr = fr.parent
    f = fr.func
  if f is None:
    return '?', '?'
  return f.qualname, f.at(node)


def src(node):
  try:
    return ast.unparse(node)[:110]
  except Exception:  # pylint: disable=broad-except
    return '?'
