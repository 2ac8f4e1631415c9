"""C12: nothing depends on the order of a set."""
import ast
import time

from .. import fw, trees, unordered
from ..program import AnalysisBroken

MAX_UNDECIDED = 10000
SECONDS = 500
RULE = (
    'No expression that is a set, or a listing of a directory, gets into '
    'something ordered: by list() or tuple(), unpacking, joining or '
    'formatting, a loop that appends, yields or returns the first match, '
    'next() or pop(), unless what it gets into is sorted or used in a way '
    'that ignores the order. Nothing is sorted by id() or hash(). And the '
    'queries folded from the source are the same when every set is iterated '
    'in the opposite order.')
EXPLANATION = (
    'Types of all local names, attributes, parameters and results of all '
    'functions by a fixpoint over the package, then every use of a set. '
    'Metric trees: those of the rules for SQL, with sets in two orders.')
ASSUMPTIONS = [
    'Dicts keep the order of insertion; a dict filled in the order of a set '
    'is not followed.',
    'Functions of other packages do not depend on the order of sets.',
]


class Twice:

  def __init__(self):
    self.deadline = time.time() + SECONDS

  def __call__(self, rep, cfgs):
    for c in cfgs:
      if time.time() > self.deadline:
        rep.count('runs_left_out')
        continue
      try:
        self.one(rep, c)
      except (AnalysisBroken, RecursionError):
        rep.count('runs_cut')
      except Exception as e:  # pylint: disable=broad-except
        rep.undecided.append(('%s: %s: %s' % (c, type(e).__name__, e))[:300])

  def one(self, rep, c):
    a = trees.run(c)
    if a.status != 'ok' or None in a.queries:
      rep.count('trees_not_exact_or_not_supported')
      return
    b = trees.run(c, True)
    if b.status != 'ok' or None in b.queries:
      rep.count('trees_not_exact_or_not_supported')
      return
    rep.count('trees_folded_twice')
    rep.count('queries', len(a.queries))
    rep.funcs |= {q for _, q in a.it.funcs_seen}
    for x, y in zip(a.queries, b.queries):
      if x != y:
        lx, ly = next(((p, q) for p, q in zip(
            x.split('\n'), y.split('\n')) if p != q), (x[:80], y[:80]))
        rep.find('sql|' + c.cls, 'the query of %s depends on the order of a '
                 'set: "%s" or "%s"' % (c, lx.strip()[:90], ly.strip()[:90]),
                 '/repo, SQL of %s' % c.cls)
    if len(a.queries) != len(b.queries):
      rep.find('sql|' + c.cls, 'the number of queries of %s depends on the '
               'order of a set' % c, '/repo, SQL of %s' % c.cls)


def run(rep, tier):
  def found(f, n, what):
    rep.find('%s|%s' % (f.qualname, what), '%s %s: %s' % (
        f.qualname, what, ast.unparse(n).split('\n')[0][:80]), f.at(n))

  funcs, uses = unordered.scan(fw.program(), found)
  rep.count('functions', funcs)
  rep.count('uses_of_sets', uses)
  cfgs = [c for c in trees.configs(tier == 'thorough') if '/' not in c.kind and
          c.variant == 0 and c.filters in ('each', 'list', 'leaf')]
  fw.parallel(rep, Twice(), [cfgs[i:i + 4] for i in range(0, len(cfgs), 4)])
  rep.need('functions', 100)
