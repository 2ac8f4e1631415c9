"""C14: the pandas code computes what the metrics are documented to be."""
import os
import time
import traceback

from .. import fw, pandascmp, sqlref as sr, sqlterm as st, trees
from ..absint import AbsRaise
from ..program import AnalysisBroken

MAX_UNDECIDED = 10000
SECONDS = 480    # a slow machine analyses fewer trees
RULE = (
    'compute_on of every configuration is folded from the source with data '
    'frames whose columns are terms: group by, reductions, selections, joins '
    'of indexes and arithmetic rewrite the terms. Each value column of the '
    'result must be equal, as a rational expression over aggregates of the '
    'rows, to the term written down from the documentation of the metric; so '
    'must the levels of the index, the conditions on the rows and the labels.')
EXPLANATION = (
    'Configurations: leaves and operations over leaves and nested operations, '
    'options varied one at a time, several ways to filter and to split. '
    'Anything the model of pandas does not cover exactly leaves the '
    'configuration undecided. Terms are compared in a prime field.')
ASSUMPTIONS = [
    'Methods of pandas do what the model says: grouped reductions skip '
    'missing values, operations between frames align on the index.',
    'A result that a cache holds for a key is the one computed for it.',
    'Every group has the keys its rows are joined on.',
    'Data columns are not named like the temporary ones.',
]


class Job:

  def __init__(self):
    self.deadline = time.time() + SECONDS

  def __call__(self, rep, cfgs):
    for c in cfgs:
      if time.time() > self.deadline:
        rep.count('runs_left_out')
        continue
      try:
        self.one(rep, c)
      except (AnalysisBroken, RecursionError, sr.Skip, st.Undecided) as e:
        rep.count('trees_not_modelled')
        rep.sample('not modelled: %s: %s' % (c, e), 6)
      except trees.OutOfTime:
        rep.count('runs_cut')
      except AbsRaise:
        rep.count('trees_not_supported')
      except Exception as e:  # pylint: disable=broad-except
        if os.environ.get('VERIF_DEBUG'):
          traceback.print_exc()
        rep.undecided.append(('%s: %s: %s' % (c, type(e).__name__, e))[:300])

  def one(self, rep, c):
    rep.count('trees')
    it, _, ds = pandascmp.compare(c)
    rep.count('trees_compared')
    rep.count('abstract_steps', it.steps)
    rep.funcs |= {q for _, q in it.funcs_seen if _ != 'pandas'}
    for d in ds:
      rep.find('|'.join((c.cls, c.kind or 'leaf', d.what)), '%s: %s' % (
          c, d.detail), '/repo, compute_on of %s' % c.cls)


def run(rep, tier):
  cfgs = [c.of('compute_on') for c in trees.configs(tier == 'thorough')]
  fw.parallel(rep, Job(), [cfgs[i:i + 4] for i in range(0, len(cfgs), 4)])
  rep.need('trees_compared', 20)
