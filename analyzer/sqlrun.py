"""Runs a rule over every query the configurations of metric trees generate."""
import os
import time
import traceback

from . import fw, sqlast as sa, trees
from .program import AnalysisBroken

SECONDS = 480    # a slow machine analyses fewer trees


class Query:
  """One query: its text, its syntax tree and the tree it was made for."""

  def __init__(self, res, text, ast):
    self.res, self.text, self.ast = res, text, ast
    self.cfg, self.root = res.cfg, res.root

  def key(self, *parts):
    return '|'.join((self.cfg.cls, path(self.cfg)) + parts)


def path(cfg):
  return cfg.method + (':' + cfg.mode if cfg.mode else '')


def marks(root):
  """Names that stand for filters."""
  return sorted({'%s_%s' % (p, n.name) for n in root.walk() for p in 'wv'} | {
      'w_leaf'})


def one(rep, cfg, fn):
  try:
    res = trees.run(cfg)
  except RecursionError:
    rep.count('runs_cut')
    return
  rep.count('trees')
  rep.count('abstract_steps', res.it.steps)
  rep.funcs |= {q for _, q in res.it.funcs_seen}
  if res.status == 'raised':
    rep.count('trees_not_supported')
  if res.status == 'cut':
    rep.count('runs_cut')
  if res.status == 'inexact':
    rep.count('queries_not_exact')
  for text in res.queries:
    if text is None:
      rep.count('queries_not_exact')
      continue
    try:
      ast = sa.parse(text)
    except sa.SqlError as e:
      rep.count('queries_not_parsed')
      fn(rep, Query(res, text, None), str(e))
      continue
    rep.count('queries')
    rep.count('subqueries', sum(1 for _ in subqueries(ast)))
    fn(rep, Query(res, text, ast), None)


def subqueries(q):
  yield q
  for _, s in q.ctes:
    yield from subqueries(s)


class Job:

  def __init__(self, fn):
    self.fn = fn
    self.deadline = time.time() + SECONDS

  def __call__(self, rep, cfgs):
    for c in cfgs:
      if time.time() > self.deadline:
        rep.count('runs_left_out')
        continue
      try:
        one(rep, c, self.fn)
      except AnalysisBroken:
        raise
      except Exception as e:  # pylint: disable=broad-except
        if os.environ.get('VERIF_DEBUG'):
          traceback.print_exc()
        rep.undecided.append(('%s: %s: %s' % (c, type(e).__name__, e))[:300])


def every(rep, tier, fn, paths=(('to_sql', None),), keep=None):
  """fn(rep, query, error) for every query."""
  cfgs = trees.configs(tier == 'thorough', paths)
  if keep is not None:
    cfgs = [c for c in cfgs if keep(c)]
  n = 4
  fw.parallel(rep, Job(fn), [cfgs[i:i + n] for i in range(0, len(cfgs), n)])
  rep.need('queries', 20)
