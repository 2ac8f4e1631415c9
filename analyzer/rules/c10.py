"""C10: generated SQL never divides by zero."""
from .. import sqlast as sa, sqlflow as sf, sqlrun

PATHS = [('to_sql', None), ('compute_on_sql', None),
         ('compute_on_sql', 'mixed'), ('compute_on_sql', 'magic')]
MAX_UNDECIDED = 10000
RULE = (
    'The exact text of every query is folded from the source and parsed. The '
    'denominator of every division must be a constant other than 0, be '
    'compared with 0 on the way to the division (IF, CASE, NULLIF), or the '
    'division must be a SAFE_DIVIDE.')
EXPLANATION = (
    'Every division of every query of every built-in metric over leaves and '
    'nested operations, its options varied one at a time; queries of to_sql '
    'and everything compute_on_sql executes.')
ASSUMPTIONS = ['What the caller writes in filters is not looked at.']


def check(rep, q, error):
  if error is not None:
    return

  def visit(e, safe):
    rep.count('divisions')
    if not safe:
      rep.find(q.key(kind(q)), '%s divides by %s without a guard' % (
          q.cfg, sa.show(e)[:200]), 'SQL of %s' % q.cfg.cls)
  divide(q.ast, visit)


def kind(q):
  return q.cfg.kind or 'leaf'


def divide(ast, visit):
  sf.divisions(ast, lambda e, nz: visit(e[3], sf.safe_denominator(e[3], nz)))


def run(rep, tier):
  sqlrun.every(rep, tier, check, PATHS)
  rep.need('divisions', 5)
