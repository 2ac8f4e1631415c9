"""Compares what a generated query computes with what is documented."""
from . import sqlast as sa, sqlref as sr, sqlterm as st


class Difference:

  def __init__(self, what, detail):
    self.what, self.detail = what, detail


def known(t):
  return not any(x[:2] == ('fn', st.OPAQUE) for x in st.walk(t))


def compare(res):
  """Differences of a trees.Result; raises st.Undecided or sr.Skip."""
  ref = sr.Reference(res.root, res.cfg.split)
  want = ref.run(res.root)
  rel = st.Terms('T', ref.marks).run(sa.parse(res.queries[0]))
  return differences(res, want, rel)


def differences(res, want, rel):
  out = []
  idx = [s.lower() for s in list(res.cfg.split or ()) + want.index]
  n = len(idx)
  names = rel.order
  got = [rel.cols[x] for x in names]
  if got[:n] != [('k', i) for i in idx]:
    out.append(Difference('index', 'the result is indexed by %s, not by %s' % (
        ', '.join(names[:n]), ', '.join(idx))))
  vals = got[n:]
  if len(vals) != len(want.cols):
    out.append(Difference('columns', 'there are %d value columns (%s), not %d'
                          % (len(vals), ', '.join(names[n:]), len(want.cols))))
  else:
    for name, v, w in zip(names[n:], vals, want.cols):
      if w is not None and known(v) and not st.equal(v, w):
        out.append(Difference('value', '%s is %s instead of %s' % (
            name, brief(v, w), brief(w, v))))
  if st.conds_norm(rel.cons) != st.conds_norm(want.cons):
    out.append(Difference('rows', 'the rows are those with %s, not with %s' % (
        st.conds_show(rel.cons) or 'any value', st.conds_show(want.cons) or (
            'any value'))))
  if res.labels is not None:
    l = res.labels[n:]
    if len(l) == len(want.labels):
      for a, b in zip(l, want.labels):
        if b is not None and a != b:
          out.append(Difference('label', 'a column is labelled %r, not %r' % (
              a, b)))
    elif len(vals) == len(want.cols):
      out.append(Difference('label', 'the columns are labelled %s, not %s' % (
          l, want.labels)))
  return out


def brief(t, other):
  """The part of a term that differs from another."""
  while True:
    a, b = st.subterms(t), st.subterms(other)
    if t[0] != other[0] or len(a) != len(b) or t[0] in ('agg', 'win') and (
        shell(t) != shell(other)) or t[0] == 'fn' and t[1] != other[1]:
      return st.show(t)[:400]
    ds = [(x, y) for x, y in zip(a, b) if st.norm(x) != st.norm(y)]
    if len(ds) != 1:
      return st.show(t)[:400]
    t, other = ds[0]


def shell(t):
  return st.norm(t[:2] + (('c', 1),) + t[3:])
