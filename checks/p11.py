"""P11: rules and stages are put in the order that their meaning needs."""
from nv import pyx, sym, texts  # noqa: F401

FN = ['rule.partition_unordered', 'rule._match_lhs_in_lhs']
FN_C = ['rewrite.ComposeFsts']


def partition(shape):
  """Rules with left sides of these lengths; any of them may be the same."""
  def harness(p):
    texts.start(p)
    from nisaba.scripts.utils import rule
    rows = [rule.Rule(texts.text(p, 'l%d_' % i, n),
                      texts.text(p, 'r%d_' % i, int(i < 2)))
            for i, n in enumerate(shape)]
    try:
      layers = [list(x) for x in rule.partition_unordered(list(rows))]
    except ValueError:
      layers = None
    same = lambda a, b: texts.decide(texts.same(a, b))  # noqa: E731
    rules = []
    for r in rows:
      if not any(same(r.lhs, o.lhs) and same(r.rhs, o.rhs) for o in rules):
        rules.append(r)
    clash = any(same(a.lhs, b.lhs) for i, a in enumerate(rules)
                for b in rules[:i])
    p.check((layers is None) == clash, 'two results of one left side')
    if clash:
      return
    got = [r for layer in layers for r in layer]
    p.check(len(got) == len(rules), 'every rule once')
    at = []
    for r in rules:
      where = [i for i, layer in enumerate(layers) for o in layer
               if same(r.lhs, o.lhs) and same(r.rhs, o.rhs)]
      p.check(len(where) == 1, 'every rule once')
      at.append(where[0])
    for i, r in enumerate(rules):
      over = [at[j] for j, o in enumerate(rules)
              if len(o.lhs) > len(r.lhs) and any(
                  same(r.lhs, o.lhs[k:k + len(r.lhs)])
                  for k in range(len(o.lhs) - len(r.lhs) + 1))]
      p.check(all(at[i] > k for k in over), 'after those that contain it')
      p.check(at[i] == max(over, default=-1) + 1, 'and no later')
  return harness


def composed(n):
  """Stages of any sizes; each writes its number after what it reads."""
  def harness(p):
    import pynini
    from nisaba.scripts.utils import rewrite
    count = [0]

    class Sized(pynini.Fst):
      """An FST whose size is symbolic."""

      def num_states(self):
        if not hasattr(self, 'size'):
          count[0] += 1
          self.size = p.int('size%d' % count[0], 1, 10**6)
        return self.size

      def optimize(self, *args, **kw):
        return self

      def __matmul__(self, other):
        return sized(pynini.compose(self, other))

    def sized(fst):
      s = Sized()
      s.union(fst)
      return s

    any_digit = pynini.union(*'0123456789').star
    stages = [sized(any_digit + pynini.cross('', str(i))) for i in range(n)]
    default = sized(pynini.accep('9'))
    got = rewrite.ComposeFsts(iter(stages), default)
    if n == 0:
      p.check(got is default, 'the default')
      return
    out = pynini.compose(pynini.accep('7'), got)
    text = sorted(set(pynini.project(out, 'output').rmepsilon()
                      .paths().ostrings()))
    p.check(text == ['7' + ''.join(map(str, range(n)))], 'in order')
  return harness


def run(c):
  pyx.stand_ins()
  deep = [(1, 1), (2, 1), (1, 2, 3), (2, 2, 1), (3, 1, 2), (3, 2, 1, 1),
          (4, 2, 3), (5, 3, 1)]
  for shape in c.pick(deep, deep + [(1, 2, 2, 3), (6, 4, 2)]):
    c.explore('rules %s' % (shape,), lambda n, s=shape: partition(s),
              [len(shape)], FN)
  c.explore('stages', composed, c.pick([0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5]),
            FN_C)
  c.run()
