"""P08: a lattice gives every place in it one state, and the error state else."""
from nv import pyx, sym  # noqa: F401

FN = ['lattice.Lattice.%s' % f for f in (
    '__init__', '_new_node', 'node', 'state', 'state_of', 'nodes_str',
    'states_str')] + ['lattice.Node.__init__']


def made(p, tag, kind, size, before=None):
  """(a lattice, its FST, whether it is its own)."""
  import pynini
  from nisaba.scripts.natural_translit.utils import lattice
  w, h = int(p.int(tag + 'width', 0, size)), int(p.int(tag + 'height', 0, size))
  populate = bool(p.bool(tag + 'populate'))
  kw = {}
  if kind in ('own', 'used'):
    kw['fst'] = pynini.Fst()
    if kind == 'used':
      kw['fst'].add_states(3)
  elif kind == 'shared':
    kw = {'fst': before.fst, 'error': before.error}
  elif kind == 'error':
    kw['fst'] = pynini.Fst()
    kw['error'] = lattice.Node('error')
  l = lattice.Lattice(tag, w, h, populate=populate, **kw)
  return l, w, h, populate


def harness_of(kinds, size):
  def harness(n, p):
    from nisaba.scripts.natural_translit.utils import lattice
    lattices = []
    for i, k in enumerate(kinds):
      lattices.append(made(p, 'l%d' % i, k, size,
                           lattices[0][0] if lattices else None))
    states = [{} for _ in lattices]
    for i, (l, w, h, populate) in enumerate(lattices):
      p.check(l.error.fst is l.fst, 'the error node is in the FST')
      if populate:
        for x in range(w):
          for y in range(h):
            p.check(l.node(x, y).has_state(), 'populated')
            states[i][x, y] = l.node(x, y).state
    for step in range(n):
      i = int(p.int('which%d' % step, 0, len(lattices) - 1))
      l, w, h, _ = lattices[i]
      x, y = p.int('x%d' % step, -2, size + 1), p.int('y%d' % step, -2, size + 1)
      way = int(p.int('way%d' % step, 0, 2))
      inside = bool(sym.all_of(x >= 0, x < w, y >= 0, y < h))
      if way == 0:
        s = l.state(x, y)
      else:
        node = lattice.Node('node', x=x, y=y)
        if way == 2:  # A node of another lattice, which has a state there.
          node.fst.add_states(9)
          node.state = 7
        s = l.state_of(node)
      p.check(type(s) is int and 0 <= s < l.fst.num_states(), 'a state')
      if inside:
        at = int(x), int(y)
        node = l.node(*at)
        p.check((node.x, node.y) == at and node.fst is l.fst, 'coordinates')
        p.check(states[i].setdefault(at, s) == s, 'the same state')
      else:
        p.check(s == l.error.state and l.node(x, y) is l.error, 'error')
    for i, (l, w, h, _) in enumerate(lattices):
      mine = list(states[i].values()) + [l.error.state]
      p.check(len(set(mine)) == len(mine), 'different states')
      rows = l.states_str().split('\n')[2:-1]
      want = '\n'.join('\t'.join(
          str(states[i].get((x, y), '∅')) for x in range(w))
                       for y in range(h)).split('\n')
      p.check(rows == want, 'states_str')
      for j in range(i):
        if l.fst is lattices[j][0].fst:
          both = list(states[i].values()) + list(states[j].values())
          p.check(len(set(both)) == len(both), 'lattices that share an FST')
  return lambda n: lambda p: harness(n, p)


def run(c):
  size = c.pick(2, 3)
  for kinds in (('own',), ('used',), ('error',), ('own', 'own'),
                ('own', 'used'), ('error', 'own'), ('default',),
                ('default', 'own'), ('own', 'default'), ('default', 'default'),
                ('own', 'shared')):
    c.explore(' '.join(kinds), harness_of(kinds, size if len(kinds) == 1 else 1),
              c.pick([2], [2, 3]), FN)
  c.run()
