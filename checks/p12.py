"""P12: things and lists of things: what is added, what is found, what is equal."""
from nv import pyx

FN = ['type_op.%s' % f for f in (
    'Thing.__init__', 'IterableThing.__init__', 'IterableThing.add',
    'IterableThing.valid_item', 'IterableThing.item', 'IterableThing.__len__',
    'IterableThing.__iter__', 'value_of', 'is_equal', 'type_check')] + [
        'fst_list.FstList.add', 'fst_list.FstList.make',
        'fst_list.FstList.accep', 'fst_list.FstList.concat',
        'fst_list.FstList.union']


def modules():
  pyx.stand_ins()
  from nisaba.scripts.natural_translit.utils import fst_list
  from nisaba.scripts.natural_translit.utils import type_op as ty
  return ty, fst_list


def forest(p, n, kinds, holds):
  """n nodes: (kind, number, children); a node hangs on an earlier container."""
  nodes, roots = [], []
  for i in range(n):
    k = kinds[int(p.int('kind%d' % i, 0, len(kinds) - 1))]
    node = (k, i, [])
    above = [x for x in nodes if x[0] in holds]
    at = int(p.int('above%d' % i, -1, len(above) - 1)) if above else -1
    (roots if at < 0 else above[at][2]).append(node)
    nodes.append(node)
  return roots


def same(xs, ys):
  return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


LEAVES = ('int', 'str', 'nothing', 'thing')
HOLDS = ('list', 'tuple', 'own', 'sub')


def build(ty, Sub, node, memo):
  k, i, sub = node
  kids = [build(ty, Sub, s, memo) for s in sub]
  memo[i] = {
      'int': lambda: 1000 + i, 'str': lambda: 'str%d' % i,
      'nothing': lambda: (ty.MISSING, ty.UNSPECIFIED, ty.UNASSIGNED)[i % 3],
      'thing': lambda: ty.Thing('t%d' % i), 'list': lambda: list(kids),
      'tuple': lambda: (*kids, 0.5), 'own': lambda: ty.IterableThing(*kids),
      'sub': lambda: Sub(*kids)}[k]()
  return memo[i]


def flat(node, memo, kind):
  """The items that adding the node to an untyped container of the kind adds."""
  k, i, sub = node
  if k == 'nothing':
    return []
  if k == kind:
    return [x for s in sub for x in flat(s, memo, kind)]
  return [memo[i]]


def within(node, memo):
  """The items that iterating over the node gives, as (kind, item)."""
  k, i, sub = node
  if k in ('own', 'sub'):
    out = []
    for s in sub:
      if s[0] == k:
        out += within(s, memo)
      elif s[0] != 'nothing':
        out.append(s)
    return out
  return list(sub)


def typed(node, memo, valid):
  k, i, sub = node
  if valid(k):
    return [memo[i]]
  if k in HOLDS:
    out = [x for s in within(node, memo) for x in typed(s, memo, valid)]
    return out + ([0.5] if k == 'tuple' and valid('float') else [])
  return []


def plain(n):
  def harness(p):
    ty, _ = modules()
    class Sub(ty.IterableThing):
      pass
    roots = forest(p, n, LEAVES + HOLDS, HOLDS)
    for kind, cls in (('own', ty.IterableThing), ('sub', Sub)):
      memo = {}
      objects = [build(ty, Sub, r, memo) for r in roots]
      want = [x for r in roots for x in flat(r, memo, kind)]
      got = cls(*objects)
      p.check(same(list(got), want), 'untyped items')
      p.check(len(got) == len(want) and bool(got) == bool(want), 'size')
      two = cls()
      p.check(all(two.add(o) is two for o in objects) and same(list(two), want),
              'items added one by one')
      for o in want:
        p.check(o in got, 'in')
    finds(p, got, want)
  return harness


def finds(p, got, want):
  n = len(want)
  i = p.int('index', -n - 2, n + 2)
  other = object()
  x = got.item(i, other)
  for k in range(-n, n):
    if i == k:
      p.check(x is want[k], 'item')
      return
  p.check(x is other, 'no item')


TYPES = {
    'int': lambda ty: (int, ('int',)),
    'str': lambda ty: (str, ('str',)),
    'int or str': lambda ty: (int | str, ('int', 'str')),
    'int or own': lambda ty: (int | ty.IterableThing, ('int', 'own', 'sub')),
    'thing': lambda ty: (ty.Thing, ('thing', 'own', 'sub')),
    'list': lambda ty: (list, ('list',)),
    'float': lambda ty: (float, ('float',)),
}


def of_type(n):
  def harness(p):
    ty, _ = modules()
    class Sub(ty.IterableThing):
      pass
    name = list(TYPES)[int(p.int('type', 0, len(TYPES) - 1))]
    t, kinds = TYPES[name](ty)
    roots = forest(p, n, LEAVES + HOLDS, HOLDS)
    memo = {}
    objects = [build(ty, Sub, r, memo) for r in roots]
    want = [x for r in roots for x in typed(r, memo, lambda k: k in kinds)]
    got = ty.IterableThing(*objects, typed=t)
    p.check(same(list(got), want), 'items of type %s' % name)
    for r, o in zip(roots, objects):
      p.check(got.valid_item(o) == (r[0] in kinds), 'valid_item')
    finds(p, got, want)
  return harness


def fsts(n):
  """FstList: the acceptors of the strings and the fsts, in order."""
  def harness(p):
    ty, fl = modules()
    pyn = ty.pyn
    roots = forest(p, n, ('str', 'fst', 'int', 'nothing', 'list', 'own'),
                   ('list', 'own'))
    memo = {}

    def make(node):
      k, i, sub = node
      kids = [make(s) for s in sub]
      memo[i] = {
          'str': lambda: 'abcdefg'[i], 'fst': lambda: pyn.accep('uvwxyz'[i]),
          'int': lambda: i, 'nothing': lambda: ty.UNSPECIFIED,
          'list': lambda: kids, 'own': lambda: fl.FstList(*kids)}[k]()
      return memo[i]

    def leaves(node):
      k, i, sub = node
      if k in ('str', 'fst'):
        return [(k, memo[i])]
      return [x for s in sub for x in leaves(s)]
    objects = [make(r) for r in roots]
    want = [x for r in roots for x in leaves(r)]
    got = fl.FstList(*objects)
    p.check(len(got) == len(want), 'fsts')
    if len(got) != len(want):
      return
    text = []
    for x, (k, o) in zip(got, want):
      if k == 'fst':
        text.append(o.string())
      else:
        text.append(o)
      p.check(isinstance(x, pyn.Fst) and x.string() == text[-1], 'fst in order')
    p.check(got.concat().string() == ''.join(text), 'concat')
    u = got.union()
    paths = sorted(u.paths().ostrings()) if u.num_states() else []
    p.check(sorted(set(paths)) == sorted(set(text)), 'union')
    p.check([x.string() for x in got] == text, 'the list after')
    p.check([x.string() for x in fl.FstList.accep(*text)] == text, 'accep')
    pairs = list(zip(text, reversed(text)))
    p.check([next(x.paths().items())[:2] for x in fl.FstList.cross(*pairs)] ==
            pairs, 'cross')
  return harness


def values(n):
  """Thing and is_equal: symbolic numbers in up to n wrappings."""
  def harness(p):
    ty, _ = modules()
    nothing = (ty.MISSING, ty.UNSPECIFIED, ty.UNASSIGNED)

    def thing(name):
      """An object, and what is_equal has to compare it by."""
      kind = int(p.int(name + ' is', 0, 4))
      if kind == 0:
        x = p.int(name, 0, 9)
        x, v = x, ('number', x)
      elif kind == 1:
        x = nothing[int(p.int(name + ' no', 0, 2))]
        v = ('nothing', None)
      elif kind == 2:
        x = ty.Thing(alias='bare ' + name)
        v = ('self', x)
      elif kind == 3:
        x, v = None, ('none', None)
      else:
        x, v = 'text', ('text', 'text')
      own = v
      for i in range(n):
        how = int(p.int('%s wrap %d' % (name, i), 0, 3))
        if how == 0:
          continue
        attr = ['', '', 'value', 'no_such'][how]
        y = ty.Thing(alias='%s %d' % (name, i), value_from=x, from_attribute=attr)
        p.check(y.alias == '%s %d' % (name, i), 'alias')
        if isinstance(x, ty.Nothing):
          want, v = y, ('self', y)
        elif how == 2 and isinstance(x, ty.Thing):
          want = x.value      # whatever was compared before
        else:
          want, v = x, (own if not isinstance(x, ty.Thing) else ('self', x))
        p.check(y.value is want, 'value of a thing')
        x, own = y, v
      return x, v
    a, va = thing('a')
    b, vb = thing('b')
    got = ty.is_equal(a, b)
    p.check(got == ty.is_equal(b, a), 'symmetric')
    if va[0] == 'nothing' or vb[0] == 'nothing' or va[0] != vb[0]:
      want = False
    elif va[0] == 'self':
      want = va[1] is vb[1]
    else:
      want = va[1] == vb[1]
    p.check(got == bool(want), 'equal by value')
    for o, v in ((a, va), (b, vb)):
      p.check(ty.is_equal(o, o) == (v[0] != 'nothing'), 'equal to itself')
  return harness


def run(c):
  c.explore('untyped', plain, c.pick([2, 3], [2, 3, 4]), FN)
  c.explore('typed', of_type, c.pick([2, 3], [2, 3, 4]), FN)
  c.explore('fsts', fsts, c.pick([2, 4], [2, 4, 5]), FN)
  c.explore('values', values, c.pick([1, 2], [1, 2, 3]), FN)
  c.run()
