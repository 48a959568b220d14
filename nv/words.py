"""Expressions over symbolic symbols, and what they stand for.

A shape is 'x' (a symbol), 'e' (an empty Cat), or ('Cat'|'Or', shape, ...).
Its symbols are symbolic: any two of them may be the same one.
"""
import itertools

from nv import sym


def modules():
  from nisaba.scripts.natural_translit.utils import expression
  from nisaba.scripts.natural_translit.utils import symbol
  return expression, symbol


_kinds = {}
_plain = {}


def _symbolic(symbol):
  if 'kind' not in _kinds:
    class Symbolic(symbol.Symbol):
      """A symbol that is known by a symbolic number."""

      def __init__(self, number, alias):
        self.number = number
        super().__init__(alias)

      def __eq__(self, other):
        if isinstance(other, Symbolic):
          return self is other or self.number == other.number
        return NotImplemented

      def __hash__(self):
        return 7

    _kinds['kind'] = Symbolic
  return _kinds['kind']


def leaf(p, name, count):
  """(symbol, its number): one of `count` symbols."""
  exp, symbol = modules()
  n = p.int(name, 0, count - 1)
  if isinstance(n, sym.Num):
    return _symbolic(symbol)(n, name), n
  if n not in _plain:
    _plain[n] = symbol.Symbol('plain%d' % n)
  return _plain[n], n


def grow(p, shape, tag, count):
  """(the real expression, its language: a list of tuples of numbers)."""
  exp, _ = modules()
  if shape == 'x':
    s, n = leaf(p, tag, count)
    return exp.Atomic.get_instance(s), [(n,)]
  if shape == 'e':
    return exp.Cat(), [()]
  parts = [grow(p, t, '%s%d' % (tag, i), count)
           for i, t in enumerate(shape[1:])]
  e = getattr(exp, shape[0])(*[x for x, _ in parts])
  if shape[0] == 'Cat':
    return e, [tuple(itertools.chain(*w))
               for w in itertools.product(*[l for _, l in parts])]
  return e, [w for _, l in parts for w in l]


def leaves(shape):
  if isinstance(shape, str):
    return int(shape == 'x')
  return sum(leaves(t) for t in shape[1:])


def shapes(n, depth=3):
  """Binary shapes with n symbols; an empty Cat only as an alternative."""
  out = ['x'] if n == 1 else ['e'] if n == 0 else []
  if not depth or not n:
    return out
  for m in range(n + 1):
    for a in shapes(m, depth - 1):
      for b in shapes(n - m, depth - 1):
        if 'e' in (a, b):
          if (b if a == 'e' else a)[0] != 'Or':
            out.append(('Or', a, b))
        else:
          out += [('Cat', a, b), ('Or', a, b)]
  if n == 3:
    out += [('Cat', 'x', 'x', 'x'), ('Or', 'x', 'x', 'x')]
  return out


def number(s):
  """The number of a symbol made by `leaf`."""
  if hasattr(s, 'number'):
    return s.number
  return next(n for n, t in _plain.items() if t is s)


def same_word(a, b):
  if len(a) != len(b):
    return False
  return sym.all_of(True, *[sym.eq(x, y) for x, y in zip(a, b)])


def within(a, b, head=False, tail=False):
  """The word a stands in b: anywhere, at its start, its end, or fills it."""
  if not a:   # Everything contains the empty word, under all conditions.
    return True
  n = len(b) - len(a)
  at = range(n + 1)
  if head and tail:
    at = [0] if n == 0 else []
  elif head:
    at = at[:1]
  elif tail:
    at = at[-1:]
  return sym.any_of(False, *[same_word(a, b[i:i + len(a)]) for i in at])


def includes(a, b):
  """Every word of b is one of a."""
  return sym.all_of(True, *[sym.any_of(False, *[same_word(v, w) for v in a])
                            for w in b])


def of(symbols, number):
  """The words of the real symbol lists."""
  exp, symbol = modules()
  return [() if l == [symbol.Symbol.CTRL.eps] else tuple(number(s) for s in l)
          for l in symbols]
