"""P04: an expression stands for the set of its symbol sequences."""
from nv import sym, words

FN = ['expression.%s' % f for f in (
    'Expression._add_item', 'Expression.__add__', 'Expression.__or__',
    'Expression.repeat', 'Expression.ques', 'Atomic.get_instance',
    'Cat.add', 'Cat.symbols', 'Cat._add_sym_lists', 'Cat.copy', 'Or.add',
    'Or.symbols', 'Or.copy', 'Or._update')] + [
        'symbol.Item.%s' % f for f in (
            'accepts', 'is_equivalent', 'contains', 'contains_symbol_list',
            'matches', 'head_matches', 'is_prefix', 'tail_matches',
            'is_suffix', 'is_contained')]


def equal(e, lang):
  """The symbol lists of a real expression are the words of `lang`."""
  got = words.of(e.symbols(), words.number)
  return sym.all_of(words.includes(lang, got), words.includes(got, lang))


def language(shape, count):
  def harness(p):
    exp, symbol = words.modules()
    e, l = words.grow(p, shape, 'a', count)
    p.check(equal(e, l), 'symbols')
    p.check(equal(e.copy(), l), 'copy')
    x, n = words.leaf(p, 'x', count)
    x = exp.Atomic.get_instance(x)
    p.check(equal(e + x, [w + (n,) for w in l]), 'sum')
    p.check(equal(x + e, [(n,) + w for w in l]), 'sum')
    p.check(equal(e | x, l + [(n,)]), 'alternatives')
    p.check(equal(e.ques(), l + [()]), 'ques')
    p.check(equal(e.ques(True), l + [()]), 'ques')
    p.check(equal(e.repeat(2), [v + w for v in l for w in l]), 'repeat')
    p.check(equal(exp.Cat(e, symbol.Symbol.CTRL.eps), l), 'epsilon')
    p.check(equal(exp.Or(e, symbol.Symbol.CTRL.nor), l), 'no alternative')
    p.check(equal(e, l), 'the operands')
  return harness


def relations(one, two, count):
  def harness(p):
    exp, symbol = words.modules()
    e, k = words.grow(p, one, 'a', count)
    f, l = words.grow(p, two, 'b', count)
    p.check(sym.same(e.accepts(f), words.includes(k, l)), 'accepts')
    p.check(sym.same(f.accepts(e), words.includes(l, k)), 'accepts')
    p.check(sym.same(e.is_equivalent(f), sym.all_of(
        words.includes(k, l), words.includes(l, k))), 'is_equivalent')

    def some(head=False, tail=False):
      return sym.any_of(False, *[words.within(w, v, head, tail)
                                 for v in k for w in l])
    p.check(sym.same(e.contains(f), some()), 'contains')
    p.check(sym.same(f.is_contained(e), some()), 'is_contained')
    p.check(sym.same(e.matches(f), some(True, True)), 'matches')
    p.check(sym.same(e.contains(f, match_head=True), some(True)), 'at the head')
    p.check(sym.same(e.contains(f, match_tail=True), some(False, True)),
            'at the tail')
    p.check(sym.same(e.head_matches(f), some(True)), 'head_matches')
    p.check(sym.same(f.is_prefix(e), some(True)), 'is_prefix')
    p.check(sym.same(e.tail_matches(f), some(False, True)), 'tail_matches')
    p.check(sym.same(f.is_suffix(e), some(False, True)), 'is_suffix')
  return harness


def special(shape, count):
  """Any, eps and nor."""
  def harness(p):
    exp, symbol = words.modules()
    e, l = words.grow(p, shape, 'a', count)
    anything, empty = exp.Expression.ANY, exp.Or()
    nor = symbol.Symbol.CTRL.nor
    for q in (e.contains, e.matches, e.head_matches, e.tail_matches,
              e.is_contained, e.is_prefix, e.is_suffix, e.accepts):
      p.check(q(anything), 'any')
    p.check(anything.matches(e) and anything.is_prefix(e), 'any')
    p.check((e | anything).is_any() and (anything | e).is_any(), 'any')
    for n in (empty, exp.Or(), exp.Atomic.CTRL.nor, nor):
      for q in (e.contains, e.matches, e.head_matches, e.tail_matches):
        p.check(not q(n), 'nothing matches no alternative')
      if () not in l:   # Everything contains the empty sequence.
        for q in (e.is_contained, e.is_prefix, e.is_suffix):
          p.check(not q(n), 'no alternative matches nothing')
    p.check(not empty.matches(exp.Or()), 'no alternative matches nothing')
    p.check(e.contains(exp.Cat()) and e.contains(symbol.Symbol.CTRL.eps),
            'contains the empty sequence')
    p.check(exp.Cat().is_equivalent(exp.Atomic.CTRL.eps), 'empty sequences')
    p.check(not exp.Cat().is_prefix(e) and not exp.Cat().is_suffix(e),
            'a prefix has a symbol')
  return harness


def run(c):
  top = c.pick(3, 4)
  for n in range(1, top + 1):
    every = words.shapes(n, 3 if n < 4 else 2)
    size = 1 if n < 3 else 8
    for i in range(0, len(every), size):
      part = every[i:i + size]
      for name, make in (('language', language), ('special', special)):
        c.explore('%s of %s...' % (name, part[0]),
                  lambda m, part=part, make=make: all_of(
                      [make(s, 4) for s in part]), [0], FN)
  total = c.pick(4, 5)
  pairs = [(a, b) for n in range(1, total) for m in range(1, total + 1 - n)
           if n >= m or n + m < total
           for a in words.shapes(n, 2) for b in words.shapes(m, 2)]
  twice = ('Or', 'e', 'x')
  pairs += [(('Cat', twice, twice), ('Or', twice, ('Cat', 'x', 'x')))]
  for i in range(0, len(pairs), 40):
    part = pairs[i:i + 40]
    c.explore('relations of %s and %s...' % part[0],
              lambda m, part=part: all_of(
                  [relations(a, b, 5) for a, b in part]), [0], FN)
  c.run()


def all_of(harnesses):
  """One of them, by a symbolic choice."""
  def harness(p):
    i = p.int('which', 0, len(harnesses) - 1)
    harnesses[i](p)
  return harness
