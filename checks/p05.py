"""P05: an alignment rule applies exactly where its contexts stand."""
from nv import sym, words

FN = ['expression.%s' % f for f in (
    '_BaseAlignment._compare', '_BaseAlignment.matches',
    '_BaseAlignment.is_prefix', '_BaseAlignment.is_suffix',
    '_BaseAlignment.accepts', '_BaseAlignment.is_equivalent',
    '_BaseAlignment.contains', 'Alignment.rule', 'Alignment.simple',
    'Alignment.interchangeable', 'Alignment.deletion', 'Alignment.insertion',
    'Alignment.copy', 'Alignment.context_matches')] + [
        'symbol.Item.head_matches', 'symbol.Item.tail_matches',
        'symbol.Item.matches', 'symbol.Item.contains_symbol_list']

SIDES = ('any', 'x', ('Or', 'x', ('Cat', 'x', 'x')), ('Cat', 'x', 'x'), 'e')


def side(p, shape, tag, count=4):
  exp, _ = words.modules()
  if shape == 'any':
    return exp.Expression.ANY, None
  return words.grow(p, shape, tag, count)


def stands(rule, there, tail, whole):
  """The rule's side stands at the near end of the context, or fills it."""
  if rule is None or there is None:
    return True
  return sym.any_of(False, *[
      sym.all_of(bool(r) == bool(a), words.within(r, a, whole or not tail,
                                                  whole or tail))
      for r in rule for a in there])


def sequence(p, n, tag):
  """An actual context side of n symbols."""
  exp, _ = words.modules()
  parts = [words.leaf(p, '%s_%d' % (tag, i), 4) for i in range(n)]
  return exp.Cat(*[s for s, _ in parts]), [tuple(n for _, n in parts)]


def context(before, shape, shape2, length):
  """One context of the rule; the other is any."""
  def harness(p):
    exp, _ = words.modules()
    l, ll = side(p, shape, 'l')
    r, rl = side(p, shape2, 'r')
    whole = bool(p.bool('whole'))
    al, al_l = sequence(p, length, 'al')
    ar, ar_l = sequence(p, 2, 'ar')
    x, _ = words.leaf(p, 'x', 4)
    y, _ = words.leaf(p, 'y', 4)
    x, y = (exp.Atomic.get_instance(z) for z in (x, y))
    here = exp.Alignment.simple(al, ar)
    anything = exp.Alignment.ANY
    far = exp.Alignment.simple(exp.Cat(x, y), exp.Cat(y))
    other = (anything, far)[p.int('other', 0, 1)]
    if before:
      rules = [exp.Alignment.rule('rule', x >> y, preceding=l >> r,
                                  from_bos=whole)]
      rules += exp.Alignment.interchangeable('rules', x >> y, preceding=l >> r,
                                             from_bos=whole)
      rules += [exp.Alignment.deletion('rule', x, preceding=l >> r,
                                       from_bos=whole)]
      at = (here, other)
    else:
      rules = [exp.Alignment.rule('rule', x >> y, following=l >> r,
                                  to_eos=whole)]
      rules += [exp.Alignment.insertion('rule', y, following=l >> r,
                                        to_eos=whole), rules[0].copy()]
      at = (other, here)
    want = sym.all_of(stands(ll, al_l, before, whole),
                      stands(rl, ar_l, before, whole))
    for rule in rules:
      p.check(sym.same(rule.context_matches(*at), want), 'context_matches')
    return want
  return harness


def both(n):
  """Both contexts: a conjunction."""
  def harness(p):
    exp, _ = words.modules()
    pre, pl = side(p, 'x', 'p')
    fol, fl = side(p, ('Or', 'x', ('Cat', 'x', 'x')), 'f')
    bos, eos = bool(p.bool('bos')), bool(p.bool('eos'))
    k, m = p.int('before', 0, n), p.int('after', 0, n)
    k, m = int(k), int(m)
    ap, apl = sequence(p, k, 'ap')
    af, afl = sequence(p, m, 'af')
    x = exp.Atomic.get_instance(words.leaf(p, 'x', 4)[0])
    anything = exp.Expression.ANY
    rule = exp.Alignment.rule('rule', x >> x, preceding=pre >> anything,
                              following=anything >> fol, from_bos=bos,
                              to_eos=eos)
    p.check(sym.same(
        rule.context_matches(ap >> anything, anything >> af), sym.all_of(
            stands(pl, apl, True, bos), stands(fl, afl, False, eos))),
            'context_matches')
  return harness


def compare(one, two):
  """Alignments compare side by side."""
  def harness(p):
    exp, _ = words.modules()
    a, al = side(p, one, 'a')
    b, bl = side(p, two, 'b')
    c, cl = side(p, 'x', 'c')
    d, dl = side(p, ('Or', 'x', 'x'), 'd')
    e, f = a >> c, b >> d

    def sides(test):
      return sym.all_of(test(al, bl), test(cl, dl))

    def inc(k, l):
      return True if k is None or l is None else words.includes(k, l)

    def alike(k, l):
      if k is None or l is None:
        return k is l
      return sym.all_of(words.includes(k, l), words.includes(l, k))

    def some(head, tail):
      return lambda k, l: k is None or l is None or sym.any_of(False, *[
          words.within(w, v, head, tail) for v in k for w in l])
    p.check(sym.same(e.accepts(f), sides(inc)), 'accepts')
    p.check(sym.same(e.is_equivalent(f), sides(alike)), 'is_equivalent')
    p.check(sym.same(e.contains(f), sides(some(False, False))), 'contains')
    p.check(sym.same(f.is_contained(e), sides(some(False, False))),
            'is_contained')
    p.check(sym.same(e.matches(f), sides(some(True, True))), 'matches')
    p.check(not e.accepts(a) and not e.contains(c), 'not alignments')
    p.check(bool(e.copy().is_equivalent(e)), 'copy')
  return harness


def run(c):
  lengths = c.pick((0, 1, 2), (0, 1, 2, 3))
  for before in (True, False):
    name = 'preceding' if before else 'following'
    for s in SIDES:
      for t in SIDES:
        if c.quick and 'any' not in (s, t) and s != 'x':
          continue
        for n in lengths:
          c.explore('%s %s:%s, %d' % (name, s, t, n),
                    lambda m, s=s, t=t, n=n, before=before:
                    context(before, s, t, n), [0], FN)
  c.explore('both contexts', both, c.pick([2], [2, 3, 4]), FN)
  for s in SIDES:
    for t in SIDES:
      c.explore('compare %s and %s' % (s, t),
                lambda n, s=s, t=t: compare(s, t), [0], FN)
  c.run()
