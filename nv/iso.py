"""Claims about weighted grammars: their best outputs.

A run is constrained to be a best one by potentials (enc.SplitPotential): lower
bounds on the weight of every run, chosen by the solver, that the run attains.
"""
from nv import claims, enc, harness, machines, product, sat


def word_problem(c, x, words, m_list, violation):
  return harness.Problem(
      c, violation, words=dict(words, x=x),
      states=sum(m.n_states for m in m_list),
      transitions=sum(m.n_steps for m in m_list),
      twin=[(x.more[x.n - 1],)])


def single_best(c, name, g, alphabet, bounds, grow=3, weight=2, show=None,
                **kw):
  """Adds: no input has two best outputs."""
  show = show or claims.show_word

  def encode(n):
    m = g.split
    al = m.isyms & set(alphabet() if callable(alphabet) else alphabet)
    f = sat.CNF()
    x = enc.Word(f, al, n)
    y, z = (enc.Word(f, m.osyms, grow * n + 1) for _ in 'yz')
    p = enc.SplitPotential(f, m, x, weight * n + 1)
    for w in (y, z):
      p.at_most(enc.SplitRun(f, m, x, w), 0)
    enc.differ(f, y, z)
    v = [f.cl.pop()]
    return word_problem(f, x, {'y': y, 'z': z}, [m], v)

  def replay(w):
    o = g.best(w['x'])
    return len(o) > 1, 'input %s has the best outputs %s' % (
        show(w['x']), '; '.join(map(show, o[:4])))

  def confirm(w):
    return tuple(w['y']) in g.best(w['x'])
  return c.query(name, encode, bounds, replay, confirm, **kw)


def _best(x, g, p_alphabet, y, f, n, weight):
  """y is a best output of g on x."""
  m = g.split
  p = enc.SplitPotential(f, m, x, weight * n + 1)
  p.at_most(enc.SplitRun(f, m, x, y), 0)
  return m


def round_trip(c, name, there, back, norm, alphabet, bounds, grow=3, weight=2,
               show=None, out=2, best=False, **kw):
  """Adds: back(there(x)), best outputs, is norm(x), or with `best` its best ones."""
  show = show or claims.show_word

  def encode(n):
    a, b, o = there.split, back.split, norm.split
    al = a.isyms & o.isyms & set(alphabet() if callable(alphabet) else alphabet)
    f = sat.CNF()
    x = enc.Word(f, al, n)
    y = enc.Word(f, a.osyms, grow * n + 1)
    z = enc.Word(f, b.osyms, out * n + 2)
    w = enc.Word(f, o.osyms, out * n + 2)
    enc.SplitPotential(f, a, x, weight * n + 1).at_most(
        enc.SplitRun(f, a, x, y), 0)
    enc.SplitPotential(f, b, y, weight * n + 1).at_most(
        enc.SplitRun(f, b, y, z), 0)
    if best:
      enc.SplitPotential(f, o, x, weight * n + 1).at_most(
          enc.SplitRun(f, o, x, w), 0)
    else:
      enc.SplitRun(f, o, x, w)
    enc.differ(f, z, w)
    v = [f.cl.pop()]
    return word_problem(f, x, {'y': y, 'z': z, 'w': w}, [a, b, o], v)

  def tapes(x):
    ys = there.best(x)
    return ys, [z for y in ys for z in back.best(y)], (
        norm.best(x) if best else list(norm.outputs(x)))

  def replay(v):
    ys, zs, ws = tapes(v['x'])
    return any(z != w for z in zs for w in ws), '%s becomes %s, and then %s ' \
        'instead of %s' % (show(v['x']), ' | '.join(map(show, ys[:3])),
                           ' | '.join(map(show, zs[:3])),
                           ' | '.join(map(show, ws[:3])))

  def confirm(v):
    ys, zs, ws = tapes(v['x'])
    return (tuple(v['y']) in ys and tuple(v['z']) in zs and
            tuple(v['w']) in ws)
  return c.query(name, encode, bounds, replay, confirm, **kw)


def agree(c, name, g, h, text, bounds, grow=2, weight=1, show=None, slack=0,
          pad=8, leave=(), **kw):
  """Adds: on words that `text` accepts, the best outputs of g and h agree.

  leave: words that are left out if they occur in the output of h.
  weight, grow: per symbol read, the greatest weight and length allowed for.
  """
  show = show or claims.show_word

  def encode(n):
    f = sat.CNF()
    x = enc.Word(f, text.mealy.isyms, n)
    enc.Run(f, product.acceptor(text.mealy), x, {})
    ys = []
    for m in (g.split, h.split):
      y = enc.Word(f, m.osyms, int(grow * n) + pad)
      enc.SplitPotential(f, m, x, int(weight * n) + 2).at_most(
          enc.SplitRun(f, m, x, y), 0)
      ys.append(y)
    if leave:
      enc.Run(f, product.acceptor(machines.avoiding(machines.occurs(
          [[{a} for a in w] for w in leave], set(ys[1].alphabet)))), ys[1], {})
    enc.differ(f, *ys)
    v = [f.cl.pop()]
    p = word_problem(f, x, {'y': ys[0], 'z': ys[1]}, [g.split, h.split], v)
    p.twin = [(x.more[max(0, n - 1 - slack)],)]
    return p

  def replay(w):
    x = tuple(w['x'])
    if not text.accepts(x):
      return False, 'not a text of the alphabet'
    a, b = g.best(x), h.best(x)
    b = [t for t in b if not any(has(t, w) for w in leave)]
    return any(s != t for s in a for t in b), '%s: %s and %s' % (
        show(x), ' | '.join(map(show, a[:3])), ' | '.join(map(show, b[:3])))

  def confirm(w):
    return tuple(w['y']) in g.best(w['x']) and tuple(w['z']) in h.best(w['x'])
  return c.query(name, encode, bounds, replay, confirm, **kw)


def has(word, part):
  n = len(part)
  return any(tuple(word[i:i + n]) == tuple(part) for i in range(len(word)))


def utf8(w):
  return tuple(z for a in w for z in chr(a).encode())


def encoded(f, x, words=None):
  """The symbolic UTF-8 of the symbolic word x."""
  m = machines.utf8_map(x.alphabet)
  if words is None:
    words = enc.Word(f, m.osyms, m.max_out * x.n)
  enc.Run(f, product.single(m, 'b', set(x.alphabet)), x, {'b': words})
  return words


def bytes_agree(c, name, u, g, alphabet, bounds, grow=3, weight=2, show=None,
                **kw):
  """Adds: a best output of the byte grammar g on the UTF-8 of x is the UTF-8 of
  a best output of the code point grammar u on x."""
  show = show or claims.show_word

  def encode(n):
    f = sat.CNF()
    al = u.split.isyms & set(alphabet() if callable(alphabet) else alphabet)
    x = enc.Word(f, al, n)
    xb = encoded(f, x)
    y = enc.Word(f, u.split.osyms, grow * n + 1)
    enc.SplitPotential(f, u.split, x, weight * n + 1).at_most(
        enc.SplitRun(f, u.split, x, y), 0)
    yb = encoded(f, y)
    z = enc.Word(f, g.split.osyms, 2 * grow * n + 2)
    enc.SplitPotential(f, g.split, xb, weight * xb.n + 1).at_most(
        enc.SplitRun(f, g.split, xb, z), 0)
    enc.differ(f, yb, z)
    v = [f.cl.pop()]
    return word_problem(f, x, {'y': y, 'z': z}, [u.split, g.split], v)

  def replay(w):
    x = tuple(w['x'])
    a, b = u.best(x), g.best(utf8(x))
    return any(utf8(s) != t for s in a for t in b), '%s: %s and, in bytes, %s' % (
        show(x), ' | '.join(map(show, a[:3])),
        ' | '.join(map(claims.show_bytes, b[:3])))

  def confirm(w):
    x = tuple(w['x'])
    return (tuple(w['y']) in u.best(x) and
            tuple(w['z']) in g.best(utf8(x)))
  return c.query(name, encode, bounds, replay, confirm, **kw)
