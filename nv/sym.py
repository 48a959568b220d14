"""Symbolic execution of Python code, path by path, over z3.

A harness is a function of a Path.  It makes symbolic inputs (reals, integers,
booleans, symbols, strings), runs the real code on them and hands the property to
`check`.  The proxies carry z3 terms through the code; where the code branches on
one, the path forks: both sides that the solver finds feasible are explored, each
by running the harness again with the decisions made so far.  At a check the
solver decides whether any value on that path breaks the property; all paths
together cover all values, and an exploration that does not finish is an error.

A model is replayed by running the same harness on plain Python values.
"""
import fractions
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402


class Infeasible(Exception):
  """No input takes this path."""


class Undecided(Exception):
  """The solver gave no answer, or there are too many paths."""


class Violation(Exception):
  def __init__(self, label, model):
    super().__init__(label)
    self.label, self.model = label, model


_path = None   # The path under exploration.


def _term(x):
  """The z3 term of a value, or None."""
  if isinstance(x, (Num, Bool)):
    return x.z
  if isinstance(x, bool):
    return z3.BoolVal(x)
  if isinstance(x, int):
    return z3.IntVal(x)
  if isinstance(x, fractions.Fraction):
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
  if isinstance(x, float):
    return _term(fractions.Fraction(x))
  return None


class Bool:
  """A symbolic truth value.  Asking for its truth forks the path."""

  def __init__(self, z):
    self.z = z

  def __bool__(self):
    return _path.fork(self.z)

  def __eq__(self, other):
    t = _term(other)
    return NotImplemented if t is None else Bool(self.z == t)

  __hash__ = None

  def __invert__(self):
    return Bool(z3.Not(self.z))

  def __and__(self, other):
    return Bool(z3.And(self.z, _term(other)))

  def __or__(self, other):
    return Bool(z3.Or(self.z, _term(other)))

  __rand__, __ror__ = __and__, __or__


class Num(float):
  """A symbolic number; a float to `isinstance`, with terms for values."""

  def __new__(cls, z):
    self = float.__new__(cls, float('nan'))   # Never to be read.
    self.z = z
    return self

  def _op(f):
    def op(self, other):
      t = _term(other)
      return NotImplemented if t is None else f(self.z, t)
    return op

  __add__ = _op(lambda a, b: Num(a + b))
  __radd__ = _op(lambda a, b: Num(b + a))
  __sub__ = _op(lambda a, b: Num(a - b))
  __rsub__ = _op(lambda a, b: Num(b - a))
  __mul__ = _op(lambda a, b: Num(a * b))
  __rmul__ = _op(lambda a, b: Num(b * a))
  __lt__ = _op(lambda a, b: Bool(a < b))
  __le__ = _op(lambda a, b: Bool(a <= b))
  __gt__ = _op(lambda a, b: Bool(a > b))
  __ge__ = _op(lambda a, b: Bool(a >= b))

  @staticmethod
  def _div(a, b):
    if _path.fork(b == 0):
      raise ZeroDivisionError('division by zero')
    r = z3.ToReal(a) if z3.is_int(a) else a
    return Num(r / (z3.ToReal(b) if z3.is_int(b) else b))

  __truediv__ = _op(lambda a, b: Num._div(a, b))
  __rtruediv__ = _op(lambda a, b: Num._div(b, a))

  def __eq__(self, other):
    t = _term(other)
    return False if t is None else Bool(self.z == t)

  def __ne__(self, other):
    t = _term(other)
    return True if t is None else Bool(self.z != t)

  def __hash__(self):
    return 0x5e1f

  def __neg__(self):
    return Num(-self.z)

  def __pos__(self):
    return self

  def __abs__(self):
    return Num(z3.If(self.z < 0, -self.z, self.z))

  def __bool__(self):
    return _path.fork(self.z != 0)

  def __format__(self, spec):
    return '<number>'

  def __repr__(self):
    return '<number>'

  __str__ = __repr__

  def _whole(self, *args):
    raise Undecided('the code asks for the value of a symbolic number')

  __int__ = __trunc__ = __round__ = __floor__ = __ceil__ = __floordiv__ = _whole
  __mod__ = __pow__ = __divmod__ = __rmod__ = __rfloordiv__ = _whole

  del _op


class Int(Num):
  """A symbolic integer.  Where an index is needed, the path forks on it."""

  def __index__(self):
    return _path.value(self.z)

  __int__ = __index__

  def __mod__(self, n):
    if not isinstance(n, int) or n <= 0:
      raise Undecided('modulo')
    return Int(self.z % n)

  def __floordiv__(self, n):
    if not isinstance(n, int) or n <= 0:
      raise Undecided('floor division')
    return Int(self.z / n)

  def _op(f):
    def op(self, other):
      t = _term(other)
      if t is None:
        return NotImplemented
      r = f(self.z, t)
      return Int(r) if z3.is_int(r) else Num(r)
    return op

  __add__ = _op(lambda a, b: a + b)
  __radd__ = _op(lambda a, b: b + a)
  __sub__ = _op(lambda a, b: a - b)
  __rsub__ = _op(lambda a, b: b - a)
  __mul__ = __rmul__ = _op(lambda a, b: a * b)
  del _op

  def __neg__(self):
    return Int(-self.z)

  def __abs__(self):
    return Int(z3.If(self.z < 0, -self.z, self.z))

  def __hash__(self):
    return 0x5e1f


class Path:
  """One run of the harness.  In replay, `model` gives plain values."""

  def __init__(self, engine=None, todo=(), model=None):
    self.engine, self.model = engine, model
    self.todo, self.done = list(todo), []
    self.names, self.given = {}, []
    self.known = {}       # What the path has decided, by the term's number.
    if engine:
      self.solver = z3.Solver()
      self.solver.set('timeout', 30000)
      self.witness = None   # A model of the path so far.

  # Inputs.

  def _new(self, name, make):
    assert name not in self.names, name
    self.names[name] = z = make(name)
    return z

  def real(self, name, low=None, high=None, above=None):
    if self.model is not None:
      return self.model[name]
    z = self._new(name, z3.Real)
    for c, f in ((low, lambda v: z >= v), (high, lambda v: z <= v),
                 (above, lambda v: z > v)):
      if c is not None:
        self.solver.add(f(c))
        self.witness = None
    return Num(z)

  def int(self, name, low=None, high=None):
    if self.model is not None:
      return self.model[name]
    z = self._new(name, z3.Int)
    if low is not None:
      self.solver.add(z >= low)
    if high is not None:
      self.solver.add(z <= high)
    self.witness = None
    return Int(z)

  def bool(self, name):
    if self.model is not None:
      return self.model[name]
    return Bool(self._new(name, z3.Bool))

  # What the code asks.

  def _sat(self, *extra):
    e = self.engine
    t0 = time.time()
    e.queries += 1
    r = self.solver.check(*extra)
    e.seconds += time.time() - t0
    if r == z3.unknown:
      raise Undecided('the solver gave up: ' + self.solver.reason_unknown())
    return r == z3.sat

  def fork(self, z):
    h, k = z.hash(), z.get_id()
    if k in self.known:
      return self.known[k][1]
    kept = z
    z = z3.simplify(z)
    if z3.is_true(z) or z3.is_false(z):
      return z3.is_true(z)
    if self.todo:
      b = self._next(h)
    else:
      if self.witness is None and self._sat():
        self.witness = self.solver.model()
      if self.witness is None:
        raise Infeasible
      yes = z3.is_true(self.witness.eval(z, True))
      if yes:
        no = self._sat(z3.Not(z))
      else:
        no, yes = True, self._sat(z)
        if yes:
          self.witness = self.solver.model()
      if yes and no:
        self.engine.later(self.done + [(h, False)])
      b = yes
    self.done.append((h, b))
    self.solver.add(z if b else z3.Not(z))
    self.known[k] = kept, b
    return b

  def _next(self, h):
    """The next of the decisions made before, which must be about this term."""
    was, v = self.todo.pop(0)
    if was != h:
      raise Undecided('the harness does not repeat itself')
    return v

  def value(self, z):
    h = z.hash()
    z = z3.simplify(z)
    if z3.is_int_value(z):
      return z.as_long()
    if self.todo:
      v = self._next(h)
    else:
      vs = []
      self.solver.push()
      while len(vs) <= 64 and self._sat():
        vs.append(self.solver.model().eval(z, True).as_long())
        self.solver.add(z != vs[-1])
      self.solver.pop()
      if not vs:
        raise Infeasible
      if len(vs) > 64:
        raise Undecided('an index with too many values')
      for v in vs[1:]:
        self.engine.later(self.done + [(h, v)])
      v = vs[0]
    self.done.append((h, v))
    self.witness = None
    self.solver.add(z == v)
    return v

  # What the harness says.

  def assume(self, cond):
    if self.model is not None:
      if not cond:
        raise Infeasible
      return
    t = _term(cond)
    self.solver.add(t)
    self.witness = None
    if not self._sat():
      raise Infeasible

  def check(self, cond, label):
    """The property: no value on this path makes `cond` false."""
    if self.model is not None:
      if not cond:
        raise Violation(label, self.model)
      return
    t = z3.simplify(_term(cond))
    self.engine.checks += 1
    if z3.is_true(t) and self.engine.checked.get(label, 0) > 2:
      return
    self.engine.checked[label] = self.engine.checked.get(label, 0) + 1
    if self._sat(z3.Not(t)):
      m = self.solver.model()
      raise Violation(label, {n: _value(m.eval(z, True))
                              for n, z in self.names.items()})

  def sample(self):
    """Some input that takes this path."""
    if not self._sat():
      raise Infeasible
    m = self.solver.model()
    return {n: _value(m.eval(z, True)) for n, z in self.names.items()}


def _value(v):
  if z3.is_bool(v):
    return z3.is_true(v)
  if z3.is_int_value(v):
    return v.as_long()
  return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())


# The harness's own terms, for both kinds of values.

def eq(a, b):
  if isinstance(a, (Num, Bool)) or isinstance(b, (Num, Bool)):
    return Bool(_term(a) == _term(b))
  return a == b


def all_of(*cs):
  if any(isinstance(c, Bool) for c in cs):
    return Bool(z3.And([_term(c) for c in cs]))
  return all(cs)


def any_of(*cs):
  if any(isinstance(c, Bool) for c in cs):
    return Bool(z3.Or([_term(c) for c in cs]))
  return any(cs)


def neg(c):
  return ~c if isinstance(c, Bool) else not c


def same(a, b):
  """Both true or both false."""
  if isinstance(a, Bool) or isinstance(b, Bool):
    return Bool(_term(a) == _term(b))
  return bool(a) == bool(b)


def least(*xs):
  if any(isinstance(x, Num) for x in xs):
    r = _term(xs[0])
    for x in xs[1:]:
      t = _term(x)
      r = z3.If(t < r, t, r)
    return Num(r)
  return min(xs)


def most(*xs):
  if any(isinstance(x, Num) for x in xs):
    r = _term(xs[0])
    for x in xs[1:]:
      t = _term(x)
      r = z3.If(t > r, t, r)
    return Num(r)
  return max(xs)


def ite(c, a, b):
  if isinstance(c, Bool):
    r = z3.If(c.z, _term(a), _term(b))
    return Bool(r) if z3.is_bool(r) else Int(r) if z3.is_int(r) else Num(r)
  return a if c else b


class Engine:
  """Explores all the paths of a harness."""

  def __init__(self, limit=20000, seconds=600):
    self.limit, self.deadline = limit, time.time() + seconds
    self.queries = self.paths = self.checks = 0
    self.seconds = 0.0
    self.checked = {}
    self.samples = []
    self._later = []

  def later(self, decisions):
    self._later.append(decisions)

  def run(self, harness, keep=2):
    """None, or (label, model) of a violation."""
    global _path
    self._later = [[]]
    while self._later:
      if self.paths >= self.limit or time.time() > self.deadline:
        raise Undecided('%d paths explored, %d left' % (self.paths,
                                                        len(self._later)))
      p = Path(self, self._later.pop())
      _path = p
      try:
        harness(p)
        if len(self.samples) < keep:
          self.samples.append(p.sample())
        self.paths += 1
      except Infeasible:
        pass
      except Violation as v:
        self.paths += 1
        return v.label, v.model
      except (Undecided, KeyboardInterrupt, MemoryError):
        raise
      except Exception as e:   # The code fails on this path: so does the property.
        self.paths += 1
        try:
          model = p.sample()
        except Infeasible:
          continue
        return 'raises %s: %s' % (type(e).__name__, e), model
      finally:
        _path = None
    return None


def replay(harness, model):
  """(violated, text) of the harness on the plain values of a model."""
  try:
    harness(Path(model=model))
  except Violation as v:
    return True, v.label
  except Infeasible:
    return False, 'not an input of the property'
  except Exception as e:
    return True, 'raises %s: %s' % (type(e).__name__, e)
  return False, 'holds'
