"""N03: natural romanization follows the rules of its language."""
from nv import natural as nt


def run(c):
  nt.agree(c, {'nat': c.pick([2, 6], [2, 6, 8, 10])})
