"""N02: the Pan-South-Asian romanizations write the pronunciation, unit by unit."""
from nv import natural as nt


def run(c):
  nt.agree(c, {'psaf': c.pick([2, 5], [2, 6, 8]),
               'psac': c.pick([2, 5], [2, 5, 7])})
