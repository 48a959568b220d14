"""N01: the pronunciation of every word follows the rules of its language."""
from nv import natural as nt


def run(c):
  nt.agree(c, {'ipa': c.pick([2, 6], [2, 6, 8, 10])})
