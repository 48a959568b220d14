#!/opt/venv/bin/python
"""check.py ID [quick|thorough]: runs the check of one property."""
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':   # the same encoding on every run
  os.environ['PYTHONHASHSEED'] = '0'
  os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from nv import harness  # noqa


def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER',
                                                              'quick')
  mod = importlib.import_module('checks.' + prop.lower())
  c = harness.Check(prop, tier)
  try:
    mod.run(c)
  except SystemExit:
    raise
  except BaseException:
    import traceback
    c.errors.append(traceback.format_exc()[-3000:])
    print('ERROR property=%s %s' % (prop, c.errors[-1]), flush=True)
  c.finish()


if __name__ == '__main__':
  main()
