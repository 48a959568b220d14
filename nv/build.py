"""Builds what a check needs from /repo's current working tree, in a scratch folder.

The rules are those of the repository's own BUILD.bazel/.bzl files, executed by
the sandbox's stand-in for Bazel (/opt/vp/nis/driver.py) with every path moved to
the scratch folder, so nothing of an earlier build is reused.
"""
import atexit
import os
import shutil
import signal
import sys
import tempfile

DRIVER_DIR = '/opt/vp/nis'
_scratch = None
_driver = None


class BuildError(Exception):
  pass


def scratch():
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix='nv_')
    pid = os.getpid()

    def clean():
      if os.getpid() == pid:
        shutil.rmtree(_scratch, ignore_errors=True)
    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
  return _scratch


def driver():
  global _driver
  if _driver is None:
    sys.path.insert(0, DRIVER_DIR)
    try:
      import driver as d
    finally:
      sys.path.remove(DRIVER_DIR)
    base = scratch() + '/build'
    d.BASE = base
    d.OUT = base + '/out'
    d.KEYS = base + '/keys'
    d.TREES = base + '/trees'
    d.make_tree.__defaults__ = (d.TREES,)
    for x in (d.OUT, d.KEYS, d.TREES):
      os.makedirs(x, exist_ok=True)
    d.KEY_SALT = b''
    out = sys.stdout
    sys.stdout = sys.stderr
    try:
      d.load_all()
      d._nv_actions = d.make_actions()
    finally:
      sys.stdout = out
    _driver = d
  return _driver


def build(labels, jobs=None):
  """Builds the generated files; {label: path}.

  A label is the file's, such as //nisaba/scripts/brahmic:nfc_utf8.far.
  """
  d = driver()
  if jobs:
    d.JOBS = jobs
  producer = {o: a for a in d._nv_actions for o in a.outs}
  need, todo = {}, list(labels)
  while todo:
    l = todo.pop()
    a = producer.get(l)
    if a is None:
      if not os.path.exists(d.real(l)):
        raise BuildError('nothing makes ' + l)
      continue
    if a.id not in need:
      need[a.id] = a
      todo += list(a.inputs)
  out = sys.stdout
  sys.stdout = sys.stderr
  try:
    failed = d.run_all(list(need.values()))
  finally:
    sys.stdout = out
  if failed:
    raise BuildError('failed: ' + ' '.join(failed))
  return {l: d.real(l) for l in labels}


def tree(labels, name='nv'):
  """A runfiles tree with the runfiles of the targets; (tree, environment).

  The generated files must have been built.
  """
  d = driver()
  acc = set()
  for l in labels:
    acc |= set(d.runfiles(l))
  t = d.make_tree(name, [f for f in acc if os.path.exists(d.real(f))])
  return t, d.env_for(t)
