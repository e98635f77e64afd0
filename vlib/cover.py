"""Line coverage of /repo by the workloads (VERIF_COV=DIR; used by tools/coverage.py only)."""
import os
import sys

_NEW = []


def start(repo):
  mon = sys.monitoring
  tool = mon.COVERAGE_ID
  mon.use_tool_id(tool, 'verif')

  def line(code, no):
    if code.co_filename.startswith(repo + '/'):
      _NEW.append((code.co_filename[len(repo) + 1:], no))
    return mon.DISABLE
  mon.register_callback(tool, mon.events.LINE, line)
  mon.set_events(tool, mon.events.LINE)


def dump(d, pid):
  if _NEW:
    with open(os.path.join(d, '%s.%d' % (pid, os.getpid())), 'a') as f:
      for a, b in _NEW:
        f.write('%s:%d\n' % (a, b))
    del _NEW[:]
