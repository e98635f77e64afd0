"""Which lines of /repo's Python sources no check executes: tools/coverage.py [Pxx ...] (quick tier)."""
import ast
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
props = sys.argv[1:] or ['P%02d' % i for i in range(1, 29)]
d = tempfile.mkdtemp()
for p in props:
  subprocess.run(['/opt/venv/bin/python', 'run.py', p, '--tier', 'quick', '--seed', '1'], cwd=HERE,
                 env=dict(os.environ, VERIF_COV=d), stdout=subprocess.DEVNULL)
hit = {}
for f in os.listdir(d):
  for l in open(os.path.join(d, f)):
    a, b = l.strip().rsplit(':', 1)
    hit.setdefault(a, {}).setdefault(int(b), set()).add(f[:3])
shutil.rmtree(d)


def lines(path):
  out = set()

  def walk(code):
    out.update(l for _, _, l in code.co_lines() if l)
    for c in code.co_consts:
      if hasattr(c, 'co_lines'):
        walk(c)
  walk(compile(open(path).read(), path, 'exec'))
  doc = set()
  for n in ast.walk(ast.parse(open(path).read())):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      doc.update(range(n.lineno, n.end_lineno + 1))
  return out - doc


for f in sorted(subprocess.check_output(['git', '-C', REPO, 'ls-files', '*.py'], text=True).split()):
  if f.endswith('_test.py') or f.endswith('setup.py') or 'test_util' in f:
    continue
  src = open(os.path.join(REPO, f)).read().splitlines()
  ex = lines(os.path.join(REPO, f))
  miss = sorted(l for l in ex if l not in hit.get(f, {}) and src[l - 1].strip() and not src[l - 1].strip().startswith('"""'))
  print('%s: %d of %d lines executed' % (f, len(ex) - len(miss), len(ex)))
  for l in miss:
    print('   %5d %s' % (l, src[l - 1]))
