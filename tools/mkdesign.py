"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = s[:s.index('## 6. Seeded bugs')]
s += '''## 6. Seeded bugs

One directory per bug under `seeded/`. Every one builds, passes the 1439 stable tests, has a
demonstration that fails with it and passes without it, and is reported by the check of the
property it breaks (quick tier, seed 1). Checks that missed a bug when it was first planted
were strengthened (section 7).

| bug | breaks | needs |
|---|---|---|
'''
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
  m = json.load(open(d))
  s += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace('\n', ' '))
s += '''
## 7. How the checks grew

* `tools/mutate.py` mutated the source (operators, constants, dropped statements) file by file;
  each surviving mutant that changes behaviour became a family or a monitor, the others were
  reviewed and are equivalent (loosen a bound in the allowed direction, performance only).
* `tools/coverage.py` (with `vlib/cover.py`) lists the lines of /repo that no check executes.
  What remains is error text, demos, tensorflow-only code and `NotImplementedError` stubs.
* *Sibling runs* (`vlib/core.py`): a case is run, run again with one random choice nudged, and
  run a third time unchanged in the same process, so that memoisation keyed on too little,
  state left over from a previous call and mutated defaults become visible.
* P03 `utilities`: the dictionary and list convolution helpers themselves; P06 `dots` and
  `neargrid`: distributions from points of a hockey-stick curve, losses a hair off the grid;
  P18 `tiny`: parameters many orders of magnitude below one; P22 `released`: the count a node
  is judged by is the released one; P24 `large`: clusters beyond 46341² pairs.
* Go: scripted noise and coupled random bits (equal noised values, or equal randomness, must
  give equal results) replaced statistical comparisons where mutants survived; every target of
  a decode is used before and after; results are replayed after a refused operation.
* C++: about forty mutants of `cc/algorithms` were tried by hand; the
  order-of-questions monitor of P38 exposed the recorded finding.
'''
open(p, 'w').write(s)
