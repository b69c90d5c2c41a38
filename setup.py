"""Builds every flavour the checks use from /repo's current tree, so that a check only has to rebuild what changed."""
import glob, importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/lib', V]
import vbuild
want = {}
for f in sorted(glob.glob(V + '/checks/[A-Z]*.py')):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    for b in m.BUILDS:
        fl, parts, hs = b[0], b[1].split('+'), b[2:]
        k = (fl, 'stub' in parts)
        ps, h = want.setdefault(k, ([], []))
        ps += [x for x in parts if x not in ps]
        h += [x for x in hs if x not in h]
for (fl, stub), (ps, hs) in sorted(want.items()):
    print(vbuild.get(fl, '+'.join(ps), hs))
