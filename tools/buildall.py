import os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from concurrent.futures import ThreadPoolExecutor
hs = sorted(glob.glob(os.path.join(vbuild.VERIF, 'harness', '*.cpp')))
fl = {}
for h in hs: fl.setdefault('asan' if '// flavor: asan' in open(h).read(4000) else 'plain', []).append(h)
for f, l in sorted(fl.items(), reverse=True):
    lib = vbuild.build_lib(f)
    print(f, 'library:', lib['built'], 'of', lib['total'], 'objects compiled', flush=True)
    with ThreadPoolExecutor(vbuild.JOBS) as ex:
        for e in ex.map(lambda h: vbuild.build_exe(lib, os.path.splitext(os.path.basename(h))[0], [h]), l): print(' ', e)
