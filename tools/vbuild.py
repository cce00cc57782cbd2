"""Builds GPSTk's libraries and applications from /repo's working tree, outside
/repo, and links one harness against them.  Objects are cached under
/verif/build keyed by the content of everything the compiler read, so a cached
object is used only for identical sources."""
import os, sys, subprocess, hashlib, json, time, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = os.cpu_count() or 8
FLAVORS = {
    'plain': (['g++'], ['gcc'], ['-O1', '-g1', '-fno-omit-frame-pointer'], []),
    # memory and arithmetic errors become visible failures
    'asan': (['clang++'], ['clang'], ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize=signed-integer-overflow,bounds,integer-divide-by-zero,return,unreachable,null,vla-bound,float-cast-overflow' if False else '-fsanitize=bounds,integer-divide-by-zero,return,unreachable,vla-bound', '-fno-sanitize-recover=all'], ['-fsanitize=address', '-fsanitize=bounds']),
}
_hash = {}
def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f: h = hashlib.sha1(f.read()).hexdigest()
        except OSError: h = 'missing'
        _hash[p] = h
    return h

def sources():
    src, inc = [], set()
    for r in ('core/lib', 'ext/lib'):
        for d, ds, fs in os.walk(os.path.join(REPO, r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.c')): src.append(os.path.join(d, f))
                if f.endswith(('.hpp', '.h')): inc.add(d)
    return src, sorted(inc)

def gen_config():
    """build_config.h as the project's CMake makes it, from the working tree's template."""
    d = os.path.join(BUILD, 'generated'); os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, 'build_config.h.in')) as f: s = f.read()
    s = s.replace('#cmakedefine', '//cmakedefine')
    m = {'PROJECT_SOURCE_DIR': REPO, 'PROJECT_BINARY_DIR': os.path.join(REPO, '_build'), 'GPSTK_TEST_DATA_DIR': os.path.join(REPO, 'data'),
         'GPSTK_TEST_OUTPUT_DIR': '/tmp', 'CMAKE_SOURCE_DIR': REPO, 'CMAKE_BINARY_DIR': os.path.join(REPO, '_build')}
    s = re.sub(r'@(\w+)@|\$\{(\w+)\}', lambda k: m.get(k.group(1) or k.group(2), ''), s)
    p = os.path.join(d, 'build_config.h')
    if not os.path.exists(p) or open(p).read() != s:
        with open(p, 'w') as f: f.write(s)
    return d

def compile_one(src, obj, cmd):
    """cmd without -c/-o; returns (ok, message)"""
    meta = obj + '.json'
    key0 = hashlib.sha1(json.dumps(cmd).encode()).hexdigest()
    try:
        with open(meta) as f: m = json.load(f)
        if m['cmd'] == key0 and os.path.exists(obj) and all(fhash(p) == h for p, h in m['deps'].items()):
            return True, 'cached', obj
    except (OSError, ValueError, KeyError): pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + '.d'
    p = subprocess.run(cmd + ['-MD', '-MF', dep, '-c', src, '-o', obj], capture_output=True, text=True, errors='replace')
    if p.returncode:
        for f in (meta,):
            if os.path.exists(f): os.unlink(f)
        return False, p.stderr, obj
    with open(dep) as f: t = f.read()
    deps = {}
    for w in t.split(':', 1)[1].replace('\\\n', ' ').split():
        w = os.path.normpath(w)
        if not w.startswith('/usr/'): deps[w] = fhash(w)
    with open(meta, 'w') as f: json.dump({'cmd': key0, 'deps': deps}, f)
    os.unlink(dep)
    return True, 'built', obj

def compile_many(jobs):
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(lambda j: compile_one(*j), jobs))
    bad = [r for r in res if not r[0]]
    if bad:
        for r in bad[:5]: sys.stderr.write('\n'.join(l for l in r[1].split('\n') if 'error' in l or 'required from' in l)[:2500] + '\n')
        raise SystemExit('build failed: %d object(s)' % len(bad))
    return res

def build_lib(flavor='plain', extra_cxx=()):
    gen = gen_config()
    cxx, cc, fl, ld = FLAVORS[flavor]
    src, inc = sources()
    I = ['-I' + gen] + ['-I' + d for d in inc]
    out = os.path.join(BUILD, flavor)
    jobs = []
    for s in src:
        o = os.path.join(out, 'obj', os.path.relpath(s, REPO) + '.o')
        c = (cxx + ['-std=c++11']) if s.endswith('.cpp') else cc
        jobs.append((s, o, c + fl + ['-fPIC', '-w'] + I))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    res = compile_many(jobs)
    so = os.path.join(out, 'libgpstk.so')
    objs = sorted(j[1] for j in jobs)
    built = sum(1 for r in res if r[1] == 'built')
    sig = hashlib.sha1('\n'.join(objs).encode()).hexdigest()
    sf = so + '.sig'
    if built or not os.path.exists(so) or not os.path.exists(sf) or open(sf).read() != sig:
        if os.path.exists(sf): os.unlink(sf)
        rsp = so + '.rsp'
        with open(rsp, 'w') as f: f.write('\n'.join(objs))
        subprocess.run(cxx + fl + ['-shared', '-Wl,-soname,libgpstk.so', '-fuse-ld=gold' if False else '-Wl,-O0', '-o', so, '@' + rsp], check=True)
        with open(sf, 'w') as f: f.write(sig)
    return {'so': so, 'inc': I, 'flavor': flavor, 'built': built, 'total': len(objs)}

def build_exe(lib, name, srcs, std='c++14', extra=()):
    cxx, cc, fl, ld = FLAVORS[lib['flavor']]
    out = os.path.join(BUILD, lib['flavor'], 'exe')
    os.makedirs(out, exist_ok=True)
    jobs = []
    incs = lib['inc'] + ['-I' + os.path.join(VERIF, 'lib')] + ['-I' + d for d in sorted({os.path.dirname(s) for s in srcs})]
    for s in srcs:
        o = os.path.join(out, name + '.objs', s.strip('/').replace('/', '_') + '.o')
        jobs.append((s, o, cxx + ['-std=' + std] + fl + ['-w'] + list(extra) + incs))
    res = compile_many(jobs)
    exe = os.path.join(out, name)
    sig = hashlib.sha1('\n'.join(sorted(j[1] for j in jobs)).encode()).hexdigest()
    sf = exe + '.sig'
    if any(r[1] == 'built' for r in res) or not os.path.exists(exe) or not os.path.exists(sf) or open(sf).read() != sig:
        subprocess.run(cxx + fl + ['-o', exe] + [j[1] for j in jobs] + ['-L' + os.path.dirname(lib['so']), '-lgpstk', '-Wl,-rpath,' + os.path.dirname(lib['so'])] + ld, check=True)
        with open(sf, 'w') as f: f.write(sig)
    return exe
