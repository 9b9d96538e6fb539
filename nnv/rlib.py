"""Build of the real library sources of /repo against the stand-in of the StarPU runtime (stub/)."""
import os, subprocess, sys, time, glob, shutil, concurrent.futures as cf
from . import cxx

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = None            # directory of the build, shared by all units of a check


def sources():
    out = []
    for p in sorted(glob.glob(cxx.REPO + '/src/starpu/*.cc') + glob.glob(cxx.REPO + '/src/starpu/*.cc.in')): out.append(os.path.relpath(p, cxx.REPO))
    for d in ('tensor', 'tile'):
        for p in sorted(glob.glob(cxx.REPO + '/src/%s/*.cc' % d)): out.append(os.path.relpath(p, cxx.REPO))
    for p in sorted(glob.glob(cxx.REPO + '/src/kernel/*/cpu.cc')):
        if 'cuda_fp16.h' in open(p).read(): continue       # not part of a build without CUDA
        out.append(os.path.relpath(p, cxx.REPO))
    # a plain file shadows a template of the same name
    return out


CXXF = ['-O1', '-g0', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-w']


def compile1(src, obj, fl):
    p = subprocess.run(['g++'] + CXXF + fl + ['-c', src, '-o', obj], capture_output=True, text=True)
    return p.returncode, p.stderr


def build(d, jobs=8):
    """all objects and libnn.so in directory d; writes d/done or d/failed"""
    try:
        fl = cxx.flags()
        os.makedirs(d + '/o', exist_ok=True)
        objs = []; tasks = []
        for s in sources():
            o = '%s/o/%s.o' % (d, s.replace('/', '_'))
            tasks.append((cxx.source(s), o)); objs.append(o)
        tasks.append((HERE + '/stub/stub.cc', d + '/o/stub.o')); objs.append(d + '/o/stub.o')
        err = ''
        with cf.ThreadPoolExecutor(jobs) as ex:
            for (s, o), (rc, e) in zip(tasks, ex.map(lambda t: compile1(t[0], t[1], fl), tasks)):
                if rc: err += s + ': ' + e[:500] + '\n'
        if not err:
            p = subprocess.run(['g++', '-shared', '-o', d + '/libnn.so'] + objs + ['-lopenblas'], capture_output=True, text=True)
            if p.returncode: err = p.stderr
            shutil.rmtree(d + '/o', ignore_errors=True)
        if err: open(d + '/failed', 'w').write(err)
        else: open(d + '/done', 'w').write('ok')
    except Exception as e:
        open(d + '/failed', 'w').write(repr(e))


def start():
    """starts the build in the background (called once by the check runner)"""
    global LIB
    import tempfile, atexit, multiprocessing as mp
    w = cxx.workdir()
    LIB = w + '/lib'
    os.makedirs(LIB, exist_ok=True)
    p = mp.Process(target=build, args=(LIB,), daemon=True)
    p.start()
    return p


def wait(limit=280):
    t0 = time.time()
    if LIB is None: return False
    while time.time() - t0 < limit:
        if os.path.exists(LIB + '/done'): return True
        if os.path.exists(LIB + '/failed'): return False
        time.sleep(0.1)
    return False
