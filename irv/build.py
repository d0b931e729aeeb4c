"""Compile a driver against /repo's headers to LLVM IR and load it."""
import os
import subprocess
import hashlib
from . import ll

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++-18'


class BuildError(Exception):
    pass


def work():
    d = os.environ.get('VERIF_WORK')
    if not d:
        d = '/tmp/verif.%d' % os.getuid()
    os.makedirs(d, exist_ok=True)
    return d


INCLUDE = os.path.join(REPO, 'include')


def use_single_header():
    """from now on every header of the library is ssp.hpp"""
    global INCLUDE
    import atexit
    import shutil
    me = os.getpid()
    d = os.path.join(work(), 'single-%d' % me)
    os.makedirs(os.path.join(d, 'ss'), exist_ok=True)
    for n in os.listdir(os.path.join(REPO, 'include', 'ss')):
        if n.endswith('.hpp'):
            with open(os.path.join(d, 'ss', n), 'w') as f:
                f.write('#pragma once\n#include "%s"\n' % os.path.join(REPO, 'ssp.hpp'))
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    INCLUDE = d


def ir(src, tag, defs=(), libfile=None):
    """C++ text -> Module"""
    h = hashlib.sha1((src + repr(defs)).encode()).hexdigest()[:12]
    base = os.path.join(work(), '%s-%s-%d' % (tag, h, os.getpid()))
    cpp, out = base + '.cpp', base + '.ll'
    with open(cpp, 'w') as f:
        f.write(src)
    cmd = [CXX, '-std=c++17', '-I', INCLUDE, '-fno-access-control', '-O0',
           '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-g', '-fstandalone-debug',
           '-w'] + ['-D' + d for d in defs] + [cpp, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    try:
        if r.returncode:
            raise BuildError(r.stderr[:3000])
        with open(out) as f:
            text = f.read()
    finally:
        for x in (cpp, out):
            if os.path.exists(x):
                os.unlink(x)
    return ll.Module(text)
