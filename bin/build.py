#!/usr/bin/env python3
"""Incrementally build the binaries under test from /repo's current working tree.

The sources are mirrored by content into /verif/build/src (so that mtimes only
change for files whose content changed) and built by cmake/ninja in
/verif/build/obj.  Nothing is written in /repo.
"""
import os, sys, subprocess, shutil, hashlib, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CG3_REPO', '/repo')
BUILD = os.environ.get('CG3_BUILD', os.path.join(ROOT, 'build'))
SRC = os.path.join(BUILD, 'src'); OBJ = os.path.join(BUILD, 'obj')
BIN = os.path.join(OBJ, 'src')
SKIP = {'.git', 'build', 'test', 'manual', 'newsletters', 'wasm-demo', 'emacs'}

def mirror():
    keep = set(); changed = []
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == '.':
            dirs[:] = [x for x in dirs if x not in SKIP]
        for f in files:
            p = os.path.join(d, f); r = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            keep.add(r); q = os.path.join(SRC, r)
            data = open(p, 'rb').read()
            old = open(q, 'rb').read() if os.path.isfile(q) else None
            if old != data:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'wb') as o: o.write(data)
                changed.append(r)
    for d, dirs, files in os.walk(SRC):
        for f in files:
            r = os.path.normpath(os.path.join(os.path.relpath(d, SRC), f))
            if r not in keep:
                os.unlink(os.path.join(d, f)); changed.append(r)
    # cmake's install() rule only needs the directory
    os.makedirs(os.path.join(SRC, 'manual', 'man'), exist_ok=True)
    return changed

def build(verbose=False):
    os.makedirs(SRC, exist_ok=True); os.makedirs(OBJ, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        changed = mirror()
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
        if not os.path.exists(os.path.join(OBJ, 'build.ninja')):
            r = subprocess.run(['cmake', '-S', SRC, '-B', OBJ, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Verif',
                '-DCMAKE_CXX_FLAGS=-O1 -DNDEBUG', '-DCMAKE_C_FLAGS=-O1 -DNDEBUG',
                '-DCOMPILER_SUPPORTS_flto=OFF', '-DENABLE_PYTHON_BINDINGS=OFF'], env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: sys.stderr.write(r.stdout.decode()); raise SystemExit('cmake failed')
        r = subprocess.run(['ninja', '-C', OBJ], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode()[-8000:]); raise SystemExit('build failed')
        if verbose: print('built; changed sources: %d' % len(changed))
    return BIN

if __name__ == '__main__':
    build(True)
