"""The simulated disk (native/simfs.c), built on demand and preloaded into the process."""

import ctypes
import hashlib
import os
import subprocess

from . import core

OPEN, READ, WRITE, CLOSE, SYNC, RENAME, TRUNC, UNLINK = 1, 2, 4, 8, 16, 32, 64, 128
STATS = ['calls', 'matching', 'open', 'read', 'write', 'close', 'short', 'eintr', 'failed', 'bytes']
_lib = None


def ensure_built():
    src = os.path.join(core.HOME, 'native', 'simfs.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(core.HOME, 'build', f'simfs-{tag}.so')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f'{out}.{os.getpid()}.tmp'
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True, capture_output=True)
        os.replace(tmp, out)
    return out


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simfs_log.restype = ctypes.c_char_p
        _lib.simfs_stat.restype = ctypes.c_long
        _lib.simfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_ulonglong] + [ctypes.c_int] * 5 + [ctypes.c_long] * 4
    return _lib


def arm(directory, seed=1, short=0, eintr=0, mask=0, err=0, sticky=False, at=0, crash=0, crash_bytes=0, budget=-1):
    lib().simfs_arm(os.fsencode(directory), seed, short, eintr, mask, err, 1 if sticky else 0, at, crash, crash_bytes, budget)


def disarm():
    lib().simfs_disarm()


def stats():
    return {k: lib().simfs_stat(i) for i, k in enumerate(STATS)}


def log():
    return lib().simfs_log().decode()
