"""Compile /repo/src to LLVM IR (all four build configurations) and parse it."""
import os
import subprocess
import sys
import tempfile
import shutil
import atexit
import glob
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .interp import Program

REPO = os.environ.get('VERIF_REPO', '/repo')
CONFIGS = {
    'kiss-double': ['-DFFT_KISS', '-DFFT_DOUBLE'],
    'kiss-single': ['-DFFT_KISS', '-DFFT_SINGLE'],
    'fftw3-double': ['-DFFT_FFTW3', '-DFFT_DOUBLE'],
    'fftw3-single': ['-DFFT_FFTW3', '-DFFT_SINGLE'],
}
PASSES = 'function(sroa,lowerswitch,loop-simplify,lcssa)'


class BuildError(Exception):
    pass


def _mpi_flags():
    out = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True)
    if out.returncode != 0:
        raise BuildError('mpicxx --showme:compile failed')
    return out.stdout.split()


def _one(args):
    src, flags, tmp, tag = args
    base = os.path.splitext(os.path.basename(src))[0]
    ll = os.path.join(tmp, '%s.%s.ll' % (tag, base))
    opt = os.path.join(tmp, '%s.%s.opt.ll' % (tag, base))
    cmd = ['clang++-18', '-std=gnu++14', '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-ffp-contract=off',
           '-fno-discard-value-names', '-DOMPI_SKIP_MPICXX', '-DMPICH_SKIP_MPICXX', '-DFFT_MEMALIGN=64',
           '-emit-llvm', '-S', '-I', os.path.join(REPO, 'src')] + flags + [src, '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('clang failed on %s:\n%s' % (src, p.stderr[:3000]))
    p = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, ll, '-o', opt], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('opt failed on %s:\n%s' % (src, p.stderr[:3000]))
    with open(opt) as f:
        return src, f.read()


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


_cache = {}


def programs(configs=None):
    """dict config -> Program"""
    configs = list(configs or CONFIGS)
    need = [c for c in configs if c not in _cache]
    if need:
        tmp = tempfile.mkdtemp(prefix='verif-sa-')
        try:
            mpi = _mpi_flags()
            jobs = []
            for c in need:
                for s in sources():
                    jobs.append((s, CONFIGS[c] + mpi, tmp, c))
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(_one, jobs))
            per = {c: [] for c in need}
            for (s, fl, t, c), (src, text) in zip(jobs, res):
                per[c].append(ir.parse_module(text, os.path.basename(src)))
            for c in need:
                _cache[c] = Program(per[c])
                _cache[c].config = c
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return {c: _cache[c] for c in configs}


def program(c):
    return programs([c])[c]
