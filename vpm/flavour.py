"""Builds copies of /repo/src/MTfit ("flavours") in a scratch directory.

py   - no compiled extensions: every public routine takes its pure-Python path
c    - the four Cython extensions compiled from the *current* .pyx files
san  - same, compiled with gcc AddressSanitizer + UBSan (run with LD_PRELOAD=libasan)
"""
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

REPO = os.environ.get('VPM_REPO', '/repo')
PY = '/opt/venv/bin/python'
EXTS = {'probability/cprobability': None, 'convert/cmoment_tensor_conversion': None,
        'algorithms/cmarkov_chain_monte_carlo': None, 'extensions/cscatangle': None}


def _env():
    e = dict(os.environ)
    for k in ('CC', 'CCACHE_DIR', 'CCACHE_COMPILERCHECK', 'PYTHONPATH', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MPLBACKEND='Agg', LANG='C.UTF-8')
    return e


def _run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def copy_tree(dst):
    src = os.path.join(REPO, 'src', 'MTfit')

    def ignore(d, names):
        out = [n for n in names if n.endswith(('.so', '.c', '.pyc')) or n in ('__pycache__', 'docs')]
        return out
    shutil.copytree(src, os.path.join(dst, 'MTfit'), ignore=ignore, symlinks=True)


class Builder(object):
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vpm_')
        self.dirs = {}
        self._c = None
        self._sysinfo = None

    def _sys(self):
        if self._sysinfo is None:
            out = _run([PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include());print(sysconfig.get_config_var("EXT_SUFFIX"))'])
            self._sysinfo = out.strip().split('\n')[-3:]
        return self._sysinfo

    def exts(self, base):
        found = {}
        for d, _, files in os.walk(os.path.join(base, 'MTfit')):
            for f in files:
                if f.endswith('.pyx'):
                    found[os.path.join(d, f)] = True
        return sorted(found)

    def _one(self, args):
        pyx, pysrc, flags = args
        inc, npinc, suf = self._sys()
        c = pyx[:-4] + '.c'
        if not os.path.exists(c):
            base = pyx.split('/MTfit/')[0]
            _run([PY, '-c', 'import sys;from Cython.Compiler.Main import main;sys.argv=sys.argv[:1]+%r;main(command_line=1)' % ([os.path.relpath(pyx, base), '-o', os.path.relpath(c, base)],)], cwd=base)
        out = pyx[:-4] + suf
        _run(['gcc', '-shared', '-fPIC', '-fwrapv', '-w', '-I' + inc, '-I' + npinc] + flags + [c, '-o', out, '-lm'])
        return out

    def build(self, names):
        jobs = []
        if 'py' in names:
            d = os.path.join(self.root, 'py')
            copy_tree(d)
            self.dirs['py'] = d
        comp = []
        if 'c' in names:
            comp.append(('c', ['-O2', '-march=native', '-DNDEBUG']))
        if 'san' in names:
            # -fno-sanitize=...: CPython/Cython idioms that are not the project's code
            comp.append(('san', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                                 '-fno-sanitize=alignment,null', '-fno-sanitize-recover=undefined', '-DNDEBUG']))
        for n, flags in comp:
            d = os.path.join(self.root, n)
            copy_tree(d)
            self.dirs[n] = d
            for pyx in self.exts(d):
                jobs.append((pyx, None, flags))
        self._sys()
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(8) as ex:
            for _ in ex.map(self._one, jobs):
                pass
        return self.dirs

    def env(self, name):
        e = _env()
        e['PYTHONPATH'] = self.dirs[name] + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e['VPM_FLAVOUR'] = name
        mpl = os.path.join(self.root, 'mpl')
        os.makedirs(mpl, exist_ok=True)
        e['MPLCONFIGDIR'] = mpl
        if name == 'san':
            lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'], text=True).strip()
            e['LD_PRELOAD'] = os.path.realpath(lib)
            e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0'
            e['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=1'
            e['PYTHONMALLOC'] = 'malloc'
        return e

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


if __name__ == '__main__':
    import time
    b = Builder()
    t = time.time()
    print(b.build(sys.argv[1:] or ['py', 'c', 'san']), time.time() - t)
    for n in b.dirs:
        print(subprocess.run([PY, '-c', 'import MTfit,MTfit.convert.moment_tensor_conversion as m,MTfit.probability.probability as p;print(m.__file__,m.cmoment_tensor_conversion,p.cprobability)'], env=b.env(n), cwd=b.root, capture_output=True, text=True))
    b.close()
