"""Instrumented builds of the C extension, each run in a child process.

  asan   address + undefined behaviour sanitizers, fresh memory filled with NaN
  tsan   thread sanitizer, with the parallel regions on plain threads so that
         every fork and join is seen
  plain  no optimisation, counting allocator with canaries
"""
import fcntl
import hashlib
import os
import pathlib
import pickle
import re
import select
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time

HERE = pathlib.Path(__file__).resolve().parent
sys.path = [p for p in sys.path if pathlib.Path(p or '.').resolve() != HERE]
sys.path.insert(0, str(HERE.parent))
from harness.bootstrap import CACHE, REPO  # noqa: E402

SRC = HERE / 'csrc'
ASAN_ENV = ('detect_leaks=0:exitcode=99:max_malloc_fill_size=268435456:'
            'malloc_fill_byte=255:allocator_may_return_null=1:'
            'handle_segv=1')


def build(kind):
    import numpy
    files = sorted((REPO / 'c').glob('*.[ch]')) + sorted(SRC.glob('*'))
    h = hashlib.sha256(pathlib.Path(__file__).read_bytes())
    for f in files:
        h.update(f.name.encode() + b'\0' + f.read_bytes() + b'\0')
    h.update((numpy.__version__ + sys.version + kind).encode())
    CACHE.mkdir(exist_ok=True)
    out = CACHE / f'csan-{kind}-{h.hexdigest()[:24]}.so'
    with open(CACHE / f'csan-{kind}.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if out.exists():
            return out
        c = [str(f) for f in files if f.suffix == '.c' and f.parent != SRC]
        inc = ['-w', '-fPIC', '-I', numpy.get_include(),
               '-I', sysconfig.get_paths()['include']]
        with tempfile.TemporaryDirectory(dir=CACHE) as tmp:
            so = f'{tmp}/x.so'
            if kind == 'asan':
                cmds = [['gcc', '-O1', '-g', '-fno-omit-frame-pointer',
                         '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=all', '-fopenmp', '-shared',
                         *inc, *c, '-o', so, '-lm']]
            elif kind == 'tsan':
                cmds = []
                for i, f in enumerate(c):
                    cmds.append(['gcc', '-O1', '-g', '-fsanitize=thread',
                                 '-fopenmp', *inc, '-c', f, '-o',
                                 f'{tmp}/{i}.o'])
                cmds.append(['gcc', '-O1', '-fPIC', '-c',
                             str(SRC / 'pool.c'), '-o', f'{tmp}/pool.o'])
                cmds.append(['gcc', '-shared', '-fsanitize=thread',
                             *[f'{tmp}/{i}.o' for i in range(len(c))],
                             f'{tmp}/pool.o', '-o', so, '-lpthread', '-lm'])
            else:
                cmds = [['gcc', '-O0', '-fPIC', '-c', str(SRC / 'alloc.c'),
                         '-o', f'{tmp}/alloc.o'],
                        ['gcc', '-O0', '-fopenmp', '-shared', '-include',
                         str(SRC / 'alloc.h'), *inc, *c, f'{tmp}/alloc.o',
                         '-o', so, '-lm']]
            for cmd in cmds:
                subprocess.run(cmd, check=True)
            os.chmod(so, 0o755)
            os.rename(so, out)
    return out


def lib(name):
    return subprocess.run(['gcc', f'-print-file-name={name}'],
                          capture_output=True, text=True).stdout.strip()


class Died(Exception):
    pass


class Child:
    def __init__(self, kind, module):
        self.kind = kind
        self.dir = tempfile.mkdtemp(prefix='csan-', dir=CACHE)
        env = dict(os.environ, VP_CSAN_SO=str(build(kind)),
                   VP_CSAN_DIR=self.dir,
                   PYTHONMALLOC='malloc', OPENBLAS_NUM_THREADS='1')
        if kind == 'asan':
            env.update(LD_PRELOAD=lib('libasan.so') + ':'
                       + lib('libubsan.so'),
                       ASAN_OPTIONS=f'{ASAN_ENV}:log_path={self.dir}/log',
                       UBSAN_OPTIONS='print_stacktrace=1:exitcode=99:'
                                     f'log_path={self.dir}/log')
        elif kind == 'tsan':
            env.update(LD_PRELOAD=lib('libtsan.so'), TSAN_OPTIONS=(
                f'exitcode=0:log_path={self.dir}/log:report_signal_unsafe=0:'
                'report_thread_leaks=0:history_size=4'))
        self.err = open(f'{self.dir}/stderr', 'w+')
        self.p = subprocess.Popen(
            [sys.executable, '-B', '-W', 'ignore', str(HERE / 'csan.py'),
             module], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, env=env)
        try:
            ok = self.recv(120) == 'ready'
        except Died:
            ok = False
        self.usable = ok

    def recv(self, timeout):
        end = time.time() + timeout

        def read(n):
            out = b''
            while len(out) < n:
                r = select.select([self.p.stdout], [], [],
                                  max(0, end - time.time()))[0]
                if not r:
                    raise Died('timeout')
                b = os.read(self.p.stdout.fileno(), n - len(out))
                if not b:
                    raise Died('end')
                out += b
            return out
        return pickle.loads(read(struct.unpack('<q', read(8))[0]))

    def call(self, job, timeout=150):
        b = pickle.dumps(job)
        try:
            self.p.stdin.write(struct.pack('<q', len(b)) + b)
            self.p.stdin.flush()
        except OSError:
            raise Died('end')
        return self.recv(timeout)

    def reports(self):
        """sanitizer reports that concern the sources of the extension"""
        text = ''
        for f in sorted(pathlib.Path(self.dir).glob('log*')):
            text += f.read_text(errors='replace')
        out = []
        if self.kind == 'tsan':
            for block in text.split('=' * 18):
                m = re.search(r'WARNING: ThreadSanitizer: (.*?) \(pid', block)
                if not m or 'data race' not in m[1]:
                    continue
                tops = re.findall(
                    r'(?:Read|Write|read|write) of size[^\n]*\n'
                    r'\s*#0 ([^\n]*)(?:\n\s*#1 ([^\n]*))?', block)
                where = [s for a, b in tops for s in (
                    a, b if 'interceptor' in a or '??' in a else '')
                    if '/c/' in s]
                if len(tops) >= 2 and where:
                    out.append(f'{m[1]}: ' + ' / '.join(
                        re.sub(r'\(.*', '', s).replace(str(REPO) + '/', '')
                        .strip() for s in where[:2]))
        else:
            for m in re.finditer(r'(ERROR: AddressSanitizer: [^\n]*|'
                                 r'[^\n]*runtime error: [^\n]*)', text):
                at = re.search(r'#\d+ \S+ in (\S+ \S*/c/\S+)', text[m.end():])
                out.append(re.sub(r'0x[0-9a-f]+|==\d+==', '*', m[1])[:160]
                           + (f' in {at[1]}' if at else ''))
        return out

    def close(self):
        import shutil
        try:
            self.p.kill()
            self.p.wait(20)
        except Exception:
            pass
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------- child side

def serve(module):
    import importlib
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    os.environ.pop('LD_PRELOAD', None)
    from harness import bootstrap
    bootstrap.ensure_hypothesis()
    so = os.environ['VP_CSAN_SO']
    bootstrap.build_extension = lambda *a: pathlib.Path(so)
    bootstrap.load_euphonic()
    import ctypes
    mod = importlib.import_module(module)
    mod.CLIB = ctypes.CDLL(so)

    def send(x):
        b = pickle.dumps(x)
        out.write(struct.pack('<q', len(b)) + b)
        out.flush()
    send('ready')
    inp = sys.stdin.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            break
        job = pickle.loads(inp.read(struct.unpack('<q', h)[0]))
        try:
            r = ('ok', mod.child_job(job))
        except Exception as e:
            r = ('error', f'{type(e).__name__}: {e}')
        send(r)
    import shutil
    shutil.rmtree(os.environ['VP_CSAN_DIR'], ignore_errors=True)
    os._exit(0)


if __name__ == '__main__':
    serve(sys.argv[1])
