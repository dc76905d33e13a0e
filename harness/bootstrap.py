"""Makes hypothesis importable and provides the C extension built from the
current tree of the repository.  Used by setup.sh and by every check, so a
check never depends on what setup left behind."""
import hashlib
import os
import pathlib
import subprocess
import sys
import sysconfig
import tempfile
import types

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('EUPHONIC_REPO', '/repo'))
DEPS = VERIF / '.deps'
CACHE = VERIF / '.cache'
WHEELS = '/opt/veriftools/wheels'


def ensure_hypothesis():
    if (DEPS / 'hypothesis').is_dir():
        sys.path.append(str(DEPS))
        return
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    tmp = None
    try:
        tmp = pathlib.Path(tempfile.mkdtemp(prefix='deps-', dir=VERIF))
        subprocess.run(
            [sys.executable, '-m', 'pip', 'install', '-q', '--no-index',
             '--no-warn-script-location', '--disable-pip-version-check',
             '--find-links', WHEELS, '--target', str(tmp), 'hypothesis'],
            check=True, stdout=subprocess.DEVNULL)
        try:
            tmp.rename(DEPS)
        except OSError:
            pass
        sys.path.append(str(DEPS if (DEPS / 'hypothesis').is_dir() else tmp))
        import hypothesis  # noqa: F401
        return
    except Exception as e:  # fall back to the tool environment
        print(f'hypothesis wheel not usable ({e}); using the tool venv',
              file=sys.stderr)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis  # noqa: F401


def build_extension(sanitize: str = '') -> pathlib.Path:
    """Compile c/*.c of the repository; cached on content."""
    import numpy
    cdir = REPO / 'c'
    files = sorted(cdir.glob('*.[ch]'))
    h = hashlib.sha256()
    for f in files:
        h.update(f.name.encode() + b'\0' + f.read_bytes() + b'\0')
    h.update((numpy.__version__ + sys.version + sanitize).encode())
    name = f'_euphonic-{h.hexdigest()[:24]}.so'
    CACHE.mkdir(exist_ok=True)
    out = CACHE / name
    if out.exists():
        return out
    fd, tmp = tempfile.mkstemp(suffix='.so', dir=CACHE)
    os.close(fd)
    flags = ['-shared', '-fPIC', '-O2', '-fopenmp', '-fno-strict-overflow',
             '-w', '-I', numpy.get_include(),
             '-I', sysconfig.get_paths()['include']]
    if sanitize:
        flags += [f'-fsanitize={sanitize}', '-g', '-fno-omit-frame-pointer']
    else:
        flags += ['-DNDEBUG']
    cmd = ['gcc', *flags, '-o', tmp,
           *[str(f) for f in files if f.suffix == '.c'], '-lm']
    subprocess.run(cmd, check=True)
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)
    return out


def load_euphonic():
    """Import euphonic from the repository with a freshly built extension"""
    sys.path.insert(0, str(REPO))
    so = build_extension(os.environ.get('VERIF_SANITIZE', ''))
    import importlib.machinery
    import importlib.util
    loader = importlib.machinery.ExtensionFileLoader(
        'euphonic._euphonic', str(so))
    spec = importlib.util.spec_from_file_location(
        'euphonic._euphonic', str(so), loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['euphonic._euphonic'] = mod
    spec.loader.exec_module(mod)
    import euphonic
    euphonic._euphonic = mod
    where = pathlib.Path(euphonic.__file__).resolve()
    if where != (REPO / 'euphonic' / '__init__.py').resolve():
        raise RuntimeError(f'euphonic imported from {where}, not {REPO}')
    return euphonic


if __name__ == '__main__':
    ensure_hypothesis()
    build_extension()
    load_euphonic()
    print('setup ok')
