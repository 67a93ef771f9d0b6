"""Runs the command line programs in process and records what they touch."""
import importlib
import io
import os
import sys
import sysconfig
import traceback

import engine
import sut  # noqa: F401  (puts /repo/src first)


class Stdin(io.StringIO):
    def __init__(self, text):
        super().__init__(text or '')
        self.tty = text is None

    def isatty(self):
        return self.tty


class Run:
    """What one program run did."""
    __slots__ = ('code', 'out', 'err', 'value', 'exc', 'touched', 'trace')

    def summary(self):
        return (f'code={self.code} exc={self.exc!r} '
                f'stderr={self.err[-300:]!r}')


WRITES = {'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.link',
          'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime',
          'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.putenv',
          'os.unsetenv', 'os.chdir', 'subprocess.Popen', 'os.system',
          'os.exec', 'os.fork', 'os.posix_spawn', 'socket.connect',
          'socket.bind', 'tempfile.mkstemp', 'tempfile.mkdtemp'}
LOG = None
_hook = []


def contain(path):
    """Effects outside of the scratch directory are recorded, not done."""
    if isinstance(path, str) and engine.SCRATCH and path != os.devnull \
            and not os.path.realpath(path).startswith(engine.SCRATCH):
        raise PermissionError(f'outside of the scratch directory: {path}')


def _audit(event, args):
    if LOG is None:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, str):
            return
        if isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            LOG.append(('write', path))
            contain(path)
        else:
            LOG.append(('read', path))
    elif event in WRITES:
        LOG.append((event, args[0] if args else None))
        if event.startswith(('os.', 'shutil.')) and args \
                and event not in ('os.putenv', 'os.unsetenv', 'os.chdir'):
            for path in args[:2]:
                contain(path)


class recording:
    """Records file effects of the code run inside (audit events)."""

    def __enter__(self):
        global LOG
        if not _hook:
            sys.addaudithook(_audit)
            _hook.append(1)
        self.log = LOG = []
        return self.log

    def __exit__(self, *a):
        global LOG
        LOG = None


PREFIXES = tuple({os.path.realpath(p) + os.sep for p in (
    sysconfig.get_paths()['stdlib'], sysconfig.get_paths()['purelib'],
    '/repo/src', '/usr/share/zoneinfo')}) + ('/etc/localtime', '/dev/null',
                                             '/proc/')


def reads(log):
    """Files read which are not modules of the interpreter."""
    return [os.path.normpath(p) for k, p in log if k == 'read'
            and not os.path.realpath(p).startswith(PREFIXES)]


def writes(log):
    return [(k, os.path.normpath(p) if isinstance(p, str) else p)
            for k, p in log
            if k not in ('read', 'os.putenv', 'os.unsetenv')
            and not (k == 'write' and p == '/dev/null')]


def run(prog, args, stdin=None):
    """Run a program; stdin=None is a terminal."""
    mod = importlib.import_module(f'mdpo.{prog}.__main__')
    r = Run()
    r.value = r.exc = r.trace = None
    keep = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = Stdin(stdin)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with recording() as log:
            try:
                got = mod.run(args=list(args))
                r.value, r.code = got if isinstance(got, tuple) \
                    else (None, got)
            except SystemExit as e:
                r.code = e.code
            except Exception as e:
                r.exc, r.code = e, 1
                r.trace = traceback.format_exc()
        r.out, r.err = sys.stdout.getvalue(), sys.stderr.getvalue()
    finally:
        sys.stdin, sys.stdout, sys.stderr = keep
    r.touched = log
    return r


def snapshot(root):
    """{relative path: bytes, or None for directories}."""
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def restore(root, files):
    """Make a directory hold exactly these files ({path: bytes})."""
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for p, data in files.items():
        p = os.path.join(root, p)
        if data is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
