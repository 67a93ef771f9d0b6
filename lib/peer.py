"""Another process which runs jobs: JSON lines in, JSON lines out."""
import base64
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def perform(root, spec, job, order, absolute=False, seed=0):
    """Do a job in a directory with these files: [result, output, tree]."""
    import random
    import cli
    import jobs
    files = jobs.files_of(spec)
    files = {p: files[p] for p in sorted(
        files, key=lambda p: hash((order, p)))}
    cli.restore(root, files)
    os.chdir('/' if absolute else root)
    if job.get('cli'):
        got, _ = jobs.program(job, random.Random(seed))
        res = [got.code, type(got.exc).__name__, str(got.exc or ''), got.err]
        said = got.out
    else:
        o, said = jobs.api(job, root if absolute else '')
        res = jobs.value_of(o)
    return [res, jobs.undate(said), cli.snapshot(root)]


def serve(root):
    sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
    import warnings
    warnings.simplefilter('ignore')
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)
    for line in sys.stdin.buffer:
        got = []
        for item in json.loads(line):
            res, said, tree = perform(root, *item)
            got.append([res, said, {
                p: x if x is None else base64.b64encode(x).decode()
                for p, x in tree.items()}])
        out.write(json.dumps(got) + '\n')
        out.flush()


class Peer:
    def __init__(self, root, hashseed, env=None, flags=()):
        self.p = subprocess.Popen(
            [sys.executable, *flags, os.path.abspath(__file__), root],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, encoding='utf-8',
            env=dict(os.environ, PYTHONHASHSEED=str(hashseed),
                     **(env or {})))

    def ask(self, todo, timeout=60):
        """Results of some jobs, or None if it does not answer."""
        try:
            self.p.stdin.write(json.dumps(todo) + '\n')
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                return None
            return [[v, s, {p: x if x is None else base64.b64decode(x)
                            for p, x in t.items()}]
                    for v, s, t in json.loads(self.p.stdout.readline())]
        except (OSError, ValueError):
            return None

    def close(self):
        self.p.kill()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


if __name__ == '__main__':
    serve(sys.argv[1])
