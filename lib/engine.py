"""Case engine: drives a Check over generated cases in worker processes.

A Check observes executions of the real mdpo code (imported from
/repo/src) and judges each recorded execution with a deterministic
oracle.  Verdicts are three-valued: exit 0 (held on everything observed),
exit 1 (violated, with a replayable witness), exit 2 (inconclusive: the
monitor observed too little, or the harness itself failed).
"""
import collections
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

import sut

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
SCRATCH = None        # nothing is written outside of it


class Hang(BaseException):
    pass


class Invalid(Exception):
    """The case does not denote a well-formed experiment (shrinking only)."""


class Result:
    __slots__ = ('viol', 'nontrivial', 'counts', 'sig', 'info')

    def __init__(self):
        self.viol = []          # list of (kind, message)
        self.nontrivial = False
        self.counts = collections.Counter()
        self.sig = None
        self.info = None

    def bad(self, kind, msg):
        self.viol.append((kind, str(msg)[:4000]))


class Known:
    """A recorded genuine defect: one specific failing witness."""

    def __init__(self, fid, what, case):
        self.fid, self.what, self.case = fid, what, case


class Check:
    id = None
    rule = ''
    quick_n = 2000
    thorough_n = 40000
    quick_cap = 150          # wall seconds (safety net, not a verdict)
    thorough_cap = 780
    cpu_limit = 25           # CPU seconds per case
    min_nontrivial = 100
    min_counts = {}          # counter name -> minimum for a conclusive run
    generator = ''
    workers = 8
    bystanders = 0.0         # share of cases run with options that do nothing

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def directed(self):
        return []

    def case(self, seed, i, tier):
        case = self.gen(rng_for(seed, self.id, i), i, tier)
        if self.bystanders:
            rng = rng_for(seed, self.id, f'{i}/bystanders')
            if rng.random() < self.bystanders:
                case['bystanders'] = rng.sample(sut.SIDE_NAMES,
                                                rng.choice([1, 2, 4]))
        return case

    def known(self):
        """Open findings of this property, from known-findings.txt."""
        out = []
        with open(os.path.join(VERIF, 'known-findings.txt'),
                  encoding='utf-8') as f:
            for ln in f:
                if not ln.startswith(f'known: property={self.id} '):
                    continue
                _, _, fid, path, what = ln.rstrip('\n').split(' ', 4)
                path = os.path.join(VERIF, path.removeprefix('case='))
                with open(path, encoding='utf-8') as c:
                    out.append(Known(fid.removeprefix('id='), what,
                                     json.load(c)))
        return out

    def finish(self, counts, tier):
        """Extra global assertions; return list of (kind, msg)."""
        return []


def jdump(x):
    return json.dumps(x, ensure_ascii=False, sort_keys=True)


def sig_of(x):
    return hashlib.blake2b(jdump(x).encode('utf-8', 'surrogatepass'),
                           digest_size=8).hexdigest()


def rng_for(seed, prop, i):
    return random.Random(f'{seed}/{prop}/{i}')


def _alarm(signum, frame):
    raise Hang()


def guarded_judge(check, case):
    """Run judge under the CPU watchdog."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, check.cpu_limit)
    sut.BYSTANDERS = case.get('bystanders') or [] \
        if isinstance(case, dict) else []
    try:
        r = check.judge(case)
        if sut.BYSTANDERS:
            r.counts['cases with bystanders'] += 1
        return r
    except Hang:
        r = Result()
        r.bad('no-result',
              f'no result after {check.cpu_limit} s of CPU time')
        return r
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sut.BYSTANDERS = []


# ------------------------------------------------------------------ shrinking
def _subs(x):
    """Yield smaller variants of a JSON value, biggest cuts first."""
    if isinstance(x, list):
        n = len(x)
        if n > 3:
            h = n // 2
            yield x[:h]
            yield x[h:]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            for s in _subs(x[i]):
                yield x[:i] + [s] + x[i + 1:]
    elif isinstance(x, dict):
        for k in list(x):
            y = dict(x)
            del y[k]
            yield y
        for k in list(x):
            for s in _subs(x[k]):
                y = dict(x)
                y[k] = s
                yield y
    elif isinstance(x, str):
        if len(x) > 4:
            yield x[:len(x) // 2]
            yield x[len(x) // 2:]
        if ' ' in x.strip():
            parts = x.split(' ')
            for i in range(len(parts)):
                yield ' '.join(parts[:i] + parts[i + 1:])
    elif isinstance(x, bool):
        if x:
            yield False


def shrink(check, case, kind, budget=20.0):
    end = time.time() + budget
    cur = case
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in _subs(cur):
            if time.time() > end:
                break
            try:
                r = guarded_judge(check, cand)
            except Exception:
                continue
            if any(k == kind for k, _ in r.viol):
                cur = cand
                progress = True
                break
    return cur


# -------------------------------------------------------------------- workers
def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass


def _worker(check, k, nworkers, n, seed, tier, wfd, scratch, explore, deadline):
    out = os.fdopen(wfd, 'wb', buffering=0)

    def send(obj):
        data = pickle.dumps(obj)
        out.write(len(data).to_bytes(8, 'big') + data)

    _limit()
    wd = os.path.join(scratch, f'w{k}')
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    check.scratch = wd
    counts = collections.Counter()
    sigs = set()
    ev = 0
    nontriv = 0
    samples = []
    curfile = os.path.join(scratch, f'cur{k}')
    directed = check.directed() if k == 0 else []
    nviol = oops = 0
    try:
        idx = 0
        todo = [('d', j, c) for j, c in enumerate(directed)]
        i = k
        while True:
            if idx < len(todo):
                tag, j, case = todo[idx]
                idx += 1
            else:
                if i >= n:
                    break
                tag, j = 'g', i
                case = check.case(seed, i, tier)
                i += nworkers
            if time.time() > deadline:
                counts['time_capped_workers'] += 1
                break
            with open(curfile, 'w') as f:
                f.write(jdump(case))
            try:
                r = guarded_judge(check, case)
            except Invalid:
                counts['invalid_cases'] += 1
                continue
            except Exception:
                # the observation does not fit the monitor: other cases
                # could tell what is wrong
                send(('oops', f'case {tag}{j}: {traceback.format_exc()}'))
                oops += 1
                if oops > 20:
                    break
                continue
            ev += 1
            counts.update(r.counts)
            s = r.sig or sig_of(case)
            if r.nontrivial and s not in sigs:
                sigs.add(s)
                nontriv += 1
                if len(samples) < 2 and (k < 4):
                    samples.append(r.info if r.info is not None else case)
            if r.viol:
                kind, msg = r.viol[0]
                if explore:
                    nviol += 1
                    send(('viol', kind, msg, case, case, f'{tag}{j}'))
                    if nviol > 400:
                        break
                    continue
                small = shrink(check, case, kind)
                try:
                    rr = guarded_judge(check, small)
                    msg2 = next((m for kk, m in rr.viol if kk == kind), msg)
                except Exception:
                    small, msg2 = case, msg
                send(('viol', kind, msg2, small, case, f'{tag}{j}'))
                break
        send(('done', ev, counts, sigs, samples))
    except BaseException:
        send(('error', traceback.format_exc()))
    out.close()
    os._exit(0)


def _isolated_judge(check, case, scratch):
    """Judge a case in a child process; returns Result-like or 'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _limit()
            wd = os.path.join(scratch, 'iso')
            os.makedirs(wd, exist_ok=True)
            os.chdir(wd)
            check.scratch = wd
            res = guarded_judge(check, case)
            data = pickle.dumps((res.viol, res.info))
        except BaseException:
            data = pickle.dumps(([('harness', traceback.format_exc())], None))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return 'died'
    return pickle.loads(data)


def _read_msgs(buf):
    msgs = []
    while len(buf) >= 8:
        ln = int.from_bytes(buf[:8], 'big')
        if len(buf) < 8 + ln:
            break
        msgs.append(pickle.loads(bytes(buf[8:8 + ln])))
        del buf[:8 + ln]
    return msgs


def write_replay(check, kind, msg, case, orig, seed, tier, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{check.id}-{sig_of(case)}.json')
    with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
        json.dump({'property': check.id, 'kind': kind, 'message': msg,
                   'case': case, 'unshrunk': orig, 'seed': seed, 'tier': tier,
                   'index': tag}, f, indent=1, ensure_ascii=True)
    return p


def run(check, tier, seed, n=None, explore=False, workers=None):
    t0 = time.time()
    nworkers = workers or check.workers
    n = n if n is not None else (
        check.quick_n if tier == 'quick' else check.thorough_n)
    cap = check.quick_cap if tier == 'quick' else check.thorough_cap
    deadline = t0 + cap
    scratch = tempfile.mkdtemp(prefix='mdpo-verif-')
    global SCRATCH
    SCRATCH = os.path.realpath(scratch) + os.sep
    os.chmod(scratch, 0o755)
    os.environ['HOME'] = scratch
    violations, errors = [], []
    counts = collections.Counter()
    sigs, samples = set(), []
    ev = 0
    known_lines = []
    inconclusive = []
    try:
        # replay the known findings first, each in its own process
        for kn in check.known():
            res = _isolated_judge(check, kn.case, scratch)
            counts['known_findings_replayed'] += 1
            if res == 'died' or res[0]:
                known_lines.append(
                    f'KNOWN-FINDING: property={check.id} [{kn.fid}] {kn.what}')
        sys.stdout.flush()
        procs = {}
        for k in range(nworkers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                _worker(check, k, nworkers, n, seed, tier, w, scratch,
                        explore, deadline)
            os.close(w)
            procs[r] = [pid, bytearray(), k, False]
        stop = False
        hard = deadline + 90
        while procs and not stop:
            rl, _, _ = select.select(list(procs), [], [], 1.0)
            if time.time() > hard:
                inconclusive.append('workers exceeded the wall-clock net')
                break
            for fd in rl:
                data = os.read(fd, 1 << 16)
                st = procs[fd]
                if data:
                    st[1].extend(data)
                    for m in _read_msgs(st[1]):
                        if m[0] == 'viol':
                            violations.append(m[1:])
                            if not explore:
                                stop = True
                        elif m[0] == 'done':
                            st[3] = True
                            ev += m[1]
                            counts.update(m[2])
                            sigs |= m[3]
                            samples.extend(m[4])
                        elif m[0] == 'oops':
                            errors.append(m[1])
                        else:
                            st[3] = True
                            errors.append(m[1])
                else:
                    os.close(fd)
                    os.waitpid(st[0], 0)
                    del procs[fd]
                    if not st[3] and not stop:
                        # the worker died: confirm on the recorded case
                        try:
                            with open(os.path.join(
                                    scratch, f'cur{st[2]}')) as f:
                                case = json.loads(f.read())
                        except Exception:
                            errors.append('worker died without a case')
                            continue
                        res = _isolated_judge(check, case, scratch)
                        if res == 'died':
                            violations.append((
                                'process-died',
                                'the interpreter died (crash or memory '
                                'limit) while processing the case',
                                case, case, 'dead'))
                        else:
                            inconclusive.append('a worker died once')
        for fd, st in procs.items():
            try:
                os.kill(st[0], signal.SIGKILL)
                os.waitpid(st[0], 0)
            except OSError:
                pass
            os.close(fd)
        if not violations and not errors:
            for kind, msg in check.finish(counts, tier):
                violations.append((kind, msg, {'finish': True}, None, 'fin'))
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    for line in known_lines:
        print(line)
    wall = time.time() - t0
    if explore:
        by = collections.Counter(v[0] for v in violations)
        print(f'explored {ev} cases in {wall:.1f}s: {dict(by)}')
        for e in errors[:3]:
            print('ERROR', e)
        return violations, counts
    for e in errors[:3]:
        sys.stderr.write(f'harness error:\n{e}\n')
    if not violations:
        if errors:
            inconclusive.append('harness error')
        if len(sigs) < check.min_nontrivial:
            inconclusive.append(
                f'only {len(sigs)} distinct nontrivial executions')
        for name, least in check.min_counts.items():
            if counts[name] < least:
                inconclusive.append(
                    f'monitor counter {name}={counts[name]} < {least}')
    write_evidence(check, tier, seed, ev, len(sigs), samples, counts, wall,
                   violations, known_lines, inconclusive)
    if violations:
        kind, msg, case, orig, tag = violations[0]
        p = write_replay(check, kind, msg, case, orig, seed, tier, tag)
        print(f'{check.id}: {kind}: {msg}')
        print(f'VIOLATION property={check.id} replay={p}')
        return 1
    if inconclusive:
        print(f'{check.id}: INCONCLUSIVE: {"; ".join(inconclusive)}')
        return 2
    print(f'{check.id}: held on {ev} executions '
          f'({len(sigs)} distinct nontrivial) in {wall:.1f}s')
    return 0


def write_evidence(check, tier, seed, ev, distinct, samples, counts, wall,
                   violations, known_lines, inconclusive):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    data = {
        'property': check.id,
        'tier': tier,
        'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': int(ev),
            'distinct_nontrivial': int(distinct),
            'rule': check.rule,
            'samples': samples[:6],
            'observed': {k: int(v) for k, v in sorted(counts.items())},
            'generator': check.generator or (check.__doc__ or '').strip(),
        },
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'known_findings': known_lines,
        'inconclusive': inconclusive,
    }
    with open(os.path.join(d, f'{check.id}.json'), 'w',
              encoding='utf-8', errors='backslashreplace') as f:
        json.dump(data, f, indent=1, ensure_ascii=True)
