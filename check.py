#!/usr/bin/env python3
"""Run one property check:  check.py ID [--tier T] [--seed N] [--n N]
[--explore] [--replay FILE]."""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))

MODULES = {
    'E': 'extraction', 'M': 'catalog', 'T': 'translation', 'H': 'htmlout',
    'W': 'programs', 'X': 'surface',
}


def load(pid):
    mod = importlib.import_module(MODULES[pid[0]])
    return mod.CHECKS[pid]()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--n', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--explore', action='store_true')
    ap.add_argument('--max', type=int, default=6)
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.environ.pop('_MDPO_RUNNING', None)
    import engine
    check = load(a.id)
    if a.replay:
        case = json.load(open(a.replay))['case']
        import tempfile
        check.scratch = tempfile.mkdtemp(prefix='mdpo-verif-')
        engine.SCRATCH = os.path.realpath(check.scratch) + os.sep
        os.chdir(check.scratch)
        res = engine.guarded_judge(check, case)
        print(json.dumps(case, ensure_ascii=False, indent=1))
        if res.info is not None:
            print('info:', res.info)
        for k, m in res.viol:
            print(f'{k}: {m}')
        os.chdir('/')
        import shutil
        shutil.rmtree(check.scratch, ignore_errors=True)
        if res.viol:
            print(f'VIOLATION property={a.id} replay={a.replay}')
        return 1 if res.viol else 0
    seed = int(a.seed)
    if a.explore:
        viol, counts = engine.run(check, a.tier, seed, a.n, True, a.workers)
        shown = {}
        import tempfile
        check.scratch = tempfile.mkdtemp(prefix='mdpo-verif-')
        engine.SCRATCH = os.path.realpath(check.scratch) + os.sep
        os.chdir(check.scratch)
        for kind, msg, case, orig, tag in viol:
            if shown.get(kind, 0) >= a.max:
                continue
            shown[kind] = shown.get(kind, 0) + 1
            small = engine.shrink(check, case, kind, 4)
            r = engine.guarded_judge(check, small)
            m = next((m for k, m in r.viol if k == kind), msg)
            print(f'--- {kind} [{tag}]\n{m}')
            print('    case', engine.jdump(small)[:700])
        print(dict(counts))
        os.chdir('/')
        import shutil
        shutil.rmtree(check.scratch, ignore_errors=True)
        return 1 if viol else 0
    return engine.run(check, a.tier, seed, a.n, workers=a.workers)


if __name__ == '__main__':
    sys.exit(main())
