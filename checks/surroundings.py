"""W08: what a run must not depend on."""
import os
import random
import re
import sys

import cli
import jobs
import peer
from engine import Invalid, Result
programs = sys.modules.get('programs') or sys.modules['__main__']
ProgramCheck, rand_job = programs.ProgramCheck, programs.rand_job

ASCII = {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0',
         'PYTHONCOERCECLOCALE': '0'}
WORLDS = {
    'ascii': (ASCII, ()),
    'ascii-user': (dict(ASCII, HOME='/nonexistent', USER='x', TZ='Asia/Tokyo',
                        COLUMNS='20', TERM='dumb'), ()),
    'optimized': ({'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}, ('-OO',)),
    'terminal': ({'COLUMNS': '10', 'LINES': '5', 'LANGUAGE': 'es:fr',
                  'TZ': 'America/Lima', 'NO_COLOR': '1', 'CI': 'true',
                  'PYTHONDEVMODE': '1'}, ()),
}
# files which nobody named
BESIDE = {
    'polib.py': 'raise SystemExit("polib of the directory")\n',
    'md4c.py': 'raise SystemExit("md4c of the directory")\n',
    'json.py': 'raise SystemExit("json of the directory")\n',
    'mdpo/__init__.py': 'raise SystemExit("mdpo of the directory")\n',
    'pyproject.toml': '[tool.mdpo]\nwrapwidth = 3\nsave = "bad.md"\n',
    'setup.cfg': '[md2po]\nwrapwidth = 3\n[mdpo]\nplaintext = true\n',
    '.mdpo': 'wrapwidth: 3\n', '.env': 'MDPO_WRAPWIDTH=3\n',
    'es.po': 'msgid "a"\nmsgstr "WRONG"\n', 'other.po': 'garbage "',
    'src2/a.md': 'Not this\n', 'po2/es.po': 'garbage',
    '.src/a.md': 'Neither\n', 'src/.hidden/x.md': 'Hidden\n',
    'po.old/es.po': 'msgid "Text"\nmsgstr "WRONG"\n',
}


class W08(ProgramCheck):
    """The same jobs in other processes: locale without UTF-8, environment
    variables, optimization, hash seeds, files created in other order and with
    other times, unrelated files beside them, absolute paths from other
    directory."""
    id = 'W08'
    rule = ('the same job (program or API) here and in processes with an '
            'ASCII locale, other environment variables, optimized modules, '
            'other hash seeds, unrelated files beside the inputs, or by '
            'absolute paths from other directory: result, output and files; '
            'non-trivial: the job succeeds')
    quick_n = 8000
    thorough_n = 80000
    min_counts = {'jobs': 2000, 'ascii': 300, 'ascii_non_ascii_files': 250,
                  'optimized': 200, 'terminal': 200, 'beside': 300,
                  'absolute': 150, 'programs': 700, 'processes': 16}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        world = sorted(WORLDS)[i // 32 % 4]
        docs, files = self.fixture(
            rng, names=[x for x in programs.PLAIN_SRC if x.isascii()]
            if 'ascii' in world else programs.PLAIN_SRC)
        job = rand_job(rng, prog, files, docs)
        if rng.random() < .5:
            job['cli'] = True
            if rng.random() < .3:
                job['check'] = True
            if rng.random() < .2:
                job['gates'] = rng.sample(list(jobs.GATES), 2)
        absolute = not job.get('cli') and rng.random() < .4 and \
            'ignore' not in job['opts']
        return {'files': files, 'job': job,
                'world': world,
                'beside': rng.sample(sorted(BESIDE), 5)
                if rng.random() < .5 else [],
                'absolute': absolute, 'seed': rng.randrange(1 << 30)}

    peers = {}

    def ask(self, world, todo, r, seed):
        p, asked = self.peers.get(world, (None, 0))
        if p is None or asked >= 60:
            if p:
                p.close()
            env, flags = WORLDS[world]
            p = peer.Peer(self.root('p'), seed % (1 << 32) or 1, env, flags)
            asked = 0
            r.counts['processes'] += 1
        self.peers[world] = p, asked + 1
        got = p.ask(todo)
        if got is None:
            p.close()
            del self.peers[world]
        return got

    def judge(self, case):
        r = Result()
        job, spec = case['job'], case['files']
        try:
            files = jobs.files_of(spec)
        except (UnicodeError, LookupError, KeyError, TypeError, ValueError):
            raise Invalid from None
        self.valid_job(job, spec)
        for p in jobs.targets(job, files)[0]:
            programs.contained(p, '')
        how = job.get('how', 'file')
        if how == 'text' and job['src'][:1] == '-' or \
                how != 'file' and job['src'].startswith('/'):
            raise Invalid
        if case['absolute'] and (job.get('cli') or how != 'file' or
                                 'ignore' in job['opts']):
            raise Invalid
        if 'ascii' in case['world'] and not ''.join(files).isascii():
            raise Invalid
        src = job['src'] if isinstance(job['src'], list) else [job['src']]
        if case['absolute'] and any(
                x[-1:] == '/' or not any(programs.matches(x, p)
                                         for p in files) for x in src):
            raise Invalid  # not a file: the path itself is the content
        if case['world'] not in WORLDS or set(case['beside']) - set(BESIDE):
            raise Invalid
        beside = {p: BESIDE[p] for p in case['beside'] if p not in files
                  and not self.named(p, job)}
        here = peer.perform(self.root('a'), spec, job, case['seed'],
                            False, case['seed'])
        os.chdir(self.scratch)
        got = self.ask(case['world'], [
            [dict(spec, **beside), job, case['seed'] ^ 1, case['absolute'],
             case['seed']]], r, case['seed'])
        if got is None:
            r.counts['lost'] += 1
            return r
        there = got[0]
        tree = there[2]
        for p in beside:
            if tree.pop(p, None) != BESIDE[p].encode():
                r.bad('beside', f'{p} changed by {job}')
            while '/' in p:
                p = p.rpartition('/')[0]
                if p not in here[2]:
                    tree.pop(p, None)
        a, b = here, [there[0], there[1], tree]
        if case['absolute']:
            a, b = [self.flat(x) for x in a], [
                self.flat(x, self.root('p') + '/') for x in b]
            r.counts['absolute'] += 1
        r.counts['jobs'] += 1
        r.counts[case['world'].split('-')[0]] += 1
        r.counts['beside'] += bool(beside)
        r.counts['programs'] += bool(job.get('cli'))
        r.counts['ascii_non_ascii_files'] += 'ascii' in case['world'] and any(
            max(x or b' ') > 127 for x in files.values())
        for what, x, y in zip(('result', 'output', 'files'), a, b):
            if x != y:
                d = programs.tree_diff(x, y, ('here', 'there')) \
                    if what == 'files' else \
                    f'here {str(x)[:1500]!r}\n  there {str(y)[:1500]!r}'
                r.bad(f'{what}-{case["world"]}', f'{job} with '
                      f'{sorted(beside)} absolute={case["absolute"]}: {d}')
                break
        r.nontrivial = here[0][0] in ('value', 'tuple', 0)
        r.info = {'job': job, 'world': case['world'],
                  'beside': sorted(beside), 'absolute': case['absolute']}
        return r

    def named(self, path, job):
        """Could some argument cover the file?"""
        o = job['opts']
        pats = [job['src']] if isinstance(job['src'], str) else job['src']
        pats = list(pats) + list(job.get('pofiles', ())) + [
            v for v in o.values() if isinstance(v, str)]
        pats = [x for p in pats for x in (p, p.strip())]
        if any(programs.matches(p, path) or p.split('/')[0] ==
               path.split('/')[0] for p in pats):
            return True
        if 'schema' in job:
            tops = {jobs_out.split('/')[0] for jobs_out in self.outs(job)}
            return path.split('/')[0] in tops
        return False

    def outs(self, job):
        return [job['schema'].replace('{lang}', x) for x in job['langs']]

    def flat(self, x, root=''):
        """Without the directory, and without the wrapping of references."""
        if isinstance(x, dict):
            return {p: v if v is None else self.flat(
                v.decode('utf-8', 'surrogateescape'), root)
                for p, v in x.items()}
        if isinstance(x, list):
            return [self.flat(v, root) for v in x]
        if not isinstance(x, str):
            return x
        lines = []
        for ln in x.replace(root, '').split('\n') if root else x.split('\n'):
            if ln.startswith('#: ') and lines and lines[-1].startswith('#: '):
                lines[-1] += ' ' + ln[3:]
            else:
                lines.append(ln)
        return '\n'.join(lines)


# -------------------------------------------------------------------- W09
MD_ENCS = ['utf-8', 'utf-8', 'latin-1', 'cp1252', 'cp1251', 'koi8-r',
           'utf-16', 'utf-16-le', 'utf-32', 'shift_jis', 'gb18030',
           'utf-8-sig', 'euc-jp', 'big5']
PO_ENCS = [None, None, 'utf-8', 'latin-1', 'cp1252', 'cp1251', 'utf-16',
           'utf-16-be', 'shift_jis', 'gb18030', 'utf-8-sig']
NAMED = ['latin-1', 'cp1252', 'cp1251', 'koi8-r', 'gb18030', 'utf-8']
CHARSET = re.compile('charset=[-A-Za-z0-9_]+')


class W09(ProgramCheck):
    """The same job on files written in other encodings and with other line
    endings."""
    id = 'W09'
    rule = ('the same job on files in UTF-8 with LF and on the same files '
            'in other encodings (given as options or declared by the '
            'catalogs) and with CRLF: result, output and files once decoded; '
            'non-trivial: other encoding or line endings, and the job '
            'succeeds')
    quick_n = 10000
    thorough_n = 100000
    min_counts = {'jobs': 4000, 'md_encoding': 1500, 'po_encoding': 800,
                  'declared': 300, 'crlf_md': 800, 'crlf_po': 800,
                  'crlf_text': 150, 'non_ascii': 1500, 'programs': 1500,
                  'saved_encoded': 1000}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        docs, files = self.fixture(rng)
        job = rand_job(rng, prog, files, docs)
        if rng.random() < .4:
            job['cli'] = True
            if rng.random() < .3:
                job['check'] = True
            if rng.random() < .4:
                job['gates'] = rng.sample(list(jobs.GATES), 2)
        case = {'md': rng.choice(MD_ENCS), 'po': rng.choice(PO_ENCS),
                'declared': None, 'crlf_md': rng.random() < .3,
                'crlf_po': rng.random() < .3, 'job': job,
                'seed': rng.randrange(1 << 30)}
        if case['po'] is None and rng.random() < .6:
            case['declared'] = rng.choice(NAMED)
        if job['how'] != 'file':
            # contents are read from the arguments
            case['md'] = 'utf-8'
            if job['how'] == 'stdin' or 'debug' in job['opts']:
                case['crlf_md'] = False
        encs = [case['md'], case['po'] or case['declared'] or 'utf-8']
        case['files'] = {p: self.fit(x, encs) for p, x in files.items()}
        if job['how'] != 'file':
            job['src'] = self.fit(job['src'], encs)
        for name, v in list(job['opts'].items()):
            if jobs.OPTS[prog][name][0] == 'pairs':
                job['opts'][name] = [[self.fit(a, encs), self.fit(b, encs)]
                                     for a, b in v]
        if rng.random() < .4 and job['how'] == 'file':
            # more letters of the encoding
            extra = {'cp1251': 'Привет, мир', 'koi8-r': 'Мир 1',
                     'shift_jis': '日本語', 'euc-jp': '日本 ab',
                     'big5': '中文', 'gb18030': '汉字 é'}.get(
                         case['md'], 'Ñandú “x”')
            extra = self.fit(extra, encs)
            for d in docs:
                case['files'][d] += f'\n\n{extra}\n'
            for p in ('po/es.po', 'po/fr.po'):
                rows = case['files'][p]['rows']
                if extra not in [row[1] for row in rows]:
                    rows.append([None, extra, extra[::-1].strip(), False,
                                 False, None, False])
        return case

    def fit(self, x, encs):
        if isinstance(x, str):
            for e in encs:
                x = jobs.encodable(x, e)
            return x
        if isinstance(x, dict):
            return {k: self.fit(v, encs) for k, v in x.items()}
        if isinstance(x, list):
            return [self.fit(v, encs) for v in x]
        return x

    def judge(self, case):
        r = Result()
        job, spec = case['job'], case['files']
        md, po, dec = case['md'], case['po'], case['declared']
        if md not in MD_ENCS or po not in PO_ENCS or dec not in NAMED + [
                None] or po and dec:
            raise Invalid
        encs = [md, po or dec or 'utf-8']
        if self.fit(spec, encs) != spec or self.fit(
                sorted(spec), encs) != sorted(spec):
            raise Invalid
        try:
            files = jobs.files_of(spec)
        except (UnicodeError, LookupError, KeyError, TypeError, ValueError):
            raise Invalid from None
        self.valid_job(job, spec)
        for p in jobs.targets(job, files)[0]:
            programs.contained(p, '')
        how = job.get('how', 'file')
        if how != 'file' and (md != 'utf-8' or job['src'][:1] in '-/'):
            raise Invalid
        if how != 'file' and case['crlf_md'] and (
                how == 'stdin' or 'debug' in job['opts']):
            raise Invalid       # offsets are shown; stdin converts them
        other, text = {}, job['prog'] != 'mdpo2html'
        ids = job['opts'].get('ignore_msgids')
        for p, x in spec.items():
            if p == 'ev.py':
                other[p] = x
            elif isinstance(x, dict):
                other[p] = dict(x, enc=po or dec or 'utf-8',
                                charset=dec or po or 'utf-8',
                                crlf=case['crlf_po'])
            elif p == ids:
                other[p] = {'text': x, 'enc': po or 'utf-8',
                            'crlf': case['crlf_md']}
            else:
                other[p] = {'text': x, 'enc': md, 'crlf': case['crlf_md']}
        opts = dict(job['opts'])
        if md != 'utf-8':
            opts['md_encoding' if text else 'html_encoding'] = md
        if po:
            opts['po_encoding'] = po
        job2 = dict(job, opts=opts)
        if how != 'file' and case['crlf_md']:
            job2['src'] = job['src'].replace('\n', '\r\n')
            r.counts['crlf_text'] += 1
        here = peer.perform(self.root('a'), spec, job, 1, False, case['seed'])
        os.chdir(self.scratch)
        there = peer.perform(self.root('b'), other, job2, 1, False,
                             case['seed'])
        os.chdir(self.scratch)
        r.counts['jobs'] += 1
        r.counts['md_encoding'] += md != 'utf-8'
        r.counts['po_encoding'] += bool(po)
        r.counts['declared'] += bool(dec)
        r.counts['crlf_md'] += case['crlf_md']
        r.counts['crlf_po'] += case['crlf_po']
        r.counts['programs'] += bool(job.get('cli'))
        r.counts['non_ascii'] += any(max(x or b' ') > 127
                                     for x in files.values())
        what = (f'{job2} md={md} po={po} declared={dec} crlf='
                f'{case["crlf_md"]},{case["crlf_po"]}')
        for name, x, y in zip(('result', 'output'), here, there):
            x, y = self.plain(x), self.plain(y)
            if x != y:
                r.bad(name, f'{what}:\n  UTF-8 {str(x)[:1500]!r}\n'
                      f'  other {str(y)[:1500]!r}')
                return r
        a, b = here[2], there[2]
        if sorted(a) != sorted(b):
            r.bad('files', f'{what}: {sorted(a)} and {sorted(b)}')
            return r
        untouched = jobs.files_of(other)
        for p in a:
            if a[p] is None or b[p] is None:
                if a[p] != b[p]:
                    r.bad('files', f'{what}: {p}')
                continue
            x = self.plain(a[p].decode('utf-8', 'replace'))
            enc = md
            if p.endswith('.po') and p in spec or p == job['opts'].get(
                    'po_filepath') or p.endswith('.po') and \
                    job['prog'] == 'md2po2md':
                enc = po or (dec if p in spec else None) or 'utf-8'
            elif p == ids:
                enc = po or 'utf-8'
            elif p == 'ev.py' or p == job['opts'].get('mo_filepath'):
                enc = None
            if p not in untouched and enc:
                r.counts['saved_encoded'] += enc != 'utf-8'
            if enc is None:
                continue
            try:
                y = self.plain(b[p].decode(enc))
            except UnicodeError as e:
                r.bad('undecodable', f'{what}: {p} in {enc}: {e}')
                continue
            if x != y:
                r.bad('file', f'{what}: {p} in {enc}\n  UTF-8 {x[:1500]!r}\n'
                      f'  other {y[:1500]!r}')
        r.nontrivial = here[0][0] in ('value', 'tuple', 0) and bool(
            md != 'utf-8' or po or dec or case['crlf_md'] or case['crlf_po'])
        r.info = {'job': job2, 'md': md, 'po': po, 'declared': dec}
        return r

    def plain(self, x):
        if isinstance(x, list):
            return [self.plain(v) for v in x]
        if isinstance(x, str):
            return CHARSET.sub('charset=X', x).replace('\r\n', '\n')
        return x
