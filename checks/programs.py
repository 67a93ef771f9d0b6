"""W01-W07: the programs, the files they write and what they leave behind."""
import collections
import contextlib
import fnmatch
import importlib
import io
import os
import random
import re
import signal
import sys
import threading
import warnings

import cli
import jobs
import mdgen
import peer
from engine import Check, Invalid, Result
from extraction import (ATTACH_CMDS, BLOCK_CMDS, CODE_CMDS, DEFAULT_EXT,
                        sprinkle)
from sut import call, markdown_to_pofile

warnings.simplefilter('ignore')
SRC = ['src/a.md', 'src/b c.md', 'src/ñ.md', 'src/x.y.md', 'src/[1].md',
       'src/READ_ME.md', "src/it's.md", 'doc.md', 'src/n.markdown',
       'src/deep/d.md', 'src/t.txt', 'src/e', 'src/-f.md', 'src/UP.MD',
       'src/Mix.Md', 'src/two..dots.md', 'src/.hid.md', 'src/z.']
PLAIN_SRC = ['src/a.md', 'src/b c.md', 'src/ñ.md', 'doc.md',
             'src/READ_ME.md', 'src/deep/d.md', 'src/n.markdown']
LANGS = ['es', 'fr', 'pt_BR', 'zh-Hans', 'sr@latin', 'de']
ALIASES = [['mdpo-on', 'mdpo-enable'], ['off', 'disable'],
           ['off:next', 'mdpo-disable-next-block'], ['ctx', 'context'],
           ['nota', 'mdpo-translator']]
EXTS = [DEFAULT_EXT, ['tables'], ['tables', 'strikethrough', 'tasklists'],
        ['collapse_whitespace', 'underline', 'tables'],
        DEFAULT_EXT + ['permissive_autolinks']]
WORDS = ['uno', 'dos', 'tres', 'año', 'мир', 'cosa "x"', 'a\\b', 'fin.']


def rand_doc(rng, enc='utf-8', heavy=False):
    g = mdgen.G(rng, maxblocks=rng.choice([1, 2, 3, 6] if heavy else [1, 2,
                                                                      3]),
                depth=2)
    doc = g.doc()
    if rng.random() < .5:
        doc = sprinkle(doc, rng, .3, BLOCK_CMDS + ATTACH_CMDS + (
            CODE_CMDS if rng.random() < .3 else []))
    text = mdgen.render(doc, rng.randrange(1 << 30))
    if rng.random() < .2:
        text = f'<!-- {rng.choice(ALIASES)[0]} x -->\n\nAliased\n\n' + text
    return jobs.encodable(text.rstrip('\n') + '\n', enc)


def rand_tr(rng, msgid):
    k = rng.random()
    if k < .2:
        return ''
    if k < .5:
        return 'Ü ' + msgid
    if k < .6:
        return msgid
    return ' '.join(rng.choice(WORDS) for _ in range(
        rng.choice([1, 3, 8, 30])))


def keys_of(text, **kw):
    out = call(markdown_to_pofile, text, location=False, **kw)
    return [(e.msgctxt, e.msgid) for e in out.value] if out else []


def rand_rows(rng, texts, noise=True, enc='utf-8'):
    """A catalog: some messages of the texts and some others."""
    keys = [k for t in texts for k in keys_of(t)]
    keys = [k for k in dict.fromkeys(keys) if rng.random() < .85]
    rows = [[c, m, rand_tr(rng, m), rng.random() < .1, False,
             rng.choice([None, None, None, 'a note']), rng.random() < .1]
            for c, m in keys]
    if noise:
        for n in range(rng.choice([0, 0, 1, 3])):
            rows.append([rng.choice([None, 'k']), f'gone {n}',
                         rng.choice(['', 'perdido']), rng.random() < .2,
                         rng.random() < .6, None, False])
    rng.shuffle(rows)
    return [[jobs.encodable(x, enc) if isinstance(x, str) else x
             for x in row] for row in rows]


def html_of(text):
    import md4c
    return md4c.HTMLRenderer(md4c.MD_FLAG_TABLES).parse(text)


def rand_job(rng, prog, files, docs, content=True):
    """A job of a program on these files (which it may extend)."""
    o = {}
    job = {'prog': prog, 'opts': o, 'how': 'file'}

    def maybe(p, name, value):
        if rng.random() < p:
            o[name] = value() if callable(value) else value
    if prog == 'md2po':
        k = rng.random()
        if k < .4 or not content:
            job['src'] = rng.choice(docs)
        elif k < .6 and len(docs) > 1:
            job['src'] = list(docs)
        elif k < .75:
            job['src'] = 'src/*.md'
        else:
            job['how'] = rng.choice(['stdin', 'text'])
            job['src'] = files[rng.choice(docs)]
        maybe(.6, 'po_filepath', lambda: rng.choice(
            ['po/es.po', 'po/new.po', 'out.po']))
        if 'po_filepath' in o:
            maybe(.7, 'save', True)
        maybe(.2, 'mo_filepath', 'out.mo')
        for name, p in (('plaintext', .2), ('xheader', .15),
                        ('include_codeblocks', .2), ('debug', .15)):
            maybe(p, name, True)
        for name, p in (('mark_not_found_as_obsolete', .2),
                        ('preserve_not_found', .2), ('location', .3)):
            maybe(p, name, False)
        maybe(.3, 'wrapwidth', lambda: rng.choice(
            ['20', '78', '0', 'inf', '40', '-1', '120']))
        maybe(.25, 'extensions', lambda: list(rng.choice(EXTS)))
        maybe(.15, 'ignore', lambda: rng.sample(docs, 1) + ['nothing.md'])
        if 'ignore' in o and isinstance(job['src'], str):
            del o['ignore']
        maybe(.15, 'metadata', lambda: rng.sample(
            [['Language', 'es'], ['X-Key', 'a: b'], ['X-b', 'c'],
             ['Project-Id-Version', 'ñ 1']], rng.randint(1, 3)))
        if rng.random() < .15:
            ids = [m for d in docs for _, m in keys_of(files[d])]
            files['ids.txt'] = '\n'.join(
                [x for x in rng.sample(ids, min(len(ids), 2))
                 if '\n' not in x] + ['nope']) + '\n'
            o['ignore_msgids'] = 'ids.txt'
    elif prog in ('po2md', 'mdpo2html'):
        if prog == 'mdpo2html':
            files['page.html'] = html_of(files[rng.choice(docs)])
            src = 'page.html'
        else:
            src = rng.choice(docs)
        if rng.random() < .65 or not content:
            job['src'] = src
        else:
            job['how'] = rng.choice(['stdin', 'text'])
            job['src'] = files[src]
        job['pofiles'] = rng.choice([['po/es.po'], ['po/*.po'],
                                     ['po/fr.po', 'po/es.po'],
                                     ['po/none*.po'], ['po/??.po', 'po/*']])
        maybe(.6, 'save', lambda: rng.choice(['out.txt', 'old.txt']))
        maybe(.2, 'ignore', lambda: [rng.choice(['po/fr.po', 'fr.po', 'po',
                                                 'es.po'])])
        if prog == 'po2md':
            maybe(.4, 'wrapwidth', lambda: rng.choice(
                ['20', '78', '0', 'inf', '40', '-1', '120']))
            maybe(.15, 'debug', True)
    else:
        k = rng.random()
        job['src'] = rng.choice(docs) if k < .4 else rng.choice(
            ['src/*.md', 'src/*', 'src/[a-c]*', './src/*.md', '*.md'])
        if not any(matches(job['src'], d) for d in docs):
            job['src'] = docs[0]
        job['langs'] = rng.sample(LANGS, rng.choice([1, 1, 2, 3]))
        many = sum(matches(job['src'], d) for d in docs) > 1
        job['schema'] = rand_schema(rng, many)
        for name, p in (('include_codeblocks', .2), ('debug', .05)):
            maybe(p, name, True)
        maybe(.3, 'location', False)
        for w in ('po_wrapwidth', 'md_wrapwidth'):
            maybe(.3, w, lambda: rng.choice(
                ['20', '78', '0', 'inf', '40', '-1', '120', 0, 0, 30]))
        maybe(.25, 'extensions', lambda: list(rng.choice(EXTS)))
    if job['how'] == 'text' and job['src'][:1] in ('-', ''):
        job['how'] = 'stdin'
    maybe(.3, 'command_aliases', lambda: [list(a) for a in rng.sample(
        ALIASES, rng.randint(1, 3))])
    if prog in ('md2po', 'po2md') and rng.random() < .2:
        files['ev.py'] = jobs.HANDLERS
        o['events'] = rng.sample([
            ['text', 'ev.py::nothing'], ['enter_span', 'ev.py::no_emphasis'],
            ['enter_block', 'ev.py::no_code'], ['msgid', 'ev.py::Group.few'],
            ['msgid', 'ev.py::nothing'], ['text', 'ev.py::nothing']],
            rng.randint(1, 3))
    return job


def rand_schema(rng, many):
    parts = rng.choice([
        ['locale', '{lang}'], ['{lang}'], ['out', 'v1.0', '{lang}'],
        ['i18n_{lang}'], ['locale', '{lang}', 'LC_MESSAGES'],
        ['locale', '{lang}', '{basename}'], ['out', '{basename}', '{lang}'],
        ['out', '{lang}', '{ext}'], ['out', '{lang}-x', '']])
    k = rng.random()
    if k < .35 or 'basename' in '/'.join(parts) and k < .6:
        if parts[-1] == '{basename}':
            return '/'.join(parts[:-1] + ['{basename}.{ext}'])
        return '/'.join(parts)
    last = rng.choice(['{basename}.{ext}', '{basename}', '{basename}.{ext}',
                       'x_{basename}.{ext}', '{basename}.{lang}.{ext}',
                       '{lang}.{basename}', '{basename}.po'[:-3]] +
                      ([] if many else ['all.{ext}', '{lang}.{ext}']))
    return '/'.join([p for p in parts if p] + [last])


def matches(pattern, path):
    from surface import shell_match
    if pattern == path:
        return True
    a, b = (os.path.normpath(x).split('/') for x in (pattern, path))
    return shell_match(pattern, path) and len(a) == len(b) and all(
        y[0] != '.' or x[0] == '.' for x, y in zip(a, b))


def stems_apart(docs):
    """No two documents share base name."""
    stems = [os.path.splitext(os.path.basename(d))[0] for d in docs]
    return len(set(stems)) == len(stems) and not set(stems) & set(LANGS)


def contained(src, schema, *paths, text=False):
    """Cases name only paths below the directory of the case."""
    srcs = [] if text or not src else src if isinstance(src, list) else [src]
    for p in [*srcs, schema, *paths]:
        if p.startswith('/') or '..' in p.split('/'):
            raise Invalid


def enter(root, files):
    cli.restore(root, files)
    os.chdir(root)


def show(x):
    if x is None:
        return '<no file>'
    if len(x) > 700:
        return repr(x[:700]) + '…'
    return repr(x)


def tree_diff(a, b, what=('expected', 'got')):
    """Description of the differences between two snapshots, or None."""
    for p in sorted(set(a) | set(b)):
        if p in a and p in b and a[p] == b[p]:
            continue
        miss = object()
        x, y = a.get(p, miss), b.get(p, miss)
        if x is miss or y is miss:
            return f'{p!r} is only in the {what[0] if y is miss else what[1]}'
        return f'{p!r}\n  {what[0]} {show(x)}\n  {what[1]} {show(y)}'
    return None


class ProgramCheck(Check):
    progs = ['md2po', 'po2md', 'mdpo2html', 'md2po2md']
    workers = 8

    def __init__(self):
        for p in self.progs:
            importlib.import_module(f'mdpo.{p}.__main__')

    def fixture(self, rng, heavy=False, names=PLAIN_SRC):
        while True:
            docs = rng.sample(names, rng.choice([1, 2, 2, 3]))
            if stems_apart(docs):
                break
        files = {d: rand_doc(rng, heavy=heavy) for d in docs}
        texts = [files[d] for d in docs]
        files['po/es.po'] = {'rows': rand_rows(rng, texts)}
        files['po/fr.po'] = {'rows': rand_rows(rng, texts)}
        files['old.txt'] = 'old\n'
        files['other/keep.md'] = 'Do not touch\n'
        return docs, files

    def root(self, name):
        return os.path.join(self.scratch, name)

    def valid_job(self, job, files):
        o = job['opts']
        contained(job.get('src'), job.get('schema', ''), *files, *[
            v for v in o.values() if isinstance(v, str)],
            text=job.get('how', 'file') != 'file')
        if job['prog'] not in self.progs or set(o) - set(
                jobs.OPTS[job['prog']]):
            raise Invalid
        if job.get('how', 'file') != 'file' and isinstance(
                job.get('src'), str):
            # content which is also a pattern of files of the job
            paths = [*files, *[v for v in o.values() if isinstance(v, str)]]
            if any(fnmatch.fnmatch(x, job['src'].strip())
                   for p in paths for x in (p, *p.split('/'))):
                raise Invalid('a pattern')
        for name, v in o.items():
            kind = jobs.OPTS[job['prog']][name][0]
            if kind == 'flag' and v is not True or \
                    kind == 'off' and v is not False:
                raise Invalid
            if kind == 'val' and isinstance(v, int) and \
                    not isinstance(v, bool):
                continue
            if kind in ('val', 'path', 'ids') and (
                    not isinstance(v, str) or not v):
                raise Invalid
            if kind == 'list' and not v:
                raise Invalid
            if kind in ('pairs', 'events') and (not v or any(
                    len(x) != 2 for x in v)):
                raise Invalid
            if kind == 'pairs' and len({a for a, _ in v}) != len(v):
                raise Invalid
        if not job.get('src'):
            raise Invalid
        if job['prog'] == 'md2po2md' and (
                not job.get('langs') or '{lang}' not in job['schema'] or
                set(job['langs']) - set(LANGS)):
            raise Invalid
        if job['prog'] in ('po2md', 'mdpo2html') and not job.get('pofiles'):
            raise Invalid
        for p, x in files.items():
            if isinstance(x, dict) and 'rows' in x and any(
                    len(row) != 7 or not row[1] for row in x['rows']):
                raise Invalid


# ---------------------------------------------------------------- W01, W02
EDITS = ['translate', 'doc', 'untranslate', 'none', 'swap', 'po-gone',
         'md-gone']


def edit(files, step, docs, seed):
    """Change the files between two runs."""
    import polib
    rng = random.Random(f'edit/{seed}')
    pos = sorted(p for p in files if p.endswith('.po') and files[p]
                 is not None and not p.startswith('po/'))
    if step == 'doc':
        d = rng.choice(docs)
        files[d] = (rand_doc(rng) if rng.random() < .5 else
                    files[d].decode('utf-8', 'replace') + '\n\nOne more\n'
                    ).encode()
    elif step == 'swap' and len(docs) > 1:
        a, b = rng.sample(docs, 2)
        files[a], files[b] = files[b], files[a]
    elif step == 'po-gone' and pos:
        del files[rng.choice(pos)]
    elif step == 'md-gone':
        mds = sorted(p for p in files if p.endswith('.md') and p not in docs
                     and not p.startswith('other/'))
        if mds:
            del files[rng.choice(mds)]
    elif step in ('translate', 'untranslate'):
        for p in pos:
            try:
                po = polib.pofile(files[p].decode('utf-8'))
            except (OSError, UnicodeDecodeError, ValueError):
                continue
            for e in po:
                if step == 'translate' and rng.random() < .8:
                    e.msgstr = rand_tr(rng, e.msgid)
                elif step == 'untranslate' and rng.random() < .4:
                    e.msgstr = ''
                if rng.random() < .1:
                    e.flags = ['fuzzy']
            files[p] = str(po).encode('utf-8')


# keyword arguments for the two steps of md2po2md
def _no_words(self, msgid, *args):
    return len(msgid) % 5 != 0


def _no_strong(self, span, details):
    return not span.name.startswith('STRONG')


KW = [{'plaintext': True, 'mark_not_found_as_obsolete': False,
       'preserve_not_found': False, 'ignore_msgids': ['a', 'texto', 'ñ1'],
       'xheader': True, 'metadata': {'Language': 'es'}, 'msgstr': 'Ü',
       'events': {'msgid': _no_words}, 'bold_start_string': '__',
       'code_end_string': '´'},
      {'events': {'enter_span': _no_strong}, 'ignore': ['nothing.po'],
       'bold_start_string': '__', 'bold_end_string': '__'}]


class W01(ProgramCheck):
    """Histories of md2po2md over several documents and languages, with
    documents and catalogs edited between the runs."""
    id = 'W01'
    rule = ('the directory left by md2po2md is compared with the one left by '
            'md2po followed by po2md for each language and document in other '
            'order, over histories of runs and edits of documents and '
            'catalogs; non-trivial: two or more pairs of files, or two or '
            'more runs')
    progs = ['md2po2md']
    quick_n = 6000
    thorough_n = 60000
    min_counts = {'runs': 3000, 'pairs': 8000, 'reruns': 1200,
                  'translated': 150, 'custom_options': 1500,
                  'printed': 40, 'custom_keywords': 400}

    def gen(self, rng, i, tier):
        docs, files = self.fixture(rng)
        for p in ('po/es.po', 'po/fr.po', 'old.txt'):
            del files[p]
        job = rand_job(rng, 'md2po2md', files, docs)
        o = job['opts']
        if rng.random() < .15:
            o['po_encoding'] = rng.choice(['utf-8', 'latin-1', 'utf-16'])
        if rng.random() < .15:
            o['md_encoding'] = rng.choice(['utf-8', 'latin-1', 'utf-16'])
        for d in docs:
            enc = o.get('md_encoding', 'utf-8')
            text = files[d]
            if o.get('po_encoding') == 'latin-1':
                text = jobs.encodable(text, 'latin-1')
            if enc != 'utf-8':
                files[d] = {'text': text, 'enc': enc}
            else:
                files[d] = text
        steps = ['run']
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            steps += [rng.choice(EDITS), 'run']
        if rng.random() < .2:
            # catalogs from before the first run
            for lang in job['langs']:
                for d in docs:
                    if rng.random() < .7:
                        po = jobs.outputs(job['schema'], lang, d)[0]
                        text = files[d]
                        text = text['text'] if isinstance(text, dict) \
                            else text
                        files[po] = {'rows': rand_rows(rng, [text]),
                                     'enc': 'utf-8'}
        return {'files': files, 'docs': docs, 'job': job, 'steps': steps,
                'seed': rng.randrange(1 << 30),
                'cli': rng.random() < .5,
                'kw': [rng.sample(sorted(KW[k]), rng.choice([0, 1, 1, 2]))
                       if rng.random() < .3 else [] for k in (0, 1)]}

    def judge(self, case):
        r = Result()
        job, docs = case['job'], case['docs']
        self.valid_job(job, case['files'])
        try:
            kw = [{} if case['cli'] else {n: KW[k][n] for n in case['kw'][k]}
                  for k in (0, 1)]
        except (KeyError, IndexError, TypeError):
            raise Invalid from None
        if any(d not in case['files'] for d in docs) or not docs:
            raise Invalid
        todo = [d for d in docs if matches(job['src'], d)]
        if not todo:
            raise Invalid
        for d in todo:
            for lang in job['langs']:
                contained(None, '', *jobs.outputs(job['schema'], lang, d))
        try:
            files = jobs.files_of(case['files'])
        except (UnicodeError, LookupError, KeyError, TypeError):
            raise Invalid from None
        a, b = self.root('a'), self.root('b')
        rng = random.Random(case['seed'])
        runs = 0
        for n, step in enumerate(case['steps']):
            if step != 'run':
                edit(files, step, docs, f'{case["seed"]}/{n}')
                continue
            runs += 1
            r.counts['runs'] += 1
            r.counts['reruns'] += runs > 1
            enter(a, files)
            if case['cli']:
                got, args = jobs.program(job, rng)
                exc = got.exc
                if not exc and got.code:
                    r.bad('exit-code', f'{args}: {got.summary()}')
                said = got.out
            else:
                o, said = jobs.api(dict(job, kw=kw))
                exc = o.exc
            one = cli.snapshot(a)
            enter(b, files)
            failed, says = None, ''
            pairs = [(d, lang) for d in todo for lang in job['langs']]
            rng.shuffle(pairs)
            for d, lang in pairs:
                say = io.StringIO()
                with contextlib.redirect_stdout(say):
                    failed = self.two_steps(job, d, lang, kw)
                says += say.getvalue()
                r.counts['pairs'] += 1
                if failed:
                    break
            two = cli.snapshot(b)
            os.chdir(self.scratch)
            if exc or failed:
                if not (exc and failed):
                    r.bad('error', f'md2po2md: {exc!r}, md2po and po2md: '
                          f'{failed!r}\n  {job}')
                elif len(pairs) == 1 and type(exc) is not type(failed):
                    r.bad('other-error', f'{exc!r} against {failed!r}')
                r.counts['failing'] += 1
                return r
            d = tree_diff(two, one, ('two steps', 'md2po2md'))
            if d:
                r.bad('files', f'run {runs}: {d}\n  job={job} kwargs={kw}')
                return r
            x, y = (collections.Counter(jobs.undate(t).splitlines())
                    for t in (said, says))
            if x != y:
                r.bad('printed', f'run {runs}: md2po2md {dict(x - y)}\n  '
                      f'two steps {dict(y - x)}\n  job={job}')
                return r
            r.counts['printed'] += bool(x)
            r.counts['custom_keywords'] += bool(kw[0] or kw[1])
            r.counts['translated'] += any(
                'Ü '.encode() in x for p, x in one.items()
                if x and p.endswith('.md') and p not in docs)
            files = dict(one)
            r.nontrivial = runs > 1 or len(pairs) > 1
        r.counts['custom_options'] += bool(job['opts'])
        r.info = {'job': job, 'steps': case['steps'], 'documents': todo}
        return r

    def two_steps(self, job, doc, lang, kw):
        """Runs md2po and po2md; the error, if any."""
        o = job['opts']
        po, md = jobs.outputs(job['schema'], lang, doc, os.path.isdir)
        for p in (po, md):
            os.makedirs(os.path.dirname(p) or '.', exist_ok=True)
        one = {'po_filepath': po, 'save': True}
        two = {'save': md}
        for name, (x, y) in {
                'location': ('location', None),
                'extensions': ('extensions', 'extensions'),
                'command_aliases': ('command_aliases', 'command_aliases'),
                'po_wrapwidth': ('wrapwidth', None),
                'md_wrapwidth': (None, 'wrapwidth'),
                'debug': ('debug', 'debug'),
                'include_codeblocks': ('include_codeblocks', None),
                'po_encoding': ('po_encoding', 'po_encoding'),
                'md_encoding': ('md_encoding', 'md_encoding')}.items():
            if name in o:
                v = o[name]
                if name == 'command_aliases':
                    v = dict(v)
                if x:
                    one[x] = v
                if y:
                    two[y] = v
        if job['src'].startswith('./'):
            doc = './' + doc     # this is how the glob names it
        out = call(jobs.FN['md2po'], [doc], **one, **kw[0])
        if not out:
            return out.exc
        out = call(jobs.FN['po2md'], doc, [po], **two, **kw[1])
        return out.exc


class W02(ProgramCheck):
    """Schemas of placeholders, literals, directories and existing files;
    documents with several extensions and odd names."""
    id = 'W02'
    rule = ('the files and directories which md2po2md writes (recorded by '
            'an audit hook and by snapshots of the directory) are compared '
            'with an independent reading of the schema; non-trivial: two or '
            'more files written')
    progs = ['md2po2md']
    quick_n = 32000
    thorough_n = 320000
    min_counts = {'files_named': 12000, 'folders': 1500, 'refused': 400,
                  'existing_folders': 400, 'odd_names': 1500}

    def gen(self, rng, i, tier):
        while True:
            docs = rng.sample(SRC, rng.choice([1, 1, 2, 3, 5]))
            if stems_apart(docs):
                break
        files = {d: f'Text {n}\n' for n, d in enumerate(docs)}
        files['other/keep.md'] = 'Do not touch\n'
        files['locale/readme.txt'] = 'Text to keep\n'
        src = rng.choice(docs) if rng.random() < .5 else rng.choice(
            ['src/*.md', 'src/*', 'src/[a-c]*', './src/*.md', '*/*', '*.md',
             'src/*/*.md', 'src/?.*'])
        cand = [d for d in files if matches(src, d)]
        k = rng.random()
        if k < .75:
            schema = rand_schema(rng, len(cand) > 1)
        else:
            schema = '/'.join(rng.choice(
                ['{lang}', 'x', 'a.b', '{basename}', '{lang}{basename}', '..y',
                 '{ext}', 'ñ {lang}', '{lang}.d', '{lang}_{lang}'])
                for _ in range(rng.randint(1, 3))) + rng.choice(
                    ['', '', '/', '/{basename}.{ext}'])
        langs = rng.sample(LANGS, rng.choice([1, 2, 3]))
        made = []
        if rng.random() < .3:
            for lang in langs:
                if rng.random() < .7:
                    for e in ('po', 'md'):
                        made.append(schema.replace('{lang}', lang).replace(
                            '{basename}', 'a').replace('{ext}', e)
                            .rstrip('/'))
        return {'files': files, 'docs': docs, 'src': src, 'schema': schema,
                'langs': langs, 'made': made, 'cli': rng.random() < .5,
                'seed': rng.randrange(1 << 30)}

    def judge(self, case):
        r = Result()
        schema, langs = case['schema'], case['langs']
        if re.search('[{}]', re.sub(r'\{(lang|basename|ext)\}', '', schema)):
            raise Invalid
        if not langs or not schema or set(langs) - set(LANGS) or \
                set(case['docs']) - set(SRC) or not case['src']:
            raise Invalid
        contained(case['src'], schema, *case['files'], *case['made'])
        files = jobs.files_of(case['files'])
        for m in case['made']:
            if m and m not in files:
                files[m] = None
        root = self.root('a')
        try:
            enter(root, files)
        except OSError:
            raise Invalid from None
        files = cli.snapshot(root)
        todo = [f for f in files if files[f] is not None
                and matches(case['src'], f)]
        refused = '{lang}' not in schema or not todo
        want, dirs, seen = set(), set(), {}
        for f in todo:
            for lang in langs:
                for p in jobs.outputs(schema, lang, f, lambda p: os.path
                                      .isdir(p)):
                    contained(p, '')
                    p = os.path.normpath(p)
                    if p in seen or p in files and (
                            files[p] is None or p in todo):
                        # other outcome, depends on the order of the files
                        raise Invalid
                    seen[p] = f
                    want.add(p)
                    dirs |= set(jobs.parents(p))
        if not refused and (want & dirs or dirs & {
                f for f in files if files[f] is not None}):
            raise Invalid
        job = {'prog': 'md2po2md', 'src': case['src'], 'langs': langs,
               'schema': schema, 'opts': {}}
        if case['cli']:
            got, what = jobs.program(job, random.Random(case['seed']))
            exc, code, log, err = got.exc, got.code, got.touched, got.err
        else:
            with cli.recording() as log:
                out, _ = jobs.api(job)
            exc, code, err = out.exc, 1 if out.exc else 0, str(out.exc)
            what = f'{job}'
        os.chdir(self.scratch)
        after = cli.snapshot(root)
        if refused:
            r.counts['refused'] += 1
            if not exc and not code:
                r.bad('accepted', f'{what}')
            elif exc and not isinstance(exc, (ValueError, FileNotFoundError)):
                r.bad('crash', f'{what}: {exc!r}')
            elif exc and not str(exc) or not exc and not err:
                r.bad('no-message', f'{what}')
            want, dirs = set(), set()
        elif exc or code:
            r.bad('crash', f'{what}: {exc!r} {err}\n  expected {want}')
            return r
        new = set(after) - set(files)
        changed = {f for f in files if f in after and files[f] != after[f]}
        gone = set(files) - set(after)
        made = {p for p in new if after[p] is None}
        written = (new - made) | changed
        if written != want:
            r.bad('files', f'{what}\n  expected {sorted(want)}\n'
                  f'  written {sorted(written)}')
        if made - dirs:
            r.bad('folders', f'{what}\n  expected {sorted(dirs)}\n'
                  f'  created {sorted(made)}')
        if gone:
            r.bad('deleted', f'{what}: {gone}')
        for kind, p in cli.writes(log):
            ok = kind == 'write' and norm_at(root, p) in want or \
                kind == 'os.mkdir' and norm_at(root, p) in dirs | {'.'} | {
                    x for x in files if files[x] is None}
            if not ok:
                r.bad('effect', f'{what}: {kind} {p}')
        for p in want & set(after):
            text = case['files'].get(seen[p])
            if after[p] is None:
                r.bad('files', f'{what}: {p} is a directory')
            elif text and text.strip().encode() not in after[p]:
                r.bad('content', f'{what}: {p} has not the text of '
                      f'{seen[p]}: {after[p]!r}')
        r.counts['files_named'] += len(want)
        r.counts['folders'] += bool(made)
        r.counts['existing_folders'] += bool(case['made'])
        r.counts['odd_names'] += bool(set(todo) - set(PLAIN_SRC))
        r.nontrivial = len(want) > 1
        r.info = {'arguments': what, 'files': sorted(want)}
        return r


def norm_at(root, p):
    p = os.path.normpath(os.path.join(root, p))
    return os.path.relpath(p, root)



# -------------------------------------------------------------------- W03
TOUCH = ['newline', 'byte', 'crlf', 'gone', 'empty', 'cut', 'same', 'bom']


def touch(files, path, how):
    """Change an output file in some way."""
    data = files.get(path)
    if data is None:
        return
    if how == 'gone':
        del files[path]
    elif how == 'newline':
        files[path] = data + b'\n'
    elif how == 'byte' and data:
        i = max(data.rfind(b'a'), data.rfind(b'e'))
        files[path] = data[:i] + b'o' + data[i + 1:] if i >= 0 else b'q'
    elif how == 'crlf':
        files[path] = data.replace(b'\n', b'\r\n')
    elif how == 'empty':
        files[path] = b''
    elif how == 'cut':
        files[path] = data[:-1]
    elif how == 'bom':
        files[path] = b'\xef\xbb\xbf' + data


class W03(ProgramCheck):
    """Runs in check mode over files never written, up to date, touched, or
    whose sources changed."""
    id = 'W03'
    rule = ('each run with --check is repeated from the same files without '
            'it, and immediately after; the code is compared with the change '
            'of bytes of the saved files; non-trivial: something is saved')
    quick_n = 9000
    thorough_n = 90000
    min_counts = {'changed': 1500, 'unchanged': 800, 'touched_only': 250,
                  'saved_over': 500,
                  'mo_saved': 200, 'prog_md2po': 500, 'prog_po2md': 500,
                  'prog_mdpo2html': 500, 'prog_md2po2md': 500}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        docs, files = self.fixture(rng)
        job = rand_job(rng, prog, files, docs, content=rng.random() < .3)
        o = job['opts']
        if rng.random() < .9:
            if prog == 'md2po':
                o.setdefault('po_filepath', rng.choice(
                    ['po/es.po', 'out.po', 'po/new.po']))
                o['save'] = True
                if rng.random() < .3:
                    o['mo_filepath'] = 'out.mo'
            elif prog != 'md2po2md':
                o.setdefault('save', rng.choice(['out.txt', 'old.txt']))
        for name, k in (('po_encoding', .1), ('md_encoding', .1),
                        ('html_encoding', .1)):
            if name in jobs.OPTS[prog] and rng.random() < k:
                o[name] = rng.choice(['utf-8', 'latin-1', 'utf-16', 'ascii'])
        enc = o.get('md_encoding', o.get('html_encoding'))
        for p in list(files):
            if isinstance(files[p], str) and enc and p[-3:] != '.py':
                text = files[p]
                files[p] = {'text': text if not o.get('po_encoding') else
                            jobs.encodable(text, 'ascii'), 'enc': enc}
            elif isinstance(files[p], dict) and o.get('po_encoding'):
                files[p]['enc'] = o['po_encoding']
        job['quiet'] = rng.random() < .6
        k = rng.random()
        steps = []
        if k > .25:
            steps.append(['run'])
        if k > .45:
            steps.append(['touch', rng.randrange(6), rng.choice(TOUCH)])
        if k > .8:
            steps.append(['doc', rng.randrange(6)])
        return {'files': files, 'docs': docs, 'job': job, 'steps': steps,
                'seed': rng.randrange(1 << 30)}

    def judge(self, case):
        r = Result()
        job, docs = dict(case['job']), case['docs']
        job['check'] = False
        try:
            files = jobs.files_of(case['files'])
        except (UnicodeError, LookupError, KeyError, TypeError, ValueError):
            raise Invalid from None
        self.valid_job(job, case['files'])
        rng = random.Random(case['seed'])
        root = self.root('a')
        before = dict(files)
        enter(root, files)
        files = cli.snapshot(root)
        only_touched = False
        for step in case['steps']:
            want, _ = jobs.targets(job, files)
            if step[0] == 'run':
                enter(root, files)
                jobs.program(job, rng)
                files = cli.snapshot(root)
            elif step[0] == 'touch':
                t = sorted(want)
                if t:
                    touch(files, t[step[1] % len(t)], step[2])
                    only_touched = True
            elif docs:
                d = docs[step[1] % len(docs)]
                if d in before:
                    files[d] = before[d] + '\n\nNew text\n'.encode(
                        job['opts'].get('md_encoding', 'utf-8').replace(
                            'utf-16', 'utf-16-le'))
                only_touched = False
        want, _ = jobs.targets(job, files)
        enter(root, files)
        plain, args = jobs.program(job, rng)
        without = cli.snapshot(root)
        # what they had is not part of what is saved
        if job['prog'] in ('po2md', 'mdpo2html') and not plain.exc and \
                not plain.code and want & set(files):
            fresh = {p: files[p] for p in files if p not in want}
            enter(root, fresh)
            first, _ = jobs.program(job, rng)
            if not first.exc and not first.code:
                r.counts['saved_over'] += 1
                d = tree_diff(cli.snapshot(root), without,
                              ('saved to a new file', 'to an existing one'))
                if d:
                    r.bad('old-bytes', f'{args}: {d}')
        job['check'] = True
        enter(root, files)
        got, args = jobs.program(job, rng)
        with_ = cli.snapshot(root)
        again, _ = jobs.program(job, rng)
        third = cli.snapshot(root)
        os.chdir(self.scratch)
        if plain.exc or plain.code:
            r.counts['failing'] += 1
            if not got.exc and not got.code:
                r.bad('error', f'{args}: {plain.summary()} without --check, '
                      f'{got.summary()} with it')
            return r
        if got.exc:
            r.bad('crash', f'{args}: {got.summary()}\n{got.trace}')
            return r
        d = tree_diff(without, with_, ('without --check', 'with it'))
        if d:
            r.bad('other-bytes', f'{args}: {d}')
        if jobs.undate(got.out) != jobs.undate(plain.out):
            r.bad('printed', f'{args}: {show_any(plain.out)} without '
                  f'--check, {show_any(got.out)} with it')
        r.counts['printed'] += bool(got.out)
        changed = sorted(p for p in set(files) | set(with_)
                         if files.get(p) != with_.get(p)
                         or (p in files) != (p in with_))
        changed = [p for p in changed if with_.get(p) is not None]
        code = 2 if changed else 0
        if got.code != code:
            r.bad('code', f'{args}: exit code {got.code}, changed files '
                  f'{changed}\n  steps={case["steps"]}')
        if set(changed) - want:
            r.bad('not-asked', f'{args}: changed {changed}')
        if again.exc or again.code != 0:
            r.bad('rerun', f'{args}: {again.summary()} running again\n  '
                  f'{tree_diff(with_, third, ("first", "second"))}')
        elif third != with_:
            r.bad('rerun-bytes', f'{args}: '
                  f'{tree_diff(with_, third, ("first run", "second"))}')
        r.counts['changed' if changed else 'unchanged'] += 1
        r.counts['touched_only'] += bool(only_touched and changed)
        r.counts['mo_saved'] += 'mo_filepath' in job['opts']
        r.counts['prog_' + job['prog']] += 1
        r.nontrivial = bool(want)
        r.info = {'arguments': args, 'steps': case['steps'],
                  'changed': changed}
        return r


# -------------------------------------------------------------------- W04
PHRASES = ['fuzzy', '#, fuzzy', '#~ msgid "x"', '#~', 'msgstr ""',
           'msgid ""\nmsgstr ""', '"', '\\', 'obsolete', 'a\nb', '\n',
           'text', 'more text', 'ñandú', '#', '"\n"', 'msgstr "',
           '#~ msgstr ""', 'line\n\n#~ x', 'x\n#, fuzzy\ny', ' ', '%s',
           'tab\there', 'trail \\"', '\n#~ a\n', 'nel\x85x', 'u\u2028x',
           'f\x0cx v\x0bx', 's\x1cx']


def po_layout(entries, lay):
    """A PO text with the layout of some tool, and nothing of mdpo.

    Entries: [ctxt, msgid, msgstr, flags, obsolete, notes, wrap]."""
    out = list(lay['header'])
    if out:
        out.append('')
    for ctxt, msgid, msgstr, flags, obsolete, notes, wrap in entries:
        pre = '#~ ' if obsolete else ''
        for kind, text in notes:
            if obsolete and kind == '#|':
                kind = '#~|'
            out.append(f'{kind} {text}'.rstrip())
        if flags:
            out.append('#,' + lay['flagsep'] + ', '.join(flags))
        for name, text in (('msgctxt', ctxt), ('msgid', msgid),
                           ('msgstr', msgstr)):
            if text is not None:
                out += wrapped(name, text, pre, wrap)
        if not lay['dense']:
            out.append('')
    end = '\n' if lay['end'] else ''
    return ('\n'.join(out).rstrip('\n') + end).replace(
        '\n', '\r\n' if lay['crlf'] else '\n')


def wrapped(name, text, pre, wrap):
    if wrap == 0 or not text:
        return [f'{pre}{name} {jobs.quote(text)}']
    if wrap == 1:      # at line breaks, as gettext does
        parts = re.findall(r'[^\n]*\n|[^\n]+', text)
    else:
        parts = re.findall(r'(?s).{1,%d}' % wrap, text)
    if len(parts) == 1 and wrap == 1:
        return [f'{pre}{name} {jobs.quote(text)}']
    return [f'{pre}{name} ""'] + [pre + jobs.quote(p) for p in parts]


HEADER = ['msgid ""', 'msgstr ""', '"Content-Type: text/plain; '
          'charset=UTF-8\\n"']
HEADERS = [HEADER, ['#'] + HEADER, ['# fuzzy', '# a note', '#'] + HEADER,
           HEADER + ['"X-Fuzzy: fuzzy\\n"', '"Language: es\\n"'],
           ['# Title', '#', '# #~ msgid "x"'] + HEADER,
           ['msgid ""', 'msgstr "Content-Type: text/plain; '
            'charset=UTF-8\\n"'], ['', ''] + HEADER, [], ['# a note', '']]


def rand_layout(rng):
    return {'header': rng.choice(HEADERS), 'flagsep': ' ',
            'dense': rng.random() < .15, 'end': rng.random() < .8,
            'crlf': rng.random() < .15}


def rand_entries(rng, keys, clean=False):
    out = []
    for c, m in keys:
        notes = []
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                notes.append([rng.choice(['#', '#.', '#:', '#|']),
                              rng.choice(['fuzzy', 'a note', 'x.md:1', '',
                                          'msgstr ""', '#~ msgid "x"',
                                          'obsolete'])])
        notes = [[k, 'msgid "old"'] if k == '#|' else
                 [k, 'x.md:block 1'] if k == '#:' else [k, t]
                 for k, t in notes]
        notes.sort(key=lambda n: ['#', '#.', '#:', '#|'].index(n[0]))
        flags = []
        if not clean and rng.random() < .25:
            flags = rng.choice([['fuzzy'], ['fuzzy'], ['fuzzy', 'c-format'],
                                ['c-format', 'fuzzy']])
        elif rng.random() < .1:
            flags = ['c-format']
        tr = '' if not clean and rng.random() < .3 else rng.choice(
            PHRASES + ['tr', 'Tr ' + m])
        out.append([c, m, tr, flags, not clean and rng.random() < .25,
                    notes, rng.choice([0, 0, 1, 1, 4])])
    # the flags go after the other comments except for the previous texts
    return [e[:5] + [[n for n in e[5] if n[0] != '#|' or not e[3]]] + e[6:]
            for e in out]


def problems(path, text):
    """{gate: [(path, lines of the entry)]} of the entries which trip it."""
    import poread
    out = {g: [] for g in jobs.GATES}
    _, rows = poread.header_of(poread.parse_po(text))
    for e in rows:
        def where(*heads):
            return path, {no for no, x in e.lines if x.startswith(heads)}
        if e.obsolete:
            first = '#~ msgid ' if e.msgctxt is None else '#~ msgctxt '
            out['no_obsolete'].append(where(first))
        if 'fuzzy' in e.flags:
            out['no_fuzzy'].append(where('#,'))
        if e.msgstr == '':
            out['no_empty_msgstr'].append(where('msgstr ', '#~ msgstr '))
    return out


SAID = {'no_obsolete': ('obsolete entry', 'obsolete entries'),
        'no_fuzzy': ('fuzzy entry', 'fuzzy entries'),
        'no_empty_msgstr': ('empty msgstr', 'empty msgstrs')}


def reported(err):
    """{gate: [(path, line)]} from the messages of a program."""
    out = {g: [] for g in SAID}
    cur = None
    for ln in err.split('\n'):
        for g, (one, many) in SAID.items():
            if re.fullmatch(rf'Found \d+ {many}:', ln):
                cur = g
                break
            m = re.fullmatch(rf'Found {one} at (.*):(\d+)', ln)
            if m:
                out[g].append((m[1], int(m[2])))
                break
        else:
            m = re.fullmatch(r'(.*):(\d+)', ln)
            if m and cur:
                out[cur].append((m[1], int(m[2])))
            elif ln:
                out.setdefault('other', []).append(ln)
    return out


class W04(ProgramCheck):
    """Catalogs of hostile texts, comments, flags, layouts and line ends
    through the gates of the four programs."""
    id = 'W04'
    rule = ('PO files in the layouts of several tools, whose texts and '
            'comments look like flags, obsolete and empty entries, through '
            'every subset of gates of every program; an independent reader '
            'finds the entries after the run; non-trivial: some gate has to '
            'be tripped')
    quick_n = 34000
    thorough_n = 340000
    min_counts = {'tripped_no_obsolete': 1500, 'tripped_no_fuzzy': 1500,
                  'tripped_no_empty_msgstr': 1500, 'clean': 800,
                  'ignored': 300, 'prog_md2po': 1500, 'prog_po2md': 1500,
                  'prog_mdpo2html': 1500, 'prog_md2po2md': 1500}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        clean = rng.random() < .25
        texts = rng.sample([p for p in PHRASES if p.strip() and '\n' not in
                            p], rng.randint(1, 5))
        docs = [re.sub(r'([\\#"~*_<>`-])', r'\\\1', t) for t in texts]
        pos = {}
        for name in rng.sample(['po/es.po', 'po/fr.po', 'po/x y.po',
                                'po/a:1.po'], rng.choice([1, 1, 2, 3])):
            keys = [(None, t) for t in texts if clean or rng.random() < .9]
            if not clean or prog in ('po2md', 'mdpo2html'):
                keys += [(rng.choice([None, None, 'c', 'fuzzy']), p)
                         for p in rng.sample(PHRASES, rng.randint(0, 5))]
            keys = list(dict.fromkeys(keys))
            rng.shuffle(keys)
            es = rand_entries(rng, keys, clean)
            if rng.random() < .8:
                es.sort(key=lambda e: e[4])
            pos[name] = [rand_layout(rng), es]
        gates = [g for g in jobs.GATES if rng.random() < .7] or \
            [rng.choice(list(jobs.GATES))]
        ignored = []
        if prog in ('po2md', 'mdpo2html') and rng.random() < .4:
            ignored = [n for n in pos if rng.random() < .5]
        return {'prog': prog, 'docs': docs, 'pos': pos, 'gates': gates,
                'ignored': ignored,
                'check': rng.random() < .2, 'save': rng.random() < .6,
                'enc': rng.choice(['utf-16', 'utf-8', 'utf-32', 'latin-1'])
                if rng.random() < .2 else None,
                'seed': rng.randrange(1 << 30)}

    def judge(self, case):
        r = Result()
        prog, pos, enc = case['prog'], case['pos'], case.get('enc')
        if prog not in self.progs or not case['docs'] or not pos or \
                not all(case['docs']):
            raise Invalid
        contained(None, '', *pos)
        files = {'doc.md': ('\n\n'.join(case['docs']) + '\n').encode(),
                 'page.html': ''.join(f'<p>{d}</p>\n' for d in
                                      case['docs']).encode()}
        try:
            for name, (lay, es) in pos.items():
                if lay['header'] not in HEADERS or len({
                        (e[0], e[1]) for e in es}) != len(es) or any(
                        not e[1] or len(e) != 7 or e[0] == '' or any(
                            n[0] not in ('#', '#.', '#:', '#|')
                            for n in e[5]) for e in es):
                    raise Invalid
                files[name] = po_layout(es, lay).encode(enc or 'utf-8')
            ''.join(case['docs']).encode(enc or 'utf-8')
        except (KeyError, TypeError, IndexError, ValueError):
            raise Invalid from None
        import polib
        rng = random.Random(case['seed'])
        root = self.root('a')
        enter(root, files)
        for name in pos:
            # the catalogs are well formed for the library
            out = call(polib.pofile, name, encoding=enc)
            if not out:
                os.chdir(self.scratch)
                raise Invalid
        names = sorted(pos)
        o = {}
        job = {'prog': prog, 'src': 'doc.md', 'opts': o,
               'gates': case['gates'], 'check': case['check']}
        if enc:
            o['po_encoding'] = enc
            r.counts['encoded'] += 1
        if prog == 'md2po':
            o['po_filepath'] = names[0]
            if case['save']:
                o['save'] = True
        elif prog in ('po2md', 'mdpo2html'):
            job['pofiles'] = ['po/*.po']
            if prog == 'mdpo2html':
                job['src'] = 'page.html'
            if case['save']:
                o['save'] = 'out.txt'
            if set(case['ignored']) - set(names):
                raise Invalid
            if case['ignored']:
                o['ignore'] = case['ignored']
        else:
            job['langs'] = [n[3:-3] for n in names]
            job['schema'] = 'po/{lang}.{ext}'
        got, args = jobs.program(job, rng)
        after = cli.snapshot(root)
        os.chdir(self.scratch)
        if got.exc:
            r.bad('crash', f'{args}: {got.summary()}\n{got.trace}')
            return r
        want = {g: [] for g in jobs.GATES}
        if prog == 'md2po':
            names = names[:1]
        elif 'ignore' in o:
            names = [n for n in names if n not in o['ignore']]
            r.counts['ignored'] += 1
        for n in names:
            try:
                found = problems(n, after[n].decode(enc or 'utf-8').replace('\r\n', '\n'))
            except ValueError as e:
                r.bad('harness', f'{e}')
                return r
            for g in case['gates']:
                want[g] += found[g]
        said = reported(got.err)
        what = f'{args}\n  files={ {n: after[n] for n in names} }'
        for g in jobs.GATES:
            if g in case['gates'] and want[g]:
                r.counts['tripped_' + g] += 1
            left = list(want[g])
            for loc in said[g]:
                hit = [w for w in left if w[0] == loc[0] and loc[1] in w[1]]
                if not hit:
                    r.bad('location', f'{g}: {loc} is not one of the '
                          f'{len(want[g])} entries to report\n  {what}')
                    break
                left.remove(hit[0])
            else:
                if left:
                    r.bad('missing', f'{g}: not reported {left}\n  '
                          f'{got.err!r}\n  {what}')
        if 'other' in said:
            r.bad('message', f'{said["other"]}: {what}')
        changed = any(files.get(p) != x for p, x in after.items()
                      if x is not None)
        code = 2 if case['check'] and changed else 0
        for g, c in (('no_obsolete', 3), ('no_fuzzy', 4),
                     ('no_empty_msgstr', 5)):
            if want[g]:
                code = c
        if got.code != code:
            r.bad('code', f'exit code {got.code}, expected {code}: {what}')
        r.counts['prog_' + prog] += 1
        r.counts['clean'] += not any(want.values())
        r.nontrivial = any(want.values())
        r.info = {'arguments': args, 'stderr': got.err}
        return r



# -------------------------------------------------------------------- W05
BAD_ARGS = {
    'md2po': [['--command-alias', 'x'], ['--command-alias', ''],
              ['--command-alias=a:enable', '--command-alias=a:disable'],
              ['--command-alias=a:nope'], ['-d', 'novalue'],
              ['-d', 'K: v', '-d', 'K: w'], ['-e', 'text'], ['-e', ''],
              ['-e', 'text: gone.py::f'], ['-e', 'text: ev.py'],
              ['-e', 'text: ev.py::gone'], ['-e', 'text: ev.py::Group.gone'],
              ['-w', 'wide'], ['-w', ''], ['-w', '1e'], ['-s'],
              ['-x', 'nope'], ['--ignore-msgids', 'gone.txt']],
    'po2md': [['--command-alias', 'x'], ['--command-alias', ''],
              ['--command-alias=a:enable', '--command-alias=a:disable'],
              ['--command-alias=a:nope'], ['-e', 'text'], ['-e', ''],
              ['-e', 'text: gone.py::f'], ['-e', 'text: ev.py'],
              ['-e', 'text: ev.py::gone'], ['-w', 'wide'], ['-w', '']],
    'mdpo2html': [['--command-alias', 'x'], ['--command-alias', ''],
                  ['--command-alias=a:enable', '--command-alias=a:disable'],
                  ['--command-alias=a:nope']],
    'md2po2md': [['--command-alias', 'x'], ['--command-alias', ''],
                 ['--command-alias=a:enable', '--command-alias=a:disable'],
                 ['--command-alias=a:nope'], ['--po-wrapwidth', 'wide'],
                 ['--md-wrapwidth', 'wide'], ['-x', 'nope']],
}
EMPTY = [None, '', '\n', '\n\n\n']
# what each program can't do without
NEEDED = {'md2po': [], 'po2md': ['pofiles'], 'mdpo2html': ['pofiles'],
          'md2po2md': ['langs', 'schema']}


class W05(ProgramCheck):
    """Argument lists of every option in several spellings and orders."""
    id = 'W05'
    rule = ('the same job through the program (options spelled, joined and '
            'ordered in several ways) and through the API in two copies of a '
            'directory: standard output, exit code and files; the same '
            'content given as file, argument and standard input; missing '
            'input and malformed arguments; non-trivial: three or more '
            'options or arguments')
    quick_n = 13000
    thorough_n = 130000
    min_counts = {'compared': 3000, 'ways': 400, 'refused': 400,
                  'quiet': 400, 'saved': 800, 'help': 40, 'prog_md2po': 700,
                  'prog_po2md': 700, 'prog_mdpo2html': 700,
                  'prog_md2po2md': 700}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        docs, files = self.fixture(rng)
        k = rng.random()
        kind = 'same' if k < .75 else 'ways' if k < .87 else 'bad'
        job = rand_job(rng, prog, files, docs, content=kind == 'same')
        o = job['opts']
        case = {'kind': kind, 'files': files, 'docs': docs, 'job': job,
                'seed': rng.randrange(1 << 30)}
        if kind == 'ways':
            if prog == 'md2po':
                o['location'] = False
                o.pop('ignore', None)
                job['src'] = rng.choice(docs)
            else:
                o.pop('save', None)
            o.pop('debug', None)
        elif kind == 'bad':
            files['ev.py'] = jobs.HANDLERS
            o.pop('command_aliases', None)
            o.pop('metadata', None)
            k = rng.random()
            if k < .12:
                case['help'] = rng.choice(['-h', '--help'])
            elif k < .3:
                case['bad'] = None
                case['stdin'] = rng.choice(EMPTY)
            elif k < .42 and NEEDED[prog]:
                case['without'] = rng.choice(NEEDED[prog])
            else:
                case['bad'] = rng.choice(BAD_ARGS[prog])
                for name, flag in (('wrapwidth', '-w'), ('events', '-e'),
                                   ('po_wrapwidth', '--po-wrapwidth'),
                                   ('md_wrapwidth', '--md-wrapwidth'),
                                   ('ignore_msgids', '--ignore-msgids')):
                    if flag in case['bad']:
                        o.pop(name, None)
                if case['bad'] == ['-s']:
                    for name in ('po_filepath', 'save'):
                        o.pop(name, None)
        else:
            if rng.random() < .3:
                job['quiet'] = True
                o.pop('debug', None)
            if rng.random() < .15:
                name = 'md_encoding' if prog != 'mdpo2html' else \
                    'html_encoding'
                o[name] = rng.choice(['utf-8', 'latin-1', 'utf-16', 'bad'])
                for p in docs + ['page.html']:
                    if isinstance(files.get(p), str) and o[name] != 'bad' \
                            and rng.random() < .9:
                        files[p] = {'text': files[p], 'enc': o[name]}
            if rng.random() < .15:
                o['po_encoding'] = rng.choice(['utf-8', 'latin-1', 'utf-16'])
                for p in files:
                    if p.startswith('po/') and rng.random() < .9:
                        files[p]['enc'] = o['po_encoding']
        return case

    def judge(self, case):
        r = Result()
        job = case['job']
        try:
            files = jobs.files_of(case['files'])
        except (UnicodeError, LookupError, KeyError, TypeError, ValueError):
            raise Invalid from None
        self.valid_job(job, case['files'])
        rng = random.Random(case['seed'])
        prog = job['prog']
        if job.get('how', 'file') != 'file':
            self.not_a_path(job['src'], job['how'], files)
        r.counts['prog_' + prog] += 1
        getattr(self, 'judge_' + case['kind'])(r, case, job, files, rng)
        os.chdir(self.scratch)
        return r

    def not_a_path(self, text, how, files):
        """Texts which are neither options nor names of files."""
        if not text.strip('\n') or how == 'text' and text[0] == '-' or \
                text.startswith('/') or '..' in text.split('/'):
            raise Invalid
        if any(matches(text.strip('\n'), f) for f in files):
            raise Invalid

    def judge_same(self, r, case, job, files, rng):
        a, b = self.root('a'), self.root('b')
        if job['how'] == 'stdin':
            as_api = dict(job, src=job['src'].strip('\n'))
        else:
            as_api = job
        enter(a, files)
        out, said = jobs.api(as_api)
        one = cli.snapshot(a)
        enter(b, files)
        got, args = jobs.program(job, rng)
        two = cli.snapshot(b)
        what = f'{job["prog"]} {args}'
        r.counts['compared'] += 1
        d = tree_diff(one, two, ('API', 'program'))
        if d:
            r.bad('files', f'{what}: {d}\n  job={job}')
        r.counts['saved'] += files_only(one) != files_only(files)
        if not out:
            r.counts['failing'] += 1
            if not got.exc and not (got.code == 1 and got.err):
                r.bad('no-error', f'{what}: {got.summary()}, the API raises '
                      f'{out.err()}')
            elif got.exc and type(got.exc) is not type(out.exc):
                r.bad('other-error', f'{what}: {got.exc!r}, the API raises '
                      f'{out.err()}')
            return
        if got.exc or got.code != 0:
            r.bad('error', f'{what}: {got.summary()}\n{got.trace}')
            return
        want = jobs.undate(jobs.printed(job, out, said))
        if jobs.undate(got.out) != want:
            r.bad('output', f'{what}: expected {want[:1500]!r}\n'
                  f'  printed {got.out[:1500]!r}')
        if job.get('quiet'):
            r.counts['quiet'] += 1
            if got.out:
                r.bad('not-quiet', f'{what}: {got.out[:500]!r}')
        r.nontrivial = len(args) > 3
        r.info = {'arguments': args, 'printed': got.out[:300]}

    def judge_ways(self, r, case, job, files, rng):
        src = job['src']
        paths = job['prog'] == 'md2po2md'
        if not isinstance(src, str) or job['how'] != 'file' or \
                not paths and src not in files:
            raise Invalid
        if paths:       # the paths are what can be piped
            text = src + '\n' * rng.randint(0, 2)
        else:
            text = files[src].decode()
            self.not_a_path(text, 'text' if text[:1] != '-' else 'stdin',
                            files)
        a = self.root('a')
        outs = {}
        for how in ('file', 'stdin', 'text'):
            if how == 'text' and (paths or text[0] == '-'):
                continue
            enter(a, files)
            j = dict(job, how=how, src=src if how == 'file' else text)
            got, args = jobs.program(j, rng)
            outs[how] = (got.code, repr(got.exc) if got.exc else got.out,
                         cli.snapshot(a), args)
            r.counts['ways'] += 1
        base = outs.pop('file')
        for how, x in outs.items():
            if x[:2] != base[:2] and x[1].split() != base[1].split():
                r.bad('way', f'{how} {x[3]}: {x[:2]}\n  as a file '
                      f'{base[3]}: {base[:2]}')
            elif x[2] != base[2]:
                r.bad('way-files', f'{how} {x[3]}: '
                      f'{tree_diff(base[2], x[2], ("file", how))}')
        r.nontrivial = True

    def judge_bad(self, r, case, job, files, rng):
        a = self.root('a')
        enter(a, files)
        if case.get('help'):
            if case['help'] not in ('-h', '--help') or job['how'] != 'file':
                raise Invalid
            args = jobs.argv(job, rng)
            args.insert(rng.randint(0, len(args)), case['help'])
            got = cli.run(job['prog'], args)
        elif case.get('without'):
            gone = case['without']
            if gone not in NEEDED[job['prog']] or job['how'] != 'file':
                raise Invalid
            job = dict(job, opts={})
            if gone == 'schema':
                args = [job['src'], '-l', *job['langs']]
            elif gone == 'langs':
                args = [job['src'], '-o', job['schema']]
            else:
                args = [job['src'], '-s', 'old.txt']
            got = cli.run(job['prog'], args)
        elif case.get('bad') is None:
            how = case['stdin']
            if how not in EMPTY:
                raise Invalid
            job = dict(job, how='stdin', src=how)
            args = jobs.argv(job, rng)
            got = cli.run(job['prog'], args, how)
        else:
            if case['bad'] not in BAD_ARGS[job['prog']] or \
                    files.get('ev.py') != jobs.HANDLERS.encode():
                raise Invalid
            if {'metadata', 'command_aliases'} & set(job['opts']) or \
                    case['bad'] == ['-s'] and 'po_filepath' in job['opts']:
                raise Invalid
            args = jobs.argv(job, rng)
            src = job['src'] if isinstance(job['src'], list) \
                else [job['src']]
            i = len(src) if args[:len(src)] == src and \
                job['how'] != 'stdin' else 0
            args = args[:i] + case['bad'] + args[i:]
            got = cli.run(job['prog'], args,
                          job['src'] if job['how'] == 'stdin' else None)
        what = f'{job["prog"]} {args}'
        r.counts['refused'] += 1
        if case.get('help'):
            r.counts['help'] += 1
            flags = [f for _, fs in jobs.OPTS[job['prog']].values()
                     for f in fs if len(f) > 2]
            if got.exc or not any(f in got.out for f in flags) or \
                    'usage' not in got.out.lower():
                r.bad('no-help', f'{what}: {got.summary()}')
        elif got.exc:
            if isinstance(got.exc, (TypeError, KeyError, AttributeError,
                                    IndexError, UnboundLocalError)) and \
                    case['bad'] != ['-x', 'nope']:
                r.bad('crash', f'{what}: {got.summary()}\n{got.trace}')
            elif not str(got.exc):
                r.bad('no-message', f'{what}: {got.summary()}')
        elif got.code != (2 if case.get('without') else 1):
            r.bad('accepted', f'{what}: {got.summary()}')
        elif not got.err.strip():
            r.bad('no-message', f'{what}: {got.summary()}')
        d = tree_diff(files_only(files), files_only(cli.snapshot(a)),
                      ('before', 'after'))
        if d or [w for w in cli.writes(got.touched) if w[0] != 'os.mkdir']:
            r.bad('written', f'{what}: {d} {cli.writes(got.touched)}')
        r.nontrivial = True
        r.info = {'arguments': args, 'stderr': got.err or repr(got.exc)}


def files_only(files):
    return {p: x for p, x in files.items() if x is not None}


# -------------------------------------------------------------------- W06
FAULTS = ['po-syntax', 'po-bytes', 'src-bytes', 'extension', 'handler',
          'command', 'target-folder', 'event-file', 'width', 'alias',
          'src-encoding', 'po-encoding', 'target-is-folder', 'schema', 'none',
          'none', 'none', 'none']
AFTER_SAVE = {'target-folder', 'target-is-folder'}


class W06(ProgramCheck):
    """Jobs with and without faults in their inputs, options and targets,
    through the API and the programs."""
    id = 'W06'
    rule = ('the file system effects of a run (audit hook and snapshots) '
            'are compared with the targets named by its arguments, for '
            'succeeding runs and for runs with a fault injected in their '
            'inputs, handlers, options or targets; non-trivial: a target is '
            'named or the run failed')
    quick_n = 20000
    thorough_n = 200000
    min_counts = {'failed': 1000, 'failed_with_target': 500,
                  'no_target': 800, 'written': 2000, 'inputs': 10000}

    def gen(self, rng, i, tier):
        prog = self.progs[i // 8 % 4]
        docs, files = self.fixture(rng)
        job = rand_job(rng, prog, files, docs, content=rng.random() < .4)
        fault = rng.choice(FAULTS)
        o = job['opts']
        used = job['src'] if isinstance(job['src'], str) and \
            job['src'] in files else None
        if prog == 'md2po' and rng.random() < .5:
            o['po_filepath'] = rng.choice(['po/es.po', 'out.po'])
            o['save'] = True
        elif prog in ('po2md', 'mdpo2html') and rng.random() < .5:
            o['save'] = 'old.txt'
        if fault == 'po-syntax':
            files['po/es.po'] = 'msgid "a\nmsgstr\n'
        elif fault == 'po-bytes':
            files['po/es.po'] = {'rows': [], 'raw': '\nmsgid "\xff\xfe"\n'
                                                    'msgstr "\xff"\n'}
        elif fault == 'src-bytes' and used:
            files[used] = {'text': files[used], 'raw': 'x \xff\xfe\xfa'}
        elif fault == 'extension' and prog in ('md2po', 'md2po2md'):
            o['extensions'] = ['tables', 'nope']
        elif fault == 'handler' and prog in ('md2po', 'po2md'):
            files['ev.py'] = jobs.HANDLERS
            o['events'] = [[rng.choice(['text', 'leave_block', 'msgid']),
                            'ev.py::boom']]
        elif fault == 'event-file' and prog in ('md2po', 'po2md'):
            o['events'] = [['text', rng.choice(['gone.py::f', 'ev.py'])]]
        elif fault == 'command' and used:
            files[used] += '\n\n<!-- mdpo-context -->\n\nx\n'
        elif fault == 'width' and prog != 'mdpo2html':
            o[rng.choice(['po_wrapwidth', 'md_wrapwidth'])
              if prog == 'md2po2md' else 'wrapwidth'] = 'x'
        elif fault == 'alias':
            o['command_aliases'] = [['a', 'nope']]
        elif fault == 'src-encoding':
            o['html_encoding' if prog == 'mdpo2html' else 'md_encoding'] = \
                rng.choice(['nope', 'ascii', 'utf-16'])
        elif fault == 'po-encoding':
            o['po_encoding'] = rng.choice(['nope', 'ascii', 'utf-16'])
        elif fault in ('target-folder', 'target-is-folder'):
            t = 'gone/x.out' if fault == 'target-folder' else 'other'
            if prog == 'md2po':
                if rng.random() < .5:
                    o['mo_filepath'] = t
                else:
                    o['po_filepath'], o['save'] = t, True
            elif prog != 'md2po2md':
                o['save'] = t
            else:
                files['locale'] = 'a file\n'
                job['schema'] = 'locale/{lang}/{basename}.{ext}'
        if rng.random() < .2:
            job['check'] = True
        if rng.random() < .2:
            job['gates'] = rng.sample(list(jobs.GATES), 2)
        return {'files': files, 'docs': docs, 'job': job, 'fault': fault,
                'schema': rng.choice(['out/lang/{basename}.{ext}', 'lang',
                                      'out/{basename}', 'locale'])
                if fault == 'schema' and prog == 'md2po2md' else None,
                'api': rng.random() < .4, 'seed': rng.randrange(1 << 30)}

    def judge(self, case):
        r = Result()
        job = case['job']
        try:
            files = jobs.files_of(case['files'])
        except (UnicodeError, LookupError, KeyError, TypeError, ValueError):
            raise Invalid from None
        self.valid_job(job, case['files'])
        no_lang = case.get('schema') and job['prog'] == 'md2po2md'
        if no_lang:     # languages which nothing tells apart
            contained(None, case['schema'])
            if '{lang}' in case['schema']:
                raise Invalid
            job = dict(job, schema=case['schema'])
        how = job.get('how', 'file')
        if how != 'file' and (how == 'text' and job['src'][:1] in '-' or
                              job['src'].startswith('/')):
            raise Invalid
        rng = random.Random(case['seed'])
        root = self.root('a')
        enter(root, files)
        files = cli.snapshot(root)
        want, dirs = jobs.targets(job, files) if not no_lang else (
            set(), set())
        for p in want:
            contained(p, '')
        if case['api'] and not job.get('check') and not job.get('gates'):
            with cli.recording() as log:
                out, _ = jobs.api(job)
            failed, what = out.exc, f'API {job}'
        else:
            got, args = jobs.program(job, rng)
            log = got.touched
            failed = got.exc or (got.code == 1 and 'exit code 1')
            what = f'{job["prog"]} {args}'
        os.chdir(self.scratch)
        after = cli.snapshot(root)
        what += f'\n  fault={case["fault"]} error={failed!r}'
        for p in set(files) | set(after):
            x, y = files.get(p, 0), after.get(p, 0)
            if x == y:
                continue
            if p in want and y != 0 and y is not None:
                r.counts['written'] += 1
                continue
            if p in dirs and x == 0 and y is None:
                continue
            r.bad('touched', f'{p!r}: {show(x or None)} is now '
                  f'{show(y or None)}\n  targets={sorted(want)}\n  {what}')
        for kind, p in cli.writes(log):
            rel = norm_at(root, p) if isinstance(p, str) else None
            if kind == 'write' and rel in want:
                continue
            if kind == 'os.mkdir' and rel is not None and (
                    rel in dirs | {'.'} or files.get(rel, 0) is None):
                continue
            r.bad('effect', f'{kind} {p}\n  targets={sorted(want)}\n  {what}')
        if no_lang and not failed:
            r.bad('not-rejected', what)
        if failed:
            r.counts['failed'] += 1
            r.counts['failed_with_target'] += bool(want)
            if job['prog'] == 'md2po2md' and case['fault'] == 'width' and \
                    files != after:
                r.bad('partial', f'{tree_diff(files, after)}\n  {what}')
            if case['fault'] not in AFTER_SAVE and \
                    job['prog'] != 'md2po2md':
                for p in want:
                    if files.get(p, 0) != after.get(p, 0):
                        r.bad('spoiled', f'{p!r}: {show(files.get(p))} is '
                              f'now {show(after.get(p))}\n  {what}')
        r.counts['no_target'] += not want
        r.counts['inputs'] += len(files) - len(want & set(files))
        r.nontrivial = bool(want or failed)
        r.info = {'run': what, 'targets': sorted(want)}
        return r


# -------------------------------------------------------------------- W07
FN = type(enter)


def defaults():
    """What the functions and constants of mdpo are, as text."""
    out = {}
    for name in sorted(sys.modules):
        if name != 'mdpo' and not name.startswith('mdpo.'):
            continue
        for k, v in sorted(vars(sys.modules[name]).items()):
            where = f'{name}.{k}'
            if getattr(v, '__module__', name) != name:
                continue
            if isinstance(v, type):
                for kk, vv in sorted(vars(v).items()):
                    if isinstance(vv, FN):
                        out[f'{where}.{kk}'] = plain(
                            [vv.__defaults__, vv.__kwdefaults__])
            elif isinstance(v, FN):
                out[where] = plain([v.__defaults__, v.__kwdefaults__])
            elif k.isupper() and k[0] != '_' and isinstance(
                    v, (dict, list, tuple, set, frozenset, str, int)):
                out[where] = plain(v)
    return out


def plain(x):
    if isinstance(x, dict):
        return '{' + ', '.join(f'{plain(k)}: {plain(v)}'
                               for k, v in x.items()) + '}'
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(sorted(map(plain, x))) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(map(plain, x)) + ']'
    return re.sub(' at 0x[0-9a-f]+', '', repr(x))


def state():
    """The state of the process which a run has to leave as it was."""
    return {'environment': dict(os.environ), 'directory': os.getcwd(),
            'arguments': list(sys.argv), 'module path': list(sys.path),
            'standard streams': [sys.stdin, sys.stdout, sys.stderr],
            'threads': threading.active_count(),
            'recursion limit': sys.getrecursionlimit(),
            'umask': umask(), 'signals': [signal.getsignal(s) for s in (
                signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            'defaults': defaults()}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def state_diff(a, b):
    for k in a:
        if a[k] == b[k]:
            continue
        if isinstance(a[k], dict):
            for kk in sorted(set(a[k]) | set(b[k])):
                if a[k].get(kk) != b[k].get(kk):
                    return (f'{k}: {kk} was {show(a[k].get(kk))} and is '
                            f'{show(b[k].get(kk))}')
        return f'{k}: {a[k]!r} is now {b[k]!r}'
    return None


OP_FAULTS = ['none'] * 8 + ['width', 'alias', 'extension', 'event-file',
                            'handler', 'src-encoding', 'command', 'po-syntax',
                            'target-folder', 'import', 'schema']


class W07(ProgramCheck):
    """Sequences of runs of the programs and the API, some failing; sets of
    API jobs in threads; the same jobs in processes with other hash seeds and
    other histories."""
    id = 'W07'
    rule = ('state of the process (environment, directory, arguments, '
            'module path, streams, signals, defaults of the functions and '
            'constants of mdpo) around each operation of a sequence, and '
            'results of operations repeated after others; results of '
            'concurrent jobs under forced thread switches against sequential '
            'ones; results in peer processes with other hash seeds and '
            'histories; non-trivial: two or more operations')
    quick_n = 3000
    thorough_n = 30000
    min_counts = {'operations': 3500, 'failing': 700, 'repeated': 800,
                  'thread_sets': 400, 'thread_jobs': 1200,
                  'thread_switches': 3000, 'peer_jobs': 700,
                  'peer_processes': 8}

    def gen(self, rng, i, tier):
        kind = ('seq', 'seq', 'threads', 'peer')[i // 8 % 4]
        ops = []
        for _ in range(rng.choice([2, 3, 4] if kind == 'seq' else [2, 3, 3, 5]
                                  if kind == 'threads' else [1, 2, 3])):
            docs, files = self.fixture(rng)
            job = rand_job(rng, rng.choice(self.progs), files, docs)
            if rng.random() < .4:
                add_fault(rng, job, files, docs, rng.choice(OP_FAULTS))
            if kind == 'threads':
                job['opts'].pop('debug', None)
            elif kind == 'seq':
                job['cli'] = rng.random() < .7
                if rng.random() < .2:
                    job['check'] = True
                if rng.random() < .2:
                    job['gates'] = rng.sample(list(jobs.GATES), 2)
                if rng.random() < .2:
                    job['quiet'] = True
                    job['opts'].pop('debug', None)
            ops.append([files, job])
        if kind == 'threads' and rng.random() < .3:
            # the same job several times
            ops = [ops[0]] * len(ops)
        if kind == 'threads':       # the same file of handlers
            for _, job in ops:
                if job['prog'] in ('md2po', 'po2md') and rng.random() < .5:
                    job['opts']['events'] = [
                        ['text', '../shared/ev.py::nothing'],
                        ['enter_span', '../shared/ev.py::no_emphasis']]
        return {'kind': kind, 'ops': ops, 'seed': rng.randrange(1 << 30)}

    def judge(self, case):
        r = Result()
        if not case['ops']:
            raise Invalid
        ops = []
        for spec, job in case['ops']:
            try:
                files = jobs.files_of(spec)
            except (UnicodeError, LookupError, KeyError, TypeError,
                    ValueError):
                raise Invalid from None
            self.valid_job(job, spec)
            for p in jobs.targets(job, files)[0]:
                contained(p, '')
            how = job.get('how', 'file')
            if how == 'text' and job['src'][:1] in '-' or \
                    how != 'file' and job['src'].startswith('/'):
                raise Invalid
            ops.append((files, job))
        getattr(self, 'judge_' + case['kind'])(r, case, ops)
        os.chdir(self.scratch)
        r.nontrivial = len(ops) > 1
        r.info = {'kind': case['kind'],
                  'programs': [j['prog'] for _, j in ops]}
        return r

    def run_op(self, files, job, seed):
        """Results of an operation, as values."""
        root = self.root('a')
        enter(root, files)
        if seed % 3 == 1:
            os.environ['_MDPO_RUNNING'] = ''
        else:
            os.environ.pop('_MDPO_RUNNING', None)
        before = state()
        if job.get('cli'):
            got, args = jobs.program(job, random.Random(seed))
            res = [got.code, repr(got.exc), jobs.undate(got.out), got.err,
                   cli.snapshot(root)]
            failed = bool(got.exc or got.code)
            what = f'{job["prog"]} {args}'
        else:
            del jobs.ALTERED[:]
            o, said = jobs.api(job)
            res = [jobs.value_of(o), jobs.undate(said), cli.snapshot(root)]
            failed = not o
            what = f'API {job}'
            if jobs.ALTERED:
                return res, failed, what, jobs.ALTERED.pop()
        d = state_diff(before, state())
        return res, failed, what, d

    def judge_seq(self, r, case, ops):
        seen = {}
        n = len(ops)
        # each one, and then again after the others
        rng = random.Random(case['seed'])
        again = [rng.randrange(n) for _ in range(2)]
        for t, k in enumerate([*range(n), *again]):
            files, job = ops[k]
            res, failed, what, d = self.run_op(files, job, k)
            r.counts['operations'] += 1
            r.counts['failing'] += failed
            if d:
                r.bad('state', f'{what}: {d}')
                restore_state()
                return
            if k in seen:
                r.counts['repeated'] += 1
                for x, y in zip(seen[k], res):
                    if x != y:
                        r.bad('repeated', f'{what}: first\n  {show_any(x)}'
                              f'\n  and then\n  {show_any(y)}')
                        return
            seen.setdefault(k, res)

    def judge_threads(self, r, case, ops):
        root = self.root('t')
        allf = {f'j{n}/{p}': x for n, (files, _) in enumerate(ops)
                for p, x in files.items()}
        allf['shared/ev.py'] = b'import time\ntime.sleep(.002)\n' + \
            jobs.HANDLERS.encode()
        enter(root, allf)
        for name in [m for m in sys.modules if m.startswith(root)]:
            del sys.modules[name]       # imported once more
        r.counts['shared_handlers'] += sum(
            'shared' in repr(job['opts'].get('events')) for _, job in ops) > 1
        todo = [dict(job, src=job['src'].strip('\n'))
                if job.get('how') == 'stdin' else job for _, job in ops]
        before = state()
        got = [None] * len(ops)
        barrier = threading.Barrier(len(ops))
        switches = collections.Counter()
        last = [None]

        def watch(frame, event, arg):
            me = threading.get_ident()
            if last[0] != me:
                last[0] = me
                switches['n'] += 1

        def work(n):
            sys.setprofile(watch)
            try:
                barrier.wait()
                got[n] = jobs.value_of(jobs.api_call(todo[n], f'j{n}'))
            except BaseException as e:      # reported below
                got[n] = ['thread', repr(e)]
            finally:
                sys.setprofile(None)
        keep = sys.getswitchinterval()
        sys.setswitchinterval(random.Random(case['seed']).choice(
            [1e-6, 1e-5, 1e-4]))
        ts = [threading.Thread(target=work, args=(n,))
              for n in range(len(ops))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(keep)
        together = cli.snapshot(root)
        d = state_diff(before, state())
        if d:
            r.bad('state', f'threads: {d}')
            restore_state()
            return
        enter(root, allf)
        alone = [jobs.value_of(jobs.api_call(j, f'j{n}'))
                 for n, j in enumerate(todo)]
        r.counts['thread_sets'] += 1
        r.counts['thread_jobs'] += len(ops)
        r.counts['thread_switches'] += switches['n']
        for n in range(len(ops)):
            if got[n] != alone[n]:
                r.bad('concurrent', f'{todo[n]}: alone\n  '
                      f'{show_any(alone[n])}\n  with others\n  '
                      f'{show_any(got[n])}')
                return
        d = tree_diff(cli.snapshot(root), together, ('alone', 'with others'))
        if d:
            r.bad('concurrent-files', f'{todo}: {d}')

    peer, asked = None, 0

    def judge_peer(self, r, case, ops):
        if self.peer is None or self.asked >= 40:
            if self.peer:
                self.peer.close()
            seed = random.Random(case['seed']).randrange(1, 1 << 32)
            self.peer = peer.Peer(self.root('p'), seed)
            self.asked = 0
            r.counts['peer_processes'] += 1
        self.asked += 1
        here = []
        for files, job in ops:
            enter(self.root('a'), files)
            o, said = jobs.api(job)
            here.append([jobs.value_of(o), jobs.undate(said),
                         cli.snapshot(self.root('a'))])
        order = list(range(len(ops)))[::-1]
        there = self.peer.ask([[case['ops'][k][0], ops[k][1], case['seed']]
                               for k in order])
        if there is None:
            self.peer.close()
            self.peer = None
            r.counts['peers_lost'] += 1
            return
        for k, (v, s, t) in zip(order, there):
            r.counts['peer_jobs'] += 1
            r.counts['peer_failing'] += v[0] == 'error'
            job = ops[k][1]
            for x, y in zip(here[k], (v, s, t)):
                if x != y:
                    r.bad('other-process', f'{job}: here\n  {show_any(x)}\n '
                          f' in other process\n  {show_any(y)}')
                    return


def show_any(x):
    return repr(x)[:1200]


def restore_state():
    """So that one leak does not spoil the next cases."""
    os.environ.pop('_MDPO_RUNNING', None)


def add_fault(rng, job, files, docs, fault):
    prog, o = job['prog'], job['opts']
    used = job['src'] if isinstance(job['src'], str) and isinstance(
        files.get(job['src']), str) else None
    if fault == 'width' and prog != 'mdpo2html':
        o['po_wrapwidth' if prog == 'md2po2md' else 'wrapwidth'] = 'x'
    elif fault == 'alias':
        o['command_aliases'] = [['a', 'nope']]
    elif fault == 'extension' and prog in ('md2po', 'md2po2md'):
        o['extensions'] = ['tables', 'nope']
    elif fault == 'event-file' and prog in ('md2po', 'po2md'):
        o['events'] = [['text', rng.choice(['gone.py::f', 'ev.py'])]]
    elif fault == 'handler' and prog in ('md2po', 'po2md'):
        files['ev.py'] = jobs.HANDLERS
        o['events'] = [[rng.choice(['text', 'leave_block', 'msgid']),
                        'ev.py::boom']]
    elif fault == 'import' and prog in ('md2po', 'po2md'):
        name = f'bad{rng.randrange(1 << 40)}.py'
        files[name] = 'def f(self, *a):\n    pass\n\n\n1 / 0\n\n\n' \
            'def g(self, *a):\n    pass\n'
        o['events'] = [['text', name + rng.choice(['::f', '::g'])]]
    elif fault == 'src-encoding':
        o['html_encoding' if prog == 'mdpo2html' else 'md_encoding'] = \
            rng.choice(['nope', 'ascii', 'utf-16'])
    elif fault == 'command' and used:
        files[used] += '\n\n<!-- mdpo-context -->\n\nx\n'
    elif fault == 'po-syntax':
        files['po/es.po'] = 'msgid "a\nmsgstr\n'
    elif fault == 'target-folder':
        if prog == 'md2po':
            o['po_filepath'], o['save'] = 'gone/x.po', True
        elif prog != 'md2po2md':
            o['save'] = 'gone/x.out'
    elif fault == 'schema' and prog == 'md2po2md':
        job['src'] = 'none/*.md'


from surroundings import W08, W09  # noqa: E402

CHECKS = {c.id: c for c in (W01, W02, W03, W04, W05, W06, W07, W08,
                            W09)}
