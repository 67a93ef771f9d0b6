"""Jobs: one operation of mdpo on a directory of files, run through the API
or through the command line program."""
import contextlib
import io
import os
import re
import sys

import cli
from sut import (call, markdown_pofile_to_html, markdown_to_pofile,
                 markdown_to_pofile_to_markdown, pofile_to_markdown)

HANDLERS = '''"""Handlers of the jobs."""


def nothing(self, *args):
    pass


def boom(self, *args):
    raise RuntimeError('boom')


def no_emphasis(self, span, details):
    return not span.name.startswith('EM')


def no_code(self, block, details):
    return None if block.name != 'CODE' else False


class Group:
    @staticmethod
    def few(self, msgid, *args):
        if len(msgid) % 5 == 0:
            return False
'''
DATE = re.compile(r'(\[DEBUG\]::)\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}(::)')


def undate(text):
    return DATE.sub(r'\1\2', text)


# ------------------------------------------------------------------ PO files
def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') \
        .replace('\t', '\\t').replace('\n', '\\n') + '"'


def field(name, s, prefix='', split=False):
    """The lines of one field; split in several if asked."""
    if split and len(s) > 1:
        cut = s.find(' ', len(s) // 2) + 1 or len(s) // 2
        parts = [quote(s[:cut]), quote(s[cut:])]
        return [f'{prefix}{name} ""'] + [prefix + p for p in parts]
    return [f'{prefix}{name} {quote(s)}']


def po_file(rows, charset='UTF-8', header=()):
    """Rows are [ctxt, msgid, msgstr, fuzzy, obsolete, comment, split]."""
    out = ['#', 'msgid ""', 'msgstr ""',
           f'"Content-Type: text/plain; charset={charset}\\n"']
    out += [quote(h + '\n') for h in header] + ['']
    for row in sorted(rows, key=lambda x: bool(x[4])):
        ctxt, msgid, msgstr, fuzzy, obsolete, comment, split = row
        pre = '#~ ' if obsolete else ''
        if comment:
            out.append('# ' + comment)
        if fuzzy:
            out.append('#, fuzzy')
        if ctxt is not None:
            out += field('msgctxt', ctxt, pre, split)
        out += field('msgid', msgid, pre, split)
        out += field('msgstr', msgstr, pre, split)
        out.append('')
    return '\n'.join(out)


def encodable(text, enc):
    return ''.join(c if _enc(c, enc) else 'x' for c in text)


def _enc(c, enc):
    try:
        c.encode(enc)
        return True
    except UnicodeEncodeError:
        return False


def files_of(spec):
    """{path: bytes} from {path: text, rows or base64}."""
    out = {}
    for path, x in spec.items():
        if isinstance(x, dict):
            enc = x.get('enc', 'utf-8')
            text = po_file(x['rows'], x.get('charset', enc)) \
                if 'rows' in x else x['text']
            if x.get('crlf'):
                text = text.replace('\n', '\r\n')
            data = encodable(text, enc).encode(enc)
            if 'raw' in x:
                data += x['raw'].encode('latin-1')
            out[path] = data
        else:
            out[path] = x.encode()
    return out


# ---------------------------------------------------------------- operations
# option: (API name, kind, CLI flags)
OPTS = {
    'md2po': {
        'ignore': ('list', ['-i', '--ignore']),
        'po_filepath': ('path', ['-p', '--po-filepath', '--pofilepath']),
        'save': ('flag', ['-s', '--save']),
        'mo_filepath': ('path', ['--mo-filepath', '--mofilepath']),
        'plaintext': ('flag', ['--plaintext']),
        'wrapwidth': ('val', ['-w', '--wrapwidth']),
        'mark_not_found_as_obsolete': (
            'off', ['-m', '--merge-po-files', '--merge-pofiles']),
        'preserve_not_found': ('off', ['-r', '--remove-not-found']),
        'location': ('off', ['--no-location', '--nolocation']),
        'extensions': ('list', ['-x', '--extension', '--ext']),
        'po_encoding': ('val', ['--po-encoding']),
        'md_encoding': ('val', ['--md-encoding']),
        'xheader': ('flag', ['-a', '--xheader']),
        'include_codeblocks': ('flag', ['-c', '--include-codeblocks']),
        'ignore_msgids': ('ids', ['--ignore-msgids']),
        'metadata': ('pairs', ['-d', '--metadata']),
        'command_aliases': ('pairs', ['--command-alias']),
        'events': ('events', ['-e', '--event']),
        'debug': ('flag', ['-D', '--debug'])},
    'po2md': {
        'ignore': ('list', ['-i', '--ignore']),
        'save': ('path', ['-s', '--save']),
        'wrapwidth': ('val', ['-w', '--wrapwidth']),
        'po_encoding': ('val', ['--po-encoding']),
        'md_encoding': ('val', ['--md-encoding']),
        'command_aliases': ('pairs', ['--command-alias']),
        'events': ('events', ['-e', '--event']),
        'debug': ('flag', ['-D', '--debug'])},
    'mdpo2html': {
        'ignore': ('list', ['-i', '--ignore']),
        'save': ('path', ['-s', '--save']),
        'po_encoding': ('val', ['--po-encoding']),
        'html_encoding': ('val', ['--html-encoding']),
        'command_aliases': ('pairs', ['--command-alias'])},
    'md2po2md': {
        'location': ('off', ['--no-location', '--nolocation']),
        'extensions': ('list', ['-x', '--extension', '--ext']),
        'command_aliases': ('pairs', ['--command-alias']),
        'po_wrapwidth': ('val', ['--po-wrapwidth']),
        'md_wrapwidth': ('val', ['--md-wrapwidth']),
        'include_codeblocks': ('flag', ['-c', '--include-codeblocks']),
        'po_encoding': ('val', ['--po-encoding']),
        'md_encoding': ('val', ['--md-encoding']),
        'debug': ('flag', ['-D', '--debug'])},
}
GATES = {'no_obsolete': 'obsolete', 'no_fuzzy': 'fuzzy',
         'no_empty_msgstr': 'empty'}
FN = {'md2po': markdown_to_pofile, 'po2md': pofile_to_markdown,
      'mdpo2html': markdown_pofile_to_html,
      'md2po2md': markdown_to_pofile_to_markdown}


def at(root, p):
    return os.path.join(root, p) if root else p


def kwargs(job, root=''):
    out = {}
    for name, v in job['opts'].items():
        kind = OPTS[job['prog']][name][0]
        if kind == 'path' or name == 'ignore':
            v = at(root, v) if isinstance(v, str) else [at(root, x)
                                                        for x in v]
        elif kind == 'ids':
            with open(at(root, v), encoding=job['opts'].get(
                    'po_encoding') or 'utf-8') as f:
                v = f.read().splitlines()
        elif kind in ('pairs', 'events'):
            if kind == 'events':
                d = {}
                for e, f in v:
                    d.setdefault(e, []).append(at(root, f))
                v = d
            else:
                v = dict(v)
        out[name] = v
    return out


def api(job, root=''):
    """Run a job through the API; (Outcome, what it printed)."""
    prog = job['prog']
    say = io.StringIO()
    with contextlib.redirect_stdout(say):
        return api_call(job, root), say.getvalue()


def api_call(job, root=''):
    """The same without capturing the output (for threads)."""
    prog = job['prog']
    src = job['src']
    if job.get('how', 'file') == 'file':
        src = [at(root, s) for s in src] if isinstance(src, list) \
            else at(root, src)
    try:
        kw = kwargs(job, root)
    except (OSError, ValueError, LookupError) as e:
        from sut import Outcome
        return Outcome(exc=e)
    if prog == 'md2po':
        return checked(FN[prog], src, **kw)
    if prog == 'md2po2md':
        for k, name in enumerate(('md2po_kwargs', 'po2md_kwargs')):
            if job.get('kw', ({}, {}))[k]:
                kw[name] = dict(job['kw'][k])
        return checked(FN[prog], list(job['langs']), src,
                       at(root, job['schema']), **kw)
    return checked(FN[prog], src, [at(root, p) for p in job['pofiles']],
                   **kw)


ALTERED = []    # arguments which the functions have changed


def checked(fn, *args, **kw):
    before = repr((args, kw))
    out = call(fn, *args, **kw)
    if repr((args, kw)) != before:
        ALTERED.append(f'arguments {before} left as {(args, kw)!r}')
    return out


def argv(job, rng):
    """The arguments of the program for a job, in some order and spelling."""
    prog = job['prog']
    chunks = []

    def opt(name, flags, value=None):
        f = rng.choice(flags)
        if value is None:
            c = [f]
        elif f.startswith('--') and (rng.random() < .5 or
                                     value.startswith('-')):
            c = [f'{f}={value}']
        elif value.startswith('-') or (len(f) == 2 and rng.random() < .2
                                       and value[:1] not in ('', '=')):
            c = [f + value]
        else:
            c = [f, value]
        chunks.append((name, c))
    for name, v in job['opts'].items():
        kind, flags = OPTS[prog][name]
        if kind in ('flag', 'off'):
            opt(name, flags)
        elif kind in ('val', 'path', 'ids'):
            opt(name, flags, str(v))
        elif kind == 'list':
            for x in v:
                opt(name, flags, x)
        elif kind == 'pairs':
            for a, b in v:
                opt(name, flags, a.replace(':', '\\:') + ':' + b)
        else:
            for e, f in v:
                opt(name, flags, rng.choice(['{}:{}', '{}: {}']).format(e, f))
    for g in job.get('gates', ()):
        opt(g, ['--' + g.replace('_', '-')])
    if job.get('check'):
        opt('check', ['--check'])
    if job.get('quiet'):
        opt('quiet', ['-q', '--quiet'])
    # any order, but repeated options keep theirs
    names = [n for n, _ in chunks]
    rng.shuffle(names)
    queue = {}
    for n, c in chunks:
        queue.setdefault(n, []).append(c)
    chunks = [queue[n].pop(0) for n in names]
    multi = []
    if prog in ('po2md', 'mdpo2html'):
        ps = list(job['pofiles'])
        flags = ['-p', '--po-files', '--pofiles']
        while ps:
            n = rng.randint(1, len(ps))
            multi.append([rng.choice(flags)] + ps[:n])
            ps = ps[n:]
    elif prog == 'md2po2md':
        ls = list(job['langs'])
        while ls:
            n = rng.randint(1, len(ls))
            multi.append([rng.choice(['-l', '--lang'])] + ls[:n])
            ls = ls[n:]
        chunks.insert(rng.randint(0, len(chunks)),
                      [rng.choice(['-o', '--output']), job['schema']])
    pos = []
    if job.get('how') != 'stdin':
        pos = job['src'] if isinstance(job['src'], list) else [job['src']]
    # values of options which take several end where other option starts
    at_end = bool(chunks) and rng.random() < .5
    i = 0
    for m in multi:
        i = rng.randint(i, len(chunks) - 1 if at_end else len(chunks))
        chunks.insert(i, m)
        i += 1
    flat = [a for c in chunks for a in c]
    return flat + pos if at_end else pos + flat


def program(job, rng):
    """Run a job through the program; (Run, its arguments)."""
    args = argv(job, rng)
    stdin = job['src'] if job.get('how') == 'stdin' else None
    return cli.run(job['prog'], args, stdin), args


def printed(job, out, said):
    """What the program has to print, from what the API gave."""
    if job.get('quiet'):
        return said
    if job['prog'] == 'md2po':
        return said + f'{out.value}\n'
    if job['prog'] == 'md2po2md' or 'save' in job['opts']:
        return said
    return said + f'{out.value}\n'


def value_of(out):
    """A comparable form of the result of an API call."""
    if not out:
        return ['error', type(out.exc).__name__, str(out.exc)]
    v = out.value
    if isinstance(v, tuple):
        return ['tuple'] + [list(x) if isinstance(x, list) else x for x in v]
    return ['value', str(v)]


# ------------------------------------------------------- paths of md2po2md
def outputs(schema, lang, path, isdir=lambda p: False):
    """(PO file, Markdown file) which the schema names, and directories."""
    name = path.split('/')[-1]
    stem, dot, ext = name.rpartition('.')
    if not stem:
        stem, ext = name, ''
    res = []
    for kind, e in (('po', 'po'), ('md', ext)):
        p = schema.replace('{lang}', lang).replace('{basename}', stem) \
            .replace('{ext}', e)
        last = p.split('/')[-1]
        # the same decision for both files
        if kind == 'po':
            folder = isdir(p) or not ('.' in last or last == stem)
        if folder:
            p = p.rstrip('/') + '/' + name
            if kind == 'po':
                p += '.po'
        elif kind == 'po' and not p.endswith('.po'):
            p += '.po'
        res.append(p)
    return res


def parents(path):
    out = []
    d = os.path.dirname(path)
    while d and d != '/':
        out.append(d)
        d = os.path.dirname(d)
    return out


def targets(job, files, root=''):
    """(files a job may write, directories it may create)."""
    prog, o = job['prog'], job['opts']
    t = []
    if prog == 'md2po':
        if 'po_filepath' in o and o.get('save'):
            t.append(o['po_filepath'])
        if 'mo_filepath' in o:
            t.append(o['mo_filepath'])
        dirs = set()
    elif prog == 'md2po2md':
        from surface import shell_match
        dirs = set()
        have = {d for f in files for d in parents(f)} | {
            f for f, x in files.items() if x is None}
        for f in sorted(files):
            if files[f] is not None and (
                    f == job['src'] or shell_match(job['src'], f)):
                for lang in job['langs']:
                    for p in outputs(job['schema'], lang, f,
                                     lambda p: p.rstrip('/') in have):
                        t.append(p)
                        dirs |= set(parents(p))
    else:
        t = [o['save']] if 'save' in o else []
        dirs = set()
    return {at(root, os.path.normpath(x)) for x in t}, \
        {at(root, os.path.normpath(d)) for d in dirs}
