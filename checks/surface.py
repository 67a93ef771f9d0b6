"""X01-X04: events, robustness, comment commands, argument values."""
import glob
import html
import os
import re
import zlib

import cli
import mdgen
import mdtree
import model
from extraction import (ATTACH_CMDS, BLOCK_CMDS, CODE_CMDS, DEFAULT_EXT,
                               cat_rows, sprinkle, write)
from translation import is_ignored, po_text
from engine import Check, Invalid, Result
from sut import (call, markdown_pofile_to_html, markdown_to_pofile,
                 pofile_to_markdown)

# ------------------------------------------------------------------- X02
TOKENS = [
    '*', '**', '_', '__', '`', '``', '```', '~~~', '~~', '$', '$$', '[', ']',
    '(', ')', '](', '[]', '![', '[[', ']]', '<', '>', '<!--', '-->', '<!-->',
    '<!-- -->', '<a', '<b>', '</b>', '<div>', '</div>', '<!DOCTYPE x>',
    '<![CDATA[', ']]>', '<?php', '?>', '&amp;', '&', '&#0;', '&#x110000;',
    '&nbsp;', '&#10;', '\\', '\\\\', '\\*', '\\\n', '|', '|-|', '| - |',
    '|:-:|', '---', '===', '- ', '+ ', '* ', '1. ', '1) ', '999999999. ',
    '0. ', '# ', '###### ', '####### ', '> ', '>', '    ', '\t', ' ', '  ',
    '\n', '\n\n', '\n', '\r\n', '\r', '- [ ] ', '- [x] ', '[^1]', '[^1]: ',
    '[a]: ', '[a]: /x', '[a]: <>', '[a]: /x "t"', '[a]', '[a][b]', '[a][]',
    '"', "'", 'a', 'b', 'word', 'Some text', 'http://', 'http://a.b',
    'https://a.b/c?d=e&f', 'www.a.b', 'a@b.c', '<a@b.c>', '<http://a>',
    '{', '}', '%', '%s', '{}', '{0}', ':', ';', '\x00', '\x01', '\x0b',
    '\x0c', '\x1b', '\x1c', '\x7f', '\x85', '\xa0', '\xad', '\u200b',
    '\u2028', '\u2029', '\ufeff', '\ufffd', 'ñ', '日本', '😀', 'e\u0301',
    '\u202e', '\U0010ffff', '<!-- mdpo-disable -->', '<!-- mdpo-enable -->',
    '<!-- mdpo-context -->', '<!-- mdpo-context x -->',
    '<!-- mdpo-translator -->', '<!-- mdpo-include -->',
    '<!-- mdpo-include x -->', '<!-- mdpo-', '<!--mdpo-include-codeblock-->',
    '<!-- mdpo-disable-codeblocks -->', '<!-- mdpo-include-codeblocks -->',
    '<!-- mdpo-disable-next-block -->', '<!-- mdpo-enable-next-line -->',
    '<!--\nmdpo-context\ny\n-->', '<!-- mdpo-foo -->', '<!-- mdpo -->',
    '#', '~', '!', '-', '+', '=', '.', ',', '1', '/', 'title',
]
REQUIRED = re.compile(
    r'<!--\s*mdpo-(?:context|translator|include)\s*-->')


def soup(rng, n):
    toks = TOKENS if rng.random() < 0.3 else rng.sample(
        TOKENS, rng.randint(3, 14))
    return ''.join(rng.choice(toks) for _ in range(n))


def mutate(text, rng):
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([1, 1, 2, 5, 20]))
        k = rng.randrange(6)
        if k == 0:
            text = text[:i] + text[j:]
        elif k in (1, 2):
            text = text[:i] + rng.choice(TOKENS) + text[i:]
        elif k == 3:
            text = text[:i] + rng.choice(TOKENS) + text[j:]
        elif k == 4:
            p = rng.randrange(len(text) + 1)
            text = text[:p] + text[i:j] + text[p:]
        else:
            lines = text.split('\n')
            a, b = rng.randrange(len(lines)), rng.randrange(len(lines))
            if rng.random() < 0.5:
                lines[a], lines[b] = lines[b], lines[a]
            else:
                lines[a] = rng.choice(['> ', '  ', '    ', '- ', '1. ', '# ',
                                       '| ']) + lines[a]
            text = '\n'.join(lines)
    return text


def deep(rng):
    n = rng.choice([5, 20, 60, 150])
    k = rng.randrange(8)
    if k == 7:      # like a deep path
        return rng.choice(['a/', '/', '*/', 'b/c '])  * rng.choice(
            [20, 200, 1200, 2500]) + rng.choice(['*', '?', 'a', '[b]*', '**'])
    if k == 0:
        return '> ' * n + 'text'
    if k == 1:
        return '\n'.join('  ' * i + '- item' for i in range(min(n, 60)))
    if k == 2:
        return '*' * n + 'a' + '*' * rng.choice([n, n - 1, 1])
    if k == 3:
        return '[' * n + 'a' + ']' * n + '(x)' * rng.choice([0, 1, n])
    if k == 4:
        return ''.join('*a **b ' for _ in range(n)) + ''.join(
            '** *' for _ in range(n))
    if k == 5:
        return '`' * n + ' a ' + '`' * rng.choice([n, n + 1])
    return '![' * min(n, 30) + 'a' + '](x)' * min(n, 30)


def words_of(text):
    return [w for w in re.split(r'\s+', text) if w]


class X02(Check):
    """Documents spoiled by mutations, soups of Markdown tokens and control
    characters, lines of block markers, deep nests; extracted in several
    modes and translated with empty and with filled catalogs."""
    id = 'X02'
    rule = ('hostile texts through md2po (default, plaintext, code blocks, '
            'from a file with locations, '
            'saved and read back) and po2md (no translations, translations '
            'taken from hostile texts, random widths); non-trivial: at '
            'least one message came out')
    quick_n = 37000
    thorough_n = 400000
    min_counts = {'extractions': 30000, 'translations': 20000,
                  'translated_messages': 5000}

    def gen(self, rng, i, tier):
        k = rng.random()
        if k < 0.5:
            g = mdgen.G(rng, inl={
                't': 16, 'b': 6, 'i': 6, 's': 4, 'c': 6, 'a': 6, 'auto': 3,
                'img': 4, 'w': 3, 'm': 2, 'h': 2, 'e': 2, 'x': 4, 'u': 1},
                maxblocks=6, depth=3, quoted_titles=True)
            doc = g.doc()
            if rng.random() < 0.6:
                doc = sprinkle(doc, rng, 0.4,
                               BLOCK_CMDS + ATTACH_CMDS + CODE_CMDS)
            text = mutate(mdgen.render(doc, rng.randrange(1 << 30)), rng)
        elif k < 0.75:
            text = soup(rng, rng.choice([1, 2, 4, 8, 16, 40, 100]))
        elif k < 0.9:
            text = '\n'.join(
                ''.join(rng.choice(['> ', '- ', '  ', '    ', '1. ', '# ', '',
                                    '', '| ']) for _ in range(
                                        rng.randrange(4))) +
                soup(rng, rng.randint(0, 4)).replace('\n', '')
                for _ in range(rng.randint(1, 10)))
        else:
            text = deep(rng)
        trs = [soup(rng, rng.randint(1, 6)) for _ in range(3)]
        return {'text': text, 'trs': trs, 'seed': rng.randrange(1 << 30),
                'width': rng.choice([80, 80, 0, 1, 2, 10, 40, 78, -1]),
                'ext': rng.choice([None, None, None, 'all', 'none'])}

    EXTS = {'all': DEFAULT_EXT + ['underline', 'permissive_url_autolinks',
                                  'permissive_email_autolinks',
                                  'permissive_www_autolinks'],
            'none': []}

    def judge(self, case):
        r = Result()
        text = case['text']
        if any(0xd800 <= ord(c) < 0xe000 for c in text):
            raise Invalid
        here = os.path.join(self.scratch, 'empty')
        po = os.path.join(self.scratch, 'x.po')
        os.makedirs(here, exist_ok=True)
        os.chdir(here)
        try:
            try:
                if os.path.exists(text) or glob.glob(text):
                    raise Invalid
            except (ValueError, OSError, re.error, RecursionError):
                pass
            self.observe(r, case, text, po)
        finally:
            os.chdir(self.scratch)
        return r

    def ok(self, r, out, text, what):
        """True if it produced a value; judges the error otherwise."""
        if out:
            return True
        if isinstance(out.exc, ValueError) and \
                str(out.exc).startswith('You need to specify') and \
                REQUIRED.search(text):
            r.counts['rejections'] += 1
            return False
        r.bad('crash', f'{what}: {out.err()}\n  markdown={text!r}')
        return False

    def observe(self, r, case, text, po):
        kw = {}
        if case['ext']:
            kw['extensions'] = self.EXTS[case['ext']]
        found = None
        md = os.path.join(self.scratch, 'x.md')
        with open(md, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        for mode in ({}, {'plaintext': True}, {'include_codeblocks': True},
                     {'location': True}):
            # with locations, from a file
            out = call(markdown_to_pofile, md if 'location' in mode else text,
                       **kw, **mode)
            r.counts['extractions'] += 1
            if not self.ok(r, out, text, f'extraction {mode}'):
                if r.viol:
                    return
                continue
            msgs = cat_rows(out.value)
            r.counts['messages'] += len(msgs)
            if any(not m[1] for m in msgs):
                r.bad('empty-message', f'{msgs}\n  markdown={text!r}')
            if len({m[:2] for m in msgs}) != len(msgs):
                r.bad('duplicate', f'{msgs}\n  markdown={text!r}')
            if not mode:
                found = msgs
        if found is None:
            return
        r.nontrivial = bool(found)
        # without translations and with translations of hostile texts
        for rows in ([], [
                (m[0], m[1], case['trs'][k % len(case['trs'])])
                for k, m in enumerate(found)]):
            write(po, po_text(rows))
            out = call(pofile_to_markdown, text, po,
                       wrapwidth=case['width'], **kw)
            r.counts['translations'] += 1
            r.counts['translated_messages'] += len(rows)
            if not self.ok(r, out, text, 'translation'):
                return
            if not isinstance(out.value, str):
                r.bad('no-document', repr(out.value))


# ------------------------------------------------------------------- X03
NEAR = [
    'disable', 'enable', 'context', 'mdpo', 'mdpo-', 'mdpo--disable', 'mdpo:',
    'mdpo-disabled', 'mdpo-Disable', 'MDPO-disable', 'MDPO-DISABLE',
    'mdpo_disable', 'mdpo-disable-', 'mdpo-disable-next', 'mdpo-next-block',
    'xmdpo-disable', '-mdpo-disable', 'mdpo-disable,', 'mdpo-disable.',
    'mdpo-disable;mdpo-enable', 'mdpo-disable:x', 'mdpo-disable-next-blocks',
    'mdpo-contexts', 'mdpo-enabled', 'mdpo-enable-next', 'mdpo-mdpo-disable',
    'mdpo-include-', 'mdpo-include-code', 'mdpo-translators', 'mdpo-context:',
    'mdpo-foo', 'TODO', 'mdpo-disablе', 'mdpo‐disable', 'mdpo-disable-block',
    'note', 'mdpodisable', '"mdpo-disable"', '`mdpo-disable`', 'the',
]
ALIASES = ['off', 'on', 'mdpo-off', 'mdpo-on', 'ñ', 'a:b', 'x', 'skip!',
           'noextract', 'mdpo', 'mdpo-foo', 'disable', 'context', 'TODO',
           '日本', 'i18n:off', 'a.b', '#', '*', 'No', 'enable', 'ctx']
BAD_TARGETS = ['disabled', 'mdpo-foo', '', 'mdpo', 'mdpo-', 'Disable',
               'mdpo-mdpo-disable', 'disable ', 'next-block', '-disable',
               'mdpo-disable-next', 'include-code', 'MDPO-disable']
ARGS = ['x', 'some text', 'a  b', 'because: reasons.', 'mdpo-enable',
        'a -- b', '-', '->', '>', 'a > b', '"q"', "it's", 'ñandú', '1', '#',
        '!', 'a->b', '*x*', '&amp;', '\\', 'x-', '{}', '%s']
BLANKS = ['', ' ', ' ', ' ', '  ', '\t', ' \t ']
NAMES = [f'mdpo-{c}' for c in model.COMMANDS]
FLOW = [n for n in NAMES if 'code' not in n and n != 'mdpo-include']


class X03(Check):
    """Flat documents whose comments are command names, near misses and
    aliases with random spacing and arguments."""
    id = 'X03'
    rule = ('documents of paragraphs, code blocks and comments with near '
            'misses of command names, aliases, blanks and arguments, '
            'through md2po, po2md and mdpo2html, and alias mappings with '
            'wrong targets; non-trivial: at least one comment is a command '
            'and one is not')
    quick_n = 179000
    thorough_n = 1790000
    min_counts = {'commands': 20000, 'not_commands': 10000, 'aliased': 5000,
                  'refused_targets': 500, 'prog_md2po': 5000,
                  'prog_po2md': 3000, 'prog_mdpo2html': 3000}

    def gen(self, rng, i, tier):
        prog = rng.choice(['md2po', 'md2po', 'po2md', 'mdpo2html'])
        names = NAMES if prog == 'md2po' else FLOW
        aliases = {}
        if rng.random() < 0.6:
            for a in rng.sample(ALIASES, rng.randint(1, 4)):
                n = rng.choice(names)
                aliases[a] = n if rng.random() < 0.5 else n[5:]
        if rng.random() < 0.04:
            aliases[rng.choice(ALIASES)] = rng.choice(BAD_TARGETS)
        items = []
        texts = ['Text A', 'Text B', 'Text C', 'Text D']
        for _ in range(rng.randint(2, 9)):
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = rng.random()
                word = rng.choice(names) if k < 0.45 else \
                    rng.choice(list(aliases) or names) if k < 0.7 else \
                    rng.choice(NEAR + ALIASES)
                arg = rng.choice(ARGS) if rng.random() < 0.5 else ''
                real = aliases.get(word, word)
                if real.endswith(('context', 'translator', 'include')) and \
                        not arg:
                    arg = rng.choice(ARGS)
                items.append(['c', rng.choice(BLANKS), word,
                              rng.choice(BLANKS[1:]), arg,
                              rng.choice(BLANKS)])
            if prog == 'md2po' and rng.random() < 0.25:
                items.append(['f', f'code {rng.randrange(3)}'])
            else:
                items.append(['p', rng.choice(texts)])
        return {'prog': prog, 'aliases': aliases, 'items': items,
                'codeblocks': prog == 'md2po' and rng.random() < 0.3}

    def judge(self, case):
        r = Result()
        al = {}
        refused = []
        for a, t in case['aliases'].items():
            full = t if t.startswith('mdpo-') else 'mdpo-' + t
            if full not in NAMES:
                refused.append(t)
            if not a or re.search(r'\s', a):
                raise Invalid
            al[a] = full
        if set(al) & set(NAMES):
            raise Invalid
        comments, rows, kept = [], [], []
        st = Machine(case['codeblocks'])
        for it in case['items']:
            if it[0] == 'c':
                _, pre, word, mid, arg, post = it
                if not word or re.search(r'\s|--', word.strip('-')) or \
                        (pre + word)[0] in '->' or '-->' in ''.join(it[1:]) \
                        or arg != arg.strip() or (arg and not mid) or \
                        any(x.strip() for x in (pre, mid, post)):
                    raise Invalid
                name = al.get(word, word)
                raw = '<!--' + pre + word + (mid + arg if arg else '') + \
                    post + '-->'
                comments.append(raw)
                if name in NAMES:
                    if not arg and name in NEED:
                        raise Invalid
                    st.command(name[5:], arg)
                    r.counts['commands'] += 1
                    r.counts['aliased'] += word in al
                else:
                    kept.append(raw)
                    st.log.append(('c', raw))
                    r.counts['not_commands'] += 1
            else:
                if it[0] not in 'pf' or not re.match('[a-zT]', it[1]) or \
                        it[1] != it[1].strip():
                    raise Invalid
                st.text(it[0], it[1])
        r.nontrivial = bool(kept) and len(kept) < len(comments)
        r.counts['prog_' + case['prog']] += 1
        r.info = {'items': case['items'], 'aliases': case['aliases'],
                  'program': case['prog']}
        out, text = getattr(self, case['prog'])(case, st)
        if refused:
            valid = NAMES + [n[5:] for n in NAMES]
            r.counts['refused_targets'] += 1
            if not isinstance(out.exc, ValueError) or any(
                    f"'{v}'" not in str(out.exc) for v in valid) or \
                    f"'{refused[0]}'" not in str(out.exc):
                r.bad('alias-target', f'{case["aliases"]}: {out.err()}')
            return r
        if not out:
            r.bad('crash', f'{out.err()}\n  source={text!r}')
            return r
        exp, got = out.value
        if exp != got:
            r.bad(case['prog'], f'expected {exp}\n  got      {got}\n  source='
                  f'{text!r} aliases={case["aliases"]}')
        return r

    def source(self, case, para):
        out = []
        for it in case['items']:
            if it[0] == 'c':
                _, pre, word, mid, arg, post = it
                out.append('<!--' + pre + word + (mid + arg if arg else '') +
                           post + '-->')
            elif it[0] == 'f':
                out.append(f'```\n{it[1]}\n```')
            else:
                out.append(para.format(it[1]))
        return out

    def md2po(self, case, st):
        text = '\n\n'.join(self.source(case, '{}')) + '\n'
        out = call(markdown_to_pofile, text,
                   include_codeblocks=case['codeblocks'],
                   command_aliases=case['aliases'])
        if out:
            exp, seen = [], set()
            for kind, t, on, ctxt, comment in [
                    x for x in st.log if x[0] != 'c']:
                if on and (ctxt, t) not in seen:
                    seen.add((ctxt, t))
                    exp.append((ctxt, t, comment))
            out.value = exp, [(e.msgctxt, e.msgid, e.comment or None)
                              for e in out.value]
        return out, text

    def catalog(self, st):
        rows, seen = [], set()
        for x in st.log:
            if x[0] == 'p':
                for c in (x[3], None, 'x'):
                    if (c, x[1]) not in seen:
                        seen.add((c, x[1]))
                        rows.append((c, x[1], mark(x[1], c)))
        write('c.po', po_text(rows))
        return [x[1] if x[0] == 'c' else
                mark(x[1], x[3]) if x[2] else x[1] for x in st.log]

    def po2md(self, case, st):
        exp = self.catalog(st)
        text = '\n\n'.join(self.source(case, '{}')) + '\n'
        out = call(pofile_to_markdown, text, 'c.po', wrapwidth=0,
                   command_aliases=case['aliases'])
        if out:
            out.value = exp, [x.strip() for x in out.value.split('\n')
                              if x.strip()]
        return out, text

    def mdpo2html(self, case, st):
        exp = [x if x.startswith('<!--') else f'<p>{x}</p>'
               for x in self.catalog(st)]
        text = '\n'.join(self.source(case, '<p>{}</p>')) + '\n'
        out = call(markdown_pofile_to_html, text, 'c.po',
                   command_aliases=case['aliases'])
        if out:
            out.value = exp, [
                x.strip() if x.startswith('<!--') else html.unescape(x)
                for x in out.value.split('\n') if x.strip()]
        return out, text


def mark(text, ctxt):
    return f'{text} in {zlib.crc32(repr(ctxt).encode())}'


NEED = ('mdpo-context', 'mdpo-translator', 'mdpo-include')


class Machine:
    """What each comment command does, over a flat document."""

    def __init__(self, codeblocks):
        self.log = []
        self.off = self.dis = self.en = self.code1 = self.nocode1 = False
        self.code = codeblocks
        self.ctxt = self.comment = None

    def emit(self, kind, text):
        on = self.en or not (self.off or self.dis)
        self.log.append((kind, text, on, self.ctxt, self.comment))
        self.dis = self.en = False
        self.ctxt = self.comment = None

    def text(self, kind, text):
        if kind == 'f':
            if not self.nocode1 and (self.code or self.code1):
                self.emit('f', text + '\n')
            self.code1 = self.nocode1 = False
        else:
            self.emit('p', text)

    def command(self, name, arg):
        if name in ('disable-next-block', 'disable-next-line'):
            self.dis = True
        elif name in ('enable-next-block', 'enable-next-line'):
            self.en = True
        elif name == 'disable':
            self.off = True
        elif name == 'enable':
            self.off = False
        elif name == 'context':
            self.ctxt = arg
        elif name == 'translator':
            self.comment = arg
        elif name == 'include':
            self.emit('i', arg)
        elif name == 'include-codeblock':
            self.code1 = True
        elif name == 'disable-codeblock':
            self.nocode1 = True
        elif name == 'include-codeblocks':
            self.code = True
        elif name == 'disable-codeblocks':
            self.code = False


# ------------------------------------------------------------------- X04
PAIR_BITS = [':', ':', '\\:', '\\:', '\\', ' ', 'a', 'Key', 'X-Foo', 'b c',
             'ñ', '=', '1', '.', '-', '::', ': ', '\\\\:', 'http://x', '"']


def split_pair(value):
    """(key, value) of a pair, or None if no separator can be found."""
    value = value.lstrip('\\')
    key = ''
    for i, c in enumerate(value):
        if c == ':' and i and value[i - 1] != '\\':
            return key, value[i + 1:].lstrip()
        if c == ':':
            key = key.rstrip('\\')
        key += c
    return None


WIDTHS = ['0', '-1', 'inf', 'INF', 'Infinity', '-0', '-20', '0.0', '-inf',
          '1', '2', '5', '10', '20', '30', '40', '60', '78', '80', '100',
          '200', '1000', '+40', '40.0', '1e2', ' 60 ', '007', '70000']
BAD_WIDTHS = ['nan', 'NaN', 'NAN', '', 'abc', '1,5', '10px', '0x10', '--',
              '1 0', 'infi', 'none', 'é', '1e', 'None', '.']
TREE = ['a.md', 'b.md', 'sub/a.md', 'sub/c.md', 'sub/deep/d.md', 'README',
        'x y.md', 'ñ.md', 'sub/[s].md', 'q?.md', '[a]*.md', 'z.txt']
ASKED = ['a.md', './a.md', 'sub/a.md', '*.md', 'sub/*.md', 'sub/*', '*',
         '*/*.md', 'README', 'readme', 'nope.md', 'no*.md', 'sub', 'sub/',
         '[ab].md', '[a].md', '[s-m]', '[z-a]', '?.md', 'x y.md', 'q?.md',
         'sub/[s].md', '[a]*.md', '[a](b.md)', '**bold**', '*a* b.md',
         'Some text', 'a.md b.md', 'a.md\n', '# a.md', 'sub/deep/d.md', '.',
         '..', '/', 'a', '.md', '*.txt', 'ñ*', 'sub/*/d.md', '[', ']', '[]',
         'x\x00*', 'b.md:a.md', 'A.md', '~', '$HOME', '%s', '\\*.md']


class X04(Check):
    """Key:value arguments made of separators, escapes and backslashes;
    width arguments; names of files, globs and texts that look like them;
    ignore lists.  Programs are run through their entry points."""
    id = 'X04'
    rule = ('argument strings given to the programs and the same values to '
            'the API; non-trivial: the argument was accepted')
    quick_n = 83000
    thorough_n = 830000
    min_counts = {'pairs': 3000, 'pairs_refused': 300, 'repeated_keys': 50,
                  'widths': 500, 'widths_refused': 100, 'read_files': 1000,
                  'read_text': 500, 'ignored_paths': 500}

    def gen(self, rng, i, tier):
        k = rng.choice(['pairs', 'pairs', 'width', 'what', 'what', 'ignore'])
        if k == 'pairs':
            pairs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                pairs.append(''.join(rng.choice(PAIR_BITS) for _ in range(
                    rng.randint(1, 6))))
            if rng.random() < 0.15:
                pairs.append(rng.choice(pairs) + 'x')
            kind = rng.choice(['meta', 'alias'])
            if kind == 'alias' and rng.random() < 0.9:
                pairs = [p.replace(' ', '') + rng.choice([':', ': ', ':  ']) +
                         rng.choice(['disable', 'mdpo-disable'])
                         for p in pairs]
            return {'k': k, 'kind': kind, 'pairs': pairs,
                    'prog': rng.choice(['md2po', 'md2po', 'po2md',
                                        'mdpo2html'])}
        if k == 'width':
            return {'k': k, 'value': rng.choice(
                WIDTHS + BAD_WIDTHS + [str(rng.randint(1, 120))
                                       for _ in range(10)]),
                    'prog': rng.choice(['md2po', 'po2md', 'md2po2md-po',
                                        'md2po2md-md'])}
        names = rng.sample(TREE, rng.randint(2, len(TREE)))
        if k == 'what':
            return {'k': k, 'files': names, 'asked': rng.choice(ASKED),
                    'prog': rng.choice(['md2po', 'md2po', 'po2md',
                                        'mdpo2html'])}
        return {'k': k, 'files': names,
                'asked': rng.choice(['*.md', 'sub/*', '*/*.md', '*', names]),
                'ignore': [rng.choice(names + [
                    'a.md', 'sub', 'sub/', './a.md', 'deep', 'sub/deep', 'md',
                    'A.md', '*', 'sub/*', '.', 'u', 'b'])
                    for _ in range(rng.choice([1, 1, 2, 3]))]}

    def judge(self, case):
        r = Result()
        where = os.path.join(self.scratch, 't')
        cli.restore(where, {})
        os.chdir(where)
        try:
            getattr(self, 'judge_' + case['k'])(r, case)
        finally:
            os.chdir(self.scratch)
        r.info = case
        return r

    # ------------------------------------------------------------- pairs
    def judge_pairs(self, r, case):
        pairs, prog, kind = case['pairs'], case['prog'], case['kind']
        if kind not in ('meta', 'alias') or not pairs or \
                prog not in ('md2po', 'po2md', 'mdpo2html'):
            raise Invalid
        if any('\n' in p or '\x00' in p for p in pairs):
            raise Invalid
        want, bad = {}, None
        for p in pairs:
            kv = split_pair(p)
            r.counts['pairs'] += 1
            if kv is None:
                bad = p
                break
            if kv[0] in want:
                bad = kv[0]
                r.counts['repeated_keys'] += 1
                break
            want[kv[0]] = kv[1]
        if kind == 'meta':
            prog = 'md2po'
            args = ['Text', '-p', 'out.po', '-s', '-q'] + [
                f'--metadata={p}' for p in pairs]
        else:
            if bad is None and any(v not in ('disable', 'mdpo-disable')
                                   for v in want.values()):
                raise Invalid
            keys = [k for k in want if k and not re.search(r'\s|--|>', k)]
            body = ['Text zero'] + [
                x for n, k in enumerate(keys) for x in (
                    f'<!-- {k} -->', f'Text {n}', '<!-- mdpo-enable -->')] + \
                ['<!-- other: -->', 'Text last']
            if prog == 'mdpo2html':
                src = '\n'.join(b if b[0] == '<' else f'<p>{b}</p>'
                                for b in body)
            else:
                src = '\n\n'.join(body)
            write('in.txt', src)
            args = ['in.txt'] + [f'--command-alias={p}' for p in pairs]
            if prog == 'md2po':
                args += ['-p', 'out.po', '-s', '-q']
            else:
                write('c.po', po_text([
                    (None, b, 'T ' + b) for b in body if b[0] != '<']))
                args += ['-p', 'c.po', '-s', 'out.txt']
        before = cli.snapshot('.')
        got = cli.run(prog, args)
        r.counts['prog_' + prog] += 1
        what = f'{prog} {args}'
        if bad is not None:
            r.counts['pairs_refused'] += 1
            if got.code != 1 or got.exc or bad not in got.err:
                r.bad('accepted', f'{bad!r} in {what}: {got.summary()}')
            elif cli.snapshot('.') != before or cli.writes(got.touched) or \
                    got.out:
                r.bad('written', f'{what}: {cli.writes(got.touched)}')
            return
        if got.exc or got.code:
            r.bad('crash', f'{what}: {got.summary()}')
            return
        r.nontrivial = True
        if kind == 'meta':
            have = {k: got.value.metadata.get(k) for k in want}
            if have != want:
                r.bad('metadata', f'{what}: expected {want}, got {have}')
            return
        if prog == 'md2po':
            have = [e.msgid for e in got.value]
            want = ['Text zero', 'Text last']
        else:
            have = [x for x in re.sub('<.*?>', '', got.value).split('\n')
                    if x.strip()]
            want = ['T Text zero'] + [
                f'Text {n}' for n in range(len(keys))] + ['T Text last']
        if have != want:
            r.bad('alias', f'{what}: expected {want}, got {have}\n  {src!r}')

    # ------------------------------------------------------------ widths
    PROSE = ' '.join(['word', 'other', 'longer', 'a', 'text'] * 60)

    def judge_width(self, r, case):
        v, prog = case['value'], case['prog']
        if prog not in ('md2po', 'po2md', 'md2po2md-po', 'md2po2md-md'):
            raise Invalid
        try:
            num = float(v)
            ok = num == num
        except ValueError:
            ok = False
        write('in.md', self.PROSE + '\n')
        write('c.po', po_text([]))

        def do(value, n):
            if prog == 'md2po':
                return cli.run('md2po', ['in.md', '-p', f'o{n}', '-s', '-q',
                                         f'--wrapwidth={value}'])
            if prog == 'po2md':
                return cli.run('po2md', ['in.md', '-p', 'c.po', '-s', f'o{n}',
                                         f'--wrapwidth={value}'])
            opt = '--po-wrapwidth' if prog.endswith('po') else \
                '--md-wrapwidth'
            got = cli.run('md2po2md', ['in.md', '-l', 'es', '-o',
                                       f'{{lang}}/x.{{ext}}',
                                       f'{opt}={value}'])
            f = 'es/x.po' if prog.endswith('po') else 'es/x.md'
            if os.path.exists(f):
                os.rename(f, f'o{n}')
            return got
        got = do(v, 0)
        if not ok:
            r.counts['widths_refused'] += 1
            if got.code != 1 or got.exc or not got.err:
                r.bad('accepted', f'width {v!r} in {prog}: {got.summary()}')
            elif os.path.exists('o0'):
                r.bad('written', f'width {v!r} in {prog}')
            # the API refuses it too
            for fn in ((lambda: pofile_to_markdown('a', 'c.po', wrapwidth=v)),
                       (lambda: markdown_to_pofile('a', wrapwidth=v))):
                o = call(fn)
                if o or not isinstance(o.exc, ValueError):
                    r.bad('api-accepted', f'width {v!r}: {o.err()}')
            return
        r.counts['widths'] += 1
        r.nontrivial = True
        if got.exc or got.code:
            r.bad('crash', f'width {v!r} in {prog}: {got.summary()}')
            return
        with open('o0') as f:
            text = f.read()
        flat = ''.join(x for x in re.sub(r'"\n"', '', text).split('\n'))
        lines = [x for x in text.split('\n') if 'word' in x]
        if num <= 0 or num > 5000:
            if len(lines) != 1:
                r.bad('wrapped', f'width {v!r} in {prog}:\n{text[:300]}')
            return
        do(str(int(num)), 1)
        with open('o1') as f:
            if f.read() != text:
                r.bad('not-the-integer', f'width {v!r} in {prog}')
        w = int(num)
        if w >= 20 and (len(lines) < 2 or
                        max(len(x) for x in lines) > w + 1 or
                        max(len(x) for x in lines) < w - 12):
            r.bad('width', f'width {v!r} in {prog}: longest line is '
                  f'{max(len(x) for x in lines)} of {len(lines)}')
        if not flat:
            r.bad('empty', prog)

    # ------------------------------------------------- files, globs, texts
    def tree(self, case, form='{}'):
        texts = {}
        for n, f in enumerate(case['files']):
            if f not in TREE:
                raise Invalid
            texts[f] = f'Content {n} here'
            write(f, form.format(texts[f]))
        os.makedirs('sub', exist_ok=True)
        return texts

    def judge_what(self, r, case):
        prog, asked = case['prog'], case['asked']
        if prog not in ('md2po', 'po2md', 'mdpo2html'):
            raise Invalid
        form = '<p>{}</p>' if prog == 'mdpo2html' else '{}'
        texts = self.tree(case, form)
        if not asked.strip():
            raise Invalid
        norm = os.path.normpath(asked) if '\x00' not in asked else asked
        one = texts.get(norm) if not asked.endswith('/') else None
        many = []
        if one is None and prog == 'md2po' and not re.search(
                r'\s[^y]|\x00', asked):
            many = sorted(f for f in texts if shell_match(asked, f))
        write('../z.po', po_text([(None, t, 'T ' + t)
                                  for t in texts.values()]))
        if prog == 'md2po':
            o = call(markdown_to_pofile, asked, location=False)
        elif prog == 'po2md':
            o = call(pofile_to_markdown, asked, '../z.po')
        else:
            o = call(markdown_pofile_to_html, asked, '../z.po')
        what = f'{prog} {asked!r} among {case["files"]}'
        if not o:
            r.bad('crash', f'{what}: {o.err()}')
            return
        r.nontrivial = True
        if prog == 'md2po':
            have = [e.msgid for e in o.value]
            if one is not None or many:
                want = [one] if one is not None else [texts[m] for m in many]
                r.counts['read_files'] += len(want)
            else:
                r.counts['read_text'] += 1
                want = [e.msgid for e in markdown_to_pofile(
                    asked + '\n\n<!-- no file -->\n', location=False)]
        else:
            have = o.value.strip()
            if one is not None:
                r.counts['read_files'] += 1
                want = form.format('T ' + one)
            else:
                r.counts['read_text'] += 1
                if prog == 'po2md':
                    want = pofile_to_markdown(
                        asked + '\n\n<!-- no file -->\n', '../z.po').replace(
                            '<!-- no file -->', '').strip()
                else:
                    want = markdown_pofile_to_html(
                        asked + '<!-- no file -->', '../z.po').replace(
                            '<!-- no file -->', '').strip()
        if have != want:
            r.bad('content', f'{what}: expected {want!r}, got {have!r}')

    def judge_ignore(self, r, case):
        texts = self.tree(case)
        asked, ign = case['asked'], case['ignore']
        if not ign or not asked:
            raise Invalid
        if isinstance(asked, list):
            cand = asked
            if set(cand) - set(texts) or len(set(cand)) != len(cand) or \
                    len(cand) < 2:
                raise Invalid
        else:
            cand = [f for f in texts if shell_match(asked, f)]
            if not cand:
                raise Invalid
        use = sorted(f for f in cand if not is_ignored(f, ign))
        r.counts['ignored_paths'] += len(cand) - len(use)
        args = list(asked) if isinstance(asked, list) else [asked]
        for x in ign:
            args += [f'--ignore={x}']
        got = cli.run('md2po', args)
        if got.exc or got.code:
            r.bad('crash', f'{args}: {got.summary()}')
            return
        have = [e.msgid for e in got.value]
        want = [texts[f] for f in use]
        if have != want:
            r.bad('ignore', f'md2po {args}: expected {want}, got {have}')
        r.nontrivial = bool(use)


def shell_match(pattern, path):
    """Shell patterns; dotfiles do not appear in the trees."""
    if pattern.startswith('./'):
        pattern = pattern[2:]
    a, b = pattern.split('/'), path.split('/')
    return len(a) == len(b) and all(_comp(x, y) for x, y in zip(a, b))


def _comp(pat, name):
    out, i = '', 0
    while i < len(pat):
        c = pat[i]
        j = pat.find(']', i + 2) if c == '[' else -1
        if c == '*':
            out += '.*'
        elif c == '?':
            out += '.'
        elif c == '[' and j > 0:
            body = pat[i + 1:j]
            if body in ('z-a', 's-m'):
                return False
            out += '[' + body + ']'
            i = j
        else:
            out += re.escape(c)
        i += 1
    try:
        return re.fullmatch(out, name, re.S) is not None
    except re.error:        # reversed ranges are empty
        return False


# ------------------------------------------------------------------- X01
EVENTS = ['enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'command', 'msgid', 'link_reference']
PARSE = EVENTS[:5]
HARMLESS = [None, None, True, 0, '', [], 'False', 1, {}]
VETOES = ['command', 'msgid', 'link_reference', 'html-text']
FILES = ['handlers.py', 'json.py', 'os.py', 'mdpo.py', 'my handlers.py',
         'sub/ev.py', 'ñ.py', 'a-b.py', 'test.py', 'x.y.py',
         'polib.py', 'md4c.py', './h.py', 'sub/../g.py']
HANDLERS = """import builtins


def plain(self, *args):
    return builtins._x01('plain', self, args)


class Group:
    def method(self, *args):
        return builtins._x01('method', self, args)

    @staticmethod
    def static(self, *args):
        return builtins._x01('static', self, args)
"""


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return sorted((k, jsonable(v)) for k, v in x.items())
    if isinstance(x, (str, int, type(None))) and not hasattr(x, 'name'):
        return x
    return f'{type(x).__name__}.{x.name}'


def parser_trace(text, exts):
    """The events which the Markdown parser itself reports."""
    import md4c
    out = []

    def on(name):
        return lambda *a: out.append([name] + jsonable(a))
    md4c.GenericParser(0, **dict.fromkeys(exts, True)).parse(
        text, *map(on, PARSE))
    return out


def nesting(trace):
    """What is wrong with the nesting of enter and leave events, or None."""
    stack = []
    for ev in trace:
        kind, what = ev[0], ev[1]
        if kind.startswith('enter'):
            if kind == 'enter_block' and stack and stack[-1][0] == 'span':
                return f'block {what} inside {stack}'
            stack.append((kind[6:], what))
        elif kind.startswith('leave'):
            if not stack or stack.pop() != (kind[6:], what):
                return f'{ev} closes nothing'
    if stack or not trace or trace[0][1] != 'BlockType.DOC' or \
            trace[-1][:2] != ['leave_block', 'BlockType.DOC']:
        return f'left open {stack}'
    return None


class X01(Check):
    """Documents with commands, links and definitions processed with random
    sets of recording handlers (functions, methods, locations in files whose
    names are those of other modules), some of which veto."""
    id = 'X01'
    rule = ('the trace seen by handlers against the trace of the Markdown '
            'parser; results with handlers that veto nothing, or chosen '
            'commands, messages, definitions and HTML, against the results '
            'they must have; non-trivial: at least ten events seen')
    quick_n = 23000
    thorough_n = 230000
    min_counts = {'events': 100000, 'handler_calls': 100000,
                  'vetoed_command': 500, 'vetoed_msgid': 500,
                  'vetoed_link_reference': 300, 'vetoed_html-text': 300,
                  'string_handlers': 1000, 'wrong_locations': 500,
                  'debug_lines': 10000}

    def gen(self, rng, i, tier):
        g = mdgen.G(rng, inl={'t': 20, 'b': 3, 'i': 3, 's': 1, 'c': 3, 'a': 3,
                              'img': 1, 'auto': 1, 'w': 1, 'x': 1, 'ref': 0},
                    maxblocks=7, depth=3, repeat=0.3)
        defs = []
        if rng.random() < 0.5:
            g.f['inl'] = dict(g.f['inl'], ref=5)
            defs = g.make_labels(rng.randint(1, 3))
        doc = sprinkle(g.doc(), rng, 0.5, BLOCK_CMDS + ATTACH_CMDS) + defs
        handlers = {}
        for ev in rng.sample(EVENTS, rng.randint(1, len(EVENTS))):
            handlers[ev] = [rng.randrange(len(HARMLESS))
                            for _ in range(rng.choice([1, 1, 2, 3]))]
        case = {'doc': doc, 'style': rng.randrange(1 << 30),
                'prog': rng.choice(['md2po', 'md2po', 'plaintext', 'po2md']),
                'handlers': handlers, 'veto': None,
                'where': rng.choice(['function', 'function', 'file']),
                'file': rng.choice(FILES), 'pick': rng.randrange(1 << 20),
                'debug': rng.random() < 0.2}
        if rng.random() < 0.5:
            case['veto'] = rng.choice(VETOES)
        return case

    N = 0

    def judge(self, case):
        r = Result()
        doc = case['doc']
        mdgen.valid_blocks(doc, refs=[b[1] for b in doc if b[0] == 'def'])
        text = mdgen.render(doc, case['style'])
        if not text.strip() or case['prog'] not in (
                'md2po', 'plaintext', 'po2md') or not case['file'] in FILES:
            raise Invalid
        mdtree.meant(doc, text)
        if case['veto'] not in VETOES + [None] or case['where'] not in (
                'function', 'file'):
            raise Invalid
        if any(e not in EVENTS or not hs for e, hs in
               case['handlers'].items()):
            raise Invalid
        try:
            found = model.Extract().document(doc).unique()
        except model.Rejected:
            raise Invalid
        trs = [(m.ctxt, m.text, f'C{n}') for n, m in enumerate(found)
               if m.ctxt and n % 4] + [(None, mdgen.canon(x), f'T{n}')
               for n, x in enumerate(mdgen.text_blocks(doc)) if n % 3]
        write('c.po', po_text(list({t[:2]: t for t in trs}.values())))
        plain = self.run(case, text, None)
        if not plain[0]:
            raise Invalid
        self.observe(r, case, text, plain)
        if not r.viol and case['veto']:
            self.veto(r, case, text)
        if not r.viol:
            self.wrong(r, case)
        if case['debug'] and not r.viol:
            self.debug(r, case, text, plain)
        r.nontrivial = r.counts['events'] >= 10
        r.info = {'markdown': text, 'program': case['prog'],
                  'handlers': case['handlers'], 'veto': case['veto'],
                  'locations': case['where']}
        return r

    def run(self, case, text, events, **kw):
        """(outcome, comparable result)."""
        if events is not None:
            kw['events'] = events
        if case['prog'] == 'po2md':
            o = call(pofile_to_markdown, text, 'c.po', wrapwidth=0, **kw)
            return o, o.value
        o = call(markdown_to_pofile, text,
                 plaintext=case['prog'] == 'plaintext', **kw)
        return o, [(e.msgctxt, e.msgid, e.msgstr, e.comment or '', e.flags)
                   for e in o.value] if o else None

    # ---------------------------------------------------------- no vetoes
    def observe(self, r, case, text, plain):
        calls = []
        selfs = set()
        handlers = case['handlers']

        def make(ev, n, ret):
            def handler(self, *args):
                selfs.add(type(self).__name__)
                calls.append((ev, n, jsonable(args)))
                return ret
            return handler
        events = {}
        if case['where'] == 'file':
            r.counts['string_handlers'] += 1
            events = self.in_files(case, calls, selfs)
        else:
            for ev, rets in handlers.items():
                hs = [make(ev, n, HARMLESS[k % len(HARMLESS)])
                      for n, k in enumerate(rets)]
                events[ev] = hs[0] if len(hs) == 1 and case['pick'] % 2 \
                    else hs
        got = self.run(case, text, events)
        what = f'handlers={handlers} {case["where"]}={case["file"]} ' \
            f'program={case["prog"]}\n  markdown={text!r}'
        if got[1] != plain[1]:
            r.bad('changed', f'{got[0].err() or got[1]!r} instead of '
                  f'{plain[1]!r}\n  {what}')
            return
        if selfs - {'Po2Md' if case['prog'] == 'po2md' else 'Md2Po'}:
            r.bad('self', f'{selfs}\n  {what}')
        r.counts['handler_calls'] += len(calls)
        # all the handlers of an event are called, in order, alike
        seen, k = [], 0
        while k < len(calls):
            ev, n, args = calls[k]
            group = calls[k:k + len(handlers[ev])]
            if group != [(ev, m, args) for m in range(len(handlers[ev]))]:
                r.bad('handlers', f'{group} of {len(handlers[ev])}\n  {what}')
                return
            seen.append([ev] + args)
            k += len(group)
        r.counts['events'] += len(seen)
        exts = DEFAULT_EXT
        ref = parser_trace(text, exts)
        wrong = nesting(ref)
        if wrong:
            raise AssertionError(wrong)
        exp = [e for e in ref if e[0] in handlers]
        have = [e for e in seen if e[0] in PARSE]
        if exp != have:
            i = next((i for i, (a, b) in enumerate(zip(exp, have))
                      if a != b), min(len(exp), len(have)))
            r.bad('trace', f'event {i}: expected {exp[i:i + 2]}, got '
                  f'{have[i:i + 2]}\n  {what}')
        if set(PARSE[:4]) <= set(handlers) and nesting(have):
            r.bad('nesting', f'{nesting(have)}\n  {what}')
        self.others(r, case, seen, what)

    def others(self, r, case, seen, what):
        """The events which are not of the Markdown parser."""
        doc = case['doc']
        mod = Trace().document(doc)
        if 'command' in case['handlers']:
            got = [e[1:] for e in seen if e[0] == 'command' and e[1] in NAMES]
            if got != mod.commands:
                r.bad('commands', f'expected {mod.commands}, got {got}\n  '
                      f'{what}')
        if 'msgid' in case['handlers'] and case['prog'] == 'md2po':
            got = [[e[1], e[2], e[3], e[4], e[5]]
                   for e in seen if e[0] == 'msgid' and e[1]]
            if got != mod.messages:
                r.bad('messages', f'expected {mod.messages}\n  got '
                      f'{got}\n  {what}')
        if 'link_reference' in case['handlers'] and \
                case['prog'] == 'md2po' and mdgen.has_links(doc):
            got = [e[1] for e in seen if e[0] == 'link_reference']
            want = [b[1] for b in doc if b[0] == 'def']
            if got != want:
                r.bad('references', f'expected {want}, got {got}\n  {what}')

    def in_files(self, case, calls, selfs):
        import builtins
        X01.N += 1
        d = os.path.join(self.scratch, f'ev{X01.N % 50}')
        import shutil
        import sys
        shutil.rmtree(d, ignore_errors=True)
        for m in [m for m in sys.modules
                  if f'.ev{X01.N % 50}.' in m and 'mdpo-verif' in m]:
            del sys.modules[m]
        path = os.path.join(d, case['file'])
        os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
        write(path, HANDLERS)
        paths = [path] * 3
        if case['pick'] % 3 == 0:   # files with the same name
            for n in (1, 2):
                paths[n] = os.path.join(d, f'o{n}', case['file'])
                os.makedirs(os.path.join(d, f'o{n}', 'sub'), exist_ok=True)
                write(paths[n], HANDLERS.replace("('", f"('{n} "))
        # one handler kind per event tells the events apart
        kinds = ['plain', 'Group.method', 'Group.static']
        evs = [e for e in case['handlers']][:3]
        for e in list(case['handlers']):
            if e not in evs:
                del case['handlers'][e]
        names = {}
        events = {}
        for e, kname, path in zip(evs, kinds, paths):
            first = path == paths[0]
            names[kname.split('.')[-1] if first else
                  f'{paths.index(path)} ' + kname.split('.')[-1]] = e
            n = len(case['handlers'][e])
            loc = f'{path}::{kname}'
            events[e] = loc if n == 1 else [loc] * n
        count = {e: 0 for e in evs}

        def hook(name, obj, args):
            ev = names.get(name)
            if ev is None:
                calls.append((evs[0], 0, f'function of other file: {name}'))
                return None
            n = len(case['handlers'][ev])
            ret = HARMLESS[case['handlers'][ev][count[ev] % n]
                           % len(HARMLESS)]
            calls.append((ev, count[ev] % n, jsonable(args)))
            count[ev] += 1
            selfs.add(type(obj).__name__)
            return ret
        builtins._x01 = hook
        return events

    # ------------------------------------------------------------- vetoes
    def veto(self, r, case, text):
        kind, doc, prog = case['veto'], case['doc'], case['prog']
        pick = case['pick']
        done = []
        others = []
        if kind == 'command':
            if prog == 'plaintext':
                return
            n = [0]

            def handler(self, command, comment, original):
                n[0] += 1
                if (pick >> n[0] % 12) & 1 and command in NAMES:
                    done.append(n[0])
                    return False
            # commands are numbered with the other comments
            skip = lambda k: bool((pick >> k % 12) & 1)
            ev = 'command'
        elif kind == 'msgid':
            if prog != 'md2po':
                return
            texts = sorted({m.text for m in Trace().document(doc).extracted
                            if not m.msgstr})
            gone = {t for k, t in enumerate(texts) if (pick >> k % 12) & 1}

            def handler(self, msgid, msgstr, msgctxt, tcomment, flags):
                if msgid in gone and not msgstr:
                    done.append(msgid)
                    return False
            ev = 'msgid'
        elif kind == 'link_reference':
            labels = [b[1] for b in doc if b[0] == 'def']
            gone = {t for k, t in enumerate(labels) if (pick >> k % 12) & 1}
            if not mdgen.has_links(doc) or not labels or prog == 'plaintext':
                return

            def handler(self, target, href, title):
                if target in gone:
                    done.append(target)
                    return False
            ev = 'link_reference'
        else:
            if prog == 'po2md':
                return

            def handler(self, block, txt):
                if block.name == 'HTML':
                    done.append(txt)
                    return False
            ev = 'text'
        pos = pick % 3
        hs = [lambda *a: others.append(1) for _ in range(3)]
        hs.insert(pos, handler)
        base = self.run(case, text, None)[1]
        o, got = self.run(case, text, {ev: hs})
        what = f'veto={kind} {done} program={prog}\n  markdown={text!r}'
        if not o:
            if isinstance(o.exc, ValueError) and 'You need' in str(o.exc):
                return
            r.bad('veto-crash', f'{o.err()}\n  {what}')
            return
        if len(others) % 3:
            r.bad('veto-handlers', f'{len(others)} calls of 3 handlers which '
                  f'do not veto\n  {what}')
        if not done:
            if got != base:
                r.bad('veto-nothing', f'{got!r}\n  {what}')
            return
        r.counts['vetoed_' + kind] += 1
        if kind == 'command':
            n = [0]
            new = neutral(doc, skip, n)
            if prog == 'po2md':
                new_text = mdgen.render(new, case['style'])
                mdtree.meant(new, new_text)
                want = self.run(case, new_text, None)[1]
            else:
                want = rows(model.Extract().document(new))
        elif kind == 'msgid':
            mod = Without(gone).document(doc)
            want = rows(mod)
        elif kind == 'link_reference':
            if prog == 'po2md':
                want = [x for x in base.split('\n') if x.strip() and not any(
                    x.startswith(f'[{t}]:') for t in gone)]
                got = [x for x in got.split('\n') if x.strip()]
            else:
                want = [x for x in base if not any(
                    x[1].startswith(f'[{t}]:') and x[2] for t in gone)]
        else:
            off = neutral(doc, lambda k: True, [0])
            want = rows(model.Extract(
                plaintext=prog == 'plaintext').document(off))
        if want != got:
            r.bad('veto', f'expected {want!r}\n  got {got!r}\n  {what}')

    # ---------------------------------------------------- wrong locations
    def wrong(self, r, case):
        write('good.py', HANDLERS)
        pick = case['pick']
        loc, exc, name = [
            ('good.py', ValueError, 'good.py'),
            ('none.py::plain', FileNotFoundError, 'none.py'),
            ('good.py::nothing', ValueError, 'nothing'),
            ('good.py::Nobody.method', ValueError, 'Nobody'),
            ('good.py::Group.nothing', ValueError, 'nothing'),
            ('::plain', FileNotFoundError, ''),
            ('.::plain', FileNotFoundError, ''),
            ('good.py::', ValueError, 'good.py'),
        ][pick % 8]
        ev = EVENTS[pick // 8 % 8]
        if pick % 3 == 0:
            loc = [lambda *a: None, loc]
        o = self.run(case, 'Text', {ev: loc})[0]
        r.counts['wrong_locations'] += 1
        if o or not isinstance(o.exc, exc) or name not in str(o.exc) or \
                ev not in str(o.exc):
            r.bad('wrong-location', f'{ev}: {loc!r}: {o.err()}')

    def debug(self, r, case, text, plain):
        import contextlib
        import io
        buf = io.StringIO()
        seen = []
        events = {ev: (lambda ev: lambda self, *a: seen.append(
            (ev, a)))(ev) for ev in EVENTS} if case['pick'] % 2 else {}
        with contextlib.redirect_stdout(buf):
            got = self.run(case, text, events, debug=True)
        if got[1] != plain[1]:
            r.bad('debug-changed', f'{got[0].err() or got[1]!r} instead of '
                  f'{plain[1]!r}')
        prog = 'po2md' if case['prog'] == 'po2md' else 'md2po'
        out = buf.getvalue()
        tags = re.findall(
            rf'^{prog}\[DEBUG\]::[-0-9: .]+::([a-z_]+):: ?', out, re.M)
        r.counts['debug_lines'] += len(tags)
        if seen and tags != [e for e, a in seen]:
            r.bad('debug-lines', f'expected {[e for e, a in seen]}, printed '
                  f'{tags}\n  markdown={text!r}')
        elif seen:
            # what the lines say
            said = re.split(rf'^{prog}\[DEBUG\]::[-0-9: .]+::[a-z_]+::',
                            out, flags=re.M)[1:]
            for (ev, args), line in zip(seen, said):
                if ev in ('msgid', 'command', 'link_reference', 'text') and \
                        not all(a in line for a in args
                                if isinstance(a, str)):
                    r.bad('debug-says', f'{ev} {args}: {line!r}\n  '
                          f'markdown={text!r}')
                    break
        ref = [e[0] for e in parser_trace(text, DEFAULT_EXT)]
        if [t for t in tags if t in PARSE] != ref:
            r.bad('debug-trace', f'expected {ref}, printed {tags}')


def rows(mod):
    return [(m.ctxt, m.text, m.msgstr, m.comment or '',
             ['fuzzy'] if m.fuzzy else []) for m in mod.unique()]


def neutral(blocks, skip, n):
    """The document with some commands changed by one without effect."""
    out = []
    for b in blocks:
        k = b[0]
        if k in ('cmd', 'cm'):
            n[0] += 1
            if k == 'cmd' and skip(n[0]):
                b = ['cmd', 'mdpo-disable-codeblock', b[2]]
        elif k in ('ul', 'ol'):
            b = b[:-1] + [[[it[0], neutral(it[1], skip, n)]
                           for it in b[-1]]]
        elif k == 'q':
            b = ['q', neutral(b[1], skip, n)]
        out.append(b)
    return out


class Trace(model.Extract):
    """Also records the commands and messages in order."""

    def reset_file(self):
        super().reset_file()
        self.commands, self.messages = [], []

    def command(self, name, arg):
        self.commands.append([name, arg.strip(' ') if arg else None, name])
        super().command(name, arg)

    def emit(self, text, inl=None, **kw):
        if text:
            self.messages.append([
                text, kw.get('msgstr', ''), self.ctxt, self.comment,
                ['fuzzy'] if kw.get('fuzzy') else []])
        super().emit(text, inl, **kw)


class Without(model.Extract):
    """Extraction where some messages are vetoed."""

    def __init__(self, gone):
        self.gone = gone
        super().__init__()

    def emit(self, text, inl=None, **kw):
        if text in self.gone and not kw.get('msgstr'):
            return
        super().emit(text, inl, **kw)


CHECKS = {'X01': X01, 'X02': X02, 'X03': X03, 'X04': X04}
