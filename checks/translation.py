"""T01-T08: what translating a Markdown document with catalogs produces."""
import collections
import os
import random
import re
import sys

import mdgen
import mdtree
import model
from engine import Check, Invalid, Known, Result, jdump, sig_of
from extraction import (BLOCK_CMDS, DEFAULT_EXT, CODE_CMDS, _allblocks, _rename,
                        one_cmd,
                        diff_lists, sprinkle, write)
from sut import (Md2Po, Po2Md, call, markdown_pofile_to_html,
                 markdown_to_pofile, pofile_to_markdown)

INF = float('inf')


# ------------------------------------------------------------------ catalogs
def po_str(s):
    return '"' + (s.replace('\\', '\\\\').replace('"', '\\"')
                  .replace('\n', '\\n').replace('\t', '\\t')
                  .replace('\r', '\\r')) + '"'


def po_text(rows, header=True):
    """A PO file from (ctxt, msgid, msgstr[, flags]) rows, no polib."""
    out = ['#', 'msgid ""', 'msgstr ""',
           '"Content-Type: text/plain; charset=UTF-8\\n"', ''] \
        if header else []
    for row in rows:
        ctxt, msgid, msgstr = row[:3]
        if len(row) > 3 and row[3]:
            out.append('#, ' + row[3])
        if ctxt is not None:
            out.append('msgctxt ' + po_str(ctxt))
        out.append('msgid ' + po_str(msgid))
        out.append('msgstr ' + po_str(msgstr))
        out.append('')
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ the trees
def norm(tree, ignore=False):
    """Start numbers of ordered lists are not kept (documented);
    blanks are equivalent (or, if `ignore`, not compared at all)."""
    out = []
    for n in tree:
        if n[0] == 'ol':
            n = ['ol', 1, norm(n[2], ignore)]
        elif n[0] in ('ul', 'q', 'li'):
            n = list(n[:-1]) + [norm(n[-1], ignore)]
        elif n[0] not in ('code', 'html'):
            n = _blanks(n, ignore)
        else:
            n = list(n)
        out.append(n)
    return out


def _blanks(x, ignore):
    if isinstance(x, str):
        return re.sub(r'[ \n]+', '' if ignore else ' ', x)
    if isinstance(x, list):
        return [_blanks(y, ignore) for y in x]
    return x


def closest(exp, out, norm):
    """The tree of an output, or the first which is as expected of those of the
    output moved by a few characters (see mdtree.trees)."""
    first = None
    for t in mdtree.trees(out):
        t = norm(t)
        if t == exp:
            return t
        if first is None:
            first = t
    return first


def first_diff(a, b, path=''):
    """Where two trees differ first."""
    if type(a) is not type(b) or not isinstance(a, list):
        return None if a == b else f'{path}: expected {a!r}, got {b!r}'
    for i, (x, y) in enumerate(zip(a, b)):
        d = first_diff(x, y, f'{path}/{i}')
        if d:
            return d
    if len(a) != len(b):
        return f'{path}: expected {len(a)} parts, got {len(b)}: ' \
               f'{a[len(b):][:2]!r} {b[len(a):][:2]!r}'
    return None


def diff_kind(a, b):
    ka, kb = _kinds(a), _kinds(b)
    return 'structure' if ka != kb else 'content'


def _kinds(x):
    return [(n[0], _kinds(n[-1]) if n[0] in ('ul', 'ol', 'q', 'li') else
             n[1] if n[0] in ('h', 'tb') else None) for n in x]


# ------------------------------------------------------------------ documents
ITEM = {'ul': 4, 'ol': 3, 'p': 3, 'f': 1, 'tb': 1, 'html': 1, 'h': 1,
        'hr': 1, 'ind': 1}
BLK = {'p': 10, 'h': 4, 'ul': 5, 'ol': 4, 'q': 3, 'f': 2, 'ind': 1, 'hr': 1,
       'tb': 2, 'html': 1, 'cm': 1}
# quotes inside lists and lists inside quotes, or only one of them
MIXES = [dict(blk=BLK, item_blocks=dict(ITEM, q=1), ol_tasks=True),
         dict(blk=BLK, item_blocks=dict(ITEM, q=1), ol_tasks=True,
              not_in_quote=('ul', 'ol')),
         dict(blk=BLK, item_blocks=ITEM, ol_tasks=True)]


def has(blocks, kinds):
    return any(b[0] in kinds for b in _allblocks(blocks))


def clean_tasks(blocks, quoted=False):
    """md4c does not see the checkbox of an item that follows, without a
    blank line, an item with a quote (or a nested list inside a quote):
    such documents are not generated."""
    out = []
    for b in blocks:
        k = b[0]
        if k in ('ul', 'ol'):
            items = []
            risky = False
            for it in b[-1]:
                items.append([None if risky else it[0],
                              clean_tasks(it[1], quoted)])
                if has(it[1], ('q',)) or quoted and has(it[1], ('ul', 'ol')):
                    risky = True
            b = b[:-1] + [items]
        elif k == 'q':
            b = ['q', clean_tasks(b[1], True)]
        out.append(b)
    return out


def scope_ok(doc):
    """Documents outside the claimed class are not experiments."""
    if clean_tasks(doc) != doc:
        raise Invalid('md4c checkbox')
    if not [b for b in doc if b[0] not in ('cm', 'cmd', 'def')
            and not (b[0] == 'html' and b[1].startswith('<!--'))]:
        raise Invalid('only comments')
    _nest_ok(doc, False, False)


def _nest_ok(blocks, in_list, in_quote):
    for j, b in enumerate(blocks):
        k = b[0]
        if in_list and k == 'cmd' and j == 0 and len(blocks) > 1 and \
                blocks[1][0] == 'ind':
            raise Invalid('item of indented code')
        if k in ('ul', 'ol'):
            for it in b[-1]:
                _nest_ok(it[1], True, in_quote)
                if in_quote and has(it[1], ('q',)):
                    raise Invalid('nesting')
        elif k == 'q':
            if in_list and has(b[1], ('ul', 'ol')):
                raise Invalid('nesting')
            _nest_ok(b[1], in_list, True)


def edges_ok(inl, ctx=''):
    """Canonical markup of nested spans must not be ambiguous."""
    if not ctx and inl[0][0] in ('h', 'm', 'x', 'e'):
        raise Invalid('start')
    for j, n in enumerate(inl):
        if n[0] in ('b', 'i') and ctx in ('b', 'i') and \
                (j == 0 or j == len(inl) - 1):
            raise Invalid('ambiguous markup')
        if n[0] in ('auto', 'a', 'img') and len(n[2 if n[0] != 'auto'
                                                  else 1]) < 8:
            raise Invalid('url')
        if n[0] in ('b', 'i', 's', 'u', 'a', 'ref'):
            edges_ok(n[1], n[0])


SAFE_WORDS = (
    'alpha beta gamma delta epsilon zeta eta theta iota kappa lambda sigma '
    'tree house river window letter garden market engine signal '
    'día año mañana niño corazón naïve façade über straße Ωmega привет мир '
    'книга ěščř łódź x1 v2 i18n key foo bar ñ é').split()


class SafeG(mdgen.G):
    """Texts whose only line break opportunities are their blanks."""

    def word(self):
        w = self.r.choice(SAFE_WORDS)
        if self.r.random() < 0.35:
            self.n += 1
            w = f'w{self.n}'
        return w

    def startword(self):
        self.n += 1
        return f'{self.r.choice(["k", "Q", "ñ", "z"])}{self.n}'

    def words(self, lo=1, hi=6, start=False):
        n = self.r.randint(lo, hi)
        out = [self.startword() if start else self.word()]
        for _ in range(n - 1):
            w = self.word()
            if self.r.random() < 0.1:
                w += self.r.choice([',', '.'])
            out.append(w)
        return ' '.join(out)

    def url(self):
        self.urls += 1
        return self.r.choice([f'https://ex{self.urls}.org/p/{self.urls}',
                              f'docs/file{self.urls}.md#s{self.urls}'])

    def code(self):
        self.n += 1
        return self.r.choice(['x', 'f(a, b)', 'a b c', 'k(v)']) + f' {self.n}'

    def title(self):
        return None if self.r.random() < 0.6 else self.words(1, 2, True)


class TranslationCheck(Check):
    """Common workload: documents and catalogs."""
    bystanders = 0.15
    cls = mdgen.G
    features = {}
    trans_p = 0.7
    label_p = 0.2
    width = INF

    def mkgen(self, rng, tier='quick'):
        f = dict(rng.choice(MIXES))
        f.update(depth=3, empty_code=True, empty_items=True,
                 empty_cells=True, item_first=mdgen.ITEM_FIRST)
        f.update(self.features)
        if tier == 'thorough' and rng.random() < 0.3:
            f.update(maxblocks=16, depth=4)
        return self.cls(rng, **f)

    def make_doc(self, rng, tier):
        g = self.mkgen(rng, tier)
        defs = []
        if rng.random() < self.label_p:
            inl = dict(g.f['inl'])
            inl.update(ref=4, imgref=1)
            g.f['inl'] = inl
            defs = g.make_labels(rng.randint(1, 3))
        doc = clean_tasks(g.doc())
        for d in defs:
            doc.append(d)
        return doc, g

    def translations(self, doc, g, rng):
        """{index of the message: translated inline content}."""
        keys = []
        for inl in mdgen.text_blocks(doc):
            k = mdgen.canon(inl)
            if k not in keys:
                keys.append(k)
        tr = {}
        p = rng.choice([0, 0.5, 0.5, 1, 1])
        for i in range(len(keys)):
            if rng.random() < p:
                g.pool = []
                tr[str(i)] = mdgen._nopipe(
                    g.inl(1, rng.choice([1, 2, 3, 5]), block=True))
        return tr

    def gen(self, rng, i, tier):
        doc, g = self.make_doc(rng, tier)
        keep, g.f = g.f, dict(g.f, inl={
            k: v for k, v in g.f['inl'].items() if k not in ('m',)})
        tr = self.translations(doc, g, rng)
        g.f = keep
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30), 'tr': tr}
        self.more(case, rng, g)
        return case

    def more(self, case, rng, g):
        pass

    style = {}

    def source(self, case):
        doc = case['doc']
        labels = [b[1] for b in doc if b[0] == 'def']
        mdgen.valid_blocks(doc, refs=labels)
        scope_ok(doc)
        if labels and not mdgen.has_links(doc):
            raise Invalid('unused definitions')
        for inl in mdgen.text_blocks(doc):
            edges_ok(inl)
        text = mdgen.render(doc, case['style'], **self.style)
        if not text.strip():
            raise Invalid
        mdtree.meant(doc, text)
        return text

    def mapping(self, case):
        """{message text: translated inline content}."""
        out, i = {}, 0
        for inl in mdgen.text_blocks(case['doc']):
            k = mdgen.canon(inl)
            if k in out:
                continue
            t = case['tr'].get(str(i))
            if t is not None:
                mdgen.valid_inl(t)
                edges_ok(t)
            out[k] = t
            i += 1
        return out

    def markup(self, b):
        t = f' "{mdgen._po_escape(b[3])}"' if b[3] else ''
        return f'[{b[1]}]: {mdgen._angled(b[2])}{t}'

    def compare_trees(self, r, exp, text, out, ignore=False, tag=''):
        a = norm(exp, ignore)
        b = closest(a, out, lambda x: norm(x, ignore))
        if a != b:
            r.bad(tag + diff_kind(a, b),
                  f'{first_diff(a, b)}\n  source={text!r}\n  output={out!r}')
        r.counts['blocks_compared'] += len(a)


class T01(TranslationCheck):
    """Random documents with random (full, partial or no) translations; the
    output must parse to the translated document tree."""
    id = 'T01'
    rule = ('documents of every block structure with generated translations '
            '(markup included) of a random subset of the messages and '
            'distractor entries in other contexts; non-trivial: at least '
            'two texts, one of them translated')
    quick_n = 40000
    thorough_n = 400000
    features = dict(quoted_titles=True, wild=True, hard_defs=True)
    min_counts = {'translated_texts': 5000, 'untranslated_texts': 1000}

    def more(self, case, rng, g):
        case['distract'] = rng.random() < 0.3
        case['deftr'] = rng.random() < 0.5

    def judge(self, case):
        r = Result()
        text = self.source(case)
        m = self.mapping(case)
        doc = case['doc']
        rows = [(None, k, '' if t is None else mdgen.canon(t))
                for k, t in m.items()]
        if case.get('distract'):
            rows += [('other', k, 'WRONG context') for k in m]
            rows.insert(0, (None, 'not in the document', 'WRONG text'))
        newdefs = []
        for j, b in enumerate(doc):
            if b[0] == 'def' and case.get('deftr'):
                src, nb = self.markup(b), ['def', b[1], f'tr/{j}', None]
                if b[3]:
                    nb[3] = f'Title {j}'
                rows.append((None, src, self.markup(nb)))
                newdefs.append(nb)
            elif b[0] == 'def':
                newdefs.append(b)
        write('c.po', po_text(rows))
        o = call(pofile_to_markdown, text, 'c.po', wrapwidth=self.width)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r

        def tr(inl):
            t = m[mdgen.canon(inl)]
            n = 'translated_texts' if t is not None else 'untranslated_texts'
            r.counts[n] += 1
            return inl if t is None else t
        exp = mdgen.map_text([b for b in doc if b[0] != 'def'], tr)
        exp += newdefs
        self.compare_trees(r, mdtree.of_doc(exp), text, o.value)
        marks = mdtree.list_marks(text)
        if marks and not r.viol:
            got = mdtree.list_marks(o.value)
            if got != marks and not any(
                    mdtree.list_marks('x' * n + '\n\n' + o.value) == marks
                    for n in (5, 38, 91)):
                r.bad('list-markers', f'expected {marks}, got {got}'
                      f'\n  source={text!r}\n  output={o.value!r}')
            r.counts['list_markers'] += len(marks)
        r.nontrivial = r.counts['translated_texts'] > 0 and len(m) > 1
        r.info = {'markdown': text, 'catalog': open('c.po').read()}
        return r


class T02(TranslationCheck):
    """Documents translated with catalogs that match nothing."""
    id = 'T02'
    rule = ('documents of every block structure translated with an empty, '
            'unrelated or untranslated catalog, the output re-parsed and '
            're-extracted; non-trivial: at least two messages')
    quick_n = 40000
    thorough_n = 400000
    features = dict(wild=True, hard_defs=True, code_defs=True)
    min_counts = {'messages': 10000}

    def gen(self, rng, i, tier):
        doc, g = self.make_doc(rng, tier)
        return {'doc': doc, 'style': rng.randrange(1, 1 << 30),
                'cat': rng.choice(['empty', 'other', 'untranslated'])}

    def judge(self, case):
        r = Result()
        text = self.source(case)
        doc = case['doc']
        mod = model.Extract().document(doc)
        rows = []
        if case['cat'] == 'other':
            rows = [(None, 'unrelated', 'WRONG')]
            rows += [('ctx', m.text, 'WRONG') for m in mod.unique()]
        elif case['cat'] == 'untranslated':
            rows = [(m.ctxt, m.text, '') for m in mod.unique()]
        write('c.po', po_text(rows))
        o = call(pofile_to_markdown, text, 'c.po', wrapwidth=INF)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        self.compare_trees(r, mdtree.of_doc(doc), text, o.value)
        exp = [(m.ctxt, m.text, m.msgstr) for m in mod.unique()]
        got = []
        for n in (0, 5, 38, 91) if o.value.strip() else ():
            # a document is not judged by where it begins (see mdtree.trees)
            e2 = call(markdown_to_pofile, ('x' * n + '\n\n' if n else '') +
                      o.value)
            again = [(e.msgctxt, e.msgid, e.msgstr) for e in e2.value
                     if e.msgid != 'x' * n] if e2 else []
            got = got or again
            if again == exp:
                got = again
                break
        d = diff_lists(exp, got)
        if d:
            r.bad('re-extraction-' + d[0], f'{d[1]}\n  source={text!r}\n'
                  f'  output={o.value!r}')
        r.counts['messages'] += len(exp)
        r.nontrivial = len(exp) >= 2
        r.info = {'markdown': text, 'catalog': case['cat']}
        return r


HOSTILE = ['```', '~~~', '````', '  ```', '~~~~ x', '    four', '',
           '   three', 'a\tb', '# h', '- a', '1. b', '> q', '<!-- mdpo-disable -->',
           '<!-- note -->', '[a]: b', '| a | b |', '***', '===', '<div>',
           '"x" \\n \\', '\\\\', 'a  b', '&amp;', '*e* **s** `c`', '\u00e9中🙂',
           'trailing ', '$x$', '{{ x }}', "it's"]
INFOS = ['', '', 'python', 'c++', 'js {1}', 'text title="a b"', 'sh-session',
         '{.lang #id}', 'ñ']


class T03(TranslationCheck):
    """Code blocks with hostile content, HTML blocks and comments, with and
    without translation."""
    id = 'T03'
    rule = ('documents dense in fenced and indented code with fence-like, '
            'blank, indented and markup-like lines, HTML blocks, inline HTML '
            'and comments, some code blocks translated; non-trivial: at '
            'least one code block and one other block')
    quick_n = 84000
    thorough_n = 840000
    label_p = 0
    features = dict(
        inl={'t': 20, 'b': 1, 'c': 2, 'h': 6, 'e': 2},
        blk={'p': 5, 'h': 1, 'ul': 2, 'ol': 1, 'q': 2, 'f': 9, 'ind': 3,
             'hr': 1, 'html': 5, 'cm': 4})
    min_counts = {'code_blocks': 5000, 'html_blocks': 3000,
                  'translated_code': 1000}

    def gen(self, rng, i, tier):
        doc, g = self.make_doc(rng, tier)

        def hostile(blocks, top=True):
            for b in blocks:
                if b[0] == 'f' and rng.random() < 0.6:
                    b[1] = rng.choice(INFOS)
                    if top:
                        g.n += 1
                        b[2] = [f'k{g.n}'] * (rng.random() < 0.3) + [
                            rng.choice(HOSTILE)
                            for _ in range(rng.randint(1, 4))]
                        if not any(b[2]):
                            b[2][-1] = 'z'
                elif b[0] in ('ul', 'ol'):
                    for it in b[-1]:
                        hostile(it[1], False)
                elif b[0] == 'q':
                    hostile(b[1], False)
        hostile(doc)
        ctr = {}
        for b in _allblocks(doc):
            if b[0] in ('f', 'ind') and b[-1] and rng.random() < 0.3:
                code = '\n'.join(b[-1]) + '\n'
                if code not in ctr:
                    g.n += 1
                    ctr[code] = [rng.choice(HOSTILE[:20]) or 'a',
                                 f'tr {g.n}']
        return {'doc': doc, 'style': rng.randrange(1, 1 << 30), 'ctr': ctr}

    def judge(self, case):
        r = Result()
        text = self.source(case)
        doc = case['doc']
        ctr = {}
        for k, lines in case['ctr'].items():
            if not k.endswith('\n') or not lines or not lines[0] or \
                    not lines[-1]:
                raise Invalid
            ctr[k] = list(lines)
        for b in _allblocks(doc):
            if b[0] == 'ind' and lines_start_blank(
                    ctr.get('\n'.join(b[1]) + '\n')):
                raise Invalid
        write('c.po', po_text([(None, k, '\n'.join(v) + '\n')
                               for k, v in ctr.items()]))
        o = call(pofile_to_markdown, text, 'c.po', wrapwidth=INF)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r

        def sub(blocks):
            out = []
            for b in blocks:
                b = list(b)
                if b[0] in ('f', 'ind'):
                    t = ctr.get('\n'.join(b[-1]) + '\n') \
                        if b[-1] else None
                    r.counts['code_blocks'] += 1
                    if t is not None:
                        b[-1] = t
                        r.counts['translated_code'] += 1
                elif b[0] in ('html', 'cm'):
                    r.counts['html_blocks'] += 1
                elif b[0] in ('ul', 'ol'):
                    b[-1] = [[it[0], sub(it[1])] for it in b[-1]]
                elif b[0] == 'q':
                    b[-1] = sub(b[-1])
                out.append(b)
            return out
        exp = mdtree.of_doc(sub(doc))
        # comments keep their own spelling
        src = mdtree.tree(text)
        for x, y in zip(raw_html(exp), raw_html(src)):
            x[1] = y[1]
        self.compare_trees(r, exp, text, o.value)
        r.nontrivial = r.counts['code_blocks'] > 0 and len(doc) > 1
        r.info = {'markdown': text, 'catalog': open('c.po').read()}
        return r


def lines_start_blank(lines):
    return bool(lines) and lines[0][:1] in (' ', '\t')


def raw_html(tree):
    for n in tree:
        if n[0] == 'html':
            yield n
        elif n[0] in ('ul', 'ol', 'q', 'li'):
            yield from raw_html(n[-1])


REPLACED = [
    {'bold': ['<b>', '</b>']}, {'italic': ['_', '_']},
    {'bold': ['__', '__'], 'italic': ['_', '_']},
    {'strikethrough': ['--', '++']}, {'latexmath': ['\\(', '\\)']},
    {'wikilink': ['{{', '}}']}, {'code': ['@', '@']},
    {'italic': ['/', '/'], 'strikethrough': ['~', '~'],
     'latexmath': ['%', '%']}, {'underline': ['<u>', '</u>']},
]


class T04(TranslationCheck):
    """Extract, fill every message, translate: every message must be used,
    and both tools must report the same disabled ones."""
    id = 'T04'
    rule = ('documents with every kind of mdpo command (aliases included) '
            'extracted and translated with the filled catalog; non-trivial: '
            'at least two messages, one command')
    quick_n = 43000
    thorough_n = 430000
    names = None
    features = dict(repeat=0.25)
    min_counts = {'keys': 10000, 'commands': 2000, 'disabled': 500,
                  'contexts': 500, 'extensions': 1500, 'delimiters': 1500}

    def gen(self, rng, i, tier):
        doc, g = self.make_doc(rng, tier)
        names = rng.choice([T_CMDS, T_CMDS, BLOCK_CMDS,
                            ['mdpo-context'] * 3 + BLOCK_CMDS])
        doc = sprinkle(doc, rng, rng.choice([0, 0.3, 0.6]), names)
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30), 'opts': {}}
        if rng.random() < 0.3:
            al = {}
            for n in rng.sample(BLOCK_CMDS, 2) + ['mdpo-context']:
                a = rng.choice(['off', 'on', 'x-', 'skip', 'ñ', 'mdpo-my-',
                                'a.b']) + n[5:7]
                al.setdefault(a, n if rng.random() < 0.5 else n[5:])
            inv = {}
            for a, n in al.items():
                inv.setdefault(n if n.startswith('mdpo-') else 'mdpo-' + n,
                               []).append(a)
            case['opts']['command_aliases'] = al
            case['doc'] = _rename(case['doc'], inv, rng)
        if rng.random() < 0.25:
            ext = [x for x in DEFAULT_EXT if rng.random() < 0.75]
            if rng.random() < 0.4:
                ext.append('underline')
            if rng.random() < 0.3:
                ext.append(rng.choice([
                    'permissive_url_autolinks', 'permissive_autolinks',
                    'permissive_atx_headers', 'no_html_spans',
                    'no_indented_code_blocks', 'dialect_github']))
            rng.shuffle(ext)
            case['opts']['extensions'] = ext
        if rng.random() < 0.25:
            for k, (a, b) in rng.choice(REPLACED).items():
                case['opts'][f'{k}_start_string'] = a
                case['opts'][f'{k}_end_string'] = b
        return case

    def judge(self, case):
        r = Result()
        text = self.source(case)
        opts = case.get('opts', {})
        r.counts['extensions'] += 'extensions' in opts
        r.counts['delimiters'] += any('_string' in k for k in opts)
        al = {a: (n if n.startswith('mdpo-') else 'mdpo-' + n)
              for a, n in (opts.get('command_aliases') or {}).items()}
        if pending_before_code(case['doc'], al) and not case.get('known'):
            raise Invalid('pending before code')

        def extract():
            p = Md2Po(text, **opts)
            pf = p.extract()
            return pf, [(e.msgctxt, e.msgid) for e in p.disabled_entries]
        e = call(extract)
        if not e:
            if isinstance(e.exc, ValueError):
                raise Invalid
            r.bad('crash', f'{e.err()}\n  source={text!r}')
            return r
        pf, dis = e.value
        keys = [(x.msgctxt, x.msgid) for x in pf]
        write('c.po', po_text([(c, t, f'T{j} done' if not is_def(t) else t)
                               for j, (c, t) in enumerate(keys)]))
        seen = []

        def on_msgid(self, msgid, msgstr, msgctxt, tcomment, flags):
            if msgid:
                seen.append((msgctxt, msgid))

        def translate():
            p = Po2Md('c.po', wrapwidth=INF, events={'msgid': [on_msgid]},
                      **opts)
            out = p.translate(text)
            return (out, [(x.msgctxt, x.msgid) for x in p.translated_entries],
                    [(x.msgctxt, x.msgid) for x in p.disabled_entries])
        o = call(translate)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        out, used, dis2 = o.value
        lost = [k for k in keys if k not in used]
        extra = [k for k in used if k not in keys]
        if lost:
            r.bad('not-applied', f'extracted but never looked up: {lost[:5]}'
                  f'\n  source={text!r}\n  used={used}')
        if extra:
            r.bad('not-extracted', f'looked up but never extracted: '
                  f'{extra[:5]}\n  source={text!r}')
        code = code_texts(case['doc'])
        d = diff_lists([k for k in dis if k[1] not in code],
                       [k for k in dis2 if k[1] not in code])
        if d:
            r.bad('disabled-' + d[0], f'{d[1]}\n  source={text!r}')
        if not r.viol and any(f'T{j} done' not in out
                              for j, k in enumerate(keys)
                              if not is_def(k[1])):
            r.bad('not-shown', f'a translation does not appear\n'
                  f'  source={text!r}\n  output={out!r}')
        # every message is requested, in order, by the same texts
        req = [k for k in seen if k[1] not in code]
        exp = list(dict.fromkeys(
            k for k in keys + dis if not is_def(k[1]) and k[1] not in code
            and k[1] not in includes(case['doc'])))
        if sorted(set(req), key=repr) != sorted(set(exp), key=repr):
            r.bad('requests', f'requested {sorted(set(req), key=repr)}\n  '
                  f'extracted {sorted(set(exp), key=repr)}\n  '
                  f'source={text!r}')
        r.counts['keys'] += len(keys)
        r.counts['disabled'] += len(dis)
        r.counts['contexts'] += sum(1 for c, _ in keys if c)
        n = sum(1 for b in _allblocks(case['doc']) if b[0] == 'cmd')
        r.counts['commands'] += n
        r.nontrivial = len(keys) >= 2 and n >= 1
        r.info = {'markdown': text, 'options': opts}
        return r


def includes(doc):
    return {(b[2] or '').strip() for b in _allblocks(doc) if b[0] == 'cmd'}


def pending_before_code(doc, al):
    """A pending command before a code block that is not extracted (known
    finding F17: the tools disagree on what it applies to)."""
    d = Decide(aliases=al)
    d.document(doc)
    return d.pending


def is_def(t):
    return re.match(r'\[[^\]]+\]: ', t) is not None


def code_texts(doc):
    return {'\n'.join(b[-1]) + '\n' for b in _allblocks(doc)
            if b[0] in ('f', 'ind')}


T_CMDS = BLOCK_CMDS + ['mdpo-context', 'mdpo-translator', 'mdpo-context']


class Decide(model.Extract):
    """What translation must do with each text, in document order."""

    def emit_inl(self, inl):
        if not inl:  # an empty cell
            return
        on = self.en_next or not (self.off or self.dis_next)
        self.log.append((on, self.ctxt, mdgen.canon(inl)))
        super().emit_inl(inl)

    def walk(self, blocks, top=True):
        for b in blocks:
            if b[0] in ('f', 'ind') and (self.dis_next or self.en_next or
                                         self.ctxt or self.comment
                                         or self.off):
                self.pending = True
            elif b[0] == 'cmd' and b[1] not in KNOWN_CMDS and \
                    b[1] not in self.aliases:
                raise Invalid('unknown command')
            super().walk([b], top)

    def document(self, doc):
        self.log = []
        self.pending = False
        return super().document(doc)


def drop_cmds(blocks):
    """The document without its commands; None if two blocks would join."""
    out = []
    gap = False
    for b in blocks:
        k = b[0]
        if k == 'cmd':
            gap = True
            continue
        if k in ('ul', 'ol'):
            b = b[:-1] + [[[it[0], drop_cmds(it[1])] for it in b[-1]]]
        elif k == 'q':
            b = ['q', drop_cmds(b[1])]
            if not b[1]:
                raise Invalid
        if gap and out:
            pair = (out[-1][0], k)
            if pair[0] in ('ul', 'ol') and k in ('ul', 'ol', 'ind') or \
                    pair in (('q', 'q'), ('ind', 'ind')):
                raise Invalid('blocks would join')
        gap = False
        out.append(b)
    return out


class T05(TranslationCheck):
    """Random sequences of commands with catalogs that have a different
    translation for each context."""
    id = 'T05'
    rule = ('documents with repeated texts and random enable/disable/'
            'next-block/context/translator commands and aliases, catalogs '
            'with a translation per context; non-trivial: at least one '
            'command and two texts')
    quick_n = 53000
    thorough_n = 530000
    label_p = 0.25
    features = dict(
        inl={'t': 20, 'b': 2, 'i': 2, 'c': 2, 'a': 2}, repeat=0.35,
        comments=['TODO: check. this', 'mdpo is nice. really', 'end',
                  'mdpo: disable.', 'disable', 'context menu',
                  'plain words here', 'markdownlint-disable', 'mdpodisable x',
                  'enable. all', 'translator note', 'x-mdpo-disable'])
    min_counts = {'commands': 3000, 'left_disabled': 500,
                  'translated': 3000, 'by_context': 500}

    def gen(self, rng, i, tier):
        names = rng.choice([T_CMDS, T_CMDS + ['mdpo-include'], BLOCK_CMDS,
                            ['mdpo-context'] * 3 + BLOCK_CMDS])
        doc, g = self.make_doc(rng, tier)
        doc = sprinkle(doc, rng, rng.choice([0.3, 0.6]), names)
        if rng.random() < .15:  # pending at the end
            n = sum(1 for b in doc if b[0] == 'def')
            doc.insert(len(doc) - n, one_cmd(rng, names))
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30), 'opts': {}}
        ctxs = sorted({(b[2] or '').strip() for b in _allblocks(doc)
                       if b[0] == 'cmd' and b[1] == 'mdpo-context'})
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        rows = []
        for j, k in enumerate(keys):
            for c in [None] + ctxs:
                if rng.random() < 0.7:
                    rows.append([c, j, rng.choice([1, 1, 1, 0])])
        rng.shuffle(rows)
        case['rows'] = rows
        case['deftr'] = rng.random() < .5
        if rng.random() < 0.3:
            al = {}
            for n in rng.sample(BLOCK_CMDS, 2) + ['mdpo-context']:
                a = rng.choice(['off', 'on', 'x-', 'skip', 'ñ', 'mdpo-my-',
                                'a.b']) + n[5:7]
                al.setdefault(a, n if rng.random() < 0.5 else n[5:])
            inv = {}
            for a, n in al.items():
                inv.setdefault(n if n.startswith('mdpo-') else 'mdpo-' + n,
                               []).append(a)
            case['opts']['command_aliases'] = al
            case['doc'] = _rename(case['doc'], inv, rng)
        return case

    def judge(self, case):
        r = Result()
        text = self.source(case)
        doc = case['doc']
        al = {a: (n if n.startswith('mdpo-') else 'mdpo-' + n)
              for a, n in (case['opts'].get('command_aliases') or {}).items()}
        try:
            mod = Decide(aliases=al).document(doc)
        except model.Rejected:
            raise Invalid
        if mod.pending:
            raise Invalid('pending before code')
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        trans = {}
        rows = []
        for c, j, full in case['rows']:
            if j >= len(keys) or (c, keys[j]) in trans:
                raise Invalid
            t = f'T{j} {"in " + str(ctxid(c)) if c else "plain"}' \
                if full else ''
            trans[(c, keys[j])] = t
            rows.append((c, keys[j], t))
        newdefs = {}
        for j, b in enumerate(doc):
            if b[0] == 'def' and case.get('deftr'):
                nb = ['def', b[1], f'tr/{j}', b[3] and f'Title {j}']
                newdefs[b[1]] = nb
                rows += [(c, self.markup(b), 'WRONG context') for c in
                         dict.fromkeys(x[0] for x in case['rows']) if c]
                rows.append((None, self.markup(b), self.markup(nb)))
                r.counts['definitions'] += 1
        write('c.po', po_text(rows))

        def translate():
            p = Po2Md('c.po', wrapwidth=INF, **case['opts'])
            out = p.translate(text)
            return (out, [(x.msgctxt, x.msgid) for x in p.translated_entries],
                    [(x.msgctxt, x.msgid) for x in p.disabled_entries])
        o = call(translate)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        out, used, dis = o.value
        it = iter(mod.log)

        def tr(inl):
            on, ctxt, k = next(it)
            if k != mdgen.canon(inl):
                raise AssertionError('model order')
            t = trans.get((ctxt, k)) if on else None
            if not on:
                r.counts['left_disabled'] += 1
            elif t:
                r.counts['translated'] += 1
                r.counts['by_context'] += bool(ctxt)
            return [['t', t]] if t else inl
        full = drop_cmds(strip_unknown(mdgen.map_text([
            newdefs.get(b[1], b) if b[0] == 'def' else b for b in doc], tr),
            al))
        if not [b for b in full if b[0] != 'cm' and not (
                b[0] == 'html' and b[1].startswith('<!--'))]:
            raise Invalid('only comments')
        exp = mdtree.of_doc(full)
        src = [c for n in raw_html(mdtree.tree(text))
               for c in html_lines(n[1], al)]
        a = norm(_anon(exp))
        b = closest(a, out, lambda x: norm(_anon(x)))
        if a != b:
            r.bad(diff_kind(a, b), f'{first_diff(a, b)}\n  source={text!r}\n'
                  f'  output={out!r}\n  rows={rows}')
        got = [c for n in raw_html(mdtree.tree(out))
               for c in n[1].split('\n')]
        got = [x.strip() for x in got if x.strip()]
        if src != got:
            r.bad('comments', f'expected {src}, got {got}\n  source={text!r}'
                  f'\n  output={out!r}')
        d = diff_lists([(c, k) for on, c, k in mod.log if not on],
                       [x for x in dis if x[1] not in code_texts(doc)])
        if d:
            r.bad('reported-disabled-' + d[0], f'{d[1]}\n  source={text!r}')
        d = diff_lists([(c, k) for on, c, k in mod.log
                        if on and trans.get((c, k))],
                       [x for x in used if trans.get(x)])
        if d:
            r.bad('reported-translated-' + d[0],
                  f'{d[1]}\n  source={text!r}')
        n = sum(1 for b in _allblocks(doc) if b[0] == 'cmd')
        r.counts['commands'] += n
        r.nontrivial = n >= 1 and len(keys) > 1
        r.info = {'markdown': text, 'catalog': open('c.po').read(),
                  'options': case['opts']}
        return r


def ctxid(c):
    return sum(map(ord, c))


def strip_unknown(blocks, al):
    return blocks


def html_lines(html, al):
    for x in html.split('\n'):
        x = x.strip()
        m = re.fullmatch(r'<!-- *(\S+?)(?: .*)?-->', x)
        if m and (m[1].startswith('mdpo-') and m[1] in KNOWN_CMDS or
                  m[1] in al):
            continue
        if x:
            yield x


KNOWN_CMDS = {f'mdpo-{c}' for c in model.COMMANDS}


def _anon(tree):
    """HTML by position only (compared apart)."""
    out = []
    for n in tree:
        if n[0] == 'html':
            n = ['html', '']
        elif n[0] in ('ul', 'ol', 'q', 'li'):
            n = list(n[:-1]) + [_anon(n[-1])]
        out.append(n)
    return out


class T06(TranslationCheck):
    """The same document and catalog at many widths."""
    id = 'T06'
    cls = SafeG
    rule = ('documents translated at widths from 1 to infinite, compared '
            'with each other and measured; non-trivial: at least one line '
            'broken')
    quick_n = 29000
    thorough_n = 290000
    label_p = 0
    features = dict(inl={'t': 40, 'b': 3, 'i': 3, 's': 2, 'c': 3, 'a': 2})
    min_counts = {'lines_broken': 3000, 'lines_measured': 5000,
                  'marked_lines': 3000}

    def mkgen(self, rng, tier, **kw):
        g = super().mkgen(rng, tier, **kw)
        if rng.random() < .3:
            g.f['blk'] = {'p': 3, 'ul': 4, 'ol': 4, 'q': 3}
            g.f['item_blocks'] = {'ul': 2, 'ol': 2, 'p': 3}
            g.f['inl'] = dict(g.f['inl'], c=0, t=60)
        return g

    def more(self, case, rng, g):
        case['widths'] = [rng.choice([1, 2, 3, 5, 8, 10, 15, 20, 30]),
                          rng.choice([40, 60, 79, 80, 81, 100, 200]),
                          rng.choice([0, -1, -80, 'inf'])]

    def judge(self, case):
        r = Result()
        text = self.source(case)
        m = self.mapping(case)
        write('c.po', po_text([(None, k, mdgen.canon(t))
                               for k, t in m.items() if t is not None]))

        def tr(inl):
            t = m[mdgen.canon(inl)]
            return inl if t is None else t
        doc = mdgen.map_text(case['doc'], tr)
        exp = mdtree.of_doc(doc)
        for w in case['widths']:
            o = call(pofile_to_markdown, text, 'c.po',
                     wrapwidth=INF if w == 'inf' else w)
            if not o:
                r.bad('crash', f'{o.err()}\n  source={text!r}')
                return r
            self.compare_trees(r, exp, text, o.value, tag=f'w-')
            if r.viol:
                return r
            self.measure(r, doc, w, text, o.value)
        r.nontrivial = r.counts['lines_broken'] > 0
        r.info = {'markdown': text, 'widths': case['widths']}
        return r

    MARKS = re.compile(r'> |(?:[-*+] |\d+[.)] )(?:\[[ xX]\] )?|')

    def measure(self, r, doc, w, text, out):
        unlimited = w == 'inf' or w <= 0
        lines = out.split('\n')
        if not unlimited and w >= 10 and all(
                b[0] in ('p', 'ul', 'ol', 'q') for b in _allblocks(doc)) \
                and '`' not in out:
            # the lines of lists and quotes (nested ones are indented)
            for ln in lines:
                inner = ln[self.MARKS.match(ln).end():]
                if ln[:1] == ' ' or inner[:1] == ' ' or inner != ln and \
                        self.MARKS.match(inner).end():
                    continue
                r.counts['marked_lines'] += inner != ln
                if len(ln) > w + 2 and ' ' in inner.strip():
                    r.bad('too-long-mark', f'width {w}: {ln!r}\n  '
                          f'output={out!r}')
        pos = 0
        for b in doc:
            if b[0] != 'p':
                if b[0] == 'h':
                    want = mdgen.canon(b[2])
                    if not any(x.lstrip('# ') == want for x in lines):
                        r.bad('heading-broken', f'{want!r} at width {w}\n  '
                              f'source={text!r}\n  output={out!r}')
                continue
            want = mdgen.canon(b[1])
            words = want.replace(' ', '')
            # the consecutive lines which hold the paragraph
            for i in range(pos, len(lines)):
                j, acc = i, ''
                while j < len(lines) and len(acc) < len(words) and \
                        (lines[j] or j == i):
                    acc += lines[j].replace(' ', '')
                    j += 1
                if acc == words and lines[i][:1] not in ('', ' '):
                    break
            else:
                r.bad('paragraph-not-found', f'{want!r}\n  width={w}\n  '
                      f'output={out!r}')
                return
            pos = j
            got = lines[i:j]
            r.counts['lines_measured'] += len(got)
            r.counts['lines_broken'] += len(got) - 1
            if unlimited and len(got) != 1:
                r.bad('not-single-line', f'width {w}: {got}')
            elif not unlimited:
                for ln in got:
                    ln = re.sub(r'(`+)(?!`).*?(?<!`)\1(?!`)', 'x', ln) \
                        if len(ln) > w else ln
                    if len(ln) > w + 2 and ' ' in ln.strip():
                        r.bad('too-long', f'width {w}: {ln!r}\n  '
                              f'output={out!r}')
                if len(want) <= w and len(got) > 1 and '`' not in want:
                    r.bad('broken-without-need', f'width {w}: {got}')


def not_blank(text):
    """A text without blank lines nor the places where it is wrapped."""
    return re.sub(r'[\s>]+', ' ', text)


def list_depth(blocks):
    return max([0] + [1 + max(list_depth(it[1]) for it in b[-1])
                      if b[0] in ('ul', 'ol') else list_depth(b[1])
                      for b in blocks if b[0] in ('ul', 'ol', 'q')])


class T07(TranslationCheck):
    """Output of the renderer fed back to it."""
    id = 'T07'
    rule = ('documents of every block structure rendered without matches, '
            'twice; non-trivial: at least two blocks')
    quick_n = 54000
    thorough_n = 540000
    features = {}

    def gen(self, rng, i, tier):
        w = rng.choice(['inf', 0, 'inf', 80, 40, 100])
        self.cls, self.features, self.label_p = (
            (SafeG, T06.features, 0) if w not in ('inf', 0) else
            (mdgen.G, {}, T01.label_p))
        doc, g = self.make_doc(rng, tier)
        return {'doc': doc, 'style': rng.randrange(1, 1 << 30), 'w': w}

    def judge(self, case):
        r = Result()
        text = self.source(case)
        write('c.po', po_text([]))
        w = INF if case['w'] == 'inf' else case['w']
        outs = [text]
        for _ in range(8):
            o = call(pofile_to_markdown, outs[-1], 'c.po', wrapwidth=w)
            if not o:
                r.bad('crash', f'{o.err()}\n  source={outs[-1]!r}')
                return r
            outs.append(o.value)
            if len(outs) > 2 and outs[-1] == outs[-2]:
                break
        for a, b in zip(outs[1:], outs[2:]):
            if a == b:
                continue
            if any(t != mdtree.tree(a) for t in mdtree.trees(a)):
                raise Invalid('parse depends on the position of the text')
            r.counts['loosened'] += 1
            if not_blank(a) != not_blank(b) or \
                    not has(case['doc'], ('ul', 'ol')):
                r.bad('drift', f'one={a!r}\n next={b!r}\n source={text!r}')
                return r
        if outs[-1] != outs[-2]:
            r.bad('no-fixed-point', f'one={outs[-2]!r}\n '
                  f'next={outs[-1]!r}\n source={text!r}')
        elif len(outs) > 4 + list_depth(case['doc']):
            r.bad('slow-drift', f'{len(outs) - 1} renderings\n '
                  f'one={outs[1]!r}\n last={outs[-1]!r}\n source={text!r}')
        r.counts['renderings'] += len(outs) - 1
        r.nontrivial = len(case['doc']) > 1
        r.info = {'markdown': text, 'width': case['w']}
        return r


# ---------------------------------------------------------------- extensions
EXTENSIONS = mdtree.DEFAULT_EXT + [
    'permissive_url_autolinks', 'permissive_email_autolinks',
    'permissive_www_autolinks', 'permissive_autolinks',
    'permissive_atx_headers', 'no_html_spans', 'no_html_blocks', 'no_html',
    'no_indented_code_blocks', 'dialect_github', 'underline']
EXT_WORDS = ['www.example.com', 'me@ex.org', 'https://a.org/b', '_un d_',
             '__un d__', '~one~', '~~two d~~', 'a_b_c', '_a __b__ c_',
             '<b>h</b>', '#tag', '$x+y$', '[[Page]]', '[[Page|label]]',
             '[[Page|Page ]]', '[[P| P]]', '[ ]', '<!-- n -->', '`c`', '*e*', '__b *i* k__']


def put_words(x, rng):
    """A document with markup of the extensions among its plain words."""
    if not isinstance(x, list):
        return x
    if x and x[0] in ('a', 'ref', 'b', 'i', 's'):
        return x
    if len(x) == 2 and x[0] == 't' and isinstance(x[1], str):
        ws = x[1].split(' ')
        if len(ws) > 2 and rng.random() < 0.3:
            ws.insert(rng.randint(1, len(ws) - 1), rng.choice(EXT_WORDS))
        return ['t', ' '.join(ws)]
    return [put_words(y, rng) for y in x]


def plain_code(blocks):
    """Indented code which is also a paragraph."""
    if not isinstance(blocks, list):
        return blocks
    if len(blocks) == 2 and blocks[0] == 'ind':
        return ['ind', [f'line {i} **x**' for i in range(len(blocks[1]))]]
    return [plain_code(b) for b in blocks]


def flat_underline(inl, inside=False):
    """Underlining something underlined changes nothing."""
    out = []
    for n in inl:
        if isinstance(n, list) and n[0] == 'u':
            kids = flat_underline(n[1], True)
            out += kids if inside else [['u', kids]]
        elif isinstance(n, list) and n[0] in ('i', 'b', 's', 'a'):
            out.append(n[:-1] + [flat_underline(n[-1], inside)])
        else:
            out.append(n)
    return mdtree.norm_inl(out, False)


# a line which is a link reference definition with an extension only
TRAPS = {'no_html_blocks': '<!-- x\n\n[zq]: /dq\n-->\n',
         'no_indented_code_blocks': '    [zq]: /dq\n'}


class T09(TranslationCheck):
    """Documents parsed with random sets of extensions."""
    id = 'T09'
    rule = ('documents with markup of every extension extracted and '
            'translated with random sets of extensions; what md4c reads '
            'with the same set is the oracle; non-trivial: at least two '
            'texts and a set other than the default one')
    quick_n = 22000
    thorough_n = 220000
    features = dict(empty_items=False, empty_cells=False)
    label_p = 0
    min_counts = {'messages': 10000, 'translated': 2000,
                  'definitions by extension': 200,
                  'definitions without it': 200,
                  **{f'with {x}': 400 for x in EXTENSIONS}}

    def gen(self, rng, i, tier):
        doc, g = self.make_doc(rng, tier)
        ext = [x for x in mdtree.DEFAULT_EXT if rng.random() < 0.75]
        ext += rng.sample(EXTENSIONS[6:], rng.choice([0, 1, 1, 2, 3]))
        rng.shuffle(ext)
        if 'no_indented_code_blocks' in ext:
            doc = plain_code(doc)
        case = {'doc': put_words(doc, rng), 'ext': ext,
                'style': rng.randrange(1, 1 << 30), 'fill': rng.random() < .5}
        if rng.random() < .2:
            case['trap'] = rng.choice(list(TRAPS))
        return case

    def norm(self, tree):
        return norm(self.replaced(tree, flat_underline))

    def inlines(self, msgid, ext):
        """What a message is, read alone."""
        t = mdtree.tree('x ' + msgid, ext)
        if len(t) != 1 or t[0][0] != 'p':
            return t
        t = t[0][-1]
        if t and isinstance(t[0], str) and t[0][:1] == 'x':
            first = t[0][1:].lstrip(' ')
            t = ([first] if first else []) + t[1:]
        return _blanks(flat_underline(t), False)

    def texts(self, tree):
        for n in tree:
            if n[0] in ('p', 'h'):
                yield n[-1]
            elif n[0] in ('ul', 'ol', 'q', 'li'):
                yield from self.texts(n[-1])
            elif n[0] == 'tb':
                for row in n[2]:
                    yield from row

    def replaced(self, tree, new):
        out = []
        for n in tree:
            if n[0] in ('p', 'h'):
                n = n[:-1] + [new(n[-1])]
            elif n[0] in ('ul', 'ol', 'q', 'li'):
                n = n[:-1] + [self.replaced(n[-1], new)]
            elif n[0] == 'tb':
                n = n[:2] + [[[new(c) for c in row] for row in n[2]]]
            out.append(n)
        return out

    def judge(self, case):
        r = Result()
        scope_ok(case['doc'])
        ext = case['ext']
        text = mdgen.render(case['doc'], case['style'])
        if not text.strip():
            raise Invalid
        trap = case.get('trap')
        if trap:
            text = f'{text.rstrip()}\n\nsee [lnk](/lnk) end\n\n{TRAPS[trap]}'
        src = [self.norm(t) for t in mdtree.trees(text, ext)]
        if any(t != src[0] for t in src):
            raise Invalid('parse depends on the position of the text')
        src = src[0]
        e = call(markdown_to_pofile, text, extensions=ext)
        if not e:
            r.bad('crash', f'{e.err()}\n  source={text!r} {ext}')
            return r
        want = []
        for x in self.texts(src):
            if x and x not in want:
                want.append(x)
        ids = [x.msgid for x in e.value]
        if trap:
            on = trap in ext or trap == 'no_html_blocks' and 'no_html' in ext
            r.counts['definitions by extension'] += on
            r.counts['definitions without it'] += not on
            if ('[zq]: /dq' in ids) != on:
                r.bad('definition', f'{ids}\n  extensions={ext}\n  '
                      f'source={text!r}')
                return r
            ids = [m for m in ids if m != '[zq]: /dq']
        got = [self.inlines(m, ext) for m in ids]
        d = diff_lists(want, list(map(list, got)))
        if d:
            r.bad('messages-' + d[0], f'{d[1]}\n  extensions={ext}\n  '
                  f'source={text!r}\n  messages={ids}')
            return r
        tr = {}
        if case['fill']:
            tr = {m: f'T{j} done' for j, m in enumerate(ids) if j % 3}
        write('c.po', po_text([(None, m, tr.get(m, '')) for m in ids]))
        o = call(pofile_to_markdown, text, 'c.po', wrapwidth=INF,
                 extensions=ext)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r} {ext}')
            return r

        n = [x.strip() for x in o.value.splitlines()].count('[zq]: /dq')
        if n != bool(trap):
            r.bad('definition', f'{n} in the output\n  extensions={ext}\n  '
                  f'source={text!r}\n  output={o.value!r}')

        def new(x):
            if not x or ids[got.index(x)] not in tr:
                return x
            r.counts['translated'] += 1
            return [tr[ids[got.index(x)]]]
        exp = self.replaced(src, new)
        outs = [self.norm(t) for t in mdtree.trees(o.value, ext)]
        if exp not in outs:
            r.bad(diff_kind(exp, outs[0]), f'{first_diff(exp, outs[0])}\n  '
                  f'extensions={ext}\n  source={text!r}\n  '
                  f'output={o.value!r}')
        r.counts['messages'] += len(ids)
        for x in ext:
            r.counts[f'with {x}'] += 1
        r.nontrivial = len(ids) > 1 and sorted(ext) != sorted(
            mdtree.DEFAULT_EXT)
        r.info = {'markdown': text, 'extensions': ext}
        return r


# ------------------------------------------------------------------- catalogs
OPENS = collections.Counter()
_hooked = []


def watch_opens():
    """Count the files which the code under test opens (audit events)."""
    if not _hooked:
        def hook(event, args):
            if event == 'open' and isinstance(args[0], str) and \
                    args[0].endswith('.po'):
                OPENS[os.path.normpath(args[0])] += 1
        sys.addaudithook(hook)
        _hooked.append(hook)
    OPENS.clear()


FILES = ['es/a.po', 'es/b.po', 'es/c c.po', 'fr/a.po', 'fr/ñ.po', 'z.po',
         'aa.po', 'sub/es/d.po', 'es/no.txt.po', 'B.po', 'sub/es/a.po',
         'sub/fr/ñ.po']
GLOBS = ['es/*.po', '*.po', 'fr/*', '*/a.po', 'es/?.po', 'sub/*/*.po',
         '*/*.po', 'es/[ab].po', 'no/*.po', 'es/*[!a].po']
IGNORES = ['a.po', 'es', 'fr/a.po', 'sub/es', 'z.po', 'c c.po', 'fr', 'nope',
           'B.po', 'ñ.po', 'e', 'es/']


def glob_match(pattern, path):
    """Shell patterns over path components, hidden from fnmatch and glob."""
    a, b = pattern.split('/'), path.split('/')
    return len(a) == len(b) and all(
        re.fullmatch(_regex(x), y) for x, y in zip(a, b))


def _regex(pat):
    out, i = '', 0
    while i < len(pat):
        c = pat[i]
        if c == '*':
            out += '[^/]*'
        elif c == '?':
            out += '[^/]'
        elif c == '[':
            j = pat.index(']', i)
            out += '[' + pat[i + 1:j].replace('!', '^') + ']'
            i = j
        else:
            out += re.escape(c)
        i += 1
    return out


def is_ignored(path, ignore):
    parts = path.split('/')
    return (parts[-1] in ignore or path in ignore or
            (len(parts) > 1 and (parts[-2] in ignore or
                                 '/'.join(parts[:-1]) in ignore)))


class T08(TranslationCheck):
    """Catalogs scattered over files, named by paths and globs."""
    id = 'T08'
    rule = ('a catalog scattered (with overlaps, empty translations and '
            'contexts) over files named by paths, globs and ignore lists, '
            'used by both translators with the files opened recorded by an '
            'audit hook; non-trivial: two or more files used')
    quick_n = 72000
    thorough_n = 720000
    min_counts = {'files_read': 2000, 'overridden': 300, 'ignored': 500,
                  'hidden_by_empty': 100, 'by_context': 500}

    def gen(self, rng, i, tier):
        files = {}
        keys = [[c, f'm{k}'] for k in range(rng.randint(1, 6))
                for c in rng.choice([[None], [None, 'c x'], ['c x'],
                                     [None, '0'], ['ñ', 'c x', None]])]
        for f in rng.sample(FILES, rng.randint(1, 6)):
            rows = []
            for c, k in keys:
                if rng.random() < 0.6:
                    rows.append([c, k, rng.choice(
                        [f'{k} in {f} {c}', f'{k} in {f} {c}', '']),
                        rng.choice(['fuzzy', 'c-format'])
                        if rng.random() < .2 else None])
            rng.shuffle(rows)
            files[f] = rows
        args = []
        for _ in range(rng.randint(1, 4)):
            args.append(rng.choice(list(files)) if rng.random() < 0.5
                        else rng.choice(GLOBS))
        return {'files': files, 'args': args, 'keys': keys,
                'one': rng.random() < 0.3,
                'ignore': rng.sample(IGNORES, rng.choice([0, 0, 1, 2]))}

    def judge(self, case):
        r = Result()
        files, ignore = case['files'], case['ignore']
        if not case['args'] or not files:
            raise Invalid('no files')
        if any(f not in FILES for f in files) or \
                any(a not in FILES + GLOBS for a in case['args']):
            raise Invalid('name')
        for f, rows in files.items():
            if os.path.dirname(f):
                os.makedirs(os.path.dirname(f), exist_ok=True)
            write(f, po_text(rows))
        try:
            self.observe(r, case)
        finally:
            for f in files:
                os.unlink(f)
        return r

    def observe(self, r, case):
        files, ignore = case['files'], case['ignore']
        args = case['args'][:1] if case['one'] else case['args']
        order = []
        for a in args:
            for f in sorted(f for f in files if glob_match(a, f)):
                if f in order:
                    continue
                if is_ignored(f, ignore):
                    r.counts['ignored'] += 1
                    continue
                order.append(f)
        cat = {}
        for f in order:
            seen = set()
            for c, k, t, flag in files[f]:
                if flag not in (None, 'fuzzy', 'c-format'):
                    raise Invalid('flag')
                if (c, k) in seen:
                    raise Invalid('duplicate')
                seen.add((c, k))
                if t:
                    r.counts['overridden'] += (c, k) in cat
                    cat[c, k] = t
                    r.counts['fuzzy'] += flag == 'fuzzy'
                else:
                    r.counts['hidden_by_empty'] += (c, k) in cat
        keys = [tuple(k) for k in case['keys']]
        md = '\n\n'.join((f'<!-- mdpo-context {c} -->\n\n' if c else '') + k
                         for c, k in keys) + '\n'
        html = '\n'.join((f'<!-- mdpo-context {c} -->\n' if c else '') +
                         f'<p>{k}</p>' for c, k in keys) + '\n'
        want = [cat.get(k) or k[1] for k in keys]
        pos = args[0] if case['one'] else args
        opened = None
        for name, fn, src in (('po2md', pofile_to_markdown, md),
                              ('mdpo2html', markdown_pofile_to_html, html)):
            watch_opens()
            o = call(fn, src, pos, ignore=ignore)
            counts = {f: n for f, n in OPENS.items()}
            OPENS.clear()
            if not o:
                r.bad('crash', f'{name}: {o.err()}\n  source={src!r} '
                      f'args={args!r}')
                continue
            if name == 'po2md':
                got = [x for x in o.value.split('\n') if x]
            else:
                got = re.findall(r'<p>(.*?)</p>', o.value, re.S)
            d = diff_lists(want, got)
            if d:
                r.bad(f'{name}-texts', f'{d}\n  files={files}\n  args={args} '
                      f'ignore={ignore}\n  read={order}')
            if set(counts) != set(order):
                r.bad(f'{name}-files', f'opened {sorted(counts)}, expected '
                      f'{sorted(order)}\n  args={args} ignore={ignore}')
            elif len(set(counts.values())) > 1:
                r.bad(f'{name}-read-twice', f'{counts}\n  args={args} '
                      f'ignore={ignore}')
            r.counts['files_read'] += len(counts)
        r.counts['by_context'] += sum(1 for c, k in keys if c and
                                      (c, k) in cat)
        r.nontrivial = len(order) > 1
        r.info = {'args': args, 'ignore': ignore, 'read': order}


CHECKS = {c.id: c for c in (T01, T02, T03, T04, T05, T06, T07, T08, T09)}
