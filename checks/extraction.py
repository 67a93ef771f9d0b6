"""E01-E10: what extraction puts into the catalog."""
import json
import os
import re

import mdgen
import mdtree
import model
from engine import Check, Invalid, Known, Result, jdump, sig_of
from sut import Md2Po, call, markdown_to_pofile, side_options

DEFAULT_EXT = ['collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
               'latex_math_spans', 'wikilinks']


def diff_lists(exp, got):
    """A short description of how two lists differ, or None."""
    if exp == got:
        return None
    se, sg = list(exp), list(got)
    missing = [x for x in se if x not in sg]
    extra = [x for x in sg if x not in se]
    if missing or extra:
        kind = 'missing' if missing and not extra else \
            'extra' if extra and not missing else 'different'
    elif len(se) != len(sg):
        kind = 'duplicated'
    else:
        kind = 'order'
    return kind, f'missing={missing[:6]} extra={extra[:6]}\n' \
                 f'  expected={se[:14]}\n  got={sg[:14]}'


def cat_rows(pofile):
    return [(e.msgctxt, e.msgid, e.msgstr, e.comment or None,
             'fuzzy' in e.flags) for e in pofile if not e.obsolete]


def model_rows(mod):
    return [(m.ctxt, m.text, m.msgstr, m.comment or None, m.fuzzy)
            for m in mod.unique()]


def write(path, text, encoding='utf-8'):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'w', encoding=encoding, newline='') as f:
        f.write(text)


class ExtractionCheck(Check):
    bystanders = 0.15
    features = {}
    n_styles = 1

    def make_doc(self, g, rng):
        return g.doc()

    def options(self, rng):
        return {}

    def gen(self, rng, i, tier):
        f = dict(self.features)
        f.setdefault('empty_items', True)
        f.setdefault('empty_cells', True)
        f.setdefault('item_first', mdgen.ITEM_FIRST)
        if tier == 'thorough' and rng.random() < 0.3:
            f.update(maxblocks=16, depth=5)
        g = mdgen.G(rng, **f)
        doc = self.make_doc(g, rng)
        return {'doc': doc, 'styles': [rng.randrange(1, 1 << 30)
                                       for _ in range(self.n_styles)],
                'opts': self.options(rng)}

    def api_opts(self, opts):
        return {k: v for k, v in opts.items() if k != 'delims'}

    def model_of(self, case):
        o = case.get('opts', {})
        return model.Extract(
            plaintext=o.get('plaintext', False),
            include_codeblocks=o.get('include_codeblocks', False),
            aliases=o.get('command_aliases'),
            delims=o.get('delims'),
            ignore_msgids=o.get('ignore_msgids', ()))

    def render(self, case, k=0, **fix):
        return mdgen.render(case['doc'], case['styles'][k], **fix)

    def labels(self, doc):
        return [b[1] for b in doc if b[0] == 'def']

    def extract(self, text, opts, **kw):
        o = dict(self.api_opts(opts))
        o.update(kw)
        return call(markdown_to_pofile, text, **o)

    def judge(self, case):
        r = Result()
        mdgen.valid_blocks(case['doc'], refs=self.labels(case['doc']))
        mod = self.model_of(case)
        try:
            mod.document(case['doc'])
            rejected = None
        except model.Rejected as e:
            rejected = str(e)
        text = self.render(case)
        if text.strip() == '':
            raise Invalid
        mdtree.meant(case['doc'], text, case.get('opts', {}).get(
            'extensions'))
        out = self.extract(text, case.get('opts', {}))
        self.compare(r, case, mod, rejected, text, out)
        r.counts['messages'] += len(mod.extracted)
        r.counts['documents'] += 1
        r.nontrivial = r.nontrivial or len(mod.extracted) >= 2
        r.info = {'markdown': text, 'options': case.get('opts', {})}
        return r

    def compare(self, r, case, mod, rejected, text, out):
        if rejected:
            if out or not isinstance(out.exc, ValueError):
                r.bad('not-rejected', f'{rejected} without text was accepted '
                      f'({out.err()})\n{text}')
            return
        if not out:
            r.bad('crash', f'{out.err()}\n{text}')
            return
        d = diff_lists(self.expected(mod), self.observed(out.value))
        if d:
            r.bad(d[0], f'{d[1]}\n  markdown={text!r}')

    def expected(self, mod):
        return [m.key() for m in mod.unique()]

    def observed(self, pofile):
        return [(e.msgctxt, e.msgid) for e in pofile]


BASIC_INL = {'t': 30, 'b': 4, 'i': 4, 's': 2, 'c': 4, 'a': 3, 'auto': 1,
             'img': 1, 'w': 1, 'm': 1, 'h': 1, 'e': 1, 'x': 1}


class E01(ExtractionCheck):
    """Random block structures of every kind, nested lists and quotes inside
    each other, tables, code, HTML; texts spread over source lines."""
    id = 'E01'
    rule = ('random documents rendered in a random surface style; '
            'non-trivial: the document has at least two messages')
    quick_n = 36000
    thorough_n = 360000
    features = dict(inl=BASIC_INL, maxblocks=9, depth=4, wild=True,
                    blk={'p': 10, 'h': 4, 'ul': 6, 'ol': 5, 'q': 4, 'f': 3,
                         'ind': 2, 'hr': 2, 'tb': 3, 'html': 2, 'cm': 2},
                    item_blocks={'ul': 4, 'ol': 4, 'p': 3, 'q': 2, 'f': 2,
                                 'tb': 1, 'h': 1, 'hr': 1, 'html': 1,
                                 'ind': 1},
                    ol_tasks=True)

    def options(self, rng):
        return {'location': rng.random() < 0.5}

    def judge(self, case):
        r = super().judge(case)
        if r.viol:
            return r
        # the same content given as a file must give the same catalog
        text = self.render(case)
        write('f.md', text)
        out = call(markdown_to_pofile, 'f.md', **case['opts'])
        if not out:
            r.bad('file-crash', out.err())
        else:
            mod = self.model_of(case).document(case['doc'])
            d = diff_lists(self.expected(mod), self.observed(out.value))
            if d:
                r.bad('file-' + d[0], d[1])
        for b in case['doc']:
            r.counts['block_' + b[0]] += 1
        return r


class E02(ExtractionCheck):
    """Inline-markup-heavy documents; each is rendered in four surface styles
    and every catalog is compared with the canonical spelling computed from
    the structure, hence also with each other."""
    id = 'E02'
    rule = ('each document is rendered in four styles; non-trivial: it '
            'contains at least three inline markup nodes')
    quick_n = 24000
    thorough_n = 240000
    n_styles = 4
    features = dict(
        inl={'t': 16, 'b': 6, 'i': 6, 's': 4, 'c': 8, 'a': 6, 'auto': 3,
             'img': 4, 'w': 3, 'm': 2, 'h': 2, 'e': 2, 'x': 4, 'u': 0},
        blk={'p': 10, 'h': 3, 'ul': 2, 'q': 1, 'tb': 2, 'ol': 1},
        escapes=['*', '`', '_', '[', ']', '<', '#', '$', '~', '!'],
        in_span=('e', 'x'), span_depth=4,
        maxblocks=4, depth=2, quoted_titles=True, plain_titles=False,
        wild=True, code_blanks=True)

    def gen(self, rng, i, tier):
        g = mdgen.G(rng, **self.features)
        under = rng.random() < 0.2
        if under:
            g.f = dict(g.f)
            g.f['inl'] = dict(g.f['inl'], u=6)
        doc = g.doc()
        opts = {}
        if under:
            opts['extensions'] = DEFAULT_EXT + ['underline']
        if rng.random() < 0.2:
            opts['delims'] = rng.choice([
                {'b': ['<b>', '</b>']}, {'i': ['_', '_']},
                {'b': ['__', '__'], 'i': ['_', '_']}, {'s': ['--', '++']},
                {'m': ['\\(', '\\)']}, {'w': ['{{', '}}']},
                {'i': ['/', '/'], 's': ['~', '~'], 'm': ['%', '%']},
                {'c': ['@', '@']}, {'c': ['@', '%']}, {'u': ['<u>', '</u>']},
            ])
            for inl in mdgen.text_blocks(doc):
                for n in mdgen.walk_inl(inl):
                    if n[0] == 'c' and n[1] and rng.random() < 0.5:
                        k = rng.randint(0, len(n[1]))
                        n[1] = n[1][:k] + rng.choice(['@', '@', '@@']) \
                            + n[1][k:]
        return {'doc': doc, 'styles': [rng.randrange(1, 1 << 30)
                                       for _ in range(4)], 'opts': opts}

    OPT = dict(b='bold', i='italic', s='strikethrough', c='code',
               m='latexmath', w='wikilink', u='underline')

    def judge(self, case):
        r = Result()
        doc = case['doc']
        mdgen.valid_blocks(doc)
        opts = dict(case['opts'])
        d = dict(mdgen.DELIMS)
        kw = {}
        for k, (a, b) in opts.pop('delims', {}).items():
            d[k] = (a, b)
            kw[f'{self.OPT[k]}_start_string'] = a
            kw[f'{self.OPT[k]}_end_string'] = b
        kw.update(opts)
        under = 'underline' in opts.get('extensions', ())
        nodes = sum(1 for inl in mdgen.text_blocks(doc)
                    for n in mdgen.walk_inl(inl) if n[0] != 't')
        for inl in mdgen.text_blocks(doc):
            for n in mdgen.walk_inl(inl):
                r.counts['inline_' + n[0]] += 1
                if n[0] == 'u' and not under:
                    raise Invalid
        mod = model.Extract(delims=d).document(doc)
        exp = [m.key() for m in mod.unique()]
        for k in range(len(case['styles'])):
            fix = {'star': '*'} if under else {}
            text = mdgen.render(doc, case['styles'][k], **fix)
            mdtree.meant(doc, text, opts.get('extensions'))
            out = call(markdown_to_pofile, text, **kw)
            r.counts['catalogs_compared'] += 1
            if not out:
                r.bad('crash', f'{out.err()}\n{text!r}')
                break
            got = [(e.msgctxt, e.msgid) for e in out.value]
            df = diff_lists(exp, got)
            if df:
                r.bad(df[0], f'{df[1]}\n  markdown={text!r} options={kw}')
                break
        r.nontrivial = nodes >= 3
        r.info = {'markdown': text, 'options': {k: v for k, v in kw.items()}}
        return r


class E03(ExtractionCheck):
    """The same generators in plaintext mode, with commands."""
    id = 'E03'
    rule = ('random documents with inline markup and commands, extracted '
            'with plaintext=True; non-trivial: at least two messages')
    quick_n = 62000
    thorough_n = 620000
    features = dict(
        inl={'t': 20, 'b': 5, 'i': 5, 's': 3, 'c': 6, 'a': 6, 'auto': 2,
             'img': 5, 'w': 2, 'm': 2, 'h': 1, 'e': 2, 'x': 2},
        escapes=['*', '`', '_', '[', '#'],
        maxblocks=6, depth=3, quoted_titles=True)

    def make_doc(self, g, rng):
        doc = g.doc()
        if rng.random() < 0.5:
            doc = sprinkle(doc, rng, 0.35, BLOCK_CMDS + ATTACH_CMDS)
        return doc

    def options(self, rng):
        return {'plaintext': True}

    def expected(self, mod):
        return [m.key() for m in mod.unique()]


BLOCK_CMDS = ['mdpo-disable', 'mdpo-enable', 'mdpo-disable-next-block',
              'mdpo-disable-next-line', 'mdpo-enable-next-block',
              'mdpo-enable-next-line']
ATTACH_CMDS = ['mdpo-context', 'mdpo-translator', 'mdpo-include']
CODE_CMDS = ['mdpo-include-codeblock', 'mdpo-disable-codeblock',
             'mdpo-include-codeblocks', 'mdpo-disable-codeblocks']
CTXTS = ['menu', 'month', 'the verb', 'Not the noun, the verb.', 'a-b: c/d',
         'ñ (x)', '0', 'key="v"', "it's", 'A', '日本', 'x; y!', '100%', '*b*',
         'a   b']
COMMENTS = ['Keep it short', "Don't translate: brand.", 'see https://x.org/a',
            'max. 20 chars!', 'ñandú (bird)', '#1', 'multi word-comment',
            '<b>', 'a & b', '"quoted"', '—', '1', 'a   b']
TEXTS = ['Some message', 'hidden. text!', 'word', 'a, b & c', 'ñ-1', 'T9']


def one_cmd(rng, names):
    n = rng.choice(names)
    if n == 'mdpo-context':
        return ['cmd', n, rng.choice(CTXTS)]
    if n == 'mdpo-translator':
        return ['cmd', n, rng.choice(COMMENTS)]
    if n == 'mdpo-include':
        return ['cmd', n, rng.choice(TEXTS)]
    return ['cmd', n, None]


PENDING = set(BLOCK_CMDS[2:]) | {'mdpo-context', 'mdpo-translator'}


def sprinkle(blocks, rng, prob, names, where='top',
             stop=('f', 'ind')):
    """Insert commands before blocks (also inside quotes and items)."""
    out = []
    for j, b in enumerate(blocks):
        k = b[0]
        cmds = []
        if rng.random() < prob and (where != 'item' or j > 0):
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                c = one_cmd(rng, names)
                if k in stop and c[1] in PENDING:
                    continue
                cmds.append(c)
        if k == 'ul':
            b = ['ul', [[it[0], sprinkle(it[1], rng, prob * .5, names,
                                         'item', stop)] for it in b[1]]]
        elif k == 'ol':
            b = ['ol', b[1], [[it[0], sprinkle(it[1], rng, prob * .5, names,
                                               'item', stop)]
                              for it in b[2]]]
        elif k == 'q':
            b = ['q', sprinkle(b[1], rng, prob * .5, names, 'quote', stop)]
        out.extend(cmds)
        out.append(b)
    return out


class CommandCheck(ExtractionCheck):
    names = BLOCK_CMDS
    prob = 0.5
    features = dict(
        inl={'t': 20, 'b': 2, 'i': 2, 'c': 2, 'a': 2}, maxblocks=8, depth=3,
        repeat=0.3,
        blk={'p': 12, 'h': 4, 'ul': 4, 'ol': 3, 'q': 3, 'f': 1, 'hr': 1,
             'tb': 2, 'html': 1, 'cm': 1},
        comments=['TODO: check. this', 'mdpo is nice. really', 'end',
                  'mdpo: disable.', 'disable', 'context menu',
                  'plain words here', 'markdownlint-disable', 'mdpodisable x',
                  'enable. all', 'translator note', 'x-mdpo-disable'])
    alias_prob = 0.3

    def make_doc(self, g, rng):
        defs = []
        if rng.random() < .2:
            defs = g.make_labels(rng.randint(1, 3))
            g.f = dict(g.f)
            g.f['inl'] = dict(g.f['inl'], ref=4)
        doc = sprinkle(g.doc(), rng, self.prob, self.names, stop=())
        if rng.random() < .2:  # commands without anything to cover
            doc = doc + [one_cmd(rng, self.names)
                         for _ in range(rng.choice([1, 1, 2]))]
        return doc + defs

    def options(self, rng):
        return {}

    def gen(self, rng, i, tier):
        case = super().gen(rng, i, tier)
        if rng.random() < self.alias_prob:
            names = list(self.names)
            rng.shuffle(names)
            aliases = {}
            for n in names[:3]:
                alias = rng.choice(['off', 'on', 'x-', 'skip', 'ñ', 'mdpo-my-',
                                    'a.b', 'no:']) + n[5:7]
                if alias in aliases:
                    continue
                aliases[alias] = n if rng.random() < 0.5 else n[5:]
            case['opts']['command_aliases'] = aliases
            inv = {}
            for a, n in aliases.items():
                inv.setdefault(n if n.startswith('mdpo-') else 'mdpo-' + n,
                               []).append(a)
            case['doc'] = _rename(case['doc'], inv, rng)
        return case

    def model_of(self, case):
        o = case.get('opts', {})
        al = {a: (n if n.startswith('mdpo-') else 'mdpo-' + n)
              for a, n in (o.get('command_aliases') or {}).items()}
        return model.Extract(plaintext=o.get('plaintext', False),
                             include_codeblocks=o.get(
                                 'include_codeblocks', False),
                             aliases=al)

    def judge(self, case):
        r = super().judge(case)
        n = sum(1 for b in _allblocks(case['doc']) if b[0] == 'cmd')
        r.counts['commands'] += n
        r.nontrivial = n >= 1 and r.counts['messages'] >= 1
        return r


def _rename(blocks, inv, rng):
    out = []
    for b in blocks:
        k = b[0]
        if k == 'cmd' and b[1] in inv and rng.random() < 0.7:
            b = ['cmd', rng.choice(inv[b[1]]), b[2]]
        elif k == 'ul':
            b = ['ul', [[it[0], _rename(it[1], inv, rng)] for it in b[1]]]
        elif k == 'ol':
            b = ['ol', b[1], [[it[0], _rename(it[1], inv, rng)]
                              for it in b[2]]]
        elif k == 'q':
            b = ['q', _rename(b[1], inv, rng)]
        out.append(b)
    return out


def _allblocks(blocks):
    for b in blocks:
        yield b
        if b[0] == 'ul':
            for it in b[1]:
                yield from _allblocks(it[1])
        elif b[0] == 'ol':
            for it in b[2]:
                yield from _allblocks(it[1])
        elif b[0] == 'q':
            yield from _allblocks(b[1])


class E04(CommandCheck):
    """Random sequences of enabling and disabling commands (and aliases),
    compared with a state machine; the parser's list of disabled entries is
    observed too."""
    id = 'E04'
    rule = ('documents with random enable/disable commands between, before '
            'and inside blocks; non-trivial: at least one command and one '
            'message')
    names = BLOCK_CMDS * 3 + ['mdpo-context', 'mdpo-translator']
    quick_n = 60000
    thorough_n = 600000

    def extract(self, text, opts, **kw):
        def run():
            o = self.api_opts(opts)
            side = side_options(markdown_to_pofile, [*o, 'debug'])
            p = Md2Po(text, **o, **side)
            pf = p.extract()
            self.dis = [(e.msgctxt, e.msgid) for e in p.disabled_entries]
            self.found = [(e.msgctxt, e.msgid) for e in p.found_entries]
            return pf
        return call(run)

    def compare(self, r, case, mod, rejected, text, out):
        super().compare(r, case, mod, rejected, text, out)
        if r.viol or rejected:
            return
        d = diff_lists([m.key() for m in mod.disabled], self.dis)
        if d:
            r.bad('disabled-' + d[0], f'{d[1]}\n  markdown={text!r}')
        d = diff_lists([m.key() for m in mod.extracted], self.found)
        if d:
            r.bad('found-' + d[0], f'{d[1]}\n  markdown={text!r}')
        r.counts['disabled_messages'] += len(mod.disabled)

    min_counts = {'disabled_messages': 500, 'commands': 1000}


class E05(CommandCheck):
    """Random context, translator and include commands, repeated texts."""
    id = 'E05'
    names = ATTACH_CMDS + ['mdpo-context', 'mdpo-context'] + \
        ['mdpo-disable-next-block']
    prob = 0.6
    rule = ('documents with repeated texts and random context, translator '
            'and include commands (some lacking their text); non-trivial: '
            'at least one command and one message')
    quick_n = 61000
    thorough_n = 610000
    min_counts = {'commands': 1000, 'with_context': 500, 'with_comment': 300,
                  'rejections': 20}

    def make_doc(self, g, rng):
        doc = super().make_doc(g, rng)
        if rng.random() < 0.3:  # other commands between them and their text
            doc = sprinkle(doc, rng, 0.4, BLOCK_CMDS + CODE_CMDS, stop=())
        return doc

    def gen(self, rng, i, tier):
        case = super().gen(rng, i, tier)
        if rng.random() < 0.03:
            case['doc'].insert(rng.randrange(len(case['doc']) + 1), [
                'cmd', rng.choice(ATTACH_CMDS), None])
        return case

    def expected(self, mod):
        return model_rows(mod)

    def observed(self, pofile):
        return cat_rows(pofile)

    def compare(self, r, case, mod, rejected, text, out):
        super().compare(r, case, mod, rejected, text, out)
        if rejected:
            r.counts['rejections'] += 1
        r.counts['with_context'] += sum(1 for m in mod.extracted if m.ctxt)
        r.counts['with_comment'] += sum(1 for m in mod.extracted if m.comment)


class E06(CommandCheck):
    """Code blocks of every kind with random code block commands."""
    id = 'E06'
    names = CODE_CMDS
    prob = 0.6
    rule = ('documents dense in fenced and indented code blocks, nested '
            'ones included, with random code block commands; non-trivial: '
            'at least one command and one message')
    quick_n = 87000
    thorough_n = 870000
    features = dict(
        inl={'t': 20, 'b': 1, 'c': 1}, maxblocks=8, depth=2, repeat=0.1,
        blk={'p': 5, 'h': 1, 'ul': 2, 'ol': 1, 'q': 3, 'f': 10, 'ind': 5,
             'hr': 1, 'html': 1},
        item_blocks={'ul': 1, 'p': 1, 'f': 6, 'q': 1, 'ind': 3})
    min_counts = {'code_messages': 1000, 'commands': 1000}

    def make_doc(self, g, rng):
        defs = []
        if rng.random() < .2:
            defs = g.make_labels(rng.randint(1, 3))
            g.f = dict(g.f)
            g.f['inl'] = dict(g.f['inl'], ref=4)
        doc = sprinkle(g.doc(), rng, self.prob, self.names, stop=())
        if rng.random() < .2:  # commands without anything to cover
            doc = doc + [one_cmd(rng, self.names)
                         for _ in range(rng.choice([1, 1, 2]))]
        return doc + defs

    def options(self, rng):
        return {'include_codeblocks': True} if rng.random() < 0.4 else {}

    def compare(self, r, case, mod, rejected, text, out):
        super().compare(r, case, mod, rejected, text, out)
        r.counts['code_messages'] += sum(
            1 for m in mod.extracted if m.text.endswith('\n'))
        r.counts['code_blocks'] += sum(
            1 for b in _allblocks(case['doc']) if b[0] in ('f', 'ind'))


class E07(ExtractionCheck):
    """Locations against block ordinals counted over the structure."""
    id = 'E07'
    rule = ('documents extracted from files with locations on (and off, and '
            'from strings); non-trivial: at least three references checked')
    quick_n = 25000
    thorough_n = 250000
    features = dict(inl={'t': 20, 'b': 2, 'c': 1, 'a': 1}, maxblocks=10,
                    depth=4, repeat=0.25,
                    blk={'p': 8, 'h': 3, 'ul': 5, 'ol': 5, 'q': 5, 'f': 3,
                         'ind': 1, 'tb': 3, 'html': 2, 'cm': 2, 'hr': 0},
                    item_blocks={'ul': 4, 'ol': 4, 'p': 3, 'q': 2, 'f': 2,
                                 'tb': 1, 'h': 1, 'html': 1})
    min_counts = {'references': 5000}

    def gen(self, rng, i, tier):
        g = mdgen.G(rng, **self.features)
        nf = rng.choice([1, 1, 2, 3])
        docs = []
        for _ in range(nf):
            d = g.doc()
            if rng.random() < 0.3:
                d = sprinkle(d, rng, 0.4, BLOCK_CMDS)
            if rng.random() < 0.3:
                d = sprinkle(d, rng, 0.4, CODE_CMDS)
            docs.append(d)
        return {'docs': docs, 'styles': [rng.randrange(1, 1 << 30)
                                         for _ in docs],
                'opts': rng.choice([{}, {}, {'location': True},
                                    {'location': False}]),
                'how': rng.choice(['glob', 'list', 'path'])}

    def judge(self, case):
        r = Result()
        names = []
        if not case['docs']:
            raise Invalid
        mod = model.Extract()
        for j, d in enumerate(case['docs']):
            mdgen.valid_blocks(d)
            n = f'd{j}/doc-{j}.md'
            text = mdgen.render(d, case['styles'][j], html_gap=True)
            mdtree.meant(d, text)
            write(n, text)
            names.append(n)
            before = len(mod.extracted)
            mod.document(d)
            for m in mod.extracted[before:]:
                m.file = n
        for j in range(len(names), 4):
            if os.path.exists(f'd{j}/doc-{j}.md'):
                os.unlink(f'd{j}/doc-{j}.md')
        how = case['how']
        if how == 'path' and len(names) > 1:
            how = 'list'
        arg = {'glob': 'd*/doc-*.md', 'list': names,
               'path': names[0]}[how]
        out = call(markdown_to_pofile, arg, **case['opts'])
        if not out:
            r.bad('crash', out.err())
            return r
        on = case['opts'].get('location', True)
        exp, got = [], []
        alts = {}
        for m in mod.unique():
            exp.append((m.ctxt, m.text, [
                (m.file, f'block {m.ordinal} ({m.kind})')] if on else []))
            if m.alt and on:
                alts[m.key()] = [(m.file, f'block {m.alt[0]} ({m.alt[1]})')]
        for e, x in zip(list(out.value) + [None] * len(exp), exp + [None] *
                        len(out.value)):
            if e is None:
                break
            row = (e.msgctxt, e.msgid, [tuple(o) for o in e.occurrences])
            if x and row[:2] == x[:2] and alts.get(x[:2]) == row[2]:
                row = x
                r.counts['inside_list_after_quote'] += 1
            got.append(row)
        d = diff_lists(exp, got)
        if d:
            r.bad('location' if [x[:2] for x in exp] == [x[:2] for x in got]
                  else d[0],
                  f'{d[1]}\n  files=' +
                  repr([open(n).read() for n in names]))
        if on:
            r.counts['references'] += len(exp)
        # the same content as a string never carries a reference
        txt = mdgen.render(case['docs'][0], case['styles'][0])
        if txt.strip():
            o2 = call(markdown_to_pofile, txt, **case['opts'])
            if not o2:
                r.bad('crash', o2.err())
            elif any(e.occurrences for e in o2.value):
                r.bad('reference-from-string', txt)
        r.nontrivial = len(exp) >= 3 and on
        r.info = {'files': {n: open(n).read() for n in names},
                  'options': case['opts']}
        return r


class E08(ExtractionCheck):
    """Several files: union of the single-file catalogs, no leaking state,
    ignore lists."""
    id = 'E08'
    rule = ('sets of 2-5 files in nested directories ending in pending or '
            'unfinished states, given as glob or list with ignore lists; '
            'non-trivial: at least two files extracted and three messages')
    quick_n = 27000
    thorough_n = 270000
    features = dict(inl={'t': 20, 'b': 2, 'c': 1, 'a': 2, 'img': 1},
                    maxblocks=4, depth=2, repeat=0.3)
    NAMES = ['a.md', 'b.md', 'sub/a.md', 'sub/c.md', 'sub/deep/a.md',
             'other/z.md', 'Z.md', 'sub/B.md', 'other/a.markdown',
             'sub/[slug].md', 'a[1].md']
    min_counts = {'files_extracted': 4000, 'ignored_files': 500}

    def gen(self, rng, i, tier):
        names = rng.sample(self.NAMES, rng.randint(2, 5))
        files = {}
        g = mdgen.G(rng, **self.features)
        g.pool_shared = True
        for n in names:
            g.labels = []
            defs = g.make_labels(rng.choice([0, 0, 1]))
            f = dict(g.f)
            f['inl'] = dict(self.features['inl'],
                            ref=4 if defs else 0)
            g.f = f
            g.pool = [x for x in g.pool if not any(
                nd[0] == 'ref' for nd in mdgen.walk_inl(x))]
            d = g.doc()
            d = sprinkle(d, rng, 0.3, BLOCK_CMDS + ATTACH_CMDS + CODE_CMDS)
            if rng.random() < 0.7:
                # leave something pending at the end of the file
                for _ in range(rng.choice([1, 1, 2])):
                    d.append(one_cmd(rng, [
                        'mdpo-disable', 'mdpo-disable-next-block',
                        'mdpo-enable-next-block', 'mdpo-context',
                        'mdpo-translator', 'mdpo-include-codeblock',
                        'mdpo-disable-codeblock', 'mdpo-include-codeblocks',
                        'mdpo-disable-codeblocks']))
            files[n] = {'doc': d + defs, 'style': rng.randrange(1, 1 << 30)}
        ign = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 2])):
                ign.append(rng.choice(
                    ['a.md', 'sub', 'sub/a.md', 'sub/deep', 'other', 'deep',
                     'b', 'A.md', 'c.md', 'md', 'sub/', 'ub', 'z.md']))
        return {'files': files, 'ignore': ign,
                'how': rng.choice(['glob', 'list', 'list']),
                'order': rng.randrange(1 << 20),
                'opts': rng.choice([{}, {'include_codeblocks': True},
                                    {'location': False}])}

    @staticmethod
    def ignored(path, ign):
        d, b = os.path.split(path)
        return (path in ign or b in ign or d in ign or
                (os.path.basename(d) in ign) or False)

    def judge(self, case):
        import random
        import shutil
        r = Result()
        if len(case['files']) < 1:
            raise Invalid
        shutil.rmtree('t', ignore_errors=True)
        os.mkdir('t')
        os.chdir('t')
        try:
            return self._judge(r, case, random.Random(case['order']))
        finally:
            os.chdir(self.scratch)

    def _judge(self, r, case, rng):
        names = list(case['files'])
        for n in names:
            c = case['files'][n]
            mdgen.valid_blocks(c['doc'],
                               refs=self.labels(c['doc']))
            text = mdgen.render(c['doc'], c['style'], html_gap=True)
            mdtree.meant(c['doc'], text)
            write(n, text)
        if case['how'] == 'glob':
            pats = {0: '*.md', 1: '*/*.md'}
            depth = case['order'] % 2
            arg = pats[depth]
            cand = [n for n in names if n.count('/') == depth
                    and n.endswith('.md')]
            if not cand:
                raise Invalid
        else:
            arg = list(names)
            rng.shuffle(arg)
            cand = names
        ign = case['ignore']
        use = sorted(n for n in cand if not self.ignored(n, ign))
        r.counts['ignored_files'] += len(cand) - len(use)
        mod = self.model_of(case)
        single = []
        loc = case['opts'].get('location', True)
        for n in use:
            before = len(mod.extracted)
            try:
                mod.document(case['files'][n]['doc'])
            except model.Rejected:
                raise Invalid
            for m in mod.extracted[before:]:
                m.file = n
            o = call(markdown_to_pofile, n, **case['opts'])
            if not o:
                r.bad('crash', o.err())
                return r
            single.append(o.value)
        out = call(markdown_to_pofile, arg, ignore=ign, **case['opts'])
        if not out:
            r.bad('crash', out.err())
            return r

        def row(e):
            return (e.msgctxt, e.msgid, e.msgstr, e.comment or None,
                    tuple(e.flags), tuple(map(tuple, e.occurrences)))
        got = [row(e) for e in out.value]
        # 1. union of the single-file extractions of the real tool
        seen, exp = set(), []
        for pf in single:
            for e in pf:
                k = (e.msgctxt, e.msgid)
                if k not in seen:
                    seen.add(k)
                    exp.append(row(e))
        ctx = f'files={ {n: open(n).read() for n in use} } ignore={ign}'
        d = diff_lists(exp, got)
        if d:
            r.bad('union-' + d[0], f'{d[1]}\n  {ctx}')
        # 2. the model
        exp2 = [(m.ctxt, m.text, m.msgstr, m.comment or None,
                 ('fuzzy',) if m.fuzzy else (),
                 ((m.file, f'block {m.ordinal} ({m.kind})'),) if loc else ())
                for m in mod.unique()]
        d = diff_lists(exp2, got)
        if d:
            r.bad('model-' + d[0], f'{d[1]}\n  {ctx}')
        r.counts['files_extracted'] += len(use)
        r.nontrivial = len(use) >= 2 and len(got) >= 3
        r.info = {'arg': arg, 'ignore': ign, 'files': use}
        return r


class E09(CommandCheck):
    """Ignored messages, default msgstr, metadata and X-Generator."""
    id = 'E09'
    bystanders = 0.0     # the options are the workload
    names = BLOCK_CMDS + ATTACH_CMDS
    prob = 0.3
    alias_prob = 0
    rule = ('documents extracted with and without the options, onto empty '
            'and existing catalogs; non-trivial: an option changed at least '
            'one entry or header field')
    quick_n = 49000
    thorough_n = 490000
    min_counts = {'ignored_messages': 500, 'defaults_filled': 500,
                  'metadata_checked': 500}

    def gen(self, rng, i, tier):
        case = CommandCheck.gen(self, rng, i, tier)
        o = {}
        if rng.random() < 0.2:
            o['plaintext'] = case['opts']['plaintext'] = True
        mod = self.model_of(case).document(case['doc'])
        texts = [m.text for m in mod.unique()]
        if texts and rng.random() < 0.6:
            ig = rng.sample(texts, rng.randint(1, min(3, len(texts))))
            # near misses must not be ignored
            ig += [rng.choice(texts)[:-1], rng.choice(texts).upper() + 'x']
            o['ignore_msgids'] = [x for x in ig if x]
        if rng.random() < 0.5:
            o['msgstr'] = rng.choice(['TODO', 'Mensaje por defecto', 'ñ "x"'])
        if rng.random() < 0.5:
            keys = ['Project-Id-Version', 'Language', 'X-Custom', 'Last',
                    'Content-Type-X', 'Language-Team']
            o['metadata'] = {k: rng.choice(['a: b', 'v 1.0', 'ñ <x@y.z>', ''])
                             for k in rng.sample(keys, rng.randint(1, 3))}
        if rng.random() < 0.4:
            o['xheader'] = True
        pre = None
        if rng.random() < 0.5:
            pre = {'metadata': {'Project-Id-Version': 'old 1',
                                'Language': 'es', 'X-Old': 'kept: yes',
                                'Content-Type': 'text/plain; charset=utf-8'},
                   'entries': []}
            keys = [m.key() for m in mod.unique()]
            for c, t in keys:
                if rng.random() < 0.5:
                    pre['entries'].append(
                        [c, t, rng.choice(['', '', 'T:' + t])])
        case['opts'] = o
        case['pre'] = pre
        return case

    def judge(self, case):
        import polib
        r = Result()
        mdgen.valid_blocks(case['doc'])
        o = dict(case['opts'])
        try:
            plain = o.get('plaintext', False)
            mod = model.Extract(plaintext=plain,
                                ignore_msgids=o.get('ignore_msgids', ()))
            mod.document(case['doc'])
            base = model.Extract(plaintext=plain).document(case['doc'])
        except model.Rejected:
            raise Invalid
        text = mdgen.render(case['doc'], case['styles'][0])
        if not text.strip():
            raise Invalid
        mdtree.meant(case['doc'], text)
        kw = {}
        pre = case.get('pre')
        prev = {}
        meta0 = {}
        if pre:
            pf = polib.POFile()
            pf.metadata = dict(pre['metadata'])
            for c, t, s in pre['entries']:
                if (c, t) in prev:
                    raise Invalid
                prev[(c, t)] = s
                pf.append(polib.POEntry(msgid=t, msgctxt=c, msgstr=s))
            pf.save('pre.po')
            kw['po_filepath'] = 'pre.po'
            meta0 = dict(pre['metadata'])
        meta_arg = dict(o.get('metadata') or {})
        out = call(markdown_to_pofile, text, **o, **kw)
        if not out:
            r.bad('crash', f'{out.err()} {o}')
            return r
        dflt = o.get('msgstr', '')
        exp = []
        for m in mod.unique():
            s = prev.get(m.key(), '') or m.msgstr or dflt
            exp.append((m.ctxt, m.text, s, m.comment or None))
            if not prev.get(m.key()) and dflt:
                r.counts['defaults_filled'] += 1
        got = {}
        for e in out.value:
            if e.obsolete:
                continue
            k = (e.msgctxt, e.msgid)
            if k in got:
                r.bad('duplicated', f'{k} {text!r}')
            got[k] = (e.msgctxt, e.msgid, e.msgstr, e.comment or None)
        gl = list(got.values())
        if pre:
            # order and comments of preexisting entries are M-properties
            exp = sorted((jdump(x[:3])) for x in exp)
            gl = sorted((jdump(x[:3])) for x in gl)
        d = diff_lists(exp, gl)
        if d:
            r.bad(d[0], f'{d[1]}\n  options={o} pre={pre}\n  '
                  f'markdown={text!r}')
        r.counts['ignored_messages'] += \
            len(base.unique()) - len(mod.unique())
        # header
        if (o.get('metadata') or {}) != meta_arg:
            r.bad('metadata-argument', f'changed to {o["metadata"]}')
        expm = dict(meta0)
        expm.update(meta_arg)
        gm = dict(out.value.metadata)
        if o.get('xheader'):
            xg = gm.pop('X-Generator', None)
            if not xg or not xg.startswith('mdpo v'):
                r.bad('x-generator', repr(gm))
        elif 'X-Generator' in gm:
            r.bad('x-generator', 'X-Generator not asked for')
        for k, v in expm.items():
            if gm.get(k) != v:
                r.bad('metadata', f'{k}: expected {v!r} got {gm.get(k)!r}')
        for k in gm:
            if k not in expm and (pre or meta_arg or k not in gm):
                if k in ('Content-Type', 'MIME-Version',
                         'Content-Transfer-Encoding'):
                    continue
                r.bad('metadata-extra', f'{k}: {gm[k]!r}')
        if expm:
            r.counts['metadata_checked'] += 1
        r.nontrivial = bool(o)
        r.info = {'markdown': text, 'options': o, 'pre': pre}
        return r


class E10(ExtractionCheck):
    """Reference links, collapsed and shortcut references, images, unused
    definitions."""
    id = 'E10'
    rule = ('documents using reference links and images with 1-5 '
            'definitions (some unused, titles or not), one or two files; '
            'non-trivial: at least one reference and one definition')
    quick_n = 51000
    thorough_n = 510000
    features = dict(blk={'p': 10, 'h': 2, 'ul': 3, 'ol': 2, 'q': 2, 'tb': 1,
                         'f': 2, 'ind': 1.5, 'html': 1.5, 'cm': .5},
                    maxblocks=5, depth=2, repeat=0.05,
                    hard_defs=True, code_defs=True)
    min_counts = {'references': 2000, 'definitions': 2000,
                  'two files': 1000, 'false': 3000}

    def one(self, rng):
        g = mdgen.G(rng, **self.features)
        defs = g.make_labels(rng.randint(1, 5))
        g.f = dict(g.f)
        g.f['inl'] = {'t': 20, 'b': 2, 'i': 1, 'c': 1, 'a': 2, 'img': 1,
                      'ref': 8, 'imgref': 3}
        if rng.random() < 0.15:
            g.f['inl'] = {'t': 20, 'b': 1}
        doc = g.doc()
        # shortcut references: text equal to the label
        for inl in mdgen.text_blocks(doc):
            for n in mdgen.walk_inl(inl):
                if n[0] == 'ref' and rng.random() < 0.25 and \
                        n[2][0].isalpha():
                    n[1] = [['t', rng.choice([n[2], n[2], n[2].upper(),
                                              n[2].lower()])]]
        # the destination of a definition, with another title
        twins = []
        if rng.random() < .25:
            d = rng.choice(defs)
            twin = rng.choice([None, 'twin'])
            if twin != d[3]:
                g.labels = ['zz twin']
                if rng.random() < .5:
                    twins.append(['def', 'zz twin', d[2], twin])
                for inl in mdgen.text_blocks(doc):
                    for n in mdgen.walk_inl(inl):
                        if n[0] in ('ref', 'imgref') and twins and \
                                rng.random() < .5:
                            n[2] = 'zz twin'
                        elif n[0] == 'a' and not twins and ' ' not in d[2] \
                                and '(' not in d[2] and ')' not in d[2]:
                            n[2], n[3] = d[2], twin
            defs = twins + defs if rng.random() < .5 else defs + twins
        # lines like definitions which are the end of a paragraph
        for n, b in enumerate(doc):
            if b[0] == 'p' and b[1][-1][0] == 't' and rng.random() < .15:
                b[1][-1] = ['t', b[1][-1][1] + rng.choice(
                    [f' [z{n}]: /a', f' [z{n}]: b "c"'])]
        if rng.random() < .2:
            doc = sprinkle(doc, rng, .4, BLOCK_CMDS + ATTACH_CMDS[:2])
            if rng.random() < .5:
                doc.append(one_cmd(rng, BLOCK_CMDS + ATTACH_CMDS[:2]))
        doc = doc[:]
        for d in defs:
            pos = len(doc) if rng.random() < 0.7 else \
                rng.randrange(len(doc) + 1)
            doc.insert(pos, d)
        return doc

    def gen(self, rng, i, tier):
        case = {'doc': self.one(rng), 'styles': [rng.randrange(1, 1 << 30)],
                'opts': {}}
        x = rng.random()
        if x < 0.2:
            case['second'] = self.one(rng)
        elif x < 0.35:
            # the same beginning with other definitions
            case['second'] = [
                ['def', b[1], f'/other{n}', b[3]] if b[0] == 'def' else b
                for n, b in enumerate(case['doc'])]
        return case

    def expected(self, mod):
        return model_rows(mod)

    def observed(self, pofile):
        return cat_rows(pofile)

    def judge(self, case):
        # definitions are separated from paragraphs by blank lines
        r = super().judge(case)
        refs = sum(1 for inl in mdgen.text_blocks(case['doc'])
                   for n in mdgen.walk_inl(inl)
                   if n[0] in ('ref', 'imgref'))
        r.counts['references'] += refs
        r.counts['definitions'] += len(self.labels(case['doc']))
        r.counts['false'] += len(re.findall(r'\[\w+\]: ', json.dumps(
            [b for b in case['doc'] if b[0] != 'def'])))
        r.nontrivial = refs >= 1 and bool(self.labels(case['doc']))
        if case.get('second') and not r.viol:
            self.together(case, r)
        return r

    def together(self, case, r):
        """The definitions of a file are not those of another."""
        docs = [case['doc'], case['second']]
        mod = self.model_of(case)
        for n, doc in zip(('one.md', 'two.md'), docs):
            mdgen.valid_blocks(doc, refs=self.labels(doc))
            text = mdgen.render(doc, case['styles'][0])
            if not text.strip():
                raise Invalid
            mdtree.meant(doc, text)
            mod.document(doc)
            write(n, text)
        out = self.extract(['one.md', 'two.md'], {})
        self.compare(r, case, mod, None, '\n=====\n'.join(
            open(n).read() for n in ('one.md', 'two.md')), out)
        r.counts['two files'] += 1


CHECKS = {c.id: c for c in (E01, E02, E03, E04, E05, E06, E07, E08, E09, E10)}
