"""H01-H05: translation of HTML made by Markdown processors."""
import html
import json
import random
import re
import warnings
from html.parser import HTMLParser

import md4c
import mdgen
import model
from engine import Check, Invalid, Result
from extraction import BLOCK_CMDS, CTXTS, sprinkle
from sut import call, markdown_pofile_to_html
from translation import (KNOWN_CMDS, Decide, _allblocks, _rename, ctxid,
                         edges_ok, po_text)

warnings.simplefilter('ignore')
FLAGS = (md4c.MD_FLAG_TASKLISTS | md4c.MD_FLAG_STRIKETHROUGH |
         md4c.MD_FLAG_UNDERLINE)
VOID = {'img', 'hr', 'br', 'input', 'wbr', 'source'}
BLOCK = {'p', 'li', 'ul', 'ol', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'table',
         'thead', 'tbody', 'tr', 'th', 'td', 'blockquote', 'pre', 'div',
         'hr', 'details', 'summary', '#'}


# ------------------------------------------------------------ token streams
class Tokens(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []

    def handle_starttag(self, tag, attrs):
        self.out.append(['<', tag, [list(a) for a in attrs]])

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if tag not in VOID:
            self.out.append(['>', tag])

    def handle_data(self, data):
        self.out.append(['t', data])

    def handle_comment(self, data):
        self.out.append(['#', data])

    def handle_decl(self, data):
        self.out.append(['#', '!' + data])

    def handle_pi(self, data):
        self.out.append(['#', '?' + data])

    def unknown_decl(self, data):
        self.out.append(['#', '[' + data])


def tokens(text):
    p = Tokens()
    p.feed(text)
    p.close()
    return p.out


def normal(toks, loose=False):
    """Comparable form: blanks collapsed outside pre, none at the edges of
    blocks; without the paragraphs of items if asked."""
    out, pre, up = [], 0, []
    for t in toks:
        if t[0] == 't':
            if out and out[-1][0] == 't':
                out[-1] = ['t', out[-1][1] + t[1]]
            elif t[1]:
                out.append(list(t))
            continue
        if t[0] == '<' and t[1] == 'pre':
            pre += 1
        if t[0] == '<' and t[1] not in VOID:
            up.append(t[1])
        drop = loose and t[0] in '<>' and t[1] == 'p' and len(up) > 1 and \
            up[-2] == 'li'
        if t[0] == '>' and up:
            up.pop()
        out.append(['|'] if drop else list(t))
    res, pre = [], 0
    n = len(out)
    for i, t in enumerate(out):
        if t[0] == '<' and t[1] == 'pre':
            pre += 1
        elif t[0] == '>' and t[1] == 'pre':
            pre -= 1
        if t[0] == 't' and pre <= 0:
            x = re.sub(r'[ \t\r\n]+', ' ', t[1])
            if i == 0 or edge(out[i - 1]):
                x = x.lstrip(' ')
            if i == n - 1 or edge(out[i + 1]):
                x = x.rstrip(' ')
            if not x:
                continue
            t = ['t', x]
        if t[0] == '|':
            continue
        res.append(t)
    return res


def edge(t):
    return t[0] in '|#' or t[0] in '<>' and t[1] in BLOCK


def diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return (f'token {i}: expected {x}, got {y}\n  expected '
                    f'{a[max(0, i - 3):i + 5]}\n  got {b[max(0, i - 3):i + 5]}')
    return None


def kind_of(a, b):
    """What the difference is about."""
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            for t in (x, y):
                if t and t[0] != 't':
                    return f'{t[1][:12] if t[0] != "#" else "comment"}'
            return 'text'
    return 'same'


# ----------------------------------------------------------------- emitters
class Emit:
    """Tokens of a document, and their text in some processor's habits."""

    def __init__(self, seed, task=False):
        r = self.r = random.Random(f'html/{seed}')
        self.ids = r.random() < .4
        self.align = r.choice(['align', 'style'])
        self.bold = r.choice(['strong', 'strong', 'b'])
        self.em = r.choice(['em', 'em', 'i'])
        self.classes = r.random() < .3
        self.loose = r.random() < .4
        self.nl = r.random() < .8       # line breaks between blocks
        self.indent = r.random() < .3
        self.void = r.choice(['>', '/>', ' />'])
        self.quote = r.choice(['"', '"', "'"])
        self.names = r.choice([True, False])
        self.wrap = r.choice([0, 0, .3])
        self.n = 0
        self.els = 0

    defs = {}
    after = 0        # texts right after other blocks of an item

    # each text element asks what to show
    def show(self, inl):
        return self.inl(inl)

    def attrs(self, tag):
        self.n += 1
        out = []
        if self.ids and tag[0] == 'h':
            out.append(['id', f'sec-{self.n}'])
        if self.classes and self.r.random() < .4:
            out.append(['class', self.r.choice(['x', 'a b', 'ñ "q"', 'r&d'])])
            if self.r.random() < .2:
                out.append(['hidden', None])
        return out

    def inl(self, inl, names=True):
        out = []
        b, em = (self.bold, self.em) if names else ('strong', 'em')
        for n in inl:
            k = n[0]
            if k == 't':
                out.append(['t', n[1]])
            elif k in 'bi':
                tag = b if k == 'b' else em
                out += [['<', tag, []], *self.inl(n[1], names), ['>', tag]]
            elif k == 'c':
                out += [['<', 'code', []], ['t', n[1]], ['>', 'code']]
            elif k == 'a':
                at = [['href', n[2]]] + ([['title', n[3]]] if n[3] else [])
                out += [['<', 'a', at], *self.inl(n[1], names), ['>', 'a']]
            elif k == 'img':
                at = [['src', n[2]], ['alt', n[1]]] + (
                    [['title', n[3]]] if n[3] else [])
                out.append(['<', 'img', at])
            elif k in 'su':
                tag = {'s': 'del', 'u': 'u'}[k]
                out += [['<', tag, []], *self.inl(n[1], names), ['>', tag]]
            elif k == 'auto':
                out += [['<', 'a', [['href', n[1]]]], ['t', n[1]],
                        ['>', 'a']]
            elif k in ('ref', 'imgref') and n[2] in self.defs:
                _, _, href, title = self.defs[n[2]]
                out += self.inl([['a' if k == 'ref' else 'img', n[1], href,
                                  title]], names)
            elif k == 'x':
                out.append(['t', n[1]])
            elif k == 'e':
                out.append(['t', html.unescape(n[1])])
            else:
                raise Invalid(k)
        return out

    def text(self, inl):
        self.els += 1
        return self.show(inl)

    def item(self, it, tight):
        out = [['<', 'li', self.attrs('li')]]
        if it[0] is not None:
            out[0] = ['<', 'li', [['class', 'task-list-item']]]
            out.append(['<', 'input', [
                ['type', 'checkbox'], ['class', 'task-list-item-checkbox'],
                ['disabled', None]] + ([['checked', None]] if it[0] != ' '
                                       else [])])
        for j, b in enumerate(it[1]):
            if tight and b[0] == 'p':
                self.after += j > 0
                out += self.text(b[1])
            else:
                out += self.blocks([b])
        return out + [['>', 'li']]

    def blocks(self, blocks):
        out = []
        for b in blocks:
            k = b[0]
            if k == 'p':
                at = self.attrs('p')
                out += [['<', 'p', at], *self.text(b[1]), ['>', 'p']]
            elif k == 'h':
                at = self.attrs('h')
                out += [['<', f'h{b[1]}', at], *self.text(b[2]),
                        ['>', f'h{b[1]}']]
            elif k in ('ul', 'ol'):
                at = self.attrs('ul')
                if k == 'ol' and b[1] != 1:
                    at = [['start', str(b[1])]] + at
                tight = not self.loose and tight_ok(b[-1])
                out.append(['<', k, at])
                for it in b[-1]:
                    out += self.item(it, tight)
                out.append(['>', k])
            elif k == 'q':
                out += [['<', 'blockquote', self.attrs('q')],
                        *self.blocks(b[1]), ['>', 'blockquote']]
            elif k in ('f', 'ind'):
                lang = b[1].split(' ')[0] if k == 'f' else ''
                at = [['class', 'language-' + lang]] if lang else []
                out += [['<', 'pre', []], ['<', 'code', at],
                        ['t', '\n'.join(b[-1]) + '\n'],
                        ['>', 'code'], ['>', 'pre']]
            elif k == 'hr':
                out.append(['<', 'hr', []])
            elif k == 'tb':
                out += self.table(b)
            elif k == 'html':
                out += tokens(b[1])
            elif k == 'cm':
                out.append(['#', f' {b[1]} '])
            elif k == 'cmd':
                out += self.command(b)
            elif k == 'def':
                pass
            else:
                raise Invalid(k)
        return out

    def command(self, b):
        return [['#', f' {b[1]}' + (f' {b[2]}' if b[2] else '') + ' ']]

    def table(self, b):
        names = {'l': 'left', 'c': 'center', 'r': 'right'}

        def cell(tag, a, inl):
            at = []
            if a:
                at = [['align', names[a]]] if self.align == 'align' else \
                    [['style', f'text-align: {names[a]};']]
            return [['<', tag, at], *self.text(inl), ['>', tag]]
        out = [['<', 'table', self.attrs('table')], ['<', 'thead', []],
               ['<', 'tr', []]]
        for a, c in zip(b[1], b[2]):
            out += cell('th', a, c)
        out += [['>', 'tr'], ['>', 'thead'], ['<', 'tbody', []]]
        for row in b[3]:
            out.append(['<', 'tr', []])
            for a, c in zip(b[1], row):
                out += cell('td', a, c)
            out.append(['>', 'tr'])
        return out + [['>', 'tbody'], ['>', 'table']]

    # ------------------------------------------------------------- as text
    def attr(self, a):
        if a[1] is None:
            return a[0]
        v = a[1].replace('&', '&amp;').replace('<', '&lt;').replace(
            '>', '&gt;')
        q = self.quote
        v = v.replace(q, '&quot;' if q == '"' else '&#39;')
        return f'{a[0]}={q}{v}{q}'

    VOID = ('br', 'hr', 'img', 'input', 'link', 'meta', 'wbr')

    def balanced(self, toks):
        opened = []
        for t in toks:
            if t[0] == '<' and t[1] not in self.VOID:
                opened.append(t[1])
            elif t[0] == '>' and (not opened or opened.pop() != t[1]):
                return False
        return not opened

    def render(self, toks):
        out, pre, deep, last, raw = '', 0, 0, None, False
        for t in toks:
            if t[0] in '<>':
                raw = t[0] == '<' and t[1] in ('script', 'style')
            if t[0] == 't':
                x = t[1] if raw else html.escape(t[1], quote=self.names)
                if not raw and not pre and self.wrap:
                    x = ''.join(('\n' if c == ' ' and self.r.random() <
                                 self.wrap and 0 < i < len(x) - 1 else c)
                                for i, c in enumerate(x))
                out += x
                last = t
                continue
            block = edge(t)
            if t[0] == '<':
                deep += block
            if block and not pre and self.nl and out and self.gap(last, t):
                out += '\n' + '  ' * (max(0, deep - 1) if self.indent else 0)
            if t[0] == '<':
                void = t[1] in VOID
                out += f'<{t[1]}' + ''.join(' ' + self.attr(a)
                                            for a in t[2]) + (
                    self.void if void else '>')
                deep -= block and void
                pre += t[1] == 'pre'
            elif t[0] == '>':
                out += f'</{t[1]}>'
                deep -= block
                pre -= t[1] == 'pre'
            else:
                out += f'<!--{t[1]}-->' if t[1][:1] not in '!?' else \
                    f'<{t[1]}>'
            last = t
        return out + ('\n' if self.nl else '')

    def gap(self, a, b):
        """If a line break separates two tokens."""
        if not a or a[0] == 't' or a[0] in '<>' and a[1] not in BLOCK:
            return b[0] == '<' and b[1] in BLOCK
        return not (a[0] == '<' and b[0] == '>' and a[1] == b[1])


def tight_ok(items):
    """If their paragraphs could be written without elements."""
    return all(b[0] in ('p', 'ul', 'ol', 'f', 'h', 'q', 'hr', 'tb') and
               not (b[0] == 'p' and j and it[1][j - 1][0] == 'p')
               for it in items for j, b in enumerate(it[1]))


class HtmlCheck(Check):
    bystanders = 0.15
    also = ()
    features = dict(
        inl={'t': 24, 'b': 5, 'i': 5, 'c': 4, 'a': 4, 'img': 2},
        blk={'p': 12, 'h': 5, 'ul': 6, 'ol': 3, 'q': 4, 'f': 1, 'hr': 1,
             'tb': 3, 'html': 0, 'cm': 1},
        cell_inl=('t', 'b', 'i', 'c', 'a', 'img'), depth=3, maxblocks=6,
        code_blanks=True,
        backticks=False, tasks=False, quoted_titles=True,
        plain_titles=False, item_first=mdgen.ITEM_FIRST,
        item_blocks={'ul': 4, 'ol': 3, 'p': 3, 'q': 1, 'f': 1, 'tb': 1,
                     'h': 2, 'hr': 1})

    def mkgen(self, rng, tier, **kw):
        f = dict(self.features, **kw)
        if tier == 'thorough' and rng.random() < .3:
            f.update(maxblocks=14, depth=4)
        return mdgen.G(rng, **f)

    def valid(self, doc):
        mdgen.valid_blocks(doc)
        for inl in mdgen.text_blocks(doc):
            self.valid_text(inl)

    def valid_text(self, inl, ticks=False):
        mdgen.valid_inl(inl)
        edges_ok(inl)
        for n in mdgen.walk_inl(inl):
            if n[0] not in self.features['inl'] and n[0] not in self.also:
                raise Invalid
            if n[0] == 'c' and '`' in n[1] and not ticks or n[0] == 't' and re.search(
                    r'[*_`\[\]<>\\]', n[1]):
                raise Invalid
            if n[0] == 'a' and mdgen.canon(n[1]) == n[2]:
                raise Invalid

    def source(self, case, emit):
        """HTML of the document by the emitter or by md4c, and its tokens."""
        want = emit.blocks(case['doc'])
        self.emit = emit
        if not emit.balanced(want):
            raise Invalid
        if not case.get('md4c'):
            return emit.render(want), want
        text = mdgen.render(case['doc'], case['style'])
        got = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES | FLAGS).parse(text)
        if normal(tokens(got), True) != normal(want, True):
            raise Invalid('other structure')
        return got, want

    def emitter(self, case):
        e = Emit(case['style'])
        if case.get('md4c'):
            e.ids = e.classes = False
            e.align, e.bold, e.em = 'align', 'strong', 'em'
        return e

    def compare(self, r, case, want, out, what):
        a = normal(want, bool(case.get('md4c')))
        b = normal(tokens(out), bool(case.get('md4c')))
        r.counts['tokens'] += len(a)
        if a != b:
            r.bad(kind_of(a, b), f'{diff(a, b)}\n  {what}\n  output={out!r}')
            return False
        return True


class H01(HtmlCheck):
    """Documents as HTML in the habits of several processors, with catalogs
    which have nothing to do with them."""
    id = 'H01'
    rule = ('the stream of elements, attributes, comments and texts of the '
            'output against that of the document model, with catalogs '
            'without matches; the output translated again; non-trivial: two '
            'or more texts')
    features = dict(
        HtmlCheck.features, inl={'t': 24, 'b': 5, 'i': 5, 'c': 4, 'a': 4,
                                 'img': 2, 's': 1, 'u': 1, 'auto': 1, 'x': 1,
                                 'e': 1})
    quick_n = 34000
    thorough_n = 340000
    min_counts = {'tokens': 150000, 'texts': 20000, 'tables': 800,
                  'lists': 2000, 'by_md4c': 1000, 'images': 1000,
                  'links': 1500, 'other_messages': 1000}

    def gen(self, rng, i, tier):
        g = self.mkgen(rng, tier, tasks=rng.random() < .15)
        if rng.random() < .2:
            g.f['blk'] = dict(g.f['blk'], html=4, ind=1)
        doc = g.doc()
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30),
                'md4c': rng.random() < .3}
        rows = []
        keys = [mdgen.canon(x) for x in mdgen.text_blocks(doc)]
        for k in rng.sample(keys, min(len(keys), 6)):
            x = rng.random()
            if x < .3:
                rows.append([None, k, ''])
            elif x < .5:
                rows.append(['some context', k, 'wrong'])
            elif x < .7:
                rows.append([None, rng.choice([k + ' x', k[:-1] + '?', 'x ' +
                                               k, k.upper() + 'X']), 'wrong'])
        case['rows'] = rows if rng.random() < .7 else []
        return case

    def judge(self, case):
        r = Result()
        doc = case['doc']
        self.valid(doc)
        keys = [mdgen.canon(x) for x in mdgen.text_blocks(doc)]
        seen = set()
        for c, k, s in case['rows']:
            if not k or (c, k) in seen or c is None and s and k in keys:
                raise Invalid
            seen.add((c, k))
        text, want = self.source(case, self.emitter(case))
        with open('c.po', 'w', encoding='utf-8') as f:
            f.write(po_text([tuple(x) for x in case['rows']]))
        o = call(markdown_pofile_to_html, text, 'c.po')
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        what = f'source={text!r}\n  catalog={case["rows"]}'
        if self.compare(r, case, want, o.value, what):
            again = call(markdown_pofile_to_html, o.value, 'none*.po')
            if not again:
                r.bad('crash', f'{again.err()}\n  source={o.value!r}')
            elif normal(tokens(again.value)) != normal(tokens(o.value)):
                r.bad('again', f'source={o.value!r}\n  output='
                      f'{again.value!r}')
        r.counts['texts'] += len(keys)
        r.counts['other_messages'] += bool(case['rows'])
        r.counts['by_md4c'] += bool(case.get('md4c'))
        r.counts['after_blocks'] += self.emit.after
        for b in _allblocks(doc):
            r.counts['tables'] += b[0] == 'tb'
            r.counts['lists'] += b[0] in ('ul', 'ol')
        for x in mdgen.text_blocks(doc):
            for n in mdgen.walk_inl(x):
                r.counts['images'] += n[0] == 'img'
                r.counts['links'] += n[0] == 'a'
        r.nontrivial = len(keys) > 1
        r.info = {'html': text, 'catalog': case['rows']}
        return r


class Show(Emit):
    """Emitter of the expected output."""
    decide = None

    def show(self, inl):
        tr = self.decide(inl)
        return self.inl(inl) if tr is None else self.inl(tr, False)


class H02(HtmlCheck):
    """The same documents with full and partial catalogs whose translations
    have other markup."""
    id = 'H02'
    rule = ('the stream of the output against that of the model with each '
            'text replaced by its translation; non-trivial: some text '
            'translated and two or more texts')
    quick_n = 39000
    thorough_n = 390000
    min_counts = {'tokens': 120000, 'translated': 12000, 'kept': 6000,
                  'by_md4c': 1000, 'markup_changed': 4000}

    def gen(self, rng, i, tier):
        g = self.mkgen(rng, tier)
        doc = g.doc()
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30),
                'md4c': rng.random() < .3}
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        p = rng.choice([.3, .6, 1])
        tr = {}
        for j in range(len(keys)):
            if rng.random() < p:
                g.pool = []
                tr[str(j)] = mdgen._nopipe(
                    g.inl(1, rng.choice([1, 2, 4]), block=True))
        case['tr'] = tr
        case['split'] = rng.random() < .2
        return case

    def judge(self, case):
        r = Result()
        doc = case['doc']
        self.valid(doc)
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        tr, rows = {}, []
        for j, t in case['tr'].items():
            if int(j) >= len(keys):
                raise Invalid
            self.valid_text(t)
            tr[keys[int(j)]] = t
            rows.append((None, keys[int(j)], mdgen.canon(t)))
        text, _ = self.source(case, self.emitter(case))
        n = len(rows) // 2 if case.get('split') else len(rows)
        for name, part in (('a.po', rows[:n]), ('b.po', rows[n:])):
            with open(name, 'w', encoding='utf-8') as f:
                f.write(po_text(part))
        o = call(markdown_pofile_to_html, text, ['a.po', 'b.po'])
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        e = self.emitter(case)
        show = Show(case['style'])
        show.__dict__.update(e.__dict__)
        show.decide = lambda inl: tr.get(mdgen.canon(inl))
        want = show.blocks(doc)
        self.compare(r, case, want, o.value, f'source={text!r}\n  '
                     f'catalog={rows}')
        for x in mdgen.text_blocks(doc):
            k = mdgen.canon(x)
            r.counts['translated' if k in tr else 'kept'] += 1
            r.counts['markup_changed'] += k in tr and [
                n[0] for n in mdgen.walk_inl(tr[k])] != [
                n[0] for n in mdgen.walk_inl(x)]
        r.counts['by_md4c'] += bool(case.get('md4c'))
        r.counts['after_blocks'] += self.emit.after
        r.nontrivial = bool(tr) and len(keys) > 1
        r.info = {'html': text, 'catalog': rows}
        return r


class Without(Show):
    """Commands vanish."""

    def command(self, b):
        return []


class H03(HtmlCheck):
    """Sequences of command comments, aliases and other comments between the
    elements, with catalogs that have a translation per context."""
    id = 'H03'
    rule = ('the stream of the output against that of the model in which '
            'the model of extraction says which texts are enabled and with '
            'which context; non-trivial: a command and two texts')
    features = dict(
        HtmlCheck.features, inl={'t': 20, 'b': 2, 'i': 2, 'c': 2, 'a': 2},
        repeat=.35, maxblocks=8, item_first=(),
        comments=['TODO: check. this', 'mdpo is nice. really', 'end',
                  'mdpo: disable.', 'disable', 'context menu',
                  'plain words here', 'markdownlint-disable', 'mdpodisable x',
                  'enable. all', 'translator note', 'x-mdpo-disable'])
    quick_n = 48000
    thorough_n = 480000
    min_counts = {'tokens': 100000, 'commands': 8000, 'translated': 5000,
                  'left_disabled': 2000, 'by_context': 800, 'aliases': 800}

    def gen(self, rng, i, tier):
        g = self.mkgen(rng, tier)
        names = rng.choice([
            BLOCK_CMDS, BLOCK_CMDS + ['mdpo-context', 'mdpo-translator'],
            ['mdpo-context'] * 3 + BLOCK_CMDS,
            ['mdpo-context', 'mdpo-include', 'mdpo-include-codeblock',
             'mdpo-disable-codeblocks'] + BLOCK_CMDS])
        doc = sprinkle(g.doc(), rng, rng.choice([.3, .6]), names,
                       stop=())
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30),
                'md4c': rng.random() < .25, 'aliases': {}}
        ctxs = sorted({(b[2] or '').strip() for b in _allblocks(doc)
                       if b[0] == 'cmd' and b[1] == 'mdpo-context'})
        if rng.random() < .2:
            ctxs.append(rng.choice(CTXTS))
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        case['rows'] = [[c, j, rng.choice([1, 1, 1, 0])]
                        for j in range(len(keys))
                        for c in [None] + list(dict.fromkeys(ctxs))
                        if rng.random() < .7]
        rng.shuffle(case['rows'])
        if rng.random() < .3:
            al = {}
            for n in rng.sample(BLOCK_CMDS, 2) + ['mdpo-context']:
                a = rng.choice(['off', 'on', 'x-', 'skip', 'ñ', 'mdpo-my-',
                                'a.b']) + n[5:7]
                al.setdefault(a, n if rng.random() < .5 else n[5:])
            inv = {}
            for a, n in al.items():
                inv.setdefault(n if n.startswith('mdpo-') else 'mdpo-' + n,
                               []).append(a)
            case['aliases'] = al
            case['doc'] = _rename(doc, inv, rng)
        return case

    def judge(self, case):
        r = Result()
        doc = case['doc']
        self.valid(doc)
        al = {a: (n if n.startswith('mdpo-') else 'mdpo-' + n)
              for a, n in case['aliases'].items()}
        if set(al.values()) - KNOWN_CMDS:
            raise Invalid
        try:
            mod = Decide(aliases=al).document(doc)
        except model.Rejected:
            raise Invalid from None
        log = mod.log
        if mod.pending and any('include-codeblock' in al.get(b[1], b[1])
                               for b in _allblocks(doc) if b[0] == 'cmd'):
            raise Invalid('code blocks are documented as not supported')
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        rows, trans = [], {}
        for c, j, full in case['rows']:
            if j >= len(keys) or (c, keys[j]) in trans:
                raise Invalid
            t = f'T{j} {"in " + str(ctxid(c)) if c else "plain"}' \
                if full else ''
            trans[(c, keys[j])] = t
            rows.append((c, keys[j], t))
        text, _ = self.source(case, self.emitter(case))
        with open('c.po', 'w', encoding='utf-8') as f:
            f.write(po_text(rows))
        o = call(markdown_pofile_to_html, text, 'c.po',
                 command_aliases=case['aliases'])
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        it = iter(log)

        def decide(inl):
            on, ctxt, k = next(it)
            if k != mdgen.canon(inl):
                raise AssertionError('model order')
            t = trans.get((ctxt, k)) if on else None
            r.counts['left_disabled'] += not on
            r.counts['translated'] += bool(t)
            r.counts['by_context'] += bool(t and ctxt)
            return [['t', t]] if t else None
        show = Without(case['style'])
        show.__dict__.update(self.emitter(case).__dict__)
        show.decide = decide
        want = show.blocks(doc)
        self.compare(r, case, want, o.value, f'source={text!r}\n  '
                     f'catalog={rows}\n  aliases={al}')
        n = sum(1 for b in _allblocks(doc) if b[0] == 'cmd')
        r.counts['commands'] += n
        r.counts['aliases'] += bool(al)
        r.nontrivial = n >= 1 and len(keys) > 1
        r.info = {'html': text, 'catalog': rows, 'aliases': case['aliases']}
        return r


class H04(HtmlCheck):
    """Documents whose links and images use definitions, with catalogs which
    translate the texts, the definitions or both."""
    id = 'H04'
    rule = ('the stream of the output against that of the model with each '
            'text replaced by its translation and each reference by the '
            'destination and title of the translated definition; '
            'non-trivial: a translated text with a reference')
    also = ('ref', 'imgref')
    quick_n = 39000
    thorough_n = 390000
    min_counts = {'references': 8000, 'image_references': 800,
                  'translated': 8000, 'definitions_translated': 4000,
                  'definitions_renamed': 1000, 'titles': 2000,
                  'shortcuts': 150, 'by_context': 500, 'by_md4c': 1000}

    def gen(self, rng, i, tier):
        g = self.mkgen(rng, tier, maxblocks=5, hard_defs=True,
                       quoted_titles=True)
        g.f['inl'] = dict(g.f['inl'], a=2, img=1, ref=8,
                          imgref=rng.choice([0, 2]))
        g.f['cell_inl'] = HtmlCheck.features['cell_inl'] + ('ref', 'imgref')
        defs = g.make_labels(rng.randint(1, 4))
        for d in defs:
            d[2] = d[2].replace(' ', '/')
        doc = g.doc()
        for inl in mdgen.text_blocks(doc):
            for n in mdgen.walk_inl(inl):
                if n[0] == 'ref' and rng.random() < .15:
                    n[1] = [['t', n[2]]]
                self.lookalike(rng, n, defs)
        case = {'doc': doc, 'style': rng.randrange(1, 1 << 30),
                'md4c': rng.random() < .3, 'defs': defs}
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        p = rng.choice([.4, .8, 1])
        tr = {}
        for j in range(len(keys)):
            if rng.random() < p:
                g.pool = []
                tr[str(j)] = mdgen._nopipe(
                    g.inl(1, rng.choice([1, 2, 4]), block=True))
                for n in mdgen.walk_inl(tr[str(j)]):
                    self.lookalike(rng, n, defs, True)
                if rng.random() < .15:      # written with brackets
                    t, lit = tr[str(j)], f'zlit{rng.randrange(9)} end'
                    if t and t[-1][0] == 't':
                        t[-1] = ['t', f'{t[-1][1].rstrip()} {lit}']
                    else:
                        t.append(['t', f' {lit}'])
        case['tr'] = tr
        # definitions of a label already defined
        case['again'] = [[rng.randrange(len(defs)), f'again/{k}', '']
                         for k in range(rng.choice([0, 0, 1, 2]))]
        # what the catalog has for each definition
        case['deftr'] = [rng.choice(['same', 'empty', 'href', 'href',
                                     'title', 'label'])
                         for _ in defs]
        case['ctxt'] = [i for i, b in enumerate(doc)
                        if b[0] in 'ph' and rng.random() < .5] \
            if rng.random() < .2 else []
        return case

    @staticmethod
    def lookalike(rng, n, defs, ticks=False):
        """Texts equal to labels in places where they aren't references."""
        d = rng.choice(defs)[1]
        if n[0] == 'a' and rng.random() < .3:
            n[1] = [['t', d]]
        elif n[0] == 'c' and rng.random() < .3:
            n[1] = rng.choice(
                ['[%s]', 'a[%s]', '[x][%s]', '[%s][]'] + ticks * [
                    'a ` [%s]', '`` [%s]', '[%s] ```` b', '``[x][%s]']) % d

    def judge(self, case):
        r = Result()
        defs = {d[1]: d for d in case['defs']}
        doc = json.loads(json.dumps(case['doc']))    # no shared parts
        if len({d[2] for d in case['defs']}) != len(case['defs']) or \
                len({k.casefold() for k in defs}) != len(case['defs']):
            raise Invalid
        if len(case['deftr']) != len(case['defs']):
            raise Invalid
        self.valid(doc)
        texts = list(mdgen.text_blocks(doc))
        keys = list(dict.fromkeys(mdgen.canon(x) for x in texts))
        if any(re.match(r'\[[^\]]*\]:', k) for k in keys):
            raise Invalid('looks like a definition')
        new, label, rows = {}, {}, []
        for j, (d, how) in enumerate(zip(case['defs'], case['deftr'])):
            if ' ' in d[2]:     # processors quote them
                raise Invalid
            n = list(d)
            if how == 'href':
                n[2] = f'https://tr{j}.org/x'
            elif how == 'title':
                n[3] = f'Título {j}'
            elif how == 'label':
                n[1], n[2] = f'nuevo {j}', f'tr/{j}.html'
            label[d[1]] = n[1]
            new[d[1]] = n
            rows.append((None, self.markup(d),
                         '' if how == 'empty' else self.markup(n)))
        again = []
        for j, href, _ in case.get('again', ()):
            d = ['def', case['defs'][j][1], href, '']
            again.append(d)
            rows.append((None, self.markup(d), '' if case['deftr'][j] ==
                         'empty' else self.markup(
                             ['def', d[1], 'tr-' + href, ''])))
        r.counts['defined_again'] += len(again)
        # blocks with a context
        marks = [i for i in case['ctxt'] if i < len(doc)
                 and doc[i][0] in ('p', 'h')]
        inctx = {id(next(mdgen.text_blocks([doc[i]]))) for i in marks}

        def literal(m, how):
            d = case['defs'][int(m[1]) % len(case['defs'])][1]
            r.counts['literal_labels'] += 1
            if how[0] == '\\' and int(m[1]) % 2:
                how = '\\[%s]'      # also literal
            return how % label[d]
        where = {}
        for x in texts:
            where.setdefault(mdgen.canon(x), set()).add(id(x) in inctx)
        tr = {}
        for j, t in case['tr'].items():
            if int(j) >= len(keys):
                raise Invalid
            self.valid_text(t, ticks=True)
            k = keys[int(j)]
            tr[k] = t
            for c in sorted(where[k]):
                rows.append(('ctx' if c else None, k, re.sub(
                    'zlit([0-9])', lambda m: literal(m, '\\[%s\\]'),
                    mdgen.canon(self.relabel(t, label)))))
        if any(n[0] in ('ref', 'imgref') and n[2] not in defs
               for x in texts + list(tr.values())
               for n in mdgen.walk_inl(x)):
            raise Invalid
        src, at = [], {}
        for i, b in enumerate(doc):
            if i in marks:
                src.append(['cmd', 'mdpo-context', 'ctx'])
            src.append(b)
        e = self.emitter(case)
        e.defs = defs
        if case.get('md4c'):
            case = dict(case, doc=src + case['defs'] + again)
        else:
            case = dict(case, doc=src)
        text, _ = self.source(case, e)
        with open('c.po', 'w', encoding='utf-8') as f:
            f.write(po_text(rows))
        o = call(markdown_pofile_to_html, text, 'c.po')
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        show = Without(case['style'])
        show.__dict__.update(self.emitter(case).__dict__)

        def decide(inl):
            t = tr.get(mdgen.canon(inl))
            show.defs = defs if t is None else new
            return t
        show.decide = decide
        want = json.loads(re.sub('zlit([0-9])', lambda m: literal(m, '[%s]'),
                                 json.dumps(show.blocks(src),
                                            ensure_ascii=False)))
        self.compare(r, case, want, o.value, f'source={text!r}\n  '
                     f'catalog={rows}')
        hit = False
        for x in texts:
            k = mdgen.canon(x)
            r.counts['translated' if k in tr else 'kept'] += 1
            r.counts['by_context'] += k in tr and id(x) in inctx
            for n in mdgen.walk_inl(x):
                if n[0] in ('ref', 'imgref'):
                    r.counts['references'] += 1
                    r.counts['image_references'] += n[0] == 'imgref'
                    r.counts['titles'] += bool(defs[n[2]][3])
                    r.counts['shortcuts'] += n[0] == 'ref' and \
                        mdgen.canon(n[1]) == n[2]
                    hit = hit or k in tr
        r.counts['definitions_translated'] += sum(
            h not in ('same', 'empty') for h in case['deftr'])
        r.counts['definitions_renamed'] += case['deftr'].count('label')
        r.counts['by_md4c'] += bool(case.get('md4c'))
        r.counts['after_blocks'] += self.emit.after
        r.nontrivial = hit
        r.info = {'html': text, 'catalog': rows}
        return r

    def relabel(self, inl, label):
        out = []
        for n in inl:
            n = list(n)
            if n[0] in ('ref', 'imgref') and n[2] not in label:
                raise Invalid
            if n[0] in ('b', 'i', 's', 'u', 'a', 'ref'):
                n[1] = self.relabel(n[1], label)
            if n[0] in ('ref', 'imgref'):
                n[2] = label[n[2]]
            out.append(n)
        return out

    def markup(self, b):
        t = f' "{mdgen._po_escape(b[3])}"' if b[3] else ''
        return f'[{b[1]}]: {mdgen._angled(b[2])}{t}'


# -------------------------------------------------------------------- H05
WRITTEN_INL = ('em', 'strong', 'b', 'i', 'code', 'span', 'kbd', 'sub', 'sup',
               'u', 'a', 'q', 'small', 'label', 'abbr', 'mark', 'button',
               'cite', 'del', 's', 'svg', 'my-tag')
WRITTEN_BLK = ('div', 'section', 'details', 'summary', 'blockquote',
               'article', 'figure', 'figcaption', 'dl', 'dt', 'dd', 'center',
               'ul', 'ol', 'table', 'main', 'header', 'footer', 'address',
               'form', 'fieldset', 'aside', 'nav', 'body', 'video')
WRITTEN_VOID = ('br', 'img', 'wbr', 'input', 'hr', 'source')
WRITTEN_ATTRS = {
    'id': ['a1', 'intro'], 'class': ['x', 'x y', 'language-py'],
    'title': ['a "b" c', "it's", 'x & y', '<b>', 'ñ 日本', 'two\n lines'],
    'style': ['color: red', 'text-align: left;'], 'data-x': ['', '&amp;', '1'],
    'href': ['u', '?a=1&b=2', '#top', 'a b'], 'src': ['s.png', 's?a=1&c=2'],
    'alt': ['t', '', 'a "b"'], 'hidden': [None], 'disabled': [None]}
WRITTEN_WORDS = ['alpha', 'beta', 'naïve', 'x&y', '日本', '"q"', 'a<b', '7',
                 '*s*', '-', '|', '.', 'a > b', '`x`', '[l](u)', '&amp;',
                 '__i__', '\\', "it's", '\u00a0', 'privyet', ':', '🙂']


PIS = ['php echo "a"; ?', 'xml version="1.0"?', 'x', 'php  if ($a) { ', ' y ',
       'php\n  $a = 1;\n?']


CONDS = ['if !IE', 'endif', 'if gte IE 9', 'else']
CDATAS = ['x', ' x < y && z ', '<p>no', 'a\n  b']


class H05(HtmlCheck):
    """Trees of elements as people write them inside Markdown documents,
    around paragraphs with and without translation."""
    id = 'H05'
    rule = ('the stream of elements, attributes, comments and texts of the '
            'output against that of the tree, in which the text of the '
            'paragraphs with translation is replaced; non-trivial: four or '
            'more elements')
    quick_n = 105000
    thorough_n = 1050000
    min_counts = {'tokens': 300000, 'texts_between_elements': 15000,
                  'translated': 9000, 'kept': 8000, 'raw_elements': 9000,
                  'in_ignored': 1000, 'options': 3000}

    # ------------------------------------------------------------ generation
    def gen(self, rng, i, tier):
        self.rng, self.k = rng, 0
        kids = self.blocks(0)
        if rng.random() < .15:
            kids.insert(0, ['r', rng.choice(['doctype', 'pi']), 'html'])
        if rng.random() < .2:
            where = kids
            while rng.random() < .5:
                sub = [n[3] for n in where if n[0] == 'e'
                       and n[1] in ('div', 'section', 'article', 'main')]
                if not sub:
                    break
                where = rng.choice(sub)
            where.insert(rng.randint(0, len(where)),
                         ['r', 'pi', rng.choice(PIS)] if rng.random() < .6
                         else rng.choice([
                             ['r', 'cdata', rng.choice(CDATAS)],
                             ['r', 'cond', rng.choice(CONDS)]]))
        keys = list(dict.fromkeys(k for k, _ in plain_texts(kids, ())))
        g = self.mkgen(rng, tier)
        tr = {}
        for k in keys:
            if rng.random() < .6:
                tr[k] = mdgen._nopipe(g.inl(1, rng.choice([1, 2, 4]),
                                            block=True))
        opts = {}
        if rng.random() < .3:
            opts['ignore_grouper_tags'] = rng.sample(
                ['div', 'hr', 'section', 'details', 'summary', 'aside',
                 'figure', 'form', 'blockquote'], rng.randint(1, 4))
        return {'kids': kids, 'tr': tr, 'opts': opts,
                'style': rng.randrange(1 << 30)}

    def attrs(self, tag):
        r = self.rng
        names = ['id', 'class', 'title', 'style', 'data-x', 'hidden']
        if tag in ('input', 'button', 'fieldset'):
            names.append('disabled')
        out = [[n, r.choice(WRITTEN_ATTRS[n])]
               for n in r.sample(names, r.choice([0, 0, 0, 1, 2]))]
        if tag == 'a' and r.random() < .85:
            out = [['href', r.choice(WRITTEN_ATTRS['href'])]] + \
                [a for a in out if a[0] == 'title']
        elif tag == 'img':
            out = [['src', r.choice(WRITTEN_ATTRS['src'])]] + out + \
                [['alt', r.choice(WRITTEN_ATTRS['alt'])]]
        return out

    def words(self):
        r = self.rng
        return ' '.join(r.choice(WRITTEN_WORDS)
                        for _ in range(r.randint(1, 3)))

    def inline(self, deep):
        r, out = self.rng, []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .5 or deep > 2:
                out.append(['t', self.words()])
            elif x < .8:
                t = r.choice(WRITTEN_INL)
                out.append(['e', t, self.attrs(t), self.inline(deep + 1)])
            elif x < .95:
                t = r.choice(WRITTEN_VOID[:4])
                out.append(['v', t, self.attrs(t)])
            else:
                out.append(r.choice([
                    ['r', 'comment', r.choice(['c', ' a -> b ', ''])],
                    ['r', 'pi', r.choice(PIS)],
                    ['r', 'cdata', r.choice(CDATAS)],
                    ['r', 'cond', r.choice(CONDS)]]))
            if r.random() < .6:
                out.append(['t', ' '])
        return out

    def blocks(self, deep):
        out = []
        for _ in range(self.rng.randint(1, 3)):
            b = self.block(deep)
            out += b if b and isinstance(b[0], list) else [b]
        return out

    def block(self, deep):
        r = self.rng
        x = r.random()
        if x < .25:
            self.k += 1
            return ['e', 'p', self.attrs('p'),
                    [['t', f'{r.choice(PLAIN_TEXTS)} {self.k}']]]
        if deep > 3 or x < .35:
            return ['e', r.choice(['p', 'p', 'h2']), self.attrs('p'),
                    self.inline(0)]
        if x < .45:
            return self.inline(0)
        if x < .5:
            return ['v', 'hr', self.attrs('hr')]
        if x < .55:
            return ['e', 'pre', [], [['e', 'code', self.attrs('code'), [
                ['t', r.choice(['x  y\n  z\n', '\tif a < b:\n\n  c\n'])]]]]]
        if x < .62:
            return ['r', *r.choice([
                ('script', 'if (a && b < c) { "x" }'), ('script', ''),
                ('style', 'p > a { color: red }\n  b { }'),
                ('comment', ' a note '), ('comment', 'x\ny')])]
        t = r.choice(WRITTEN_BLK)
        if t in ('ul', 'ol'):
            return ['e', t, self.attrs(t), [
                ['e', 'li', self.attrs('li'), self.blocks(deep + 1)]
                for _ in range(r.randint(1, 2))]]
        if t == 'table':
            return ['e', t, [], [['e', 'tbody', [], [['e', 'tr', [], [
                ['e', 'td', self.attrs('td'),
                 self.blocks(deep + 1) if r.random() < .3 else
                 self.inline(0)] for _ in range(2)]]]]]]
        return ['e', t, self.attrs(t), self.blocks(deep + 1)]

    # -------------------------------------------------------------- judgment
    def known_tree(self, kids, up=()):
        for n in kids:
            if n[0] == 't':
                if not isinstance(n[1], str):
                    raise Invalid
                continue
            if n[0] == 'r':
                if n[1] not in ('script', 'style', 'comment', 'doctype',
                                'pi', 'cdata', 'cond') or '--' in n[2] or '</' in n[2] or \
                        n[2].startswith(('>', '->', 'mdpo')) or \
                        n[1] == 'doctype' and n[2] != 'html' or \
                        n[1] == 'pi' and n[2] not in ('html', *PIS) or \
                        n[1] == 'cond' and n[2] not in CONDS or \
                        n[1] == 'cdata' and n[2] not in CDATAS:
                    raise Invalid
                continue
            tag, attrs = n[1], n[2]
            if tag not in BLOCK and tag not in WRITTEN_INL and \
                    tag not in WRITTEN_BLK and tag not in WRITTEN_VOID and \
                    tag != 'code':
                raise Invalid
            if (n[0] == 'v') != (tag in WRITTEN_VOID):
                raise Invalid
            if tag == 'li' and (not up or up[-1] not in ('ul', 'ol')) or \
                    tag in ('td', 'tr', 'tbody', 'th', 'thead') and \
                    'table' not in up or up and up[-1] in ('ul', 'ol') and \
                    tag != 'li':
                raise Invalid
            names = [a for a, _ in attrs]
            if len(set(names)) != len(names) or any(
                    a not in WRITTEN_ATTRS or v not in WRITTEN_ATTRS[a]
                    for a, v in attrs) or tag == 'img' and \
                    'src' not in names:
                raise Invalid
            if n[0] == 'e':
                self.known_tree(n[3], (*up, tag))

    def stream(self, kids, tr, ignored, up=()):
        """Tokens of a tree with some texts replaced."""
        out = []
        for n in kids:
            if n[0] == 't':
                out.append(['t', n[1]])
                self.between += bool(n[1].strip()) and not any(
                    t in ('p', 'h2', 'pre') for t in up)
            elif n[0] == 'r':
                self.raws += 1
                if n[1] == 'comment':
                    out.append(['#', n[2]])
                elif n[1] == 'cdata':
                    out.append(['#', '[CDATA[' + n[2]])
                elif n[1] == 'cond':
                    out.append(['#', '[' + n[2]])
                elif n[1] in ('doctype', 'pi'):
                    out.append(['#', '!DOCTYPE html' if n[1] == 'doctype'
                                else '?' + n[2]])
                else:
                    out += [['<', n[1], []], ['t', n[2]], ['>', n[1]]]
            elif n[0] == 'v':
                self.els += 1
                out.append(['<', n[1], n[2]])
            else:
                self.els += 1
                out.append(['<', n[1], n[2]])
                key = plain_text(n)
                t = tr.get(key) if key else None
                if t is not None and any(x in ignored for x in up):
                    self.inside += 1
                    t = None
                if t is not None:
                    self.done += 1
                    out += Emit(1).inl(t, False)
                else:
                    self.left += bool(key)
                    out += self.stream(n[3], tr, ignored, (*up, n[1]))
                out.append(['>', n[1]])
        return out

    def write(self, kids, r, style, up=()):
        out = ''
        for n in kids:
            if out and n[0] == 'e' and n[1] in BLOCK and style['nl'] and \
                    'pre' not in up:
                out += '\n'
            if n[0] == 't':
                out += self.escape(n[1], r)
            elif n[0] == 'r':
                out += {'comment': f'<!--{n[2]}-->',
                        'doctype': '<!DOCTYPE html>', 'pi': f'<?{n[2]}>',
                        'cdata': f'<![CDATA[{n[2]}]]>',
                        'cond': f'<![{n[2]}]>'}.get(
                            n[1], f'<{n[1]}>{n[2]}</{n[1]}>')
            else:
                tag = n[1].upper() if style['upper'] and \
                    r.random() < .5 else n[1]
                out += f'<{tag}'
                for a, v in n[2]:
                    out += r.choice([' '] * 6 + ['\n', '  ', '\n  '])
                    out += a if v is None else f'{a}="{html.escape(v)}"'
                if n[0] == 'v':
                    out += style['void']
                else:
                    body = self.write(n[3], r, style, (*up, n[1]))
                    out += f'>{body}</{tag}>'
        return out

    def escape(self, text, r):
        text = html.escape(text, quote=r.random() < .3)
        if r.random() < .2:
            text = text.replace('é', '&eacute;').replace('\u00a0', '&nbsp;') \
                .replace('ñ', '&#241;').replace('ï', '&#xEF;')
        return text

    def judge(self, case):
        r = Result()
        kids, tr, opts = case['kids'], case['tr'], case['opts']
        self.known_tree(kids)
        ignored = opts.get('ignore_grouper_tags', ['div', 'hr'])
        if set(ignored) - set(BLOCK) - set(WRITTEN_BLK) or \
                set(ignored) & {'p', 'ul', 'ol', 'li', 'table', 'td', 'tr',
                                'tbody', 'h2', 'pre'}:
            raise Invalid
        keys = [k for k, _ in plain_texts(kids, ())]
        for k, t in tr.items():
            self.valid_text(t)
            if k not in keys:
                raise Invalid
        if any(mdgen.canon([['t', k]]) != k for k in tr):
            raise Invalid
        self.between = self.raws = self.els = self.inside = 0
        self.done = self.left = 0
        want = self.stream(kids, tr, ignored)
        rng = random.Random(case['style'])
        style = {'nl': rng.random() < .5, 'upper': rng.random() < .15,
                 'void': rng.choice(['>', '/>', ' />'])}
        text = self.write(kids, rng, style)
        with open('c.po', 'w', encoding='utf-8') as f:
            f.write(po_text([(None, k, mdgen.canon(t))
                             for k, t in tr.items()]))
        kw = {k: frozenset(v) for k, v in opts.items()}
        o = call(markdown_pofile_to_html, text, 'c.po', **kw)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        self.compare(r, case, want, o.value,
                     f'source={text!r}\n  catalog={tr} options={opts}')
        r.counts.update(translated=self.done, kept=self.left,
                        in_ignored=self.inside, raw_elements=self.raws,
                        texts_between_elements=self.between,
                        options=bool(opts))
        r.nontrivial = self.els > 3
        r.info = {'html': text, 'catalog': tr}
        return r


PLAIN_TEXTS = ['texto', 'word ñ', '日本語 x&y', 'a < b']


GROUPS = {'bold': ('strong', 'b'), 'italic': ('em', 'i'),
          'code': ('code',), 'link': ('a',)}
OTHER = {'bold': ['x-bold', 'span', 'mark'], 'italic': ['x-em', 'cite', 'var'],
         'code': ['tt', 'kbd', 'x-code'], 'link': ['x-link', 'xref']}


def one_name(toks):
    """The tokens with one name for the elements of each group."""
    name = {t: g for g, ts in GROUPS.items() for t in (*ts, *OTHER[g])}
    return [[t[0], name.get(t[1], t[1]), *t[2:]] if t[0] in '<>' else t
            for t in toks]


def merged(toks):
    """Adjacent elements of the same name, bold or italic, are only one."""
    out = []
    for t in toks:
        if t[0] == '<' and t[1] in MARKUP and not t[2]:
            n = 1 if out and out[-1][0] == 't' and not out[-1][1].strip() \
                else 0
            if len(out) > n and out[-1 - n] == ['>', t[1]]:
                del out[-1 - n:]
                if out and out[-1][0] == '>':
                    raise Invalid('merging inside of the merged')
                out.append(['t', ' '])
                continue
        if t[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ['t', out[-1][1] + t[1]]
            continue
        out.append(list(t))
    return out


MARKUP = GROUPS['bold'] + GROUPS['italic']


def mixed(toks, rng):
    """The same tokens with names of markup elements drawn of its group."""
    out, stack = [], []
    for t in toks:
        if t[0] == '<' and t[1] in MARKUP:
            stack.append(rng.choice(
                GROUPS['bold' if t[1] in GROUPS['bold'] else 'italic']))
            t = ['<', stack[-1], *t[2:]]
        elif t[0] == '>' and t[1] in MARKUP:
            t = ['>', stack.pop()]
        out.append(t)
    return out


class H06(H02):
    """Options of the translator: names of the elements of each markup, and
    merging of adjacent markup."""
    id = 'H06'
    rule = ('documents translated with the elements of the markup renamed '
            'and given by options, against the same translation with the '
            'usual names; paragraphs with adjacent markup in source or '
            'translation translated with and without merging; non-trivial: '
            'some text translated and one markup element')
    quick_n = 36000
    thorough_n = 360000
    min_counts = {'renamed': 5000, 'merged': 1000, 'translated': 3000,
                  'tokens': 30000}

    def gen(self, rng, i, tier):
        if rng.random() < .5:
            case = super().gen(rng, i, tier)
            case['names'] = {g: rng.choice(v) for g, v in OTHER.items()
                             if rng.random() < .7}
            case['both'] = rng.random() < .3
            for x in mdgen.text_blocks(case['doc']):
                for n in mdgen.walk_inl(x):
                    if n[0] == 'c' and rng.random() < .3:
                        n[1] = rng.choice(['w  ', 'w   ']) + n[1].strip()
            return case
        g = self.mkgen(rng, tier)
        g.f = dict(g.f, inl={'t': 8, 'b': 8, 'i': 5, 'c': 1})
        out = []
        for _ in range(rng.randint(1, 4)):
            pair = []
            k = rng.choice('bbi')
            for _ in range(2):
                g.pool = []
                inl = g.inl(1, rng.choice([1, 2, 3]), block=True)
                if not pair and rng.random() < .5:
                    inl += [['t', ' or '], ['b', [['t', 'one']]],
                            ['t', ' or '], ['i', [['t', 'two']]]]
                if rng.random() < .7:
                    add = [[k, [['t', g.words(1, 3, True)]]] for _ in '12']
                    inl = inl + [['t', ' end '], add[0], ['t', ' '], add[1]]
                    if rng.random() < .3:
                        inl = inl[-3:]
                whole = []
                for n in inl:
                    if n[0] == 't' and whole and whole[-1][0] == 't':
                        whole[-1] = ['t', whole[-1][1] + n[1]]
                    else:
                        whole.append(list(n))
                pair.append(whole)
            out.append(pair + [rng.random() < .6])
        return {'pairs': out, 'style': rng.randrange(1, 1 << 30),
                'mixed': rng.random() < .6}

    def judge(self, case):
        return self.rename(case) if 'doc' in case else self.merge(case)

    def rename(self, case):
        r = Result()
        doc = case['doc']
        self.valid(doc)
        keys = list(dict.fromkeys(
            mdgen.canon(x) for x in mdgen.text_blocks(doc)))
        rows = []
        for j, t in case['tr'].items():
            if int(j) >= len(keys):
                raise Invalid
            self.valid_text(t)
            rows.append((None, keys[int(j)], mdgen.canon(t)))
        text, _ = self.source(case, self.emitter(case))
        with open('a.po', 'w', encoding='utf-8') as f:
            f.write(po_text(rows))
        new, opts = text, {}
        for g, name in case['names'].items():
            new, n = re.subn(r'(</?)(?:%s)(?=[\s>/])' % '|'.join(GROUPS[g]),
                             r'\g<1>' + name, new)
            r.counts['renamed'] += n
            opts[f'{g}_tags'] = frozenset(
                [name, *(GROUPS[g] if case.get('both') else ())])
        a = call(markdown_pofile_to_html, text, 'a.po')
        b = call(markdown_pofile_to_html, new, 'a.po', **opts)
        if not a or not b:
            r.bad('crash', f'{a.err()} {b.err()}\n  source={new!r} {opts}')
            return r
        x, y = (normal(one_name(tokens(o.value))) for o in (a, b))
        r.counts['tokens'] += len(x)
        if x != y:
            r.bad('renamed', f'{diff(x, y)}\n  source={new!r}\n  options='
                  f'{opts}\n  catalog={rows}\n  output={b.value!r}')
        r.counts['translated'] += len(rows)
        r.nontrivial = bool(rows) and new != text
        r.info = {'html': new, 'options': {k: sorted(v)
                                           for k, v in opts.items()}}
        return r

    def merge(self, case):
        r = Result()
        rows, want, text = [], [], ''
        keys = []
        for src, dst, filled in case['pairs']:
            for inl in (src, dst):
                mdgen.valid_inl(inl)
                for n in mdgen.walk_inl(inl):
                    if n[0] not in 'tbic':
                        raise Invalid
            if mdgen.canon(src) in keys:
                raise Invalid
            keys.append(mdgen.canon(src))
            e = Emit(case['style'])
            e.ids = e.classes = False
            own = random.Random(case['style'])
            at = ['<', 'p', []]
            toks = [at, *e.inl(src), ['>', 'p']]
            if case.get('mixed'):
                toks = mixed(toks, own)
            if not filled and own.random() < .5:
                toks = [['t', own.choice(['\n', '\n  '])] if t == ['t', ' ']
                        else t for t in toks]
            text += e.render(toks).strip() + '\n'
            shown = toks
            if filled:
                rows.append((None, mdgen.canon(src).replace('\n', ' '),
                             mdgen.canon(dst)))
                shown = [at, *e.inl(dst, False), ['>', 'p']]
            shown = normal(shown)
            have = {t[1] for t in one_name(toks) if t[0] == '<'}
            can = merged(shown)
            if can != shown and not {
                    t[1] for t in one_name(shown) if t[0] == '<' and
                    t[1] in ('bold', 'italic')} <= have:
                raise Invalid('markup which the source does not have')
            r.counts['merged'] += can != shown
            want += normal(can)
        with open('a.po', 'w', encoding='utf-8') as f:
            f.write(po_text(rows))
        o = call(markdown_pofile_to_html, text, 'a.po',
                 merge_adjacent_markups=True)
        if not o:
            r.bad('crash', f'{o.err()}\n  source={text!r}')
            return r
        got = normal(tokens(o.value))
        r.counts['tokens'] += len(want)
        if got != want:
            r.bad('merged', f'{diff(want, got)}\n  source={text!r}\n  '
                  f'catalog={rows}\n  output={o.value!r}')
        r.counts['translated'] += len(rows)
        r.nontrivial = bool(rows)
        r.info = {'html': text, 'catalog': rows}
        return r


def plain_text(n):
    if n[0] == 'e' and n[1] == 'p' and len(n[3]) == 1 and n[3][0][0] == 't':
        head, _, k = n[3][0][1].rpartition(' ')
        if head in PLAIN_TEXTS and k.isdecimal():
            return n[3][0][1]
    return None


def plain_texts(kids, up):
    """Texts of the paragraphs without other elements."""
    for n in kids:
        if n[0] == 'e':
            if plain_text(n):
                yield plain_text(n), up
            else:
                yield from plain_texts(n[3], (*up, n[1]))


CHECKS = {c.id: c for c in (H01, H02, H03, H04, H05, H06)}
