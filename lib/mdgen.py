"""Structured Markdown documents: generator, renderer, canonical messages.

A document is a JSON list of blocks.  Everything the monitors expect is
computed from this structure, never from mdpo's own code.

Inline nodes
  ["t", text] ["b", inl] ["i", inl] ["s", inl] ["u", inl] ["c", code]
  ["a", inl, href, title|None] ["auto", url] ["img", alt, src, title|None]
  ["ref", inl, label] ["imgref", alt, label] ["w", target, text|None]
  ["m", latex] ["h", inline html] ["e", entity] ["x", escapable char]
Blocks
  ["p", inl] ["h", level, inl] ["ul", items] ["ol", start, items]
  ["q", blocks] ["f", lang, code lines] ["ind", code lines] ["hr"]
  ["tb", aligns, header, rows] ["html", text] ["cm", text]
  ["cmd", name, arg|None] ["def", label, href, title|None]
  item = [task mark|None, blocks]
"""
import random
import re

from engine import Invalid

WORDS = (
    'alpha beta gamma delta epsilon zeta eta theta iota kappa lambda sigma '
    'tree house river window letter garden market engine signal letter '
    'día año mañana niño corazón naïve façade über straße Ωmega привет мир '
    'книга 日本語 文書 한국어 שלום مرحبا ěščř łódź 🙂ok x1 v2 3rd 42 7 i18n '
    "don't it's e-mail up-to-date C/C++ R&D 50% a=b key:value foo.bar ñ é"
).split()
PUNCT = ['.', ',', '!', '?', ';', ':', '…', '—', '。', '."', ')']


ITEM_FIRST = ('h', 'f', 'q', 'ul', 'ol', 'tb', 'hr')


class G:
    """Feature-gated generator."""

    DEFAULT = dict(
        inl={'t': 30, 'b': 5, 'i': 5, 's': 3, 'c': 5, 'a': 4, 'auto': 2,
             'img': 2, 'w': 2, 'm': 2, 'h': 1, 'e': 1, 'x': 2},
        blk={'p': 12, 'h': 5, 'ul': 5, 'ol': 3, 'q': 3, 'f': 2, 'ind': 1,
             'hr': 1, 'tb': 2, 'html': 1, 'cm': 1},
        maxblocks=7, depth=3, unique=True, repeat=0.12,
    )

    def __init__(self, rng, **feat):
        self.r = rng
        self.f = dict(self.DEFAULT)
        self.f.update(feat)
        self.n = 0
        self.labels = []
        self.urls = 0
        self.pool = []
        self.deep = False

    # -------------------------------------------------------------- helpers
    def pick(self, weights):
        items = [(k, w) for k, w in weights.items() if w > 0]
        return self.r.choices([k for k, _ in items],
                              [w for _, w in items])[0]

    def word(self):
        w = self.r.choice(WORDS)
        if self.f['unique'] and self.r.random() < 0.35:
            self.n += 1
            w = f'w{self.n}'
        return w

    def startword(self):
        """A word that can start a line without opening a block."""
        if self.r.random() < 0.6 and self.f['unique']:
            self.n += 1
            return f'{self.r.choice(["k", "Q", "ñ", "z"])}{self.n}'
        return self.r.choice(['alpha', 'beta', 'Gamma', 'tree', 'día', 'мир',
                              '日本語', 'river', 'The', 'año', 'x1'])

    def words(self, lo=1, hi=6, start=False):
        n = self.r.randint(lo, hi)
        out = [self.startword() if start else self.word()]
        for _ in range(n - 1):
            w = self.word()
            if self.r.random() < 0.12:
                w += self.r.choice(PUNCT)
            out.append(w)
        return ' '.join(out)

    def url(self):
        self.urls += 1
        r = self.r.random()
        if self.f.get('wild') and self.r.random() < 0.2:
            return 'wild/' + self.r.choice([
                f'with space-{self.urls}.md', f'a(b{self.urls})c.md',
                f'a(b{self.urls}.md', f'a{self.urls})b.md',
                f'a)b{self.urls}(c', f'x+y{self.urls}', f'p_q_{self.urls}',
                f'a(b c{self.urls}', f'((a){self.urls}', f's\\d{self.urls}',
                f'#é-{self.urls}', f'ü/{self.urls}?a=[b]', f'b=c,{self.urls};d!',
            ])
        if r < 0.5:
            return f'https://ex{self.urls}.org/p?q={self.urls}&z=1'
        if r < 0.8:
            return f'docs/file-{self.urls}.md#s_{self.urls}'
        return f'mailto:u{self.urls}@ex.org'

    def title(self):
        if self.r.random() < 0.5:
            return None
        t = self.words(1, 3, start=True)
        if self.f.get('quoted_titles') and self.r.random() < 0.25:
            t += ' "' + self.words(1, 1, start=True) + '"'
        elif self.f.get('quoted_titles') and self.r.random() < 0.15:
            t += self.r.choice([' x\\y', ' C:\\dir', ' \\\\s'])
        return t.replace("'", '').replace(')', '').replace('(', '') \
            if self.f.get('plain_titles', True) else t

    # --------------------------------------------------------------- inline
    def atom(self, kind, ctx):
        """ctx: set of enclosing span kinds."""
        r = self.r
        sub = ctx | {kind}
        if kind == 'b':
            return ['b', self.inl(1, 3, sub)]
        if kind == 'i':
            return ['i', self.inl(1, 3, sub)]
        if kind == 's':
            return ['s', self.inl(1, 2, sub)]
        if kind == 'u':
            return ['u', self.inl(1, 2, sub)]
        if kind == 'c':
            return ['c', self.code()]
        if kind == 'a':
            return ['a', self.inl(1, 3, sub), self.url(), self.title()]
        if kind == 'auto':
            self.urls += 1
            return ['auto', f'https://au{self.urls}.org/x']
        if kind == 'img':
            return ['img', self.words(1, 3, start=True)
                    if r.random() > .06 else '', self.url(), self.title()]
        if kind == 'w':
            target = f'Page{r.randint(1, 99)} {r.choice(WORDS[:20])}'
            if r.random() < 0.1:
                return ['w', target, r.choice([target.lower(),
                                               target.upper()])]
            return ['w', target,
                    self.words(1, 2, start=True) if r.random() < 0.5
                    else None]
        if kind == 'm':
            return ['m', r.choice(['a+b', 'x^2', '\\frac{1}{2}', 'e=mc', 'n'])]
        if kind == 'h':
            return ['h', r.choice(['<br/>', '<kbd>', '</kbd>', '<!-- c -->',
                                   '<span class="k v">', '</span>'])]
        if kind == 'e':
            return ['e', r.choice(['&amp;', '&copy;', '&nbsp;', '&#35;',
                                   '&lt;', '&gt;', '&eacute;'])]
        if kind == 'x':
            return ['x', r.choice(self.f.get('escapes', ['*', '`']))]
        if kind == 'ref':
            if not self.labels:
                return ['t', self.word()]
            return ['ref', self.inl(1, 2, sub), r.choice(self.labels)]
        if kind == 'imgref':
            if not self.labels:
                return ['t', self.word()]
            return ['imgref', self.words(1, 2, start=True),
                    r.choice(self.labels)]
        raise AssertionError(kind)

    def code(self):
        r = self.r
        c = r.choice(['x', 'f(a, b)', 'a < b && c', '--opt=1', '<tag/>',
                      'a*b*c', '_p_', '[k](v)', '&amp;', '$x$', '# no',
                      'C:\\dir', 'ключ', 'a\\*b', '**no**', '[[w]]'])
        if self.f.get('backticks', True) and r.random() < 0.25:
            c = r.choice(['a`b', 'a``b', 'a`b``c', 'x ```y``` z', 'a````b'])
        if self.f.get('wild') and r.random() < 0.2:
            return r.choice(['`a', 'a`', '`', '``', ' a ', ' `a` ', '`a b`',
                             ' a', 'b ', ' ` ', '```', 'a\\', '\\`'])
        if 'i' and r.random() < 0.3:
            self.n += 1
            c += f' k{self.n}'
        if self.f.get('code_blanks') and r.random() < 0.15:
            c += r.choice(['  ;', '   z', '  = 1;  end'])
        return c

    def inl(self, lo, hi, ctx=frozenset(), block=False):
        """A list of inline nodes, separated by single spaces."""
        r = self.r
        out = []
        n = r.randint(lo, hi)
        weights = dict(self.f['inl'])
        for k in ctx:
            weights[k] = 0
        if 'a' in ctx or 'ref' in ctx:
            for k in ('a', 'auto', 'ref', 'w', 'm'):
                weights[k] = 0
            for k in self.f.get('not_in_link', ()):
                weights[k] = 0
        if ctx:
            for k in ('h', 'e', 'x'):
                weights[k] = weights.get(k, 0) if k in self.f.get(
                    'in_span', ('e',)) else 0
        if len(ctx) >= self.f.get('span_depth', 3):
            weights = {'t': 1}
        for k in self.f.get('not_in_span', ()):
            if ctx:
                weights[k] = 0
        prev = None
        for j in range(n):
            kind = self.pick(weights)
            if block and j == 0 and kind in ('x', 'h', 'e', 'm'):
                kind = 't'
            if ctx and (j == 0 or j == n - 1) and kind in ('x', 'h', 'e', 'm'):
                kind = 't'
            if kind in ('b', 'i') and ctx & {'b', 'i'} and (
                    j == 0 or j == n - 1):
                kind = 't'
            if prev == 't' and kind == 't':
                # merge with previous text
                out[-1][1] += ' ' + self.words(1, 3)
                continue
            if kind == 't':
                node = ['t', self.words(1, 5, start=(j == 0))]
            else:
                node = self.atom(kind, frozenset(ctx))
            if out:
                if out[-1][0] == 't':
                    out[-1][1] += ' '
                    if node[0] == 't':
                        out[-1][1] += node[1]
                        prev = 't'
                        continue
                elif node[0] == 't':
                    glue = r.random()
                    if glue < 0.2:
                        node[1] = r.choice([',', '.', '!', ';', ':']) + \
                            ' ' + node[1]
                    else:
                        node[1] = ' ' + node[1]
                else:
                    out.append(['t', ' '])
            out.append(node)
            prev = node[0]
        return out

    def text(self):
        """Inline content of one text block."""
        r = self.r
        if self.pool and r.random() < self.f['repeat']:
            return r.choice(self.pool)
        x = self.inl(1, r.choice([1, 2, 3, 4, 6]), block=True)
        if len(self.pool) < 6:
            self.pool.append(x)
        return x

    # --------------------------------------------------------------- blocks
    def blocks(self, lo, hi, depth, where='top', avoid=()):
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            self.block(out, depth, where, avoid)
        return out

    def block(self, out, depth, where, avoid=()):
        w = dict(self.f['blk'])
        if depth <= 0:
            for k in ('ul', 'ol', 'q'):
                w[k] = 0
        for k in avoid:
            w[k] = 0
        for k in self.f.get('not_in_' + where, ()):
            w[k] = 0
        last = out[-1][0] if out else None
        if last in ('ul', 'ol'):
            w['ind'] = 0
            if not self.f.get('adjacent_lists'):
                w['ul'] = w['ol'] = 0
        if last == 'ind':
            w['ind'] = 0
        if last == 'q':
            w['q'] = 0
        if not any(v > 0 for v in w.values()):
            return
        k = self.pick(w)
        out.append(self.mk(k, depth))

    def mk(self, k, depth):
        r = self.r
        if k == 'p':
            return ['p', self.text()]
        if k == 'h':
            return ['h', r.randint(1, 6), self.text()]
        if k in ('ul', 'ol'):
            items = []
            for _ in range(r.randint(1, 4)):
                task = None
                if (k == 'ul' or self.f.get('ol_tasks')) and \
                        self.f.get('tasks', True) and r.random() < 0.15:
                    task = r.choice([' ', 'x', 'X'])
                if self.f.get('empty_items') and r.random() < .05:
                    items.append([None, []])
                    continue
                items.append([task, self.item(depth - 1, task is None)])
            if k == 'ul':
                return ['ul', items]
            start = r.choice([1, 1, 1, 0, 2, 7, 10]) \
                if self.f.get('ol_starts', True) else 1
            return ['ol', start, items]
        if k == 'q':
            return ['q', self.blocks(1, 3, depth - 1, 'quote')]
        if k == 'f':
            return ['f', r.choice(['', '', 'python', 'c++', 'js {1}']),
                    [] if self.f.get('empty_code') and r.random() < .06
                    else self.codelines()]
        if k == 'ind':
            return ['ind', self.codelines(ind=True)]
        if k == 'hr':
            return ['hr']
        if k == 'tb':
            nc = r.randint(2, 3)
            return ['tb', [r.choice(['', 'l', 'c', 'r']) for _ in range(nc)],
                    [self.celltext() for _ in range(nc)],
                    [[self.celltext() for _ in range(nc)]
                     for _ in range(r.randint(1, 3))]]
        if k == 'html':
            self.n += 1
            if self.f.get('code_defs') and r.random() < .7:
                return ['html', r.choice([
                    f'<!--\n[a{self.n}]: /b\n-->',
                    f'<div>\n[a{self.n}]: b.c\n  [x]: <y> "z"\n</div>',
                    f'<pre>\n[a{self.n}]: b\n</pre>',
                    f'<!-- {self.n}\n   [a]: b "c"\n-->'])]
            if r.random() < .4:
                return ['html', r.choice([
                    f'<script>\nif (a{self.n} < b) {{\n\n  "*x*"\n}}\n</script>',
                    f'<pre>\n  p{self.n}\n\n\n    # no\n</pre>',
                    f'<style>\n\n.a{self.n} > b {{ }}\n\n</style>',
                    f'<?php\n\n  echo {self.n};\n?>',
                    f'<![CDATA[\n{self.n} < 2\n\n- no\n]]>',
                    f'<!DOCTYPE x{self.n}>', f'<!-- n{self.n}\n\n\n  b -->',
                    f'   <div>\n  b{self.n}\n </div>',
                    f'  <section>x{self.n}\n</section>',
                    f' <x-y a="{self.n}">\n </x-y>',
                    f'</div>\n*{self.n}*\n<b>',
                    f'<div>\ta{self.n}\n\tb\n</div>'])]
            return ['html', r.choice([
                f'<div id="d{self.n}">not *text* {self.n}</div>',
                f'<div>\n  <b>n{self.n}</b>\n</div>',
                f'<p align="center">p{self.n}</p>',
                f'<table>\n<tr><td>c{self.n}</td></tr>\n</table>',
                f'<details>\n<summary>s{self.n}</summary>\n</details>',
            ])]
        if k == 'cm':
            return ['cm', self.comment()]
        raise AssertionError(k)

    def comment(self):
        self.n += 1
        return self.r.choice(self.f.get('comments') or [
            'TODO: check. this', f'note-{self.n}: a, b.', 'end of section!',
            f'markdownlint-disable MD0{self.n}.', f'prettier-ignore, {self.n}',
        ])

    def celltext(self):
        r = self.r
        if self.f.get('empty_cells') and r.random() < .05:
            return []
        keep = self.f['inl']
        try:
            self.f = dict(self.f)
            self.f['inl'] = {k: v for k, v in keep.items()
                             if k in self.f.get('cell_inl', (
                                 't', 'b', 'i', 's', 'c', 'a', 'e', 'img'))}
            x = self.inl(1, r.choice([1, 1, 2]), block=True)
        finally:
            self.f = dict(self.f)
            self.f['inl'] = keep
        return _nopipe(x)

    def item(self, depth, free=False):
        r = self.r
        out = [['p', self.text()]]
        kinds = self.f.get('item_first', ())
        if depth <= 0:
            kinds = [k for k in kinds if k not in ('ul', 'ol', 'q')]
        if free and kinds and r.random() < .08:
            # items which start with other block
            out = [self.mk(r.choice(list(kinds)), depth)]
        nest = self.f.get('item_blocks', {
            'ul': 4, 'ol': 3, 'p': 3, 'q': 1, 'f': 1, 'tb': 1})
        if depth > 0 and r.random() < (.6 if self.deep else .3):
            n = r.choice([1, 1, 2])
            for _ in range(n):
                last = out[-1][0]
                w = dict(nest)
                if last in ('ul', 'ol'):
                    for k in ('ul', 'ol', 'ind'):
                        w[k] = 0
                if last == 'ind':
                    w['ind'] = 0
                if last == 'q':
                    w['q'] = 0
                if not any(w.values()):
                    break
                out.append(self.mk(self.pick(w), depth))
        return out

    def codelines(self, ind=False):
        r = self.r
        n = r.randint(1, 4)
        out = []
        for j in range(n):
            self.n += 1
            line = r.choice([
                f'code {self.n}', f'def f{self.n}(a, b):',
                f'    return *{self.n}*', f'# comment {self.n}',
                f'<b>{self.n}</b>', f'- item {self.n}', f'"q" \\n {self.n}',
                f'> {self.n} | a | b', f'\u00e9\u4e2d {self.n}   x',
                f'[a]: b.c{self.n}.' if self.f.get('code_defs')
                else f'[a] {self.n}',
            ])
            if not ind and r.random() < .04:
                line = r.choice([f'```py{self.n}', f'~~~ {self.n}', '```',
                                 '~~~~', f'``` [a]: {self.n}'])
            if r.random() < .04:
                line += r.choice([' ', '  ', '   '])
            if r.random() < 0.15 and 0 < j < n - 1 and not (
                    ind and self.f.get('no_ind_blank')):
                line = ''
            out.append(line)
        if ind and (out[0].startswith(' ')):
            out[0] = out[0].lstrip()
        if not ind and r.random() < 0.08:
            out = [''] * r.randint(0, 2) + out + [''] * r.randint(1, 2)
        return out

    # ------------------------------------------------------------ documents
    def doc(self):
        out = []
        for _ in range(self.r.randint(1, self.f['maxblocks'])):
            self.deep = self.f['depth'] > 1 and self.r.random() < .04
            self.block(out, self.f['depth'] + 2 * self.deep, 'top')
        self.deep = False
        if self.f['blk'].get('html') and self.r.random() < .1:
            self.around(out)
        return out

    def around(self, out):
        """Some blocks as content of an element."""
        a, b = sorted(self.r.sample(range(len(out) + 1), 2)) \
            if len(out) > 1 else (0, len(out))
        self.n += 1
        x, y = self.r.choice([
            (f'<div align="center" id="w{self.n}">', '</div>'),
            (f'<details>\n<summary>{self.n}</summary>', '</details>'),
            ('<section>', '</section>'), ('<div><div>', '</div></div>'),
            (f'<div\n  id="w{self.n}"\n  class="a">', '</div>')])
        out.insert(b, ['html', y])
        out.insert(a, ['html', x])

    def make_labels(self, n):
        self.labels = []
        defs = []
        for _ in range(n):
            self.n += 1
            lab = self.r.choice([f'ref{self.n}', f'ref-{self.n}',
                                 f'Ref {self.n} word', f'{self.n}', ])
            self.labels.append(lab)
            self.urls += 1
            href = self.r.choice([
                f'https://def{self.urls}.org/a?b=1&c={self.urls}',
                f'def/{self.urls}.html#x-y', f'/def_{self.urls}'])
            t = self.title()
            if t and self.f.get('hard_defs'):
                t = self.r.choice([t, t, f'the {t}\'s', f'{t} (x)',
                                   f'see "{t}"', f'a, {t}: b.', f'x\\y {t}'])
                if self.r.random() < 0.15:
                    href = f'a b/{self.urls}'
                elif self.f.get('wild') and self.r.random() < 0.2:
                    href = self.r.choice([f'd(e{self.urls}',
                                          f'd{self.urls})', f'd)({self.urls}',
                                          f'd(e){self.urls}'])
            elif t:
                t = t.replace('"', '')
            defs.append(['def', lab, href, t])
        return defs


def _nopipe(inl):
    out = []
    for n in inl:
        if n[0] == 'c':
            n = ['c', n[1].replace('|', '/')]
        elif n[0] in ('b', 'i', 's', 'u'):
            n = [n[0], _nopipe(n[1])]
        elif n[0] == 'a':
            n = ['a', _nopipe(n[1]), n[2], n[3]]
        out.append(n)
    return out


# ------------------------------------------------------------ canonical text
DELIMS = dict(b=('**', '**'), i=('*', '*'), s=('~~', '~~'), u=('__', '__'),
              c=('`', '`'), m=('$', '$'), w=('[[', ']]'))


def _po_escape(s):
    return (s.replace('\\', '\\\\').replace('\t', '\\t').replace('\r', '\\r')
            .replace('\n', '\\n').replace('\v', '\\v').replace('\b', '\\b')
            .replace('\f', '\\f').replace('"', '\\"'))


def min_backticks(code, ch='`'):
    runs = set()
    n = 0
    for c in code:
        if c == ch:
            n += 1
        else:
            if n:
                runs.add(n)
            n = 0
    if n:
        runs.add(n)
    k = 1
    while k in runs:
        k += 1
    return k


def canon(inl, d=None, refs=None):
    """The message text of inline content, in mdpo's canonical spelling."""
    d = d or DELIMS
    out = ''
    for n in inl:
        k = n[0]
        if k == 't':
            out += n[1]
        elif k in ('b', 'i', 's', 'u'):
            out += d[k][0] + canon(n[1], d, refs) + d[k][1]
        elif k == 'c':
            out += _code(n[1], d)
        elif k == 'a':
            txt = canon(n[1], d, refs)
            t = f' "{_po_escape(n[3])}"' if n[3] else ''
            if txt == n[2]:
                out += f'<{txt}{t}>'
            else:
                out += f'[{txt}]({_angled(n[2])}{t})'
        elif k == 'auto':
            out += f'<{n[1]}>'
        elif k == 'img':
            t = f' "{_po_escape(n[3])}"' if n[3] else ''
            out += f'![{n[1]}]({_angled(n[2])}{t})'
        elif k == 'ref':
            txt = canon(n[1], d, refs)
            out += f'[{txt}]'
            if txt != n[2]:
                out += f'[{n[2]}]'
        elif k == 'imgref':
            out += f'![{n[1]}][{n[2]}]'
        elif k == 'w':
            out += d['w'][0] + n[1] + (
                f'|{n[2]}' if n[2] and n[2] != n[1] else '') + d['w'][1]
        elif k == 'm':
            out += d['m'][0] + n[1] + d['m'][1]
        elif k in ('h', 'e'):
            out += n[1]
        elif k == 'x':
            out += '\\' + n[1] if n[1] in (d['i'][0], d['c'][0]) else n[1]
        else:
            raise Invalid(k)
    return out


def _unbalanced(h):
    depth = 0
    for c in h:
        depth += (c == '(') - (c == ')')
        if depth < 0:
            return True
    return depth != 0


def _angled(h):
    """The spelling of a destination in messages."""
    return f'<{h}>' if ' ' in h or _unbalanced(h) else h


def _code(code, d):
    k = min_backticks(code, d['c'][0])
    pad = ''
    if code[:1] == d['c'][0] or code[-1:] == d['c'][0] or \
            code[:1] == code[-1:] == ' ':
        pad = ' '
    return d['c'][0] * k + pad + code + pad + d['c'][1] * k


def plain(inl):
    """Readable text of inline content."""
    out = ''
    for n in inl:
        k = n[0]
        if k in ('t', 'c', 'auto', 'm', 'h', 'e', 'x'):
            out += n[1]
        elif k in ('b', 'i', 's', 'u', 'a', 'ref'):
            out += plain(n[1])
        elif k in ('img', 'imgref'):
            out += n[1]
        elif k == 'w':
            out += n[2] or n[1]
        else:
            raise Invalid(k)
    return out


def titles(inl, defs=None):
    """Titles of links and images in order of entering the span."""
    out = []
    for n in inl:
        k = n[0]
        if k == 'a':
            if n[3]:
                out.append(n[3])
            out += titles(n[1], defs)
        elif k == 'img':
            if n[3]:
                out.append(n[3])
        elif k == 'ref':
            if defs and defs.get(n[2], (0, None))[1]:
                out.append(defs[n[2]][1])
            out += titles(n[1], defs)
        elif k == 'imgref':
            if defs and defs.get(n[2], (0, None))[1]:
                out.append(defs[n[2]][1])
        elif k in ('b', 'i', 's', 'u'):
            out += titles(n[1], defs)
    return out


def walk_inl(inl):
    for n in inl:
        yield n
        if n[0] in ('b', 'i', 's', 'u', 'a', 'ref'):
            yield from walk_inl(n[1])


def text_blocks(blocks):
    """Every inline list of the document, in order."""
    for b in blocks:
        k = b[0]
        if k == 'p':
            yield b[1]
        elif k == 'h':
            yield b[2]
        elif k == 'ul':
            for it in b[1]:
                yield from text_blocks(it[1])
        elif k == 'ol':
            for it in b[2]:
                yield from text_blocks(it[1])
        elif k == 'q':
            yield from text_blocks(b[1])
        elif k == 'tb':
            for row in (b[2], *b[3]):
                yield from (c for c in row if c)


def map_text(blocks, fn):
    """Copy of the document with every text mapped by fn(inl)."""
    out = []
    for b in blocks:
        k = b[0]
        if k == 'p':
            out.append(['p', fn(b[1])])
        elif k == 'h':
            out.append(['h', b[1], fn(b[2])])
        elif k == 'ul':
            out.append(['ul', [[it[0], map_text(it[1], fn)]
                               for it in b[1]]])
        elif k == 'ol':
            out.append(['ol', b[1], [[it[0], map_text(it[1], fn)]
                                     for it in b[2]]])
        elif k == 'q':
            out.append(['q', map_text(b[1], fn)])
        elif k == 'tb':
            out.append(['tb', b[1], [fn(c) if c else c for c in b[2]],
                        [[fn(c) if c else c for c in row] for row in b[3]]])
        else:
            out.append(b)
    return out


def has_links(blocks):
    for inl in text_blocks(blocks):
        for n in walk_inl(inl):
            if n[0] in ('a', 'auto', 'img', 'ref', 'imgref'):
                return True
    return False


# ----------------------------------------------------------------- rendering
class Style:
    """Surface syntax choices, drawn from a seeded generator."""

    def __init__(self, seed, **fix):
        self.r = random.Random(f'style/{seed}')
        self.canonical = seed == 0
        self.fix = fix
        r = self.r
        if self.canonical:
            self.star = '*'
            self.under = False
            self.break_p = 0
            self.setext = 0
            self.bullets = '-'
            self.delim = '.'
            self.fence = '`'
            self.mixed = False
        else:
            self.star = r.choice('**_')
            self.break_p = r.choice([0, 0, 0.15, 0.4])
            self.setext = r.choice([0, 0.5])
            self.bullets = r.choice(['-', '*', '+'])
            self.delim = r.choice(['.', '.', ')'])
            self.fence = r.choice(['`', '~'])
            self.mixed = r.random() < 0.3   # each list has its own mark
        for k, v in fix.items():
            setattr(self, k, v)

    def ch(self, *xs):
        return xs[0] if self.canonical else self.r.choice(xs)

    def p(self, prob):
        return False if self.canonical else self.r.random() < prob


def render_inl(inl, st, brk=False, cell=False, prev=' ', nxt=' ', depth=0):
    """Render inline content; breaks (if brk) as '\n' at text spaces."""
    out = ''
    for j, n in enumerate(inl):
        k = n[0]
        before = out[-1:] or prev
        after = _first_char(inl[j + 1]) if j + 1 < len(inl) else nxt
        if k == 't':
            out += _render_text(n[1], st, brk)
        elif k in ('b', 'i'):
            ch = '*'
            if not st.canonical and depth == 0 and before in ' (' and \
                    after in ' .,!?;:' and st.star == '_':
                ch = '_'
            m = ch * (2 if k == 'b' else 1)
            out += m + render_inl(n[1], st, brk, cell, ch, ch, depth + 1) + m
        elif k == 's':
            out += '~~' + render_inl(n[1], st, brk, cell, '~', '~',
                                     depth + 1) + '~~'
        elif k == 'u':
            out += '_' + render_inl(n[1], st, brk, cell, '_', '_',
                                    depth + 1) + '_'
        elif k == 'c':
            out += render_code(n[1], st, brk)
        elif k == 'a':
            txt = render_inl(n[1], st, brk, cell, '[', ']', depth + 1)
            out += f'[{txt}]({_dest(n[2], st)}{_title(n[3], st, brk)})'
        elif k == 'auto':
            out += f'<{n[1]}>' if not st.p(0.3) else f'[{n[1]}]({n[1]})'
        elif k == 'img':
            alt = _render_text(n[1], st, brk)
            out += f'![{alt}]({_dest(n[2], st)}{_title(n[3], st, brk)})'
        elif k == 'ref':
            txt = render_inl(n[1], st, False, cell, '[', ']', depth + 1)
            if txt == n[2]:
                out += st.ch(f'[{txt}]', f'[{txt}][]', f'[{txt}][{n[2]}]')
            else:
                out += f'[{txt}][{n[2]}]'
        elif k == 'imgref':
            out += f'![{n[1]}][{n[2]}]'
        elif k == 'w':
            out += f'[[{n[1]}|{n[2]}]]' if n[2] else f'[[{n[1]}]]'
        elif k == 'm':
            out += f'${n[1]}$'
        elif k in ('h', 'e'):
            out += n[1]
        elif k == 'x':
            out += '\\' + n[1]
        else:
            raise Invalid(k)
    return out


def _first_char(n):
    k = n[0]
    if k in ('t', 'h', 'e'):
        return n[1][:1] or ' '
    return '*'


def _render_text(t, st, brk):
    if not brk or not st.break_p:
        return t
    parts = t.split(' ')
    out = parts[0]
    for i, w in enumerate(parts[1:], 1):
        if w and parts[i - 1] and (
                w[0].isalpha() or w.startswith('[z')) and \
                st.r.random() < st.break_p:
            out += '\n' + w
        else:
            out += ' ' + w
    return out


def render_code(code, st, brk=False):
    k = min_backticks(code)
    pad = ''
    if code[:1] == '`' or code[-1:] == '`' or \
            code[:1] == code[-1:] == ' ' or (
                not code[:1] == ' ' and st.p(0.3)):
        pad = ' '
    if st.p(0.3):
        runs = {len(s) for s in _runs(code)}
        k2 = k + 1
        while k2 in runs:
            k2 += 1
        k = k2
    if brk and code.strip() == code:
        code = _render_text(code, st, brk)
    return '`' * k + pad + code + pad + '`' * k


def _runs(code):
    cur = ''
    for c in code:
        if c == '`':
            cur += c
        elif cur:
            yield cur
            cur = ''
    if cur:
        yield cur


def _dest(h, st):
    if ' ' not in h and _unbalanced(h) and st.p(0.4):
        return h.replace('(', '\\(').replace(')', '\\)')
    return f'<{h}>' if _angled(h) != h or st.p(0.2) else h


def _title(t, st, brk=False):
    if not t:
        return ''
    q = [('"', '"')]
    if "'" not in t:
        q.append(("'", "'"))
    if '(' not in t and ')' not in t:
        q.append(('(', ')'))
    a, b = st.ch(*q)
    t = t.replace('\\', '\\\\')
    if a == '"':
        t = t.replace('"', '\\"')
    return f' {a}{_render_text(t, st, brk)}{b}'


def render_blocks(blocks, st, top=True, tight=False):
    """Return the list of lines of a block sequence."""
    out = []
    prevkind = None
    for b in blocks:
        lines = render_block(b, st, top and prevkind not in ('ul', 'ol'))
        if out:
            k = b[0]
            gap = 1
            if tight and prevkind == 'p' and (
                    k == 'ul' or k == 'ol' and b[1] == 1):
                gap = 0
            elif not st.canonical:
                if prevkind in ('h', 'hr') and k in ('p', 'h', 'hr', 'f'):
                    gap = st.r.choice([0, 1, 1])
                elif (k == 'f' or k == 'h' and lines[0].lstrip()[:1] == '#') \
                        and prevkind == 'p':
                    gap = st.r.choice([0, 1, 1])
                elif prevkind == 'f' and k in ('p', 'h', 'f'):
                    gap = st.r.choice([0, 1, 1])
                elif k == 'hr' and prevkind == 'p' and \
                        lines[0].lstrip()[:1] in '*_':
                    gap = st.r.choice([0, 1, 1])
                elif prevkind in ('cmd', 'cm') and k not in ('ind',):
                    gap = st.r.choice([0, 0, 1, 2])
                else:
                    gap = st.r.choice([1, 1, 1, 2])
                if not top:
                    gap = min(gap, 1)
                if not gap and prevkind in ('cmd', 'cm') and \
                        getattr(st, 'html_gap', False):
                    gap = 1
            out.extend([''] * gap)
        out.extend(lines)
        prevkind = b[0]
    return out


def render_block(b, st, top=True):
    k = b[0]
    lead = ' ' * st.r.choice([0, 0, 0, 1, 2, 3]) \
        if not st.canonical and top else ''
    if k == 'p':
        txt = render_inl(b[1], st, brk=True)
        lines = txt.split('\n')
        if not st.canonical and len(lines) > 1 and st.p(0.3):
            lines = [lines[0]] + ['  ' + x for x in lines[1:]]
        return [lead + lines[0]] + lines[1:] if lead else lines
    if k == 'h':
        if b[1] <= 2 and st.p(st.setext):
            txt = render_inl(b[2], st, brk=getattr(st, 'setext_break', True))
            return txt.split('\n') + \
                [('=' if b[1] == 1 else '-') * st.r.randint(3, 9)]
        txt = render_inl(b[2], st)
        close = ''
        if st.p(0.25):
            close = ' ' + '#' * st.r.randint(1, 6)
        return [f'{lead}{"#" * b[1]}{st.ch(" ", " ", "  ")}{txt}{close}']
    if k in ('ul', 'ol'):
        return render_list(b, st)
    if k == 'q':
        mark = '> ' if st.canonical or not st.p(0.0) else '>'
        return [(mark + ln).rstrip(' ') if not ln else mark + ln
                for ln in render_blocks(b[1], st, top=False)]
    if k == 'f':
        return render_fence(b, st)
    if k == 'ind':
        return [('    ' + ln) if ln else '' for ln in b[1]]
    if k == 'hr':
        return [st.ch('***', '* * *', '___', '*****')]
    if k == 'tb':
        return render_table(b, st)
    if k == 'html':
        return b[1].split('\n')
    if k == 'cm':
        return [f'<!-- {b[1]} -->']
    if k == 'cmd':
        return [render_cmd(b, st)]
    if k == 'def':
        t, dest = _title(b[3], st), _dest(b[2], st)
        if st.p(.12):   # escapes which change nothing
            dest = re.sub(r'(?<=\w)[_.=-](?=\w)', r'\\\g<0>', dest, count=1)
        return [f'[{b[1]}]: {dest}{t}']
    raise Invalid(k)


def render_cmd(b, st):
    arg = f'{st.ch(" ", " ", "  ")}{b[2]}' if b[2] else ''
    left = st.ch(' ', ' ', '', '  ')
    right = st.ch(' ', ' ', '  ')
    return f'<!--{left}{b[1]}{arg}{right}-->'


def render_fence(b, st):
    ch = st.fence
    n = 3
    for ln in b[2]:
        s = ln.strip()
        if s.startswith(ch * 3) and not s.strip(ch):
            n = max(n, len(s) + 1)
    if st.p(0.3):
        n += st.r.randint(1, 2)
    lang = b[1]
    if ch == '`' and '`' in lang:
        raise Invalid
    return [ch * n + lang] + list(b[2]) + [ch * n]


def render_table(b, st):
    nc = len(b[1])
    if nc < 1 or len(b[2]) != nc or any(len(r) != nc for r in b[3]):
        raise Invalid

    def row(cells):
        xs = [render_inl(c, st, cell=True) for c in cells]
        pad = st.ch(' ', ' ', '  ')
        s = '|' + '|'.join(f'{pad}{x}{pad}' for x in xs) + '|'
        return s
    sep = {'': ('---', '-----'), 'l': (':--', ':----'),
           'c': (':-:', ':---:'), 'r': ('--:', '----:')}
    return [row(b[2]),
            '|' + '|'.join(f' {st.ch(*sep[a])} ' for a in b[1]) + '|'] + \
        [row(r) for r in b[3]]


def item_is_tight(it):
    return all(x[0] in ('p', 'ul', 'ol') for x in it[1]) and \
        sum(1 for x in it[1] if x[0] == 'p') <= 1


def list_is_tight(items):
    for it in items:
        if not item_is_tight(it):
            return False
        if len(it[1]) > 2:
            return False
        if any(x[0] == 'ol' and x[1] != 1 for x in it[1]):
            return False
    return True


def render_list(b, st):
    ordered = b[0] == 'ol'
    items = b[2] if ordered else b[1]
    if not items:
        raise Invalid
    tight = list_is_tight(items)
    loose = (not tight) or st.p(getattr(st, 'loose_p', 0.2))
    out = []
    num = b[1] if ordered else 0
    same = st.p(0.3)
    delim, bullet = st.delim, st.bullets
    if st.mixed:
        delim, bullet = st.r.choice('.)'), st.r.choice('-*+')
    for j, it in enumerate(items):
        if ordered:
            mark = f'{num if same or j == 0 else num + j}{delim}'
        else:
            mark = bullet
        sp = ' ' * st.ch(1, 1, 1, 2, 3)
        task = ''
        if it[0] is not None:
            task = f'[{it[0]}] '
            sp = ' '
        ind = ' ' * (len(mark) + len(sp))
        lines = render_blocks(it[1], st, top=False, tight=not loose)
        if it[1] and (not lines or not lines[0]):
            raise Invalid
        if j and loose:
            out.append('')
        if not it[1]:
            out.append(mark)
            continue
        out.append(mark + sp + task + lines[0])
        out.extend((ind + ln) if ln else '' for ln in lines[1:])
    return out


def render(doc, styleseed, **fix):
    st = Style(styleseed, **fix)
    lines = render_blocks(doc, st)
    txt = '\n'.join(lines) + '\n'
    return txt


def inlines_ok(inl):
    if not inl:
        raise Invalid
    for n in inl:
        if n[0] in ('b', 'i', 's', 'u', 'a', 'ref'):
            inlines_ok(n[1])


# ---------------------------------------------------------------- validation
def valid_inl(inl, refs=None, top=True):
    if not isinstance(inl, list) or not inl:
        raise Invalid('empty inline')
    prev = None
    for n in inl:
        k = n[0]
        if k == 't':
            if not n[1] or '  ' in n[1] or prev == 't':
                raise Invalid('text')
        elif k in ('b', 'i', 's', 'u', 'a', 'ref'):
            if k == prev and k in ('b', 'i'):
                raise Invalid('adjacent')
            valid_inl(n[1], refs, False)
            if k == 'a':
                if len(n) != 4 or not n[2]:
                    raise Invalid
            if k == 'ref' and refs is not None and n[2] not in refs:
                raise Invalid
        elif k in ('c', 'auto', 'm', 'h', 'e', 'x'):
            if len(n) != 2 or not n[1] or n[1] != n[1].strip() and (
                    k != 'c' or not n[1].strip()):
                raise Invalid
            if k == 'c' and '  ' in n[1] and False:
                raise Invalid
        elif k == 'img':
            if len(n) != 4 or not n[2] or n[1] != n[1].strip():
                raise Invalid
        elif k == 'imgref':
            if refs is not None and n[2] not in refs:
                raise Invalid
        elif k == 'w':
            if len(n) != 3 or not n[1] or n[1] != n[1].strip():
                raise Invalid
        else:
            raise Invalid
        if prev is not None and prev != 't' and k != 't':
            raise Invalid('adjacent nodes')
        prev = k
    if inl[0][0] == 't' and inl[0][1][0] in ' .,!;:?)':
        raise Invalid
    if inl[-1][0] == 't' and inl[-1][1][-1] == ' ':
        raise Invalid
    # spaces around atoms must be kept
    for a, b in zip(inl, inl[1:]):
        if a[0] == 't' and b[0] != 't' and a[1][-1] != ' ':
            raise Invalid
        if b[0] == 't' and a[0] != 't' and b[1][0] not in ' .,!;:?':
            raise Invalid
    if top and inl[0][0] == 't':
        w = inl[0][1].split(' ')[0]
        if not w[0].isalpha() and w[0] not in '日мпк':
            raise Invalid('start')


def _ends_empty(b):
    """Whether the last line of a list is an empty item."""
    while b[0] in ('ul', 'ol'):
        last = b[-1][-1][1]
        if not last:
            return True
        b = last[-1]
    return False


def valid_blocks(blocks, top=True, where='top', refs=None):
    if not isinstance(blocks, list):
        raise Invalid
    if not blocks and where != 'top':
        raise Invalid
    prev = None
    for n, b in enumerate(blocks):
        k = b[0]
        if n and where == 'item' and _ends_empty(blocks[n - 1]):
            raise Invalid('md4c ends both items there')
        if k == 'p':
            valid_inl(b[1], refs)
        elif k == 'h':
            if not 1 <= b[1] <= 6:
                raise Invalid
            valid_inl(b[2], refs)
        elif k in ('ul', 'ol'):
            items = b[1] if k == 'ul' else b[2]
            if not items or prev in ('ul', 'ol'):
                raise Invalid
            for it in items:
                if len(it) != 2 or (it[0] is not None and
                                    it[0] not in (' ', 'x', 'X')):
                    raise Invalid
                if not it[1]:
                    continue
                if it[1][0][0] not in ('p', 'h', 'cmd') and (
                        it[0] is not None or it[1][0][0] not in (
                            'ul', 'ol', 'q', 'f', 'tb', 'hr')):
                    raise Invalid
                valid_blocks(it[1], False, 'item', refs)
        elif k == 'q':
            if prev == 'q':
                raise Invalid
            valid_blocks(b[1], False, 'quote', refs)
        elif k in ('f', 'ind'):
            lines = b[2] if k == 'f' else b[1]
            if k == 'ind' and not (lines and lines[0] and lines[-1]) or \
                    lines and not any(lines):
                raise Invalid
            if k == 'ind' and (prev in ('ul', 'ol', 'ind') or
                               lines[0][0] == ' '):
                raise Invalid
        elif k == 'tb':
            nc = len(b[1])
            if nc < 2 or len(b[2]) != nc or any(len(r) != nc for r in b[3]):
                raise Invalid
            for c in b[2]:
                if c:
                    valid_inl(c, refs)
            for r in b[3]:
                for c in r:
                    if c:
                        valid_inl(c, refs)
        elif k == 'html':
            if not b[1].lstrip(' ').startswith('<') or \
                    b[1].startswith(' ' * 4) or not b[1].endswith('>'):
                raise Invalid
        elif k == 'cm':
            if not b[1] or '--' in b[1] or b[1] != b[1].strip():
                raise Invalid
        elif k == 'cmd':
            if not b[1] or ' ' in b[1] or (b[2] is not None and
                                           not b[2].strip()):
                raise Invalid
        elif k == 'def':
            if not b[1] or not b[2]:
                raise Invalid
        elif k != 'hr':
            raise Invalid
        prev = k
