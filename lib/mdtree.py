"""Normalised trees: what a Markdown text *is*, according to md4c itself.

`tree(text)` drives pymd4c directly (never mdpo).  `of_doc(doc)` builds the
same tree from a generated document.  They are used to discard renderings
that do not mean what the generator intended, and as the oracle that compares
translated output with the expected document.
"""
import re

import md4c

from engine import Invalid

DEFAULT_EXT = ['collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
               'latex_math_spans', 'wikilinks']

B, S = md4c.BlockType, md4c.SpanType
SPANS = {S.EM: 'i', S.STRONG: 'b', S.DEL: 's', S.U: 'u', S.CODE: 'c',
         S.LATEXMATH: 'm', S.LATEXMATH_DISPLAY: 'mm', S.A: 'a', S.IMG: 'img',
         S.WIKILINK: 'w'}
ALIGN = {0: '', 1: 'l', 2: 'c', 3: 'r'}


def _blanks(text):
    """Line breaks of titles are blanks, as those of texts."""
    return text.replace('\n', ' ') if text else text


def _attr(a):
    return ''.join(t for _, t in a) if a else ''


def norm_inl(parts, strip=True):
    """Merge text chunks, collapse blanks, drop empty texts."""
    out = []
    for x in parts:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    res = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r'[ \t\n]+', ' ', x)
        if x == '':
            continue
        res.append(x)
    if strip and res and isinstance(res[0], str):
        res[0] = res[0].lstrip(' ')
    if strip and res and isinstance(res[-1], str):
        res[-1] = res[-1].rstrip(' ')
    return [x for x in res if x != '']


class _Builder:
    def __init__(self):
        self.root = ['doc', []]
        self.stack = [self.root]      # block nodes; children in [-1]
        self.inl = []                 # stack of inline lists
        self.raw = None

    def cur(self):
        return self.stack[-1][-1]

    def flush(self):
        """Close the implicit paragraph of a tight item."""
        if len(self.inl) > 1:
            raise Invalid('spans which md4c does not leave')
        if self.inl and self.stack[-1][0] == 'li':
            parts = norm_inl(self.inl[0])
            self.inl = []
            if parts:
                self.cur().append(['p', parts])

    def eb(self, b, d):
        if b is B.DOC:
            return
        self.flush()
        if b is B.P:
            n = ['p', []]
            self.inl = [[]]
        elif b is B.H:
            n = ['h', d['level'], []]
            self.inl = [[]]
        elif b is B.UL:
            n = ['ul', []]
        elif b is B.OL:
            n = ['ol', d['start'], []]
        elif b is B.LI:
            n = ['li', d['task_mark'] if d['is_task'] else None, []]
            self.cur().append(n)
            self.stack.append(n)
            self.inl = [[]]
            return
        elif b is B.QUOTE:
            n = ['q', []]
        elif b is B.CODE:
            n = ['code', _attr(d['info']) if d.get('fence_char') else None,
                 []]
            self.raw = ''
        elif b is B.HTML:
            n = ['html', []]
            self.raw = ''
        elif b is B.HR:
            n = ['hr', []]
        elif b is B.TABLE:
            n = ['tb', [], []]
        elif b in (B.THEAD, B.TBODY):
            n = ['grp', []]
        elif b is B.TR:
            n = ['tr', []]
        elif b in (B.TH, B.TD):
            n = ['cell', []]
            self.inl = [[]]
            if b is B.TH:
                self.stack[-3][1].append(ALIGN.get(d['align'].value, ''))
        self.cur().append(n)
        self.stack.append(n)

    def lb(self, b, d):
        if b is B.DOC:
            return
        if b is B.LI:
            self.flush()
            self.stack.pop()
            self.inl = []
            return
        n = self.stack.pop()
        if len(self.inl) > 1:
            # md4c, permissive autolinks in the address of a link
            raise Invalid('spans which md4c does not leave')
        if b in (B.P, B.H, B.TH, B.TD):
            n[-1] = norm_inl(self.inl[0]) if self.inl else []
            self.inl = []
        elif b is B.CODE:
            n[-1] = self.raw
            self.raw = None
        elif b is B.HTML:
            n[-1] = self.raw.rstrip('\n').lstrip(' ')
            self.raw = None
        elif b in (B.THEAD, B.TBODY):
            tb = self.stack[-1]
            tb[-1].remove(n)
            tb[-1].extend(r[-1] for r in n[-1])
        elif b is B.TR:
            n[-1] = [c[-1] for c in n[-1]]
        if self.stack[-1][0] == 'li':
            self.inl = [[]]

    def es(self, s, d):
        self.inl.append([])

    def ls(self, s, d):
        k = SPANS[s]
        kids = self.inl.pop()
        if not self.inl:
            raise Invalid('spans which md4c does not enter')
        if k == 'a':
            node = ['a', _attr(d['href']), _blanks(_attr(d['title'])),
                    norm_inl(kids, False)]
        elif k == 'img':
            node = ['img', _attr(d['src']), _blanks(_attr(d['title'])),
                    norm_inl(kids, False)]
        elif k == 'w':
            node = ['w', _attr(d['target']), norm_inl(kids, False)]
        elif k in ('c', 'm', 'mm'):
            node = [k, ''.join(x for x in kids if isinstance(x, str))]
            if k == 'c':
                node[1] = node[1].replace('\n', ' ')
        elif k == 'u':
            kids = norm_inl(kids, False)
            if len(kids) == 1 and not isinstance(kids[0], str) and \
                    kids[0][0] == 'u':
                node = kids[0]       # __x__ is entered twice
            else:
                node = ['u', kids]
        else:
            node = [k, norm_inl(kids, False)]
        self.inl[-1].append(node)

    def text(self, t, s):
        if self.raw is not None:
            self.raw += s
            return
        if not self.inl:
            self.inl = [[]]
        if t is md4c.TextType.BR:
            self.inl[-1].append(['br'])
            return
        self.inl[-1].append(s)


def tree(text, ext=None):
    p = md4c.GenericParser(0, **dict.fromkeys(
        DEFAULT_EXT if ext is None else ext, True))
    b = _Builder()
    p.parse(text, b.eb, b.lb, b.es, b.ls, b.text)
    return merge_html(b.root[1])


def trees(text, ext=None):
    """The tree of a text, then those of the text moved by a few characters.

    md4c reads a list item's last block as a block header when it meets a blank
    line (`last_list_item_starts_with_two_blank_lines`): with the text at one
    offset of 256, a block after a blank line is left out of its list item.
    A document is not judged by where it happens to begin.
    """
    yield tree(text, ext)
    for n in (5, 38, 91):
        yield tree('x' * n + '\n\n' + text, ext)[1:]


def list_marks(text, ext=None):
    """The marks of the lists of a text, in order."""
    p = md4c.GenericParser(0, **dict.fromkeys(
        DEFAULT_EXT if ext is None else ext, True))
    out = []

    def enter(block, details):
        if block is B.UL:
            out.append(details['mark'])
        elif block is B.OL:
            out.append('1' + details['mark_delimiter'])

    def no(*a):
        pass
    p.parse(text, enter, no, no, no, no)
    return out


def merge_html(blocks):
    out = []
    for n in blocks:
        if n[0] == 'html' and out and out[-1][0] == 'html':
            out[-1] = ['html', out[-1][1] + '\n' + n[1]]
            continue
        if n[0] in ('q', 'ul', 'li'):
            n = n[:-1] + [merge_html(n[-1])]
        elif n[0] == 'ol':
            n = ['ol', n[1], merge_html(n[2])]
        out.append(n)
    return out


# ------------------------------------------------------- generated documents
def inl_of(inl, defs, strip=False):
    parts = []
    for n in inl:
        k = n[0]
        if k in ('t', 'h', 'e', 'x'):
            parts.append(n[1])
        elif k in ('b', 'i', 's', 'u'):
            parts.append([k, inl_of(n[1], defs)])
        elif k in ('c', 'm'):
            parts.append([k, n[1]])
        elif k == 'a':
            parts.append(['a', n[2], n[3] or '', inl_of(n[1], defs)])
        elif k == 'auto':
            parts.append(['a', n[1], '', [n[1]]])
        elif k == 'img':
            parts.append(['img', n[2], n[3] or '', [n[1]] if n[1] else []])
        elif k == 'ref':
            h, t = defs[n[2]]
            parts.append(['a', h, t or '', inl_of(n[1], defs)])
        elif k == 'imgref':
            h, t = defs[n[2]]
            parts.append(['img', h, t or '', [n[1]] if n[1] else []])
        elif k == 'w':
            parts.append(['w', n[1], [n[2] or n[1]]])
        else:
            raise Invalid(k)
    return norm_inl(parts, strip)


def of_blocks(blocks, defs, cmds=True):
    out = []
    for b in blocks:
        k = b[0]
        if k == 'p':
            out.append(['p', inl_of(b[1], defs, True)])
        elif k == 'h':
            out.append(['h', b[1], inl_of(b[2], defs, True)])
        elif k == 'ul':
            out.append(['ul', [['li', it[0], of_blocks(it[1], defs, cmds)]
                               for it in b[1]]])
        elif k == 'ol':
            out.append(['ol', b[1], [['li', it[0],
                                      of_blocks(it[1], defs, cmds)]
                                     for it in b[2]]])
        elif k == 'q':
            out.append(['q', of_blocks(b[1], defs, cmds)])
        elif k == 'f':
            out.append(['code', b[1].strip(),
                        ''.join(f'{x}\n' for x in b[2])])
        elif k == 'ind':
            out.append(['code', None, '\n'.join(b[1]) + '\n'])
        elif k == 'hr':
            out.append(['hr', []])
        elif k == 'tb':
            out.append(['tb', list(b[1]),
                        [[inl_of(c, defs, True) for c in row]
                         for row in [b[2]] + b[3]]])
        elif k == 'html':
            out.append(['html', b[1].lstrip(' ')])
        elif k == 'cm':
            out.append(['html', f'<!-- {b[1]} -->'])
        elif k == 'cmd':
            if cmds:
                out.append(['html', 'CMD'])
        elif k != 'def':
            raise Invalid(k)
    return merge_html(out)


def defs_of(doc):
    return {b[1]: (b[2], b[3]) for b in doc if b[0] == 'def'}


def of_doc(doc, cmds=True):
    return of_blocks(doc, defs_of(doc), cmds)


_CMD = re.compile(r'<!--.*-->')


def _mask(blocks):
    """Comments compare by position only (their spacing is a style)."""
    out = []
    for n in blocks:
        if n[0] == 'html':
            n = ['html', '\n'.join(
                'C' if _CMD.fullmatch(x.strip()) or x == 'CMD' else x
                for x in n[1].split('\n'))]
        elif n[0] in ('q', 'ul', 'li'):
            n = n[:-1] + [_mask(n[-1])]
        elif n[0] == 'ol':
            n = ['ol', n[1], _mask(n[2])]
        out.append(n)
    return out


def meant(doc, text, ext=None):
    """Discard the case unless the text means the generated document."""
    a, b = _mask(tree(text, ext)), _mask(of_doc(doc))
    if a != b:
        raise Invalid('rendering does not mean the document')
