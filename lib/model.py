"""Reference model of extraction, computed over the document structure.

Independent of mdpo: it never parses Markdown.  It walks the JSON document
of mdgen and says which messages must come out, which are disabled, in
which order, with which contexts, comments and locations.
"""
import mdgen

KIND = {'p': 'paragraph', 'h': 'header', 'ul': 'unordered list',
        'ol': 'ordered list', 'q': 'quote', 'f': 'code', 'ind': 'code',
        'html': 'html', 'cm': 'html', 'cmd': 'html', 'tb': 'table'}

COMMANDS = ('context disable disable-next-block disable-next-line enable '
            'enable-next-block enable-next-line include include-codeblock '
            'include-codeblocks disable-codeblock disable-codeblocks '
            'translator').split()
NEEDS_TEXT = ('mdpo-translator', 'mdpo-context', 'mdpo-include')


class Rejected(Exception):
    """The documented rejection of a command lacking its required text."""


class Msg:
    __slots__ = ('text', 'ctxt', 'comment', 'ordinal', 'kind', 'fuzzy',
                 'msgstr', 'inl', 'file', 'alt')

    def __init__(self, text, ctxt, comment, ordinal, kind, fuzzy=False,
                 msgstr='', inl=None):
        self.text, self.ctxt, self.comment = text, ctxt, comment
        self.ordinal, self.kind = ordinal, kind
        self.fuzzy, self.msgstr = fuzzy, msgstr
        self.inl = inl
        self.file = None
        self.alt = None         # another acceptable (ordinal, kind)

    def key(self):
        return (self.ctxt, self.text)

    def __repr__(self):
        return f'<{self.ctxt!r} {self.text!r}>'


class Extract:
    def __init__(self, plaintext=False, include_codeblocks=False,
                 aliases=None, delims=None, ignore_msgids=()):
        self.plaintext = plaintext
        self.codeblocks = include_codeblocks
        self.aliases = dict(aliases or {})
        self.delims = delims
        self.ignore = set(ignore_msgids)
        self.extracted = []      # every extraction, duplicates included
        self.disabled = []
        self.reset_file()

    def reset_file(self):
        self.off = False
        self.dis_next = self.en_next = False
        self.inc_code = self.dis_code = False
        self.ctxt = self.comment = None
        self.ordinal = 0
        self.kind = None
        self.alt = None
        self.deep = 0
        self.defs = {}

    # ------------------------------------------------------------ messages
    def emit(self, text, inl=None, **kw):
        if not text:
            return
        m = Msg(text, self.ctxt, self.comment, self.ordinal, self.kind,
                inl=inl, **kw)
        m.alt = self.alt
        if self.en_next or not (self.off or self.dis_next):
            if text not in self.ignore:
                self.extracted.append(m)
        else:
            self.disabled.append(m)
        self.dis_next = self.en_next = False
        self.ctxt = self.comment = None

    def emit_inl(self, inl):
        if not inl:
            return
        if self.plaintext:
            if self.en_next or not (self.off or self.dis_next):
                for t in mdgen.titles(inl, self.defs):
                    if t in self.ignore:
                        continue
                    self.extracted.append(
                        Msg(t, None, None, self.ordinal, self.kind))
            self.emit(mdgen.plain(inl), inl)
        else:
            self.emit(mdgen.canon(inl, self.delims), inl)

    # ------------------------------------------------------------ commands
    def command(self, name, arg):
        name = self.aliases.get(name, name)
        if arg is not None:
            arg = arg.strip(' ')
        if not name.startswith('mdpo-'):
            return
        if name in NEEDS_TEXT and not arg:
            raise Rejected(name)
        if name in ('mdpo-disable-next-block', 'mdpo-disable-next-line'):
            self.dis_next = True
        elif name in ('mdpo-enable-next-block', 'mdpo-enable-next-line'):
            self.en_next = True
        elif name == 'mdpo-disable':
            self.off = True
        elif name == 'mdpo-enable':
            self.off = False
        elif name == 'mdpo-include-codeblock':
            self.inc_code = True
        elif name == 'mdpo-disable-codeblock':
            self.dis_code = True
        elif name == 'mdpo-include-codeblocks':
            self.codeblocks = True
        elif name == 'mdpo-disable-codeblocks':
            self.codeblocks = False
        elif name == 'mdpo-translator':
            self.comment = arg
        elif name == 'mdpo-context':
            self.ctxt = arg
        elif name == 'mdpo-include':
            self.emit(arg)

    # ---------------------------------------------------------------- walk
    def walk(self, blocks, top=True):
        for b in blocks:
            k = b[0]
            if top and k in KIND:
                self.ordinal += 1
                self.kind = KIND[k]
                self.alt = None
            if k == 'p':
                self.emit_inl(b[1])
            elif k == 'h':
                self.emit_inl(b[2])
            elif k == 'ul':
                for it in b[1]:
                    self.walk(it[1], False)
            elif k == 'ol':
                for it in b[2]:
                    self.walk(it[1], False)
            elif k == 'q':
                if not top and not self.deep:
                    # a quote inside a list counts as a block of its own;
                    # what follows it in the list may belong to either
                    prev = (self.ordinal, self.kind)
                    self.ordinal += 1
                    self.kind = 'quote'
                    keep, self.alt = self.alt, None
                    self.deep += 1
                    self.walk(b[1], False)
                    self.deep -= 1
                    self.alt = keep or prev
                else:
                    self.deep += 1
                    self.walk(b[1], False)
                    self.deep -= 1
            elif k == 'tb':
                for c in b[2]:
                    self.emit_inl(c)
                for row in b[3]:
                    for c in row:
                        self.emit_inl(c)
            elif k in ('f', 'ind'):
                lines = b[2] if k == 'f' else b[1]
                if not self.dis_code and (self.codeblocks or self.inc_code):
                    self.emit('\n'.join(lines) + '\n')
                self.inc_code = self.dis_code = False
            elif k == 'cmd':
                self.command(b[1], b[2])

    def document(self, doc):
        self.reset_file()
        base = self.codeblocks
        self.defs = {b[1]: (b[2], b[3]) for b in doc if b[0] == 'def'}
        self.walk(doc)
        self.ctxt = self.comment = None
        if mdgen.has_links(doc) and not self.plaintext:
            self.off = False
            self.dis_next = self.en_next = False
            for b in doc:
                if b[0] == 'def':
                    t = f' "{mdgen._po_escape(b[3])}"' if b[3] else ''
                    href = mdgen._angled(b[2])
                    text = f'[{b[1]}]: {href}{t}'
                    self.emit(text, fuzzy=True, msgstr=text)
        self.codeblocks = base
        return self

    # ------------------------------------------------------------- results
    def unique(self):
        seen = {}
        for m in self.extracted:
            seen.setdefault(m.key(), m)
        return list(seen.values())
