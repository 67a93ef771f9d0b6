"""Independent readers of PO and MO files (nothing shared with polib)."""
import struct

ESC = {'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\', 'v': '\v',
       'b': '\b', 'f': '\f', 'a': '\a'}


def unquote(s):
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        raise ValueError(f'not a quoted string: {s!r}')
    out, i, s = [], 0, s[1:-1]
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 1
            out.append(ESC.get(s[i], '\\' + s[i]))
        elif c == '"':
            raise ValueError(f'unescaped quote in {s!r}')
        else:
            out.append(c)
        i += 1
    return ''.join(out)


class Entry:
    def __init__(self):
        self.msgctxt = None
        self.msgid = self.msgstr = None
        self.flags, self.comments, self.tcomments = [], [], []
        self.refs, self.prev = [], []
        self.obsolete = False
        self.lines = []

    def key(self):
        return (self.msgctxt, self.msgid)

    def row(self):
        return (self.msgctxt, self.msgid, self.msgstr,
                tuple(sorted(self.flags)), self.obsolete)


def parse_po(text):
    """Entries of a PO text, the header entry first."""
    entries = []
    cur, field = Entry(), None
    for no, line in enumerate(text.split('\n'), 1):
        s = line
        if not s.strip():
            if cur.msgid is not None:
                entries.append(cur)
                cur = Entry()
            field = None
            continue
        if s.startswith('#') and s[:3] != '#~ ' and field == 'msgstr':
            # the comments of the next entry, without a blank line
            entries.append(cur)
            cur, field = Entry(), None
        cur.lines.append((no, line))
        if s.startswith('#~'):
            if s.startswith('#~|'):
                cur.prev.append(s[4:])
                continue
            cur.obsolete = True
            s = s[2:].lstrip(' ')
        elif s.startswith('#.'):
            cur.comments.append(s[3:])
            continue
        elif s.startswith('#:'):
            cur.refs.append(s[3:])
            continue
        elif s.startswith('#,'):
            cur.flags.extend(x.strip() for x in s[2:].split(','))
            continue
        elif s.startswith('#|'):
            cur.prev.append(s[3:])
            continue
        elif s.startswith('#'):
            cur.tcomments.append(s[2:])
            continue
        for name in ('msgctxt', 'msgid', 'msgstr'):
            if s.startswith(name + ' '):
                if name in ('msgctxt', 'msgid') and cur.msgid is not None \
                        and field == 'msgstr':
                    keep = cur.lines.pop()
                    new = Entry()
                    new.obsolete = line.startswith('#~')
                    cur.obsolete = cur.lines[-1][1].startswith('#~')
                    entries.append(cur)
                    cur = new
                    cur.lines.append(keep)
                field = name
                setattr(cur, field, unquote(s[len(name) + 1:]))
                break
        else:
            if field is None:
                raise ValueError(f'line {no}: {line!r}')
            setattr(cur, field, getattr(cur, field) + unquote(s.strip()))
    if cur.msgid is not None:
        entries.append(cur)
    return entries


def header_of(entries):
    if entries and entries[0].msgid == '' and entries[0].msgctxt is None:
        return parse_header(entries[0].msgstr), entries[1:]
    return {}, entries


def parse_header(s):
    out = {}
    for ln in s.split('\n'):
        if ':' in ln:
            k, v = ln.split(':', 1)
            out[k] = v.strip(' ')
    return out


def parse_mo(data):
    """{key bytes: value bytes} and the order of the keys."""
    magic, = struct.unpack('<I', data[:4])
    if magic == 0x950412de:
        e = '<'
    elif magic == 0xde120495:
        e = '>'
    else:
        raise ValueError('bad magic')
    _, n, o, t = struct.unpack(e + '4I', data[4:20])
    out = []
    for i in range(n):
        kl, ko = struct.unpack(e + '2I', data[o + 8 * i:o + 8 * i + 8])
        vl, vo = struct.unpack(e + '2I', data[t + 8 * i:t + 8 * i + 8])
        out.append((data[ko:ko + kl], data[vo:vo + vl]))
    return out
