"""Access to the code under test (always /repo/src, current tree)."""
import contextlib
import io
import os
import sys

sys.dont_write_bytecode = True
REPO_SRC = '/repo/src'
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

import mdpo  # noqa: E402

if not os.path.abspath(mdpo.__file__).startswith(REPO_SRC + os.sep):
    sys.stderr.write(f'mdpo imported from {mdpo.__file__}\n')
    raise SystemExit(3)

import polib  # noqa: E402
from mdpo.md2po import Md2Po, markdown_to_pofile  # noqa: E402
from mdpo.md2po2md import markdown_to_pofile_to_markdown  # noqa: E402
from mdpo.mdpo2html import MdPo2HTML, markdown_pofile_to_html  # noqa: E402
from mdpo.po2md import Po2Md, pofile_to_markdown  # noqa: E402


class Outcome:
    """What one call did: a value, or the exception it raised."""
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    def __bool__(self):
        return self.exc is None

    def err(self):
        return f'{type(self.exc).__name__}: {self.exc}' if self.exc else ''


# Options which must not change what is judged: a case names some of them in
# its 'bystanders' and every call made through `call` gets them.
BYSTANDERS = []
SIDE_NAMES = ['metadata', 'encodings', 'xheader', 'events', 'ignore', 'ids',
              'alias', 'wrap0', 'wrap20', 'wrap200', 'mo', 'save', 'debug']
_EVENTS = ('text', 'msgid', 'command', 'enter_block', 'leave_block',
           'enter_span', 'leave_span', 'link_reference')


def _quiet(*_):
    return None


def side_options(fn, given=()):
    """Keyword arguments of the bystanders for a function."""
    out = {}
    md2po, po2md = fn is markdown_to_pofile, fn is pofile_to_markdown
    for name in BYSTANDERS:
        k = {}
        if name == 'ignore':
            k = {'ignore': ['none-of-them.md', 'none-of-them.po']}
        elif name == 'alias':
            k = {'command_aliases': {'zz-bystander': 'mdpo-context'}}
        elif name == 'encodings':
            k = {'po_encoding': 'utf-8', 'md_encoding': 'utf-8'} \
                if md2po or po2md else \
                {'po_encoding': 'utf-8', 'html_encoding': 'utf-8'}
        elif name == 'save' and not md2po:
            k = {'save': 'bystander.out'}
        elif name == 'events' and (md2po or po2md):
            k = {'events': {e: [_quiet] for e in _EVENTS}}
        elif name == 'debug' and (md2po or po2md):
            k = {'debug': True}
        elif md2po and name == 'metadata':
            k = {'metadata': {'X-Bystander': 'yes'}}
        elif md2po and name == 'xheader':
            k = {'xheader': True}
        elif md2po and name == 'ids':
            k = {'ignore_msgids': ['~ none of them ~']}
        elif md2po and name == 'mo':
            k = {'mo_filepath': 'bystander.mo'}
        elif md2po and name.startswith('wrap'):
            k = {'wrapwidth': int(name[4:])}
        for x, v in k.items():
            if x not in given:
                out[x] = v
    return out


def call(fn, *a, **k):
    try:
        if BYSTANDERS and fn in (markdown_to_pofile, pofile_to_markdown,
                                 markdown_pofile_to_html):
            k.update(side_options(fn, k))
            with contextlib.redirect_stdout(io.StringIO()):
                return Outcome(fn(*a, **k))
        return Outcome(fn(*a, **k))
    except (Exception, SystemExit) as e:
        return Outcome(exc=e)


def entries(pofile):
    return [(e.msgctxt, e.msgid) for e in pofile if not e.obsolete]
