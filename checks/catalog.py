"""M01-M05: what happens to catalogs when they are updated and saved."""
import math
import os
import random

import polib

import poread
from engine import Check, Invalid, Result, jdump
from extraction import diff_lists, write
from sut import call, markdown_to_pofile

# texts that are their own message: no markup, safe at the start of a line
TEXTS = [
    'Alpha one', 'alpha one', 'Alpha One', 'Alpha', 'Alpha one two',
    'Beta: gamma, delta.', 'Día de mañana', 'Привет мир', '日本語の文書',
    'Say "hello" to them', "It's here", 'A & B', '100% sure',
    'Back \\slash here', 'Tab-less text', 'naïve façade', 'Emoji 🙂 ok',
    'Long text ' + 'word ' * 30 + 'end', 'Very-long-' + 'hyphenated-' * 12
    + 'text', 'x' * 120, 'Zero', 'One', 'Two words', 'Three small words',
    'fuzzy', 'msgid "x"', 'msgstr', 'obsolete text', '#~ not obsolete'[3:],
    'a: b: c', 'key=value', 'end with dot.', 'end with dot', 'semi; colon',
    'Straße', 'Strasse', 'ﬁn', 'fin', 'e\u0301tude', '\u00e9tude',
]
CTXTS = [None, None, None, None, None, 'menu', 'month', '0', 'Menu',
         'the verb, not the noun', 'ñ', 'a: b', '"q"', 'menu.', 'MENU',
         'menu x', '00', 'n', 'men\u00fa']
STRS = ['', '', '', 'Traducción', 'Ü ber "x"', 'línea\nnueva', 'a\\b',
        'tab\there', 'cr\rx', ' leading', 'trailing ', 'ПЕРЕВОД',
        '日本語', '%s %d', 'x' * 100, 'palabra ' * 25, '""', '\\n', '#~ x',
        'msgid', '0', 'ﬁ', '🙂', '\u00a0', 'a\u2028b']


def key_ok(key):
    c, t = key
    return bool(t)


def doc_text(keys):
    """Markdown whose messages are exactly the keys, in order."""
    out = []
    for c, t in keys:
        if c is not None:
            out.append(f'<!-- mdpo-context {c} -->')
            out.append('')
        if t.endswith('\n'):        # a code block
            out += ['<!-- mdpo-include-codeblock -->', '', '~~~',
                    t.removesuffix('\n'), '~~~', '']
            continue
        out.append(t.replace('\\', '\\\\'))
        out.append('')
    return '\n'.join(out) + '\n'


def rand_keys(rng, n, universe):
    keys, seen = [], set()
    for _ in range(n):
        k = rng.choice(universe)
        if k not in seen:
            seen.add(k)
            keys.append(list(k))
    return keys


def rand_universe(rng, n=14):
    texts = rng.sample(TEXTS, min(n, len(TEXTS)))
    uni = set()
    for t in texts:
        uni.add((None, t))
        if rng.random() < 0.15:     # a code block with the same content
            uni.add((rng.choice([None, None, 'menu']), t + '\n'))
        if rng.random() < 0.5:
            uni.add((rng.choice(CTXTS[5:]), t))
        if rng.random() < 0.2:
            uni.add((rng.choice(CTXTS[5:]), t))
    return sorted(uni, key=lambda k: (k[0] or '', k[1]))


def rand_str(rng, key, used):
    s = rng.choice(STRS)
    if s and rng.random() < 0.7:
        used[0] += 1
        s = f'{s} [{used[0]}]'      # unique: a mix-up is identifiable
    return s


def build_po(path, entries, meta=None, wrapwidth=78, extras=0, rng=None):
    pf = polib.POFile(wrapwidth=wrapwidth)
    if meta:
        pf.metadata = dict(meta)
    for c, t, s, fuzzy, obs in entries:
        e = polib.POEntry(msgid=t, msgctxt=c, msgstr=s, obsolete=obs)
        if fuzzy:
            e.flags.append('fuzzy')
        if extras:
            h = random.Random(f'{extras}{t}{c}')
            if h.random() < 0.2:
                e.tcomment = h.choice(['note', 'nota ñ', 'two\nlines'])
            if h.random() < 0.2:
                e.comment = 'extracted'
            if h.random() < 0.3:
                e.occurrences = [('f.md', 'block 1 (paragraph)')]
            if h.random() < 0.1:
                e.flags.append('c-format')
            if h.random() < 0.1:
                e.previous_msgid = 'older'
        pf.append(e)
    pf.save(path)


def read_po(path, encoding='utf-8'):
    with open(path, encoding=encoding, newline='') as f:
        return poread.header_of(poread.parse_po(f.read()))


MODES = {
    'mark': {},
    'leave': {'mark_not_found_as_obsolete': False},
    'remove': {'preserve_not_found': False},
    'remove2': {'preserve_not_found': False,
                'mark_not_found_as_obsolete': False},
}


class CatModel:
    """Reference model of a catalog under updates."""

    def __init__(self, entries=()):
        self.active, self.obs = {}, {}
        for c, t, s, fuzzy, obs in entries:
            (self.obs if obs else self.active)[(c, t)] = (s, bool(fuzzy))

    def update(self, keys, mode, default=''):
        keys = [tuple(k) for k in keys]
        for k in keys:
            if k in self.active:
                s, f = self.active[k]
                if not s and default:
                    self.active[k] = (default, f)
            elif k in self.obs:
                s, f = self.obs[k]
                self.active[k] = (s or default, f if s else None)
            else:
                self.active[k] = (default, False)
            self.obs.pop(k, None) if mode != 'leave' else None
        if mode == 'mark':
            for k in list(self.active):
                if k not in keys:
                    self.obs[k] = self.active.pop(k)
        elif mode.startswith('remove'):
            for k in list(self.active):
                if k not in keys:
                    del self.active[k]
            self.obs.clear()


class CatalogCheck(Check):
    bystanders = 0.15
    def start(self, rng, universe, used, lo=0, hi=14):
        entries, seen = [], set()
        for k in rand_keys(rng, rng.randint(lo, hi), universe):
            obs = rng.random() < 0.3
            s = rand_str(rng, k, used)
            fuzzy = bool(s) and rng.random() < 0.25
            entries.append([k[0], k[1], s, fuzzy, obs])
        if rng.random() < 0.1 and entries:      # a look-alike
            c, t, *_ = rng.choice(entries)
            t = rng.choice([f' {t}', f'{t} ', f'{t}\n\n', t.swapcase()])
            if (c, t) not in [tuple(e[:2]) for e in entries] and \
                    t not in TEXTS:
                entries.append([c, t, rand_str(rng, (c, t), used), False,
                                rng.random() < 0.3])
        if rng.random() < 0.7:
            # as polib writes them: obsolete entries last
            entries.sort(key=lambda e: e[4])
        return entries

    def valid(self, case):
        seen = set()
        for e in case['po']:
            if len(e) != 5 or not e[1] or (e[0], e[1]) in seen:
                raise Invalid
            seen.add((e[0], e[1]))
        for keys in case.get('versions', [case.get('keys', [])]):
            for k in keys:
                if len(k) != 2 or not k[1] or k[0] == '' or \
                        k[1].removesuffix('\n') not in TEXTS:
                    raise Invalid

    def observe(self, path):
        """{key: (msgstr, fuzzy)} of active and obsolete entries."""
        _, es = read_po(path)
        act, obs, dup = {}, {}, []
        for e in es:
            d = obs if e.obsolete else act
            if e.key() in d:
                dup.append(e.key())
            d[e.key()] = (e.msgstr, 'fuzzy' in e.flags)
        return act, obs, dup

    def note(self, case, extra=''):
        return f'\n  {extra} case={jdump(case)[:1500]}'


def same(a, b):
    """Compare (msgstr, fuzzy) where fuzzy None means unspecified."""
    return a[0] == b[0] and (a[1] is None or b[1] is None or a[1] == b[1])


class M01(CatalogCheck):
    """Random existing catalogs (active, obsolete, fuzzy, contexts, look-alike
    texts, hostile translations) updated from random Markdown."""
    id = 'M01'
    rule = ('random catalogs updated from Markdown whose texts overlap them '
            'partly; non-trivial: at least one kept translation and one new '
            'or missing text')
    quick_n = 89000
    thorough_n = 890000
    min_counts = {'kept_translations': 5000, 'restored_from_obsolete': 500,
                  'new_entries': 2000}

    def gen(self, rng, i, tier):
        uni = rand_universe(rng, rng.choice([4, 8, 14]))
        used = [0]
        return {'po': self.start(rng, uni, used),
                'keys': rand_keys(rng, rng.randint(1, 12), uni),
                'mode': rng.choice(['mark', 'mark', 'leave', 'remove']),
                'default': rng.choice(['', '', '', 'TODO']),
                'extras': rng.randrange(1, 1000) if rng.random() < .5 else 0,
                'split': rng.random() < 0.3,
                'wrap': rng.choice([78, 78, 40, 0, 200])}

    def judge(self, case):
        r = Result()
        self.valid(case)
        if not case['keys']:
            raise Invalid
        build_po('c.po', case['po'], {'Language': 'es'}, case['wrap'],
                 case['extras'])
        before_act, before_obs, _ = self.observe('c.po')
        arg = doc_text(case['keys'])
        if case['split'] and len(case['keys']) > 1:
            h = len(case['keys']) // 2
            write('a.md', doc_text(case['keys'][:h]))
            write('b.md', doc_text(case['keys'][h:]))
            arg = ['a.md', 'b.md']
        kw = dict(MODES[case['mode']])
        if case['default']:
            kw['msgstr'] = case['default']
        out = call(markdown_to_pofile, arg, po_filepath='c.po', save=True,
                   **kw)
        if not out:
            r.bad('crash', out.err() + self.note(case))
            return r
        act, obs, dup = self.observe('c.po')
        before = CatModel(case['po'])
        for k in map(tuple, case['keys']):
            if k not in act:
                r.bad('present-text-not-active', repr(k) + self.note(case))
                continue
            got = act[k]
            if k in before.active:
                exp, what = before.active[k], 'kept_translations'
            elif k in before.obs:
                exp, what = before.obs[k], 'restored_from_obsolete'
            else:
                exp, what = ('', False), 'new_entries'
            if not exp[0]:
                exp = (case['default'], None)
            if got[0] != exp[0]:
                r.bad('translation-changed',
                      f'{k}: expected {exp[0]!r}, got {got[0]!r}'
                      + self.note(case))
            elif exp[1] is not None and exp[1] != got[1]:
                r.bad('fuzzy-changed', f'{k}: expected fuzzy={exp[1]}'
                      + self.note(case))
            else:
                r.counts[what] += 1
        for e in out.value:
            if not e.obsolete and (e.msgctxt, e.msgid) in act and \
                    e.msgstr != act[(e.msgctxt, e.msgid)][0]:
                r.bad('returned-differs-from-saved', repr(e.msgid))
        r.nontrivial = bool(case['po']) and r.counts['kept_translations'] > 0
        r.info = {'catalog': case['po'], 'texts': case['keys'],
                  'mode': case['mode']}
        return r


class M02(CatalogCheck):
    """The status of every entry after an update, in the three modes."""
    id = 'M02'
    rule = ('random catalogs updated from Markdown that lacks some of their '
            'texts, in each mode; non-trivial: at least one missing and one '
            'present text')
    quick_n = 112000
    thorough_n = 1120000
    min_counts = {'missing_mark': 2000, 'missing_leave': 1000,
                  'missing_remove': 1000, 'present': 5000}

    def gen(self, rng, i, tier):
        uni = rand_universe(rng, rng.choice([3, 6, 10]))
        used = [0]
        case = {'po': self.start(rng, uni, used, 1),
                'keys': rand_keys(rng, rng.randint(1, 8), uni),
                'mode': rng.choice(['mark', 'leave', 'remove', 'remove2']),
                'extras': rng.randrange(1, 1000) if rng.random() < .5 else 0,
                'save': rng.random() < 0.6}
        return case

    def judge(self, case):
        r = Result()
        self.valid(case)
        if not case['keys']:
            raise Invalid
        build_po('c.po', case['po'], None, 78, case['extras'])
        out = call(markdown_to_pofile, doc_text(case['keys']),
                   po_filepath='c.po', save=case['save'],
                   **MODES[case['mode']])
        if not out:
            r.bad('crash', out.err() + self.note(case))
            return r
        if case['save']:
            rows = [(e.key(), e.msgstr, e.obsolete)
                    for e in read_po('c.po')[1]]
        else:
            rows = [((e.msgctxt, e.msgid), e.msgstr, bool(e.obsolete))
                    for e in out.value]
        mode = case['mode']
        before = CatModel(case['po'])
        keys = [tuple(k) for k in case['keys']]
        for k in keys:
            n = sum(1 for x in rows if x[0] == k and not x[2])
            if n != 1:
                r.bad('present-not-active-once', f'{k} active {n} times'
                      + self.note(case))
            if mode != 'leave' and any(x[0] == k and x[2] for x in rows):
                r.bad('present-also-obsolete', repr(k) + self.note(case))
            r.counts['present'] += 1
        for c, t, s, fuzzy, o in case['po']:
            k = (c, t)
            if k in keys:
                continue
            found = [(x[1], x[2]) for x in rows if x[0] == k]
            r.counts['missing_' + mode[:6]] += 1
            if mode == 'mark':
                exp = [(s, True)]
            elif mode == 'leave':
                exp = [(s, o)]
            else:
                exp = []
            if found != exp:
                r.bad(f'missing-{mode}', f'{k}: expected {exp} got {found}'
                      + self.note(case))
        known = set(keys) | {(c, t) for c, t, *_ in case['po']}
        for x in rows:
            if x[0] not in known:
                r.bad('invented-entry', repr(x) + self.note(case))
        r.nontrivial = any(r.counts[k] for k in (
            'missing_mark', 'missing_leave', 'missing_remove')) and bool(keys)
        r.info = {'catalog': case['po'], 'texts': case['keys'], 'mode': mode}
        return r


class M03(CatalogCheck):
    """Histories of Markdown edits and translator edits over one PO file,
    each update run twice."""
    id = 'M03'
    rule = ('histories of 2-8 updates with Markdown edits and translator '
            'edits in between, every update repeated to observe idempotence; '
            'non-trivial: at least one text disappears and comes back or a '
            'translator edits the file')
    quick_n = 22000
    thorough_n = 220000
    min_counts = {'updates': 5000, 'translator_edits': 1000,
                  'restored': 300, 'idempotence_checks': 5000}

    def gen(self, rng, i, tier):
        uni = rand_universe(rng, rng.choice([2, 4, 7]))
        used = [0]
        steps = []
        keys = rand_keys(rng, rng.randint(1, 8), uni)
        n = rng.randint(2, 6 if tier == 'quick' else 9)
        for _ in range(n):
            edit = []
            if steps and rng.random() < 0.7:
                for _ in range(rng.randint(1, 4)):
                    used[0] += 1
                    edit.append([rng.randrange(100),
                                 rng.choice(['T', 'ñ "', 'x\n', '']),
                                 used[0], rng.random() < 0.2])
            steps.append({'keys': keys, 'edit': edit,
                          'mode': rng.choice(['mark'] * 4 + ['leave',
                                                             'remove']),
                          'files': rng.choice([0, 0, 1]),
                          'wrap': rng.choice([78, 78, 78, 0, 30])})
            k2 = [k for k in keys if rng.random() < 0.7]
            for k in rand_keys(rng, rng.randint(0, 4), uni):
                if k not in k2:
                    k2.insert(rng.randrange(len(k2) + 1), k)
            if rng.random() < 0.3:
                rng.shuffle(k2)
            keys = k2 or keys
        return {'po': self.start(rng, uni, used) if rng.random() < .5
                else [], 'steps': steps, 'default': rng.choice(['', '', 'D'])}

    def judge(self, case):
        r = Result()
        self.valid({'po': case['po'],
                    'versions': [s['keys'] for s in case['steps']]})
        if os.path.exists('h.po'):
            os.unlink('h.po')
        if case['po']:
            build_po('h.po', case['po'], {'Language': 'es'})
        m = CatModel(case['po'])
        kw0 = {'msgstr': case['default']} if case['default'] else {}
        gone = set()
        for j, st in enumerate(case['steps']):
            if not st['keys']:
                raise Invalid
            if st['edit'] and os.path.exists('h.po'):
                pf = polib.pofile('h.po')
                act = [e for e in pf if not e.obsolete]
                for pos, s, n, fz in st['edit']:
                    if not act:
                        break
                    e = act[pos % len(act)]
                    e.msgstr = f'{s} {n}' if s else ''
                    if 'fuzzy' in e.flags:
                        e.flags.remove('fuzzy')
                    if fz and e.msgstr:
                        e.flags.append('fuzzy')
                    k = (e.msgctxt, e.msgid)
                    if k not in m.active:
                        r.bad('unknown-active-entry', repr(k))
                        return r
                    m.active[k] = (e.msgstr, 'fuzzy' in e.flags)
                    r.counts['translator_edits'] += 1
                pf.save()
            arg = doc_text(st['keys'])
            if st['files']:
                write('m.md', arg)
                arg = 'm.md'
            kw = dict(MODES[st['mode']], po_filepath='h.po', save=True,
                      wrapwidth=st['wrap'], **kw0)
            keys = {tuple(k) for k in st['keys']}
            r.counts['restored'] += len(keys & gone)
            gone = (gone | set(m.active)) - keys
            m.update(st['keys'], st['mode'], case['default'])
            out = call(markdown_to_pofile, arg, **kw)
            if not out:
                r.bad('crash', out.err() + self.note(case))
                return r
            act, obs, dup = self.observe('h.po')
            r.counts['updates'] += 1
            bad = None
            if dup:
                bad = ('duplicated', repr(dup))
            elif set(act) != set(m.active):
                bad = ('active-set', f'missing={set(m.active) - set(act)} '
                       f'extra={set(act) - set(m.active)}')
            else:
                for k in act:
                    if not same(m.active[k], act[k]):
                        bad = ('translation', f'{k}: expected {m.active[k]}'
                               f' got {act[k]}')
                        break
                if not bad and st['mode'] != 'leave':
                    o1 = {k: v[0] for k, v in m.obs.items()}
                    o2 = {k: v[0] for k, v in obs.items()}
                    if o1 != o2:
                        bad = ('obsolete-set', f'expected={o1} got={o2}')
            if bad:
                r.bad(bad[0], f'step {j}: {bad[1]}' + self.note(case))
                return r
            # adopt the observed fuzzy marks where unspecified
            m.active = dict(act)
            m.obs = dict(obs)
            with open('h.po', 'rb') as f:
                b1 = f.read()
            out = call(markdown_to_pofile, arg, **kw)
            with open('h.po', 'rb') as f:
                b2 = f.read()
            r.counts['idempotence_checks'] += 1
            if not out or b1 != b2:
                r.bad('not-idempotent', f'step {j}\n{b1.decode()}\n----\n'
                      f'{b2.decode()}' + self.note(case))
                return r
        r.nontrivial = bool(r.counts['restored'] or
                            r.counts['translator_edits'])
        r.info = {'steps': case['steps'], 'catalog': case['po']}
        return r


class M04(CatalogCheck):
    """Compiled MO files read by an independent parser."""
    id = 'M04'
    rule = ('random catalogs compiled to MO while being updated; '
            'non-trivial: at least one confirmed translation and one entry '
            'that must not be compiled')
    quick_n = 84000
    thorough_n = 840000
    min_counts = {'compiled': 5000, 'left_out': 5000}

    def gen(self, rng, i, tier):
        uni = rand_universe(rng, rng.choice([4, 8, 12]))
        used = [0]
        enc = rng.choice([None, None, None, 'utf-8', 'utf-16-le', 'cp1251',
                          'latin-1'])
        return {'po': self.start(rng, uni, used, 2),
                'keys': rand_keys(rng, rng.randint(1, 12), uni),
                'mode': rng.choice(['mark', 'leave', 'remove']),
                'links': rng.random() < 0.3,
                'default': rng.choice(['', '', 'Def']),
                'meta': rng.choice([{}, {'Language': 'es', 'X-K': 'a: ñ'}]),
                'save': rng.random() < 0.5, 'old_mo': rng.random() < 0.5}

    def judge(self, case):
        r = Result()
        self.valid(case)
        if not case['keys']:
            raise Invalid
        build_po('c.po', case['po'], {'Project': 'p 1',
                                      'Content-Type':
                                      'text/plain; charset=utf-8'})
        text = doc_text(case['keys'])
        if case['links']:
            text += '\n[link here][lab]\n\n[lab]: https://x.org/ "Title"\n'
        if case.get('old_mo'):      # a compiled file from another time
            old = polib.POFile()
            old.append(polib.POEntry(msgid='Alpha one', msgstr='outdated'))
            old.append(polib.POEntry(msgid='gone', msgstr='outdated'))
            old.save_as_mofile('o.mo')
        elif os.path.exists('o.mo'):
            os.unlink('o.mo')
        kw = dict(MODES[case['mode']])
        if case['default']:
            kw['msgstr'] = case['default']
        out = call(markdown_to_pofile, text, po_filepath='c.po',
                   save=case['save'], mo_filepath='o.mo',
                   metadata=case['meta'], **kw)
        if not out:
            r.bad('crash', out.err() + self.note(case))
            return r
        with open('o.mo', 'rb') as f:
            rows = poread.parse_mo(f.read())
        m = CatModel(case['po'])
        m.update(case['keys'], case['mode'], case['default'])
        exp = {k: s for k, (s, fz) in m.active.items() if s and not fz}
        if case['links']:
            if case['default']:
                exp[(None, '[link here][lab]')] = case['default']
        r.counts['compiled'] += len(exp)
        r.counts['left_out'] += len(m.active) + len(m.obs) - len(exp)
        got, head = {}, None
        for kb, vb in rows:
            k, v = kb.decode('utf-8'), vb.decode('utf-8')
            if k == '':
                head = v
                continue
            c, t = k.split('\x04', 1) if '\x04' in k else (None, k)
            if (c, t) in got:
                r.bad('duplicated', repr(k))
            got[(c, t)] = v
        for k in exp:
            if k not in got:
                r.bad('not-compiled', repr(k) + self.note(case))
            elif got[k] != exp[k]:
                r.bad('other-translation', f'{k}: expected {exp[k]!r} got '
                      f'{got[k]!r}' + self.note(case))
        for k in got:
            if k not in exp:
                r.bad('compiled-unconfirmed', f'{k}: {got[k]!r}'
                      + self.note(case))
        want = dict({'Project': 'p 1'}, **case['meta'])
        h = poread.parse_header(head or '')
        for k, v in want.items():
            if h.get(k) != v:
                r.bad('header', f'{k}: expected {v!r} got {h.get(k)!r}')
        ks = [kb for kb, _ in rows]
        if ks != sorted(ks):
            r.bad('unsorted-mo', 'the table of messages is not sorted')
        r.nontrivial = bool(exp) and len(m.active) + len(m.obs) > len(exp)
        r.info = {'catalog': case['po'], 'texts': case['keys'],
                  'compiled': len(exp)}
        return r


ENCODINGS = {
    'utf-8': '', 'utf-16': '', 'latin-1': 'éñü', 'cp1252': '€é“x”',
    'cp1251': 'Привет мир', 'koi8-r': 'Привет', 'shift_jis': '日本語',
    'gb18030': '文書 é', 'utf-8-sig': '', 'euc-jp': '日本',
}
FILLER = ['plain words here', 'a text that goes on and on with quite a few '
          'words so that it must be wrapped at most widths', 'short',
          'with "quotes" and \\ backslashes in the middle of the text',
          'hyphen-ated-words-every-where in-this-text up-to-date',
          'https://example.org/a/very/long/url/without/any/break/' * 2,
          'tail']
WIDE = ['Día', 'Привет мир', '日本語 文書', '🙂 ok', 'ẞ', 'Ωmega']


class M05(CatalogCheck):
    """Saved catalogs read back by polib and by an independent parser, at
    several wrap widths and encodings."""
    id = 'M05'
    rule = ('documents saved at several wrap widths and encodings and read '
            'back; non-trivial: at least one line was wrapped or a non-ASCII '
            'character written')
    quick_n = 34000
    thorough_n = 340000
    min_counts = {'catalogs_read_back': 5000, 'wrapped_fields': 2000,
                  'non_ascii': 2000}
    WIDTHS = [78, 80, 20, 40, 10, 33, 0, -1, -50, 'inf', math.inf, 120, '60',
              10000]

    def gen(self, rng, i, tier):
        enc = rng.choice(list(ENCODINGS) + ['utf-8'] * 5)
        pool = list(FILLER)
        if ENCODINGS[enc]:
            pool += [ENCODINGS[enc]] * 3
        else:
            pool += WIDE
        keys, seen = [], set()
        for _ in range(rng.randint(1, 8)):
            t = ' '.join(rng.choice(pool) for _ in range(rng.randint(1, 4)))
            t = 'T' + str(rng.randrange(1000)) + ' ' + t
            c = rng.choice([None, None, None, 'menu', 'ctx ' + pool[-1],
                            'a long context ' + 'of words ' * 9 + 'x'])
            if (c, t) in seen:
                continue
            seen.add((c, t))
            keys.append([c, t, rng.choice([None, None, 'note: x',
                                           'a comment ' + pool[-1],
                                           'comment words ' * 9 + 'end'])])
        return {'keys': keys, 'enc': enc,
                'mdenc': rng.choice([None, None] + list(ENCODINGS)),
                'widths': rng.sample(range(len(self.WIDTHS)), 3),
                'code': rng.random() < 0.4,
                'pre': rng.random() < 0.4,
                'meta': rng.choice([{}, {'Language-Team': 'x ' * 60 + 'y'}])}

    def text_of(self, case):
        out = []
        for c, t, n in case['keys']:
            if n:
                out.append(f'<!-- mdpo-translator {n} -->\n')
            if c:
                out.append(f'<!-- mdpo-context {c} -->\n')
            out.append(t.replace('\\', '\\\\').replace('*', '') + '\n')
        if case['code']:
            out.append('```\nline one\n  "two" \\n\n\nfour ' + 'w ' * 60 +
                       'z\n```\n')
        return '\n'.join(out)

    def judge(self, case):
        r = Result()
        if not case['keys']:
            raise Invalid
        enc = case['enc']
        text = self.text_of(case)
        mdenc = case.get('mdenc') or enc
        try:
            text.encode(enc)
        except UnicodeEncodeError:
            raise Invalid
        try:
            text.encode(mdenc)
        except UnicodeEncodeError:
            mdenc = enc
        if any(ord(ch) > 127 for ch in text):
            r.counts['non_ascii'] += 1
            r.counts['encodings_differ'] += mdenc != enc
        with open('m.md', 'w', encoding=mdenc, newline='') as f:
            f.write(text)
        base = None
        for wi in case['widths']:
            w = self.WIDTHS[wi]
            if os.path.exists('e.po'):
                os.unlink('e.po')
            meta = dict(case['meta'])
            if case['pre']:
                meta['Content-Type'] = f'text/plain; charset={enc}'
            kw = dict(po_filepath='e.po', save=True, wrapwidth=w,
                      md_encoding=mdenc, po_encoding=enc, metadata=meta,
                      include_codeblocks=case['code'])
            out = call(markdown_to_pofile, 'm.md', **kw)
            if not out:
                r.bad('crash', f'{out.err()} enc={enc} width={w}'
                      + self.note(case))
                return r
            try:
                with open('e.po', encoding=enc, newline='') as f:
                    raw = f.read()
                head, es = poread.header_of(poread.parse_po(raw))
                pf = polib.pofile('e.po', encoding=enc,
                                  autodetect_encoding=False)
            except (UnicodeError, ValueError, OSError) as e:
                r.bad('unreadable', f'{e!r} enc={enc} width={w}')
                return r
            r.counts['catalogs_read_back'] += 1
            mine = [(e.msgctxt, e.msgid, e.msgstr, tuple(e.flags),
                     ' '.join(' '.join(e.comments).split()),
                     ' '.join(e.refs).split()) for e in es]

            def rows(p):
                return [(e.msgctxt, e.msgid, e.msgstr, tuple(e.flags),
                         ' '.join((e.comment or '').split()),
                         ' '.join(f'{a}:{b}' for a, b in e.occurrences
                                  ).split()) for e in p]
            ret = rows(out.value)
            ex = [(c, t.replace('*', '')) for c, t, n in case['keys']]
            d = diff_lists(ex, [x[:2] for x in ret if '\n' not in x[1]])
            if d:
                r.bad('decoded-' + d[0], d[1] + f' enc={enc}')
                return r
            d = diff_lists(ret, mine)
            if d:
                r.bad('read-back-' + d[0], d[1] + f' width={w} enc={enc}')
                return r
            back = [x[:5] for x in rows(pf)]
            d = diff_lists([x[:5] for x in ret], back)
            if d:
                r.bad('polib-read-back-' + d[0], d[1] + f' width={w}')
                return r
            for k, v in meta.items():
                if head.get(k) != v:
                    r.bad('header-read-back', f'{k}: {head.get(k)!r}')
            if base is None:
                base = mine
            else:
                d = diff_lists(base, mine)
                if d:
                    r.bad('width-changes-content', d[1])
                    return r
            self.check_width(r, w, raw, es, case)
        r.nontrivial = bool(r.counts['wrapped_fields'] or
                            r.counts['non_ascii'])
        r.info = {'encoding': enc, 'widths': [str(self.WIDTHS[x])
                                              for x in case['widths']],
                  'markdown': text[:600]}
        return r

    def check_width(self, r, w, raw, es, case):
        w = float(w)
        for e in es:
            field = None
            parts = {}
            for no, ln in e.lines:
                if ln.startswith('#'):
                    continue
                if ln.startswith('msg'):
                    field = ln.split(' ', 1)[0]
                    parts[field] = [ln]
                else:
                    parts[field].append(ln)
            for field, lines in parts.items():
                value = getattr(e, field)
                if '\n' in value or '\t' in value:
                    continue
                if w <= 0 or w == math.inf:
                    if len(lines) != 1:
                        r.bad('wrapped-at-no-width', f'width={w} {lines}')
                        return
                    r.counts['unwrapped_fields'] += 1
                elif len(lines) > 1:
                    r.counts['wrapped_fields'] += 1
                    for ln in lines[1:]:
                        body = ln[1:-1].strip()
                        if len(ln) > w and ' ' in body:
                            r.bad('width-exceeded', f'width={w} {ln!r}')
                            return
                    if len(lines[0]) + len(''.join(
                            x[1:-1] for x in lines[1:])) <= w:
                        r.bad('wrapped-without-need', f'width={w} {lines}')
                        return
                else:
                    ln = lines[0]
                    spec = 2 * (value.count('"') + value.count('\\')) + 3
                    if len(ln) - spec > w and ' ' in value:
                        r.bad('width-ignored', f'width={w} {ln!r}')
                        return


NOTES = ['a note', 'nota ñ', 'TRANSLATORS: be careful', 'two\nlines', '!',
         'see https://x.org/?a=b#c', 'quoted "text" here', '日本語',
         'a long note ' + 'of many words ' * 8 + 'end', 'msgid "x"', '- dash']
FLAGS = ['no-wrap', 'c-format', 'python-format', 'md-text', 'x y'[:1],
         'fuzzy']
HEADERS = [['Project-Id-Version', 'docs 1.0'], ['Language', 'es'],
           ['Last-Translator', 'Ñandú <n@x.org>'],
           ['Plural-Forms', 'nplurals=2; plural=(n != 1);'],
           ['X-Generator', 'Some editor: 2.1'], ['X-Empty', ''],
           ['Report-Msgid-Bugs-To', 'https://x.org/a?b=c'],
           ['PO-Revision-Date', '2020-01-01 10:00+0000'],
           ['X-Long', 'many words ' * 12 + 'end']]
HEADS = ['', 'Copyright (C) 2020 Someone', 'This file is under CC0.', 'ñ: ü',
         'FIRST AUTHOR <EMAIL@ADDRESS>, YEAR.']


def po_lines(case):
    """The catalog as an editor would write it."""
    def field(name, s, pre=''):
        q = poread_quote(s)
        return f'{pre}{name} {q}'

    out = ['# ' + h if h else '#' for h in case['head']]
    if case['headfuzzy']:
        out.append('#, fuzzy')
    out += ['msgid ""', 'msgstr ""']
    out += [poread_quote(f'{k}: {v}\n') for k, v in case['meta']]
    out.append('')
    for c, t, s, obs, d in case['po']:
        out += [('# ' + x).rstrip() for x in d.get('note', '').split('\n')
                if d.get('note')]
        if not obs:
            out += ['#. ' + x for x in d.get('comment', '').split('\n')
                    if d.get('comment')]
            if d.get('refs'):
                out.append('#: ' + ' '.join(d['refs']))
        if d.get('flags'):
            out.append('#, ' + ', '.join(d['flags']))
        if d.get('prev'):
            pre = '#~| ' if obs else '#| '
            if d.get('prevctxt'):
                out.append(field('msgctxt', d['prevctxt'], pre))
            out.append(field('msgid', d['prev'], pre))
        pre = '#~ ' if obs else ''
        if c is not None:
            out.append(field('msgctxt', c, pre))
        out += [field('msgid', t, pre), field('msgstr', s, pre), '']
    return '\n'.join(out)


def poread_quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') \
        .replace('\t', '\\t').replace('\r', '\\r') \
        .replace('\n', '\\n') + '"'


class M06(CatalogCheck):
    """Catalogs with notes, flags, references, previous messages and headers,
    updated; everything which is not about the texts must survive."""
    id = 'M06'
    bystanders = 0.0     # the header is what is judged
    rule = ('catalogs as editors write them (header comments and fields, '
            'notes, extracted comments, references, flags, previous '
            'messages) updated from Markdown in every mode and read back by '
            'an independent parser; non-trivial: at least one entry with '
            'data was kept and one text is new or missing')
    quick_n = 97000
    thorough_n = 970000
    min_counts = {'kept_notes': 5000, 'kept_flags': 4000,
                  'kept_references': 4000, 'kept_previous': 1500,
                  'kept_comments': 3000, 'header_comments': 8000,
                  'header_fields': 20000, 'ordered_kept': 8000,
                  'ordered_new': 5000, 'now_obsolete': 3000}

    def gen(self, rng, i, tier):
        uni = rand_universe(rng, rng.choice([3, 6, 10]))
        used = [0]
        po = []
        for c, t, s, fuzzy, obs in self.start(rng, uni, used, 1, 10):
            d = {}
            if rng.random() < .5:
                d['note'] = rng.choice(NOTES)
            if rng.random() < .3 and not obs:
                d['comment'] = rng.choice(NOTES)
            if rng.random() < .4 and not obs:
                d['refs'] = rng.sample(['a.md:1', 'docs/b-c.md:22', 'x.c:3',
                                        'plain'], rng.choice([1, 1, 3]))
            if rng.random() < .4:
                d['flags'] = rng.sample(FLAGS[:-1], rng.choice([1, 1, 2]))
            if fuzzy:
                d.setdefault('flags', []).insert(
                    rng.choice([0, len(d.get('flags', []))]), 'fuzzy')
                # (polib does not read those of obsolete entries)
                if rng.random() < .5 and not obs:
                    d['prev'] = rng.choice(TEXTS)
                    if rng.random() < .3:
                        d['prevctxt'] = 'menu'
            po.append([c, t, s, obs, d])
        po.sort(key=lambda e: e[3])
        return {'po': po, 'keys': rand_keys(rng, rng.randint(1, 9), uni),
                'mode': rng.choice(['mark', 'mark', 'leave', 'remove',
                                    'remove2']),
                'head': rng.choice([[], rng.sample(HEADS, 2), HEADS[1:]]),
                'headfuzzy': rng.random() < .2,
                'meta': rng.sample(HEADERS, rng.randint(0, len(HEADERS))) + [
                    ['Content-Type', 'text/plain; charset=UTF-8']],
                'set': rng.choice([{}, {}, {}, {'Language': 'fr'},
                                   {'X-New': 'v: 1'}]),
                'split': rng.random() < .3,
                'location': rng.random() < .5,
                'default': rng.choice(['', '', '', 'TODO']),
                'wrap': rng.choice([78, 78, 0, 200, 40])}

    def valid(self, case):
        seen = set()
        for c, t, s, obs, d in case['po']:
            if not t or (c, t) in seen or c == '':
                raise Invalid
            seen.add((c, t))
            for x in d.get('flags', []):
                if x not in FLAGS:
                    raise Invalid
            if obs and (d.get('comment') or d.get('refs')
                        or d.get('prev')):
                raise Invalid
            if d.get('note', '') not in NOTES + [''] or \
                    d.get('comment', '') not in NOTES + ['']:
                raise Invalid
        if [e[3] for e in case['po']] != sorted(e[3] for e in case['po']):
            raise Invalid
        for k in case['keys']:
            if len(k) != 2 or not k[1] or k[0] == '' or \
                    k[1].removesuffix('\n') not in TEXTS:
                raise Invalid
        for k in case['meta']:
            if k not in HEADERS and k[0] != 'Content-Type':
                raise Invalid
        if ['Content-Type', 'text/plain; charset=UTF-8'] not in case['meta']:
            raise Invalid

    def judge(self, case):
        r = Result()
        self.valid(case)
        if not case['keys']:
            raise Invalid
        before = po_lines(case)
        write('c.po', before)
        arg = doc_text(case['keys'])
        if case['split'] and len(case['keys']) > 1:
            h = len(case['keys']) // 2
            write('a.md', doc_text(case['keys'][:h]))
            write('b.md', doc_text(case['keys'][h:]))
            arg = ['a.md', 'b.md']
        kw = dict(MODES[case['mode']], wrapwidth=case['wrap'],
                  location=case['location'], metadata=dict(case['set']))
        if case['default']:
            kw['msgstr'] = case['default']
        out = call(markdown_to_pofile, arg, po_filepath='c.po', save=True,
                   **kw)
        if not out:
            r.bad('crash', out.err() + self.note(case))
            return r
        with open('c.po', encoding='utf-8', newline='') as f:
            after = f.read()
        es = poread.parse_po(after)
        note = f'\n--- before\n{before}\n--- after\n{after}'
        self.check_header(r, case, es.pop(0) if es and es[0].msgid == ''
                          else None, note)
        keys = [tuple(k) for k in case['keys']]
        mode = case['mode']
        rows = {(e.key(), e.obsolete): e for e in es}
        stay, gone, new = [], [], []
        for c, t, s, obs, d in case['po']:
            k = (c, t)
            if obs and k in keys:
                continue            # restored: as M01 says
            if k in keys or mode == 'leave':
                e = rows.get((k, obs))
                (gone if obs else stay).append(k)
            elif mode == 'mark':
                e = rows.get((k, True))
                gone.append(k)
                r.counts['now_obsolete'] += not obs
            else:
                continue
            if e is None:           # what M01 and M02 decide
                continue
            self.check_entry(r, k, d, obs, e, note)
        old = {(c, t) for c, t, s, obs, d in case['po'] if not obs}
        new = [k for k in keys if k not in old]
        order = [e.key() for e in es if not e.obsolete]
        want = [k for k in stay if k in order]
        got = [k for k in order if k in set(stay)]
        if got != want:
            r.bad('order-of-kept', f'expected {want}, got {got}' + note)
        r.counts['ordered_kept'] += len(want) > 1
        tail = order[len(order) - len(new):]
        if new and tail != new:
            r.bad('order-of-new', f'expected {new} at the end, got {order}'
                  + note)
        r.counts['ordered_new'] += len(new) > 1
        flags = [e.obsolete for e in es]
        if flags != sorted(flags):
            r.bad('obsolete-before-active', note)
        got = [e.key() for e in es if e.obsolete]
        # those which were obsolete already keep their order
        was = [(c, t) for c, t, s, obs, d in case['po'] if obs]
        a = [k for k in was if k in got]
        b = [k for k in got if k in a]
        if a != b:
            r.bad('order-of-obsolete', f'expected {a}, got {b}' + note)
        r.nontrivial = bool(stay or gone) and any(
            e[4] for e in case['po']) and bool(new or gone)
        r.info = {'before': before, 'after': after, 'mode': mode}
        return r

    def check_header(self, r, case, e, note):
        if e is None:
            r.bad('no-header', note)
            return
        want = [h for h in case['head']]
        if [x.strip() for x in e.tcomments] != want:
            # comments without text may come and go at the edges
            a = '\n'.join(want).strip('\n')
            b = '\n'.join(x.strip() for x in e.tcomments).strip('\n')
            if ' '.join(a.split()) != ' '.join(b.split()):
                r.bad('header-comments', f'expected {want}, got '
                      f'{e.tcomments}' + note)
        r.counts['header_comments'] += len(want)
        if ('fuzzy' in e.flags) != case['headfuzzy']:
            r.bad('header-fuzzy', f'expected {case["headfuzzy"]}' + note)
        want = dict(case['meta'], **case['set'])
        got = poread.parse_header(e.msgstr)
        if want != got:
            r.bad('header-fields', f'expected {want}, got {got}' + note)
        r.counts['header_fields'] += len(want)

    def check_entry(self, r, k, d, obs, e, note):
        def flat(x):
            return ' '.join(' '.join(x).split())

        def see(what, want, got, n):
            if want != got:
                r.bad('lost-' + what if not got else 'changed-' + what,
                      f'{k}: expected {want!r}, got {got!r}' + note)
            elif want:
                r.counts[n] += 1
        see('note', flat([d.get('note', '')]), flat(e.tcomments),
            'kept_notes')
        see('flags', list(d.get('flags', [])), list(e.flags), 'kept_flags')
        want = []
        if d.get('prev'):
            want = [f'msgctxt {poread_quote(d["prevctxt"])}'] \
                if d.get('prevctxt') else []
            want.append(f'msgid {poread_quote(d["prev"])}')
        if len(e.prev) == len(want):
            see('previous', want, e.prev, 'kept_previous')
        elif bool(e.prev) != bool(want):
            see('previous', want, e.prev, 'kept_previous')
        if not e.obsolete:
            see('comment', flat([d.get('comment', '')]), flat(e.comments),
                'kept_comments')
            see('references', d.get('refs', []),
                ' '.join(e.refs).split(), 'kept_references')


CHECKS = {c.id: c for c in (M01, M02, M03, M04, M05, M06)}
