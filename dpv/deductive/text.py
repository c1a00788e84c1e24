"""Texts made of fixed characters and printed numbers, with repeated parts: what a program that writes a file builds, and
what one that reads it takes apart.  Used where a contract asks for it (contracts['text']); a printed number stands for its
exact value, and the format it was printed with is kept so that a contract can demand digits."""
import re, string
from dpv.deductive import terms as T
from dpv.deductive.terms import P, Poly, Undecided
from dpv.deductive.values import *


class Text:
    """parts: ('s', text), ('n', number, format), ('w', name of an unknown word), ('rep', n, variable, Text), ('ph', name)"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == 's':
                if not p[1]:
                    continue
                if out and out[-1][0] == 's':
                    out[-1] = ('s', out[-1][1] + p[1])
                    continue
            out.append(p)
        self.parts = tuple(out)

    def key(self):
        r = []
        for p in self.parts:
            if p[0] == 'n':
                r.append('n(%s|%s)' % (p[1].key, p[2]))
            elif p[0] == 'rep':
                # the bound variable does not matter
                r.append('rep(%s, %s)' % (p[1].key, subst(p[3], {p[2]: T.var('_t%d' % depth(p[3]), 'i', nn=True)}).key()))
            else:
                r.append('%s%r' % (p[0], p[1]))
        return 'Text[%s]' % ', '.join(r)

    def __eq__(self, o):
        return isinstance(o, Text) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()[:600]

    def map(self, f):
        out = []
        for p in self.parts:
            if p[0] == 'n':
                out.append(('n', f(p[1]), p[2]))
            elif p[0] == 'rep':
                out.append(('rep', f(p[1]), p[2], p[3].map(f)))
            else:
                out.append(p)
        return Text(out)


def depth(t):
    return max([0] + [1 + depth(p[3]) for p in t.parts if p[0] == 'rep'])


def subst(t, sub):
    return t.map(lambda p: T.subst(p, sub))


def plain(t):
    """The str when nothing is symbolic."""
    if isinstance(t, Text) and all(p[0] == 's' for p in t.parts):
        return ''.join(p[1] for p in t.parts)
    return t


def of(I, v, spec=''):
    """Text of a value printed with a format."""
    if isinstance(v, str):
        return Text([('s', format(v, spec) if spec else v)])
    if isinstance(v, Text):
        if spec and not re.fullmatch(r'[<>^]?\d*s?', spec):
            raise Undecided('format %r of a text' % spec)
        pad = Text([('s', ' ')]) if re.search(r'\d', spec) else Text([])    # some blanks on one side
        if pad.parts and len(v.parts) == 1 and v.parts[0][0] == 'n':
            return Text([('n', v.parts[0][1], v.parts[0][2])])
        if pad.parts:
            raise Undecided('padded text')
        return v
    if isinstance(v, Opaque) and v.name.startswith('str:'):
        return Text([('w', v.name)])
    if isinstance(v, bool):
        return Text([('s', format(v, spec))])
    x = I.num(v)
    if x is None or isinstance(v, Bool):
        raise Undecided('text of %r' % (v,))
    c = x.const()
    if c is not None and c.denominator == 1 and x.is_int() and (not spec or re.fullmatch(r'[<>^ ]?0?\d*d?', spec)):
        return Text([('s', format(int(c), spec))])
    form(spec)
    return Text([('n', x, spec)])


def form(spec):
    """(kind, digits) of a number format."""
    m = re.fullmatch(r'[<>=^]?[ +-]?0?\d*(?:\.(\d+))?([dfFeEgGs])?', spec)
    if m is None:
        raise Undecided('format %r' % spec)
    return (m.group(2) or '').lower(), None if m.group(1) is None else int(m.group(1))


def add(I, a, b):
    return plain(Text(of(I, a).parts + of(I, b).parts))


def formatted(I, fmt, args, kw):
    """str.format"""
    out = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        from dpv.deductive.sym import PyExc
        raise PyExc('ValueError')
    for lit, name, spec, conv in fields:
        out.append(('s', lit))
        if name is None:
            continue
        if conv not in (None, 's') or '{' in (spec or ''):
            raise Undecided('format %r' % fmt)
        m = re.fullmatch(r'(\w*)((?:\[\d+\])*)', name)
        if m is None:
            raise Undecided('format %r' % fmt)
        head = m.group(1)
        from dpv.deductive.sym import PyExc
        if head == '':
            head, auto = str(auto), auto + 1
        if head.isdigit():
            if int(head) >= len(args):
                raise PyExc('IndexError')
            v = args[int(head)]
        elif head in kw:
            v = kw[head]
        else:
            raise PyExc('KeyError')
        for k in re.findall(r'\[(\d+)\]', m.group(2)):
            v = I.subscript(v, (P(int(k)),))
        out += of(I, v, spec or '').parts
    return plain(Text(out))


def percent(I, fmt, arg):
    from dpv.deductive.sym import PyExc
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out, last = [], 0
    for m in re.finditer(r'%(%|([-+ 0]*\d*(?:\.\d+)?)([sdifgeFGE]))', fmt):
        out.append(('s', fmt[last:m.start()]))
        last = m.end()
        if m.group(1) == '%':
            out.append(('s', '%'))
            continue
        if not args:
            raise PyExc('TypeError')
        v = args.pop(0)
        kind = {'s': '', 'i': 'd'}.get(m.group(3), m.group(3))
        flags = m.group(2).replace('-', '<' if False else '')
        if kind == 'd' and not (I.num(v) is not None and I.num(v).is_int()):
            raise Undecided('%d of a number that is not whole')
        out += of(I, v, flags + kind if not isinstance(v, (str, Text, Opaque)) else (flags if isinstance(v, str) and not flags else '')).parts
    rest = fmt[last:]
    if '%' in rest:
        raise Undecided('format %r' % fmt)
    if args:
        raise PyExc('TypeError')
    out.append(('s', rest))
    return plain(Text(out))


def join(I, sep, items):
    """sep.join(items)"""
    segs = I.seq_of(items).segs
    out = []
    for k, s in enumerate(segs):
        if s[0] == 'items':
            for x in s[1]:
                if not isinstance(x, (str, Text)) and not (isinstance(x, Opaque) and x.name.startswith('str:')):
                    from dpv.deductive.sym import PyExc
                    raise PyExc('TypeError')
                if out or k:
                    out.append(('s', sep))
                out += of(I, x).parts
        elif s[0] == 'seq':
            body = of(I, s[3]) if isinstance(s[3], (str, Text)) else None
            if body is None:
                raise Undecided('join')
            if k:
                out.append(('rep', s[1], s[2], Text((('s', sep),) + body.parts)))
            elif not sep:
                out.append(('rep', s[1], s[2], body))
            else:
                # the first one without the separator
                if not T.entails(list(T.FACTS), s[1] - 1):
                    raise Undecided('join of nothing')
                out += subst(body, {s[2]: T.ZERO}).parts
                out.append(('rep', s[1] - 1, s[2], Text((('s', sep),) + subst(body, {s[2]: T.var(s[2], 'i', nn=True) + 1}).parts)))
        else:
            raise Undecided('join')
    return plain(Text(out))


def lines(I, t, keep=False, drop=False):
    """t.split('\\n') (keep: each line with its end; drop: no empty last line) as a list."""
    t = of(I, t)
    segs, row, cur = [], [], []

    def flush():
        if row:
            segs.append(('items', tuple(row)))
            row.clear()
    todo = list(t.parts)
    ended = False
    while todo:
        p = todo.pop(0)
        ended = False
        if p[0] == 's':
            bits = p[1].split('\n')
            for b in bits[:-1]:
                row.append(plain(Text(cur + [('s', b + ('\n' if keep else ''))])))
                cur = []
            cur = cur + [('s', bits[-1])] if bits[-1] else cur
        elif p[0] == 'rep' and any('\n' in x[1] for x in flat(p[3]) if x[0] == 's'):
            body = p[3].parts
            ends = [k for k, x in enumerate(body) if x[0] == 's' and '\n' in x[1]]
            if any(x[0] == 'rep' for x in body) or len(ends) != 1 or body[ends[0]][1].count('\n') != 1:
                raise Undecided('repeated lines')
            head, tail = body[ends[0]][1].split('\n')
            first = list(body[:ends[0]]) + [('s', head + ('\n' if keep else ''))]
            rest = ([('s', tail)] if tail else []) + list(body[ends[0] + 1:])
            if rest and not head and ends[0] == 0 and (not todo or todo[0][0] == 's' and todo[0][1].startswith('\n')):
                # each repetition ends the line before it; the last one is ended by what follows
                e = [('s', '\n')] if keep else []
                row.append(plain(Text(cur + e)))
                flush()
                segs.append(('seq', p[1], p[2], plain(Text(rest + (e if todo or not keep else [])))))
                cur = []
                if todo:
                    todo[0] = ('s', todo[0][1][1:])
                    if not todo[0][1]:
                        todo.pop(0)
                        if not todo:
                            ended, cur = False, []
                else:
                    ended = True
            elif not rest:
                if cur:
                    # the line before goes on in the first of the repeated ones
                    if not T.entails(list(T.FACTS), p[1] - 1):
                        raise Undecided('repeated lines')
                    row.append(plain(Text(cur + list(subst(Text(first), {p[2]: T.ZERO}).parts))))
                    flush()
                    segs.append(('seq', p[1] - 1, p[2], plain(subst(Text(first), {p[2]: T.var(p[2], 'i', nn=True) + 1}))))
                else:
                    flush()
                    segs.append(('seq', p[1], p[2], plain(Text(first))))
                cur = []
            else:
                # each repetition ends the line before and begins one
                if not T.entails(list(T.FACTS), p[1] - 1):
                    raise Undecided('repeated lines')
                v = T.var(p[2], 'i', nn=True)
                row.append(plain(Text(cur + list(subst(Text(first), {p[2]: T.ZERO}).parts))))
                flush()
                segs.append(('seq', p[1] - 1, p[2], plain(Text(list(subst(Text(rest), {p[2]: v}).parts) + list(subst(Text(first), {p[2]: v + 1}).parts)))))
                cur = list(subst(Text(rest), {p[2]: p[1] - 1}).parts)
        else:
            cur = cur + [p]
    last = plain(Text(cur))
    if ended:
        if keep:
            raise Undecided('last line without an end')
    elif not (drop and last == ''):
        row.append(last)
    flush()
    return ListRef(I.new(Seq(tuple(segs))))


def flat(t):
    for p in t.parts:
        if p[0] == 'rep':
            yield from flat(p[3])
        else:
            yield p


def words(I, t):
    """t.split(): numbers are words or parts of words."""
    t = of(I, t)
    out, cur = [], []
    for p in t.parts:
        if p[0] == 's':
            bits = re.split(r'(\s+)', p[1])
            for k, b in enumerate(bits):
                if k % 2:
                    if cur:
                        out.append(plain(Text(cur)))
                    cur = []
                elif b:
                    cur = cur + [('s', b)]
        elif p[0] == 'rep':
            raise Undecided('words of repeated text')
        else:
            cur = cur + [p]
    if cur:
        out.append(plain(Text(cur)))
    return I.new_list(out)


def number(I, w, kind='f'):
    """float(w) or int(w)"""
    from dpv.deductive.sym import PyExc
    if isinstance(w, str):
        try:
            return P(int(w)) if kind == 'i' else P(T.F(w.strip()))
        except (ValueError, ZeroDivisionError):
            raise PyExc('ValueError')
    parts = [p for p in w.parts if not (p[0] == 's' and not p[1].strip())]
    if len(parts) == 1 and parts[0][0] == 'n':
        x, spec = parts[0][1:]
        k, digits = form(spec)
        if kind == 'i':
            if not x.is_int() or k not in ('', 'd', 's'):
                raise PyExc('ValueError')
        return x
    if any(p[0] == 'w' or p[0] == 's' and re.search(r'[A-Za-df-z_]', p[1]) for p in parts):
        raise PyExc('ValueError')
    raise Undecided('number of %r' % (w,))


def formats(t):
    """The formats of the printed numbers that are not whole."""
    return [p[2] for p in flat(t) if p[0] == 'n' and not p[1].is_int()] if isinstance(t, Text) else []


def precise(spec, digits):
    """At least so many digits after the point (or an exact form)."""
    k, d = form(spec)
    if k in ('', 's'):
        return d is None
    if k in ('g', 'e'):
        return d is not None and d >= digits + 4
    return k == 'f' and (6 if d is None else d) >= digits


DIGIT = 'str:character of a number'


def find(t, pattern):
    """The text from the first occurrence of fixed characters on, or None; a printed number has none of their letters."""
    if isinstance(t, str):
        k = t.find(pattern)
        return None if k < 0 else plain(Text([('s', t[k:])]))
    if not re.search(r'[A-Zb-df-z=]', pattern):
        raise Undecided('search for %r' % pattern)
    for k, p in enumerate(t.parts):
        if p[0] == 's':
            j = p[1].find(pattern)
            if j >= 0:
                return plain(Text((('s', p[1][j:]),) + t.parts[k + 1:]))
            # at the end of one part and beyond a number?
            for n in range(1, min(len(pattern), len(p[1])) + 1):
                if p[1].endswith(pattern[:n]) and k + 1 < len(t.parts) and re.match(r'[-+ 0-9.e]', pattern[n:n + 1]):
                    raise Undecided('search for %r' % pattern)
        elif p[0] == 'n':
            if re.match(r'[-+ 0-9.e]', pattern) and k + 1 < len(t.parts):
                raise Undecided('search for %r' % pattern)
        elif p[0] == 'rep':
            if find(p[3], pattern) is not None:
                raise Undecided('search for %r in repeated text' % pattern)
        else:
            raise Undecided('search in unknown text')
    return None


def after(t, n):
    """The text without its first n characters, which are fixed."""
    if isinstance(t, str):
        return t[n:]
    if n and (not t.parts or t.parts[0][0] != 's' or len(t.parts[0][1]) < n):
        raise Undecided('characters of a number')
    return plain(Text((('s', t.parts[0][1][n:]),) + t.parts[1:])) if n else t


def split(I, t, sep):
    """t.split(sep) for fixed characters."""
    out, cur = [], []
    if not re.search(r'[A-Zb-df-z=:,;/#]', sep):
        raise Undecided('split at %r' % sep)
    for p in t.parts:
        if p[0] == 's':
            bits = p[1].split(sep)
            for b in bits[:-1]:
                out.append(plain(Text(cur + [('s', b)])))
                cur = []
            cur = cur + [('s', bits[-1])]
        elif p[0] == 'n':
            cur = cur + [p]
        else:
            raise Undecided('split')
    out.append(plain(Text(cur)))
    return I.new_list(out)


def replaced(t, old, new):
    """t.replace(old, new) for fixed characters that no printed number has."""
    if not isinstance(old, str) or not isinstance(new, str) or len(old) != 1 or re.match(r'[-+0-9.a-zA-Z ]', old):
        raise Undecided('replace')
    out = []
    for p in t.parts:
        if p[0] == 's':
            out.append(('s', p[1].replace(old, new)))
        elif p[0] == 'n':
            out.append(p)
        else:
            raise Undecided('replace')
    return plain(Text(out))


def partition(t, sep):
    if not isinstance(sep, str) or len(sep) != 1 or re.match(r'[-+0-9.a-zA-Z ]', sep):
        raise Undecided('partition')
    for k, p in enumerate(t.parts):
        if p[0] == 's' and sep in p[1]:
            a, _, b = p[1].partition(sep)
            return plain(Text(t.parts[:k] + (('s', a),))), sep, plain(Text((('s', b),) + t.parts[k + 1:]))
        if p[0] not in ('s', 'n'):
            raise Undecided('partition')
    return t, '', ''


def method(I, t, name, args, kw):
    if name == 'replace' and len(args) == 2:
        return replaced(t, *args)
    if name == 'partition' and len(args) == 1:
        return partition(t, args[0])
    if name in ('encode', 'decode') and len(args) < 2:
        return t
    if name == 'split' and len(args) == 1 and isinstance(args[0], str) and args[0] != '\n':
        return split(I, t, args[0])
    if name == 'split' or name == 'splitlines':
        if name == 'splitlines':
            return lines(I, t, drop=True)
        if not args or args[0] is None:
            return words(I, t)
        if args[0] == '\n' and len(args) == 1:
            return lines(I, t)
        raise Undecided('split at %r' % (args,))
    if name in ('strip', 'rstrip', 'lstrip') and not args:
        parts = list(t.parts)
        if parts and parts[0][0] == 's' and name != 'rstrip':
            parts[0] = ('s', parts[0][1].lstrip())
        if parts and parts[-1][0] == 's' and name != 'lstrip':
            parts[-1] = ('s', parts[-1][1].rstrip())
        if parts and (parts[0][0] == 'rep' and name != 'rstrip' or parts[-1][0] == 'rep' and name != 'lstrip'):
            raise Undecided('strip')
        return plain(Text(parts))
    if name == 'startswith' and len(args) == 1 and isinstance(args[0], str):
        p = t.parts[0] if t.parts else ('s', '')
        if p[0] == 's' and (len(p[1]) >= len(args[0]) or not args[0].startswith(p[1])):
            return p[1].startswith(args[0])
    raise Undecided('text method ' + name)
