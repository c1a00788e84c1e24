"""Contracts of memory mapped text files: a cursor in the text, which a search, a jump to what was found and reading a line move."""
import re
from dpv.deductive import terms as T, text as X
from dpv.deductive.terms import P, Undecided
from dpv.deductive.values import *
from dpv.deductive.sym import PyExc
from contracts import textfile

MAP = 'mmap.mmap'
SIZE = T.var('file size', 'i', nn=True)


def mapped(I, f, length, *a, **kw):
    """The whole file (a length is the size of the file at most, which an unknown file does not exceed)."""
    t = I.heap[I.text_disk.cid][I.field(f, '$name')]
    n = I.num(length)
    if n is None or n.const() != 0 and n != SIZE and not any(a.kind == 'fun' and a.data[0] in ('least', 'min') and SIZE in a.data[1] for m in n.m for a, e in m):
        raise Undecided('part of a file')
    return I.new_obj(MAP, {'$lines': X.lines(I, t, keep=True, drop=True), '$at': P(0), '$rest': None})


def at_end(I, m):
    return T.entails(list(T.FACTS), I.field(m, '$at') - I.length(I.field(m, '$lines')))


def find(I, m, pattern, *a):
    """The first place from the cursor on where the characters stand, or -1."""
    if a or not isinstance(pattern, str):
        raise Undecided('find')
    lines = I.field(m, '$lines')
    at = I.field(m, '$at')
    rest = I.field(m, '$rest')
    if rest is not None:
        r = X.find(rest, pattern)
        if r is not None:
            return place(I, at, r)
        at = at + 1
    for lo, hi, s in I.spans(I.seq_of(lines).segs):
        if T.entails(list(T.FACTS), at - hi):
            continue
        if s[0] == 'items':
            for k, l in enumerate(s[1]):
                if T.entails(list(T.FACTS), at - lo - k - 1):
                    continue
                if not T.entails(list(T.FACTS), lo + k - at):
                    raise Undecided('position in a file')
                r = X.find(l, pattern)
                if r is not None:
                    return place(I, lo + k, r)
        elif X.find(s[3], pattern) is not None:
            raise Undecided('search in repeated lines')
    return P(-1)


def place(I, line, rest):
    v = T.fresh('place', 'i')
    v = T.app('place', [P(next(T._fresh))], 'i', nn=True)
    I.places = getattr(I, 'places', {})
    I.places[v.key] = (v, line, rest)
    return v


def seek(I, m, where, *a):
    where = I.num(where)
    if a or where is None:
        raise Undecided('seek')
    if where.const() == 0:
        I.set_field(m, '$at', P(0))
        I.set_field(m, '$rest', None)
        return
    if where.const() is not None and where.const() < 0:
        raise PyExc('ValueError')
    for v, line, rest in getattr(I, 'places', {}).values():
        n = (where - v).const()
        if n is not None and n >= 0:
            I.set_field(m, '$at', line)
            I.set_field(m, '$rest', X.after(rest, int(n)))
            return
    raise Undecided('seek')


def readline(I, m):
    at, rest = I.field(m, '$at'), I.field(m, '$rest')
    if rest is None:
        if at_end(I, m):
            return ''
        rest = I.subscript(I.field(m, '$lines'), (at,))
    else:
        I.set_field(m, '$rest', None)
    I.set_field(m, '$at', at + 1)
    return rest


def opened(I, name, mode='r', *a, **kw):
    return textfile.opened(I, name, {'r+': 'r', 'r+b': 'r', 'rb': 'r', 'rb+': 'r'}.get(mode, mode), *a, **kw)


CONTRACTS = dict(textfile.CONTRACTS, **{
    'builtins.open': opened, textfile.FILE + '.fileno': lambda I, f: f, MAP: mapped, MAP + '.find': find, MAP + '.seek': seek, MAP + '.readline': readline,
    MAP + '.close': lambda I, m: None, 'os.stat': lambda I, f: I.new_obj('stat', {'st_size': SIZE}), 'os.path.getsize': lambda I, f: SIZE})
