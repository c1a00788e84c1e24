"""Contracts of text files: a file is its text; what is read is what the text holds."""
from dpv.deductive import terms as T, text as X
from dpv.deductive.terms import P
from dpv.deductive.values import *
from dpv.deductive.sym import PyExc

FILE = 'builtins.file'


def disk(I, files):
    """The texts on the disk: name -> text."""
    I.text_disk = I.new_obj('disk', dict(files))
    return I.text_disk


def opened(I, name, mode='r', *a, **kw):
    if not isinstance(name, str) or set(kw) - {'encoding', 'newline'} or a or mode not in ('r', 'rt', 'w', 'wt', 'a'):
        raise Undecided('open')
    d = I.heap[I.text_disk.cid]
    if mode[0] == 'r':
        if name not in d:
            raise PyExc('FileNotFoundError')
        return I.new_obj(FILE, {'$name': name, '$closed': False, '$at': P(0), '$mode': 'r'})
    if mode[0] == 'w' or name not in d:
        I.set_field(I.text_disk, name, '')
    return I.new_obj(FILE, {'$name': name, '$closed': False, '$at': P(0), '$mode': mode[0]})


def live(I, f, mode='r'):
    if I.field(f, '$closed') is not False:
        raise PyExc('ValueError')
    if (I.field(f, '$mode') == 'r') != (mode == 'r'):
        raise PyExc('OSError')
    return I.heap[I.text_disk.cid][I.field(f, '$name')]


def read(I, f, *a):
    t = live(I, f)
    if a or I.field(f, '$at') != P(0):
        raise Undecided('part of a file')
    I.set_field(f, '$at', None)
    return t


def readlines(I, f, *a):
    t = live(I, f)
    if a or I.field(f, '$at') != P(0):
        raise Undecided('part of a file')
    I.set_field(f, '$at', None)
    return X.lines(I, t, keep=True, drop=True)


def readline(I, f):
    t = live(I, f)
    at = I.field(f, '$at')
    if at is None:
        raise Undecided('line after the end')
    l = X.lines(I, t, keep=True, drop=True)
    n = I.length(l)
    if T.entails(list(T.FACTS), at - n):
        return ''
    v = I.subscript(l, (at,))
    I.set_field(f, '$at', at + 1)
    return v


def write(I, f, t):
    old = live(I, f, 'w')
    if not isinstance(t, (str, X.Text)):
        raise PyExc('TypeError')
    I.set_field(I.text_disk, I.field(f, '$name'), X.add(I, old, t))


def close(I, f, *a):
    I.set_field(f, '$closed', True)


def enter(I, f):
    return f


def leave(I, f, *a):
    close(I, f)
    return None


CONTRACTS = {'text': True, 'builtins.open': opened, FILE + '.read': read, FILE + '.readlines': readlines, FILE + '.readline': readline, FILE + '.write': write,
             FILE + '.close': close, FILE + '.__enter__': enter, FILE + '.__exit__': leave, FILE + '.__iter__': readlines,
             'os.path.isfile': lambda I, n: n in I.heap[I.text_disk.cid], 'os.path.exists': lambda I, n: n in I.heap[I.text_disk.cid]}
