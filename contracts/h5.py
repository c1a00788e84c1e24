"""Contracts of h5py: a file is a set of named arrays; what was written before the file was closed is what is read."""
from dpv.deductive import terms as T
from dpv.deductive.terms import P
from dpv.deductive.values import *
from dpv.deductive.sym import PyExc

FILE, SET, DISK = 'h5py.File', 'h5py.Dataset', 'disk'


def disk(I, files=None):
    """The files on the disk: name -> {dataset: array}; kept in the heap, so that every path has its own."""
    I.disk = I.new_obj(DISK, {k: {n: I.arr(v) for n, v in f.items()} for k, f in (files or {}).items()})
    return I.disk


def of(I, name):
    return I.heap[I.disk.cid].get(name)


def opened(I, name, mode='r', **kw):
    if not isinstance(name, str) or kw:
        raise Undecided('h5py.File')
    f = of(I, name)
    if mode == 'r':
        if f is None:
            raise PyExc('FileNotFoundError')
    elif mode == 'w':
        I.set_field(I.disk, name, {})
    elif mode in ('a', 'r+'):
        if f is None:
            I.set_field(I.disk, name, {})
    else:
        raise Undecided('mode %r' % (mode,))
    return I.new_obj(FILE, {'$file': name, '$mode': mode, '$closed': False})


def live(I, self, write=False):
    if I.field(self, '$closed') is not False:
        raise PyExc('ValueError')
    if write and I.field(self, '$mode') == 'r':
        raise PyExc('ValueError')
    return of(I, I.field(self, '$file'))


def create(I, self, name, shape=None, dtype=None, data=None, **kw):
    f = live(I, self, True)
    if set(kw) - {'compression', 'compression_opts', 'chunks', 'shuffle', 'fletcher32'} or data is None or shape is not None or dtype is not None or not isinstance(name, str):
        raise Undecided('create_dataset')
    if name in f:
        raise PyExc('ValueError')
    a = I.arr(data)
    I.set_field(I.disk, I.field(self, '$file'), dict(f, **{name: Arr(a.shape, a.expr, a.dtype)}))
    return I.new_obj(SET, {'$of': self, '$name': name})


def item(I, self, name):
    f = live(I, self)
    if not isinstance(name, str):
        raise Undecided('item of a file')
    if name not in f:
        raise PyExc('KeyError')
    return I.new_obj(SET, {'$of': self, '$name': name})


def array(I, self):
    f = live(I, I.field(self, '$of'))
    return I.mk(f[I.field(self, '$name')])


def part(I, self, ix):
    a = array(I, self)
    ix = ix if isinstance(ix, tuple) else (ix,)
    if len(ix) > 0 and isinstance(ix[0], Poly):
        ix = tuple(ix)
    r = I.subscript(a, ix)
    return I.mk(I.content(r)) if isinstance(r, Ref) else r      # a copy in memory


def close(I, self):
    I.set_field(self, '$closed', True)


def keys(I, self):
    return tuple(live(I, self))


def shape(I, self):
    return tuple(I.content(array(I, self)).shape)
shape.is_property = True


CONTRACTS = {FILE: opened, FILE + '.create_dataset': create, FILE + '.__getitem__': item, FILE + '.__contains__': lambda I, self, n: n in live(I, self),
             FILE + '.__setitem__': lambda I, self, n, v: create(I, self, n, data=v) and None,
             FILE + '.close': close, FILE + '.flush': lambda I, self: None, FILE + '.__enter__': lambda I, self: self,
             FILE + '.__exit__': lambda I, self, *a: close(I, self), FILE + '.keys': keys, FILE + '.get': lambda I, self, n, d=None: item(I, self, n) if n in live(I, self) else d,
             SET + '.__getitem__': part, SET + '.__array__': lambda I, self: I.mk(I.content(array(I, self))), SET + '.shape': shape}
