"""Process images: what a process keeps in memory is private to it.

All simulated processes run in one interpreter, so state that code under test
keeps in module globals, class attributes, default arguments or the shared
`random` generator would silently be shared between them.  An Images object
gives every (node, incarnation) its own copy: leaving a node, everything that
differs from the state at program start is put aside and reverted; entering
it again, it is put back.  A restarted process starts from the pristine image
(workers forked from one parent: same `random` state).
"""
import copy
import itertools
import random
import sys
import types
import warnings

EXEMPT = {('openid.fetchers', '_default_fetcher'), ('openid.fetchers', '_default_fetcher_wrapped')}
ATOMIC = (str, bytes, int, float, bool, type(None), complex, types.ModuleType, type(Ellipsis), frozenset, range)
STATEFUL = (itertools.count, random.Random)     # advanced in place: every image gets its own copy
SKIP = ('__dict__', '__weakref__', '__doc__', '__module__', '__builtins__', '__cached__', '__file__', '__spec__', '__loader__', '__path__',
        '__abstractmethods__', '_abc_impl')


def _openid_modules():
    import importlib
    import pkgutil
    import openid
    for m in pkgutil.walk_packages(openid.__path__, 'openid.'):
        if '.test' not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:       # optional dependencies
                pass
    return [m for n, m in sorted(sys.modules.items()) if (n == 'openid' or n.startswith('openid.')) and m is not None and '.test' not in n]


class Pristine(object):
    """State of the library right after import."""

    def __init__(self):
        self.holders = []          # (object, saved dict)
        self.containers = []       # (container, saved copy)
        self.caches = []
        self.full = {}
        self.seen = set()
        self.keep = []
        for m in _openid_modules():
            self._holder(m)

    def _holder(self, obj):
        if id(obj) in self.seen:
            return
        self.seen.add(id(obj))
        self.keep.append(obj)
        d = dict((k, v) for k, v in vars(obj).items() if k not in SKIP and (getattr(obj, '__name__', None), k) not in EXEMPT)
        for k, v in d.items():
            if isinstance(v, STATEFUL) and not isinstance(v, random.SystemRandom):
                d[k] = _fresh(v)
        self.holders.append((obj, d))
        self.full[id(obj)] = dict(vars(obj), **dict((k, v) for k, v in d.items() if isinstance(v, STATEFUL)))
        for v in list(d.values()):
            self._value(v)

    def _value(self, v):
        if isinstance(v, ATOMIC) or id(v) in self.seen:
            return
        if isinstance(v, (classmethod, staticmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self._value(f)
            return
        if hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__'):
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            if not (v.__module__ or '').startswith('openid'):
                return
            self.seen.add(id(v))
            self.keep.append(v)
            if v.__dict__:
                self._holder_dict(v)
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self._value(x)
            for c in v.__closure__ or ():
                try:
                    self._value(c.cell_contents)
                except ValueError:
                    pass
            return
        if isinstance(v, type):
            if (v.__module__ or '').startswith('openid'):
                self._holder(v)
            return
        if isinstance(v, (dict, list, set)):
            self.seen.add(id(v))
            self.keep.append(v)
            self.containers.append((v, v.copy()))
            for x in (v.values() if isinstance(v, dict) else v):
                self._value(x)
            return
        if isinstance(v, tuple):
            for x in v:
                self._value(x)
            return
        if (type(v).__module__ or '').startswith('openid') and hasattr(v, '__dict__'):
            self.seen.add(id(v))
            self.keep.append(v)
            d = vars(v)
            self.containers.append((d, d.copy()))
            for x in d.values():
                self._value(x)

    def _holder_dict(self, f):
        self.containers.append((f.__dict__, dict(f.__dict__)))

    # -- leaving and entering ------------------------------------------------
    def take(self):
        """What differs from the pristine state; reverts it."""
        delta = []
        for obj, saved in self.holders:
            cur = vars(obj)
            if cur == self.full[id(obj)]:
                continue
            name = getattr(obj, '__name__', None)
            sets, news = {}, []
            for k, v in list(cur.items()):
                if k in SKIP or (name, k) in EXEMPT:
                    continue
                if k not in saved:
                    sets[k] = v
                    news.append(k)
                elif saved[k] is not v:
                    sets[k] = v
            gone = [k for k in saved if k not in cur]
            for k in news:
                delattr(obj, k)
            for k in sets:
                if k not in news:
                    setattr(obj, k, _fresh(saved[k]))
            for k in gone:
                setattr(obj, k, saved[k])
            if sets or gone:
                delta.append((obj, sets, gone))
        for c, saved in self.containers:
            if c == saved:
                continue
            delta.append((c, c.copy(), None))
            _fill(c, saved)
        return delta

    def put(self, delta):
        for obj, sets, gone in delta:
            if gone is None:
                _fill(obj, sets)
            else:
                for k, v in sets.items():
                    setattr(obj, k, v)
                for k in gone:
                    delattr(obj, k)


def _fresh(v):
    if isinstance(v, STATEFUL) and not isinstance(v, random.SystemRandom):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return copy.copy(v)
    return v


def _fill(c, content):
    if isinstance(c, list):
        c[:] = content
    else:
        c.clear()
        c.update(content)


PRISTINE = None


def pristine():
    global PRISTINE
    if PRISTINE is None:
        PRISTINE = Pristine()
    return PRISTINE


class Images(object):
    def __init__(self, sim):
        self.sim = sim
        self.p = pristine()
        self.reset()
        self.fork_state = random.getstate()
        self.images = {}
        self.cur = None
        self.switches = 0
        self.dirty = 0

    def reset(self):
        self.p.take()
        for c in self.p.caches:
            c.cache_clear()

    def switch(self, node):
        key = (node.name, node.incarnation)
        if key == self.cur or node.name == 'main' or node.name.startswith('browser'):
            return                  # (browsers run no library code)
        self.switches += 1
        delta = self.p.take()
        if delta:
            self.dirty += 1
        if self.cur is not None:
            self.images[self.cur] = (delta, random.getstate())
        img = self.images.get(key)
        if img is None:
            random.setstate(self.fork_state)
        else:
            random.setstate(img[1])
            self.p.put(img[0])
        for c in self.p.caches:
            c.cache_clear()
        self.cur = key
