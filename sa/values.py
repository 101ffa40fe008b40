"""Abstract values and abstract heap objects."""


class AV:
    __slots__ = ("k", "_h")

    def __init__(self, *k):
        self.k = k
        self._h = hash((self.__class__.__name__, k))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self._h == o._h and self.k == o.k)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return f"{self.__class__.__name__}{self.k!r}"


class Const(AV):
    __slots__ = ()

    def __init__(self, v):
        AV.__init__(self, type(v).__name__, v)

    @property
    def v(self):
        return self.k[1]


class StrP(AV):
    """String with unknown parts: tuple of str | ('?', tags)."""
    __slots__ = ()

    @property
    def parts(self):
        return self.k[0]

    @property
    def tags(self):
        s = frozenset()
        for p in self.k[0]:
            if not isinstance(p, str):
                s |= p[1]
        return s


class Unk(AV):
    """Unknown external value: kind, provenance tags, extra fact."""
    __slots__ = ()

    def __init__(self, kind="", tags=frozenset(), x=None):
        AV.__init__(self, kind, tags, x)

    @property
    def kind(self):
        return self.k[0]

    @property
    def tags(self):
        return self.k[1]

    @property
    def x(self):
        return self.k[2]


class Ref(AV):
    __slots__ = ()

    def __init__(self, obj):
        AV.__init__(self, obj)

    @property
    def obj(self):
        return self.k[0]


class FuncV(AV):
    """In-project function: (FunctionInfo, defining frame)."""
    __slots__ = ()

    @property
    def info(self):
        return self.k[0]

    @property
    def frame(self):
        return self.k[1]


class Bound(AV):
    __slots__ = ()

    @property
    def func(self):
        return self.k[0]

    @property
    def self(self):
        return self.k[1]


class ClassV(AV):
    __slots__ = ()

    @property
    def info(self):
        return self.k[0]


class ModV(AV):
    __slots__ = ()

    @property
    def mod(self):
        return self.k[0]


class Ext(AV):
    __slots__ = ()

    @property
    def name(self):
        return self.k[0]


class Meth(AV):
    """Method of a non-instance receiver used as a value."""
    __slots__ = ()

    @property
    def recv(self):
        return self.k[0]

    @property
    def name(self):
        return self.k[1]


class Partial(AV):
    """functools.partial / dask.delayed wrapper: (target AV, obj holding args, kind)"""
    __slots__ = ()


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
TOP = Unk()
E = frozenset()


class Serial:
    """Hashed by order of creation, so that sets are walked in the same order in every run."""
    __slots__ = ("_serial",)
    made = 0

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        Serial.made += 1
        o._serial = Serial.made
        return o

    def __hash__(self):
        return self._serial

    def __eq__(self, o):
        return self is o


class Obj(Serial):
    """Abstract heap object; flow-insensitive contents."""
    __slots__ = ("id", "kind", "cls", "node", "root", "fields", "elem", "protos",
                 "children", "static", "tags", "extra", "sorted", "__weakref__")
    count = 0

    def __init__(self, kind, node=None, cls=None, root=None):
        Obj.count += 1
        self.id = Obj.count
        self.kind, self.cls, self.node, self.root = kind, cls, node, root
        self.fields = {}
        self.elem = set()
        self.protos = []      # [(Obj, deep)]
        self.children = {}    # lazily created children of input roots / deep copies
        self.static = None    # name of the module-level / class-level / default owner
        self.tags = frozenset()
        self.extra = None
        self.sorted = False   # .sort() is called on it

    def __repr__(self):
        if self.root:
            return f"<{self.kind} {'/'.join(map(str, self.root))}>"
        ln = getattr(self.node, "lineno", "?")
        return f"<{self.kind}@{ln}{' S:' + self.static if self.static else ''}>"


def tags_of(vals):
    t = frozenset()
    for v in vals:
        if isinstance(v, (Unk, StrP)):
            t |= v.tags
        elif isinstance(v, Ref):
            t |= v.obj.tags
            if v.obj.root:
                t |= frozenset(("p:" + str(v.obj.root[0]),))
    return t


ORDER = frozenset(("unsorted", "set-order"))


def order_of(vals):
    """Tags telling that the order of the elements is arbitrary."""
    t = frozenset()
    for v in vals:
        if isinstance(v, Unk):
            t |= v.tags & ORDER
        elif isinstance(v, Ref):
            if v.obj.kind == "set":
                t |= {"set-order"}
            elif v.obj.kind in ("list", "tuple", "generator"):
                t |= v.obj.tags & ORDER
    return t


def picked(vals, elems):
    """Elements chosen by their position in a sequence of arbitrary order."""
    if not order_of(vals):
        return elems
    return frozenset(Unk(v.kind if isinstance(v, Unk) else "str" if isinstance(v, StrP) else "", tags_of((v,)) | {"order-pick"}) for v in elems)
