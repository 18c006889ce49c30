"""Values of the classes that callers pass to databases, and others: none of them may be treated specially (tuples aside)."""
import abc
import array
import collections
import contextlib
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import io
import ipaddress
import operator
import os
import pathlib
import queue
import random
import re
import string
import sys
import threading
import time
import types
import uuid
import weakref


class Colour(enum.Enum):
    RED = 1
    PAIR = (1, 2)


class Level(enum.IntEnum):
    LOW = 1


class Mode(str, enum.Enum):
    FAST = "fast"


class Word(enum.StrEnum):
    NULL = "NULL"


class Bits(enum.Flag):
    A = 1


class PairEnum(tuple, enum.Enum):
    XY = (1, 2)


@dataclasses.dataclass
class Point:
    x: int = 1
    y: int = 2


@dataclasses.dataclass(frozen=True, order=True)
class Frozen:
    value: int = 1


class Duck:
    """Looks like many things that libraries unwrap."""
    value = name = data = "wrong"
    __sql__ = __html__ = __conform__ = __composite_values__ = __clause_element__ = __wrapped__ = __json__ = __int__ = __float__ = __index__ = \
        __call__ = __str__ = __bytes__ = __fspath__ = __len__ = __iter__ = __getitem__ = __contains__ = __copy__ = __deepcopy__ = __format__ = \
        isoformat = tolist = item = items = keys = values = as_tuple = _asdict = to_python = get = getvalue = read = resolve = \
        lambda self, *a, **k: (1, 2)
    _fields = ("a", "b")


class Meta(type):
    pass


class Made(metaclass=Meta):
    pass


class Slots:
    __slots__ = ("a",)


class Int(int):
    pass


class Float(float):
    pass


class Bytes(bytes):
    pass


class Str(str):
    pass


class List(list):
    pass


class Dict(dict):
    pass


class Lazy(collections.UserString):
    pass


class NT(collections.namedtuple("NT", "value name")):
    pass


class Param(collections.namedtuple("Param", ["value"])):
    pass


class Touchy:
    """Refuses to be compared, hashed, tested, measured, iterated, copied or printed."""

    def _no(self, *a):
        raise RuntimeError("touched")
    __eq__ = __ne__ = __lt__ = __hash__ = __bool__ = __len__ = __iter__ = __getitem__ = __contains__ = __call__ = __str__ = __repr__ = __format__ = __bytes__ = \
        __int__ = __float__ = __index__ = __reduce_ex__ = __copy__ = __deepcopy__ = __getattr__ = _no


class FalsyTuple(tuple):
    def __bool__(self):
        return False


class TouchyTuple(tuple):
    """A tuple whose elements can be read, and nothing more."""

    def _no(self, *a):
        raise RuntimeError("touched")
    __eq__ = __ne__ = __lt__ = __bool__ = __contains__ = __str__ = __repr__ = __format__ = __reduce_ex__ = __copy__ = __deepcopy__ = __add__ = __mul__ = index = count = _no
    __hash__ = None


class SameTuple(tuple):
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0


def knots():
    """Values that contain themselves."""
    a, b = [], {}
    a.append(a)
    b["a"] = b
    c = []
    d = (c, 1)
    c.append(d)
    return [a, b, c]


class Callable3:
    def __call__(self):
        return 1


def scalars():
    """No tuples."""
    d = datetime.datetime(2020, 1, 2, 3, 4, 5, 6)
    out = [
        d, d.replace(tzinfo=datetime.timezone.utc), d.date(), d.time(), datetime.timedelta(1, 2), datetime.timezone.utc,
        decimal.Decimal("1.50"), decimal.Decimal("NaN"), decimal.Decimal("1E+3"), fractions.Fraction(1, 3), 3 + 4j, float("nan"), float("inf"), -0.0, 2 ** 63, -2 ** 63 - 1,
        10 ** 30, True, False, uuid.UUID(int=5), Colour.RED, Colour.PAIR, Level.LOW, Mode.FAST, Word.NULL, Bits.A, Colour, pathlib.PurePosixPath("/x"),
        pathlib.Path("x"), ipaddress.ip_address("10.0.0.1"), ipaddress.ip_network("10.0.0.0/8"), array.array("i", [1, 2]), bytearray(b"xy"), memoryview(b"xy"), b"\0\xff", b"", Bytes(b"x"),
        "", " ", "NULL", "null", "None", "'", "\0", "\ud800", "\U0001f600", "a" * 5000, Str("x"), Lazy("x"), Int(1), Float(1.0), List([1, 2]), Dict(a=1), [], [1, 2], {}, {"a": 1}, set(), {1}, frozenset([1]),
        collections.OrderedDict(a=1), collections.Counter("ab"), collections.defaultdict(list), collections.ChainMap({}), collections.deque([1, 2]),
        collections.UserList([1, 2]), collections.UserDict(a=1), types.MappingProxyType({"a": 1}), types.SimpleNamespace(value=1), range(3), slice(1, 2), iter([1]), (x for x in (1, 2)),
        reversed([1]), zip([1], [2]), map(str, [1]), enumerate([1]), {}.keys(), {"a": 1}.items(), Point(), Frozen(), Duck(), Made(), Meta, Made, Slots(), object(),
        object, type, tuple, None, ..., NotImplemented, len, functools.partial(len, ()), operator.attrgetter("x"), Callable3(), lambda: 1, scalars, re.compile("x"), re.match("(x)", "x"),
        io.StringIO("x"), io.BytesIO(b"x"), os, sys.stdout, threading.Lock(), weakref.ref(Made), string.Template("$a"), ValueError("x"), KeyError("x"),
        random.Random(1), queue.Queue(), abc.ABC, contextlib.nullcontext(), property(), staticmethod(len), classmethod(len), types.MethodType(len, ()), __import__("sqlite3").Binary(b"x"),
        Touchy(), *knots(), "x" * 4001, "y" * 32768, "z" * 70001, b"x" * 8001, b"y" * 70001, bytearray(70001), list(range(70001)), dict.fromkeys(range(70001)), 10 ** 5000, -10 ** 400,
        memoryview(bytes(70001)), set(range(5000)), "'" * 3000, "? " * 3000, "\n" * 3000, decimal.Decimal(10) ** 400, "line\nline\r\nline", "caf\xe9 \u4e2d", "\x1a\x00\x08", "Robert'); DROP TABLE x;--",
        1, 0, -1, 1.5, "x", "?", ":a", ":1", "%s", "%(a)s", "$1", "@a", "%", "--", "/*", "(NULL)", "()", "(1, 2)", "1", "0",
    ]
    return out


def tuples():
    """Tuples of other classes than tuple."""
    return [time.gmtime(0), os.stat_result(range(10)), sys.version_info, sys.float_info, os.terminal_size((80, 24)), Param(1), NT(1, 2), PairEnum.XY, decimal.Decimal("1.5").as_tuple(),
            datetime.date(2020, 1, 2).isocalendar(), functools.lru_cache(len).cache_info(), sys.flags, Param((1, 2)), NT(Param(1), ()),
            FalsyTuple([1, 2]), FalsyTuple(["x"]), TouchyTuple([1, 2]), TouchyTuple(), SameTuple([1]), SameTuple(), (knots()[2],)]
