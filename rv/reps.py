"""The same binary sequence in many disguises: pairs of values, and containers"""
import array
import collections
import datetime as dt
import decimal
import enum
import fractions
import functools
import uuid

import numpy as np
import pandas as pd



class Bit(enum.IntEnum):
    LOW = 3
    HIGH = 4


@functools.total_ordering
class Ordered:
    """Values which can be compared with each other only"""

    def __init__(self, rank):
        self.rank = rank

    def __eq__(self, other):
        return self.rank == other.rank if isinstance(other, Ordered) else NotImplemented

    def __lt__(self, other):
        return self.rank < other.rank if isinstance(other, Ordered) else NotImplemented

    def __hash__(self):
        return hash(("Ordered", self.rank))

    def __repr__(self):
        return f"Ordered({self.rank})"


INTS = {
    "01": (0, 1),
    "-5 7": (-5, 7),
    "12": (1, 2),
    "neg": (-2, -1),
    "huge": (2 ** 70, 2 ** 70 + 1),
    "beyond float": (10 ** 18, 10 ** 18 + 1),
    "uint64": (2 ** 63, 2 ** 64 - 1),
    "int64 ends": (-(2 ** 63), 2 ** 63 - 1),
    "0 255": (0, 255),
}
FACES = {
    **INTS,
    "floats": (0.0, 1.0),
    "floats far": (-0.5, 1e300),
    "floats near": (1.0, 1.0000000000000002),
    "inf": (0.0, float("inf")),
    "-inf": (float("-inf"), 0.0),
    "denormal": (1e-320, 2e-320),
    "int and float": (0, 1.5),
    "a b": ("a", "b"),
    "digits": ("0", "1"),
    "digits 9 10": ("10", "9"),
    "empty": ("", "x"),
    "case": ("A", "a"),
    "same initial": ("head", "heads"),
    "markup": ("[/b]", "[b]"),
    "unicode": ("ä", "漢"),
    "spaces": (" ", "  "),
    "bools": (False, True),
    "bool and int": (False, 2),
    "int and bool": (0, True),
    "bytes": (b"0", b"1"),
    "decimals": (decimal.Decimal("0.1"), decimal.Decimal("0.2")),
    "fractions": (fractions.Fraction(1, 3), fractions.Fraction(1, 2)),
    "dates": (dt.date(2020, 1, 1), dt.date(2020, 1, 2)),
    "datetimes": (dt.datetime(2020, 1, 1), dt.datetime(2021, 1, 1)),
    "timedeltas": (dt.timedelta(1), dt.timedelta(2)),
    "times": (dt.time(1), dt.time(2)),
    "tuples": ((1, 2), (3, 4)),
    "timestamps tz": (
        pd.Timestamp("2020-01-01", tz="UTC"),
        pd.Timestamp("2020-01-02", tz="UTC"),
    ),
    "int8": (np.int8(3), np.int8(4)),
    "float32": (np.float32(0.1), np.float32(0.2)),
    "npstr": (np.str_("u"), np.str_("v")),
    "ends of floats": (float("-inf"), float("inf")),
    "nanoseconds": (pd.Timestamp(1577836800000000000), pd.Timestamp(1577836800000000001)),
    "nanoseconds apart": (pd.Timedelta(1), pd.Timedelta(2)),
    "far dates": (dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31)),
    # equal timestamps of pandas hash as others when they do not come from a series (they differ in fold)
    "clocks go back": tuple(pd.Series(pd.to_datetime(["2021-10-31 00:30", "2021-10-31 01:30"], utc=True)).dt.tz_convert("Europe/Berlin")),
    "enumeration": (Bit.LOW, Bit.HIGH),
    "identifiers": (uuid.UUID(int=1), uuid.UUID(int=1 << 64)),
    "own class": (Ordered(1), Ordered(2)),
    "intervals": (pd.Interval(0, 1), pd.Interval(1, 2)),
    "nested tuples": ((), ("a", (0,))),
}


def values(bits, faces):
    tails, heads = faces
    return [heads if b else tails for b in bits.tolist()]


def obj_array(v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


def series(v):
    return pd.Series(obj_array(v)).infer_objects() if isinstance(v[0], tuple) else pd.Series(v)


def with_index(v, index):
    s = series(v)
    s.index = index
    return s


def every_other(v):
    doubled = [x for x in v for _ in range(2)]
    return series(doubled)[::2]


def backwards(v):
    return series(v[::-1])[::-1]


def filtered(v):
    s = series([v[0]] + list(v) + [v[-1]])
    keep = np.ones(len(s), dtype=bool)
    keep[0] = keep[-1] = False
    return s[keep]


def shuffled_back(v):
    rs = np.random.RandomState(len(v))
    order = rs.permutation(len(v))
    s = with_index(v, order)
    return s


# containers which take any values
ANY = {
    "list": list,
    "tuple": tuple,
    "deque": collections.deque,
    "generator": lambda v: (x for x in v),
    "iterator": iter,
    "object array": obj_array,
    "series": series,
    "series named": lambda v: series(v).rename("values"),
    "series objects": lambda v: pd.Series(obj_array(v)),
    "series reversed index": lambda v: with_index(v, range(len(v) - 1, -1, -1)),
    "series shifted index": lambda v: with_index(v, range(5, len(v) + 5)),
    "series negative index": lambda v: with_index(v, range(-len(v), 0)),
    "series duplicate index": lambda v: with_index(v, [0, 1] * (len(v) // 2) + [0] * (len(v) % 2)),
    "series constant index": lambda v: with_index(v, [1] * len(v)),
    "series float index": lambda v: with_index(v, [i / 2 for i in range(len(v))]),
    "series string index": lambda v: with_index(v, [f"r{i}" for i in range(len(v))]),
    "series date index": lambda v: with_index(v, pd.date_range("2020-01-01", periods=len(v), freq="s")),
    "series multi index": lambda v: with_index(
        v, pd.MultiIndex.from_arrays([range(len(v)), [0] * len(v)])
    ),
    "series shuffled index": shuffled_back,
    "series every other": every_other,
    "series backwards": backwards,
    "series filtered": filtered,
    "categorical": lambda v: series(v).astype("category"),
    "column of a frame": lambda v: pd.DataFrame({"x": series(v), "y": range(len(v))})["x"],
}


def cat_reversed(v):
    low, high = sorted(set(v))
    return pd.Series(pd.Categorical(v, categories=[high, low], ordered=True))


def cat_unused(v):
    return pd.Series(pd.Categorical(v, categories=sorted(set(v)) + [v[0] * 3 + v[0]]))


def strided(v):
    a = np.asarray(v)
    b = np.empty(2 * len(a), dtype=a.dtype)
    b[:] = a[0]
    b[::2] = a
    return b[::2]


def readonly(v):
    a = np.asarray(v).copy()
    a.setflags(write=False)
    return a


# containers for particular values
SOME = {
    "array": (np.asarray, ["01", "-5 7", "12", "neg", "beyond float", "uint64", "int64 ends", "floats", "floats far",
                           "floats near", "inf", "a b", "digits 9 10", "empty", "same initial", "unicode", "bools",
                           "float32", "int8"]),
    "array strided": (strided, ["01", "-5 7", "floats", "a b", "bools", "uint64"]),
    "array backwards": (lambda v: np.asarray(v[::-1])[::-1], ["01", "-5 7", "floats", "a b", "bools"]),
    "array read-only": (readonly, ["01", "floats", "a b", "bools"]),
    "series read-only": (lambda v: pd.Series(readonly(v)), ["01", "floats", "bools"]),
    "int8 array": (lambda v: np.array(v, dtype=np.int8), ["01", "-5 7", "neg"]),
    "uint8 array": (lambda v: np.array(v, dtype=np.uint8), ["01", "12", "0 255"]),
    "uint8 series": (lambda v: pd.Series(v, dtype=np.uint8), ["01", "12", "0 255"]),
    "int16 series": (lambda v: pd.Series(v, dtype=np.int16), ["01", "-5 7", "neg"]),
    "uint32 array": (lambda v: np.array(v, dtype=np.uint32), ["01", "0 255"]),
    "float16 array": (lambda v: np.array(v, dtype=np.float16), ["01", "-5 7", "floats"]),
    "float32 array": (lambda v: np.array(v, dtype=np.float32), ["01", "-5 7", "floats"]),
    "float array": (lambda v: np.array(v, dtype=np.float64), ["01", "-5 7", "0 255"]),
    "longdouble array": (lambda v: np.array(v, dtype=np.longdouble), ["01", "-5 7"]),
    "bool array": (lambda v: np.array(v, dtype=bool), ["01", "bools"]),
    "bytearray": (bytearray, ["01", "12", "0 255"]),
    "array.array": (lambda v: array.array("q", v), ["01", "-5 7"]),
    "Int64": (lambda v: pd.Series(v, dtype="Int64"), ["01", "-5 7", "neg"]),
    "Int8 array": (lambda v: pd.array(v, dtype="Int8"), ["01", "-5 7"]),
    "UInt8": (lambda v: pd.Series(v, dtype="UInt8"), ["01", "0 255"]),
    "Float64": (lambda v: pd.Series(v, dtype="Float64"), ["floats", "floats far", "01"]),
    "boolean": (lambda v: pd.Series(v, dtype="boolean"), ["bools"]),
    "string": (lambda v: pd.Series(v, dtype="string"), ["a b", "digits", "same initial", "unicode"]),
    "categorical reversed": (cat_reversed, ["01", "a b", "digits 9 10", "-5 7", "floats"]),
    "categorical unused": (cat_unused, ["12", "a b", "digits 9 10"]),
    "Categorical": (lambda v: pd.Categorical(v), ["01", "a b", "-5 7"]),
    "Index": (lambda v: pd.Index(v), ["01", "a b", "floats", "beyond float"]),
    "dict": (lambda v: dict(enumerate(v)), ["01", "a b"]),
    "period": (lambda v: pd.Series(pd.PeriodIndex(v, freq="D")), ["dates"]),
}


def pairs():
    """All (faces name, container name)"""
    out = [(f, c) for c in ANY for f in FACES]
    out += [(f, c) for c, (_, fs) in SOME.items() for f in fs]
    return out


def make(bits, face, container):
    v = values(bits, FACES[face])
    f = ANY[container] if container in ANY else SOME[container][0]
    return f(v)


def faces_of(face, container):
    """(tails, heads) as results should give them"""
    tails, heads = FACES[face]
    if container == "bool array":
        return False, True
    if container == "period":
        return pd.Period(tails, freq="D"), pd.Period(heads, freq="D")
    return tails, heads


# values which are equal, of different types
MIXED = {
    "zero and one": ([0, False, 0.0, -0.0, decimal.Decimal(0)], [1, True, 1.0, decimal.Decimal(1), fractions.Fraction(1)]),
    "int and float": ([-3, -3.0], [8, 8.0]),
    "signed zeroes": ([0.0, -0.0], [2.5]),
    "numpy scalars": ([1, np.int8(1), np.float64(1), np.uint16(1)], [2, np.int64(2), np.float32(2)]),
    "strings": (["a", np.str_("a")], ["b", np.str_("b")]),
    "large": ([2 ** 53], [2 ** 53 + 2, float(2 ** 53 + 2)]),
}


def mixed(bits, name):
    rs = np.random.RandomState(len(bits))
    return [MIXED[name][b][rs.randint(len(MIXED[name][b]))] for b in bits.tolist()]
