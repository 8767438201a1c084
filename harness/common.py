"""Input schemes shared by the drivers: abstract ranks -> concrete values."""
import math
import struct


def nextafter(x, up=True):
    """The neighbouring double (x > 0 or x == 0)."""
    if x == 0.0:
        return 5e-324 if up else -5e-324
    n = struct.unpack("<q", struct.pack("<d", x))[0]
    n += 1 if (up == (x > 0)) else -1
    return struct.unpack("<d", struct.pack("<q", n))[0]


def price_table(scheme, n):
    """n increasing concrete prices."""
    if scheme == "int":
        return [i + 1 for i in range(n)]
    if scheme == "zero":
        return [float(i) for i in range(n)]
    if scheme == "cents":
        return [0.1 * (i + 1) for i in range(n)]
    if scheme == "close":  # neighbouring doubles
        v, out = 1.0 / 3.0, []
        for _ in range(n):
            out.append(v)
            v = nextafter(v)
        return out
    if scheme == "wide":
        return [10.0 ** (-8 + 16.0 * i / max(1, n)) for i in range(n)]
    if scheme == "big":
        return [1e15 + 3.0 * i for i in range(n)]
    if scheme == "irr":
        return [math.sqrt(2.0) * (i + 1) for i in range(n)]
    if scheme == "tiny":  # prices that need scientific notation
        return [1.2345678901234567e-9 * (i + 1) for i in range(n)]
    raise ValueError(scheme)


PRICE_SCHEMES = ["int", "zero", "cents", "close", "wide", "big", "irr", "tiny"]


def between(table, k):
    """A concrete spend for the odd code k (prices have codes 2*rank, rank>=1)."""
    lo = (k - 1) // 2  # rank just below
    if lo <= 0:
        x = table[0]
        return x - 1.0 if x >= 1 else -0.5
    if lo >= len(table):
        return table[-1] * 2 + 1
    a, b = float(table[lo - 1]), float(table[lo])
    m = (a + b) / 2
    if a < m < b:
        return m
    return None  # neighbouring doubles: nothing lies between


def spend_value(table, code):
    if code % 2 == 0:
        r = code // 2
        return table[r - 1] if 1 <= r <= len(table) else None
    return between(table, code)


USER_SCHEMES = {
    "seq": lambda u: u,
    "zero": lambda u: u - 1,
    "big": lambda u: 10**12 + 7 * u,
    "hash": lambda u: (u * 2654435761) % (2**31),
    "neg": lambda u: -u,
    "mixed": lambda u: 1 - u if u % 2 else u,
}
