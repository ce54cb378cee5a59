"""Exact meaning of expressions of the public API (rational arithmetic), independent of the crate."""
from fractions import Fraction as Fr

IMAX, IMIN, UMAX = (1 << 63) - 1, -(1 << 63), (1 << 64) - 1
HALF = Fr(1, 2)


class DivZero(Exception):
    pass


def div(n, d):
    if d == 0:
        raise DivZero()
    return Fr(n) / d


def split(v):
    """special letter, or (primer letter, value in (0,1))"""
    if v in (-1, 0, 1):
        return "NZP"[int(v) + 1]
    if v > 1:
        return "T", 1 / v
    if v < -1:
        return "G", -1 / v
    if v < 0:
        return "R", -v
    return "-", v


def symbols(v, limit):
    out = []
    n, d = v.numerator, v.denominator
    for _ in range(limit):
        if 2 * n == d:
            out.append(".")
            return "".join(out)
        if 2 * n < d:
            out.append("A")
            n *= 2
        else:
            out.append("U")
            n, d = d - n, n
    out.append("+")
    return "".join(out)


def after(v, k):
    """value of a clog after k extractions"""
    for _ in range(k):
        if v < HALF:
            v = 2 * v
        elif v > HALF:
            v = 1 / v - 1
    return v


def value(e):
    k = e[0]
    if k == "r":
        return div(e[1], e[2])
    if k == "u":
        return div(e[2] if e[1] else -e[2], e[3])
    if k == "h":
        x = value(e[2])
        nx, n, dx, d = e[1]
        return div(nx * x + n, dx * x + d)
    if k == "c":
        x, y = value(e[2]), value(e[3])
        a, b, c, d, f, g, h, i = e[1]
        return div(a * x * y + b * x + c * y + d, f * x * y + g * x + h * y + i)
    if k == "k":
        return value(e[1])
    if k == "p":
        s = split(value(e[2]))
        if isinstance(s, str):
            return Fr("NZP".index(s) - 1)
        return after(s[1], e[1])
    raise ValueError(k)


def text(e):
    k = e[0]
    if k in "ru":
        return " ".join(str(x) for x in e)
    if k in "hc":
        return " ".join([k] + [str(x) for x in e[1]] + [text(x) for x in e[2:]])
    if k == "k":
        return "k " + text(e[1])
    return "p %d %s" % (e[1], text(e[2]))


def shown(v, limit):
    s = split(v)
    if isinstance(s, str):
        return "S " + s
    return "O %s %s" % (s[0], symbols(s[1], limit))


OVER = ("called `Option::unwrap()` on a `None` value", "overflow")
BAD = ("logic error", "unreachable", "index out of bounds", "attempt to divide by zero", "remainder with a divisor of zero",
       "`Result::unwrap()`", "already borrowed", "already mutably borrowed", "Number is not", "assertion", "not implemented", "not yet implemented")


def classify(msg):
    """division | overflow | other | unclear"""
    m = msg.split(" @ ")[0]
    if m == "division by zero":
        return "division"
    if any(b in m for b in BAD):
        return "other"
    if any(o in m for o in OVER):
        return "overflow"
    return "unclear"


def panic_of(res):
    """(what was obtained before the panic, message or None)"""
    if res.startswith("! "):
        return "", res[2:]
    if " ! " in res:
        a, b = res.split(" ! ", 1)
        return a, b
    return res, None
