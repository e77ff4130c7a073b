"""Interval domain over value-flow terms of integer functions of one input, with backward refinement by
branch facts, and recognition of a result as  sign-symmetric chains of  *N  and  truncating /D."""
from . import terms as T

BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "ize": 64, "size": 64}


def bits(t):
    return 64 if t in ("usize", "isize") else int(t[1:])


def rng(t):
    if t == "bool":
        return (0, 1)
    n = bits(t)
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t[0] == "i" else (0, (1 << n) - 1)


def is_int(t):
    return t in T.INTS


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Unknown(Exception):
    pass


def const(v):
    if v.get("k") == "c" and (is_int(v["t"]) or v["t"] == "bool"):
        if v["t"] == "bool":
            return 1 if v["v"] == "true" else 0
        return int(v["v"])
    return None


def tname(v):
    return v.get("t")


class Iv:
    """Interval state: the range of the single input, refined by facts."""

    def __init__(self, t, name="a"):
        self.name = name
        self.t = t
        self.lo, self.hi = rng(t)

    def empty(self):
        return self.lo > self.hi

    def copy(self):
        o = Iv(self.t, self.name)
        o.lo, o.hi = self.lo, self.hi
        return o

    # exact (unwrapped) interval of a term; (lo, hi, exact) where exact says the machine value equals it
    def ev(self, v):
        c = const(v)
        if c is not None:
            return c, c
        n = T.leaf_name(v)
        if n is not None:
            if n.split(".")[0].lstrip("*") != self.name:
                raise Unknown("input " + n)
            return self.lo, self.hi
        k = v["k"]
        if k in ("cast", "un", "bin") and is_int(v["t"]):
            # ring operations wrap modulo 2^n: intermediate wraps cancel when the final value fits
            r = self.ring(v)
            if r is not None and r[2] >= bits(v["t"]):
                a, b = rng(v["t"])
                if a <= r[0] and r[1] <= b:
                    return r[0], r[1]
        if k == "cast":
            lo, hi = self.ev(v["a"])
            t = v["t"]
            if not is_int(t):
                raise Unknown("cast to " + t)
            a, b = rng(t)
            if a <= lo and hi <= b:
                return lo, hi
            w = 1 << bits(t)
            # a wrapping cast is exact again when the whole interval lies in one period
            s = (lo - a) // w
            if s == (hi - a) // w:
                return lo - s * w, hi - s * w
            return a, b
        if k == "un" and v["op"] == "Neg":
            lo, hi = self.ev(v["a"])
            return self.wrap(v, -hi, -lo)
        if k == "bin":
            lo, hi = self.raw(v)
            return self.wrap(v, lo, hi)
        raise Unknown(T.pretty(v)[:120])

    def ring(self, v):
        """(lo, hi, m): unwrapped interval of a value known modulo 2^m, or None."""
        c = const(v)
        if c is not None:
            return c, c, 1 << 20
        if T.leaf_name(v) is not None:
            lo, hi = self.ev(v)
            return lo, hi, 1 << 20
        k = v["k"]
        if k == "cast" and is_int(v["t"]):
            r = self.ring(v["a"])
            if r is None:
                return None
            n = bits(v["t"])
            a, b = rng(v["t"])
            if r[2] >= 1 << 20 and a <= r[0] and r[1] <= b:
                return r
            if n > r[2]:
                return None
            return r[0], r[1], n
        if k == "un" and v["op"] == "Neg":
            r = self.ring(v["a"])
            return None if r is None else (-r[1], -r[0], min(r[2], bits(v["t"])))
        if k == "bin" and v["op"] in ("Add", "Sub", "Mul"):
            x, y = self.ring(v["a"]), self.ring(v["b"])
            if x is None or y is None:
                return None
            if v["op"] == "Add":
                lo, hi = x[0] + y[0], x[1] + y[1]
            elif v["op"] == "Sub":
                lo, hi = x[0] - y[1], x[1] - y[0]
            else:
                q = [p * r for p in x[:2] for r in y[:2]]
                lo, hi = min(q), max(q)
            return lo, hi, min(x[2], y[2], bits(v["t"]))
        if k == "bin" and v["op"] == "Div":
            lo, hi = self.raw(v)
            a, b = rng(v["t"])
            return (lo, hi, 1 << 20) if a <= lo and hi <= b else (lo, hi, bits(v["t"]))
        return None

    def wrap(self, v, lo, hi):
        t = tname(v)
        a, b = rng(t)
        if a <= lo and hi <= b:
            return lo, hi
        w = 1 << bits(t)
        s = (lo - a) // w
        if s == (hi - a) // w:
            return lo - s * w, hi - s * w
        return a, b

    def raw(self, v):
        op = v["op"]
        al, ah = self.ev(v["a"])
        bl, bh = self.ev(v["b"])
        if op == "Add":
            return al + bl, ah + bh
        if op == "Sub":
            return al - bh, ah - bl
        if op == "Mul":
            p = [al * bl, al * bh, ah * bl, ah * bh]
            return min(p), max(p)
        if op == "Div":
            if bl != bh or bl == 0:
                raise Unknown("divisor " + T.pretty(v["b"])[:60])
            q = [tdiv(al, bl), tdiv(ah, bl)]
            return min(q), max(q)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return 0, 1
        raise Unknown("operator " + op)

    def assume(self, v, lo, hi):
        """Refine the input so that term v lies in [lo, hi] (None = unbounded); sound over-approximation."""
        n = T.leaf_name(v)
        if n is not None and n.split(".")[0].lstrip("*") == self.name:
            if lo is not None:
                self.lo = max(self.lo, lo)
            if hi is not None:
                self.hi = min(self.hi, hi)
            return
        k = v.get("k")
        try:
            cl, ch = self.ev(v)
        except Unknown:
            return
        if (lo is not None and ch < lo) or (hi is not None and cl > hi):
            self.lo, self.hi = 1, 0
            return
        if k in ("cast", "un", "bin") and not (k == "bin" and v["op"] == "Div") and is_int(v["t"]):
            r = self.ring(v)
            a, b = rng(v["t"])
            if r is not None and r[2] >= bits(v["t"]) and a <= r[0] and r[1] <= b:
                return self.assume_ring(v, lo, hi)
        if k == "cast":
            il, ih = self.ev(v["a"])
            if (il, ih) == (cl, ch) or self.exact(v):
                a, b = rng(v["t"])
                if a <= il and ih <= b:
                    self.assume(v["a"], lo, hi)
            return
        if k == "un" and v["op"] == "Neg":
            if self.exact(v):
                self.assume(v["a"], None if hi is None else -hi, None if lo is None else -lo)
            return
        if k == "bin" and v["op"] in ("Add", "Sub", "Mul", "Div"):
            if not self.exact(v):
                return
            self.back(v["op"], v["a"], v["b"], lo, hi)

    def assume_ring(self, v, lo, hi):
        """Like assume, for the unwrapped value of a ring term."""
        k = v.get("k")
        if k == "cast":
            return self.assume_ring(v["a"], lo, hi)
        if k == "un" and v["op"] == "Neg":
            return self.assume_ring(v["a"], None if hi is None else -hi, None if lo is None else -lo)
        if k == "bin" and v["op"] in ("Add", "Sub", "Mul"):
            return self.back(v["op"], v["a"], v["b"], lo, hi, self.assume_ring)
        self.assume(v, lo, hi)

    def back(self, op, a, b, lo, hi, go=None):
        go = go or self.assume
        ca, cb = self.point(a), self.point(b)
        if op == "Add":
            if cb is not None:
                go(a, None if lo is None else lo - cb, None if hi is None else hi - cb)
            elif ca is not None:
                self.back("Add", b, a, lo, hi, go)
        elif op == "Sub":
            if cb is not None:
                go(a, None if lo is None else lo + cb, None if hi is None else hi + cb)
            elif ca is not None:
                go(b, None if hi is None else ca - hi, None if lo is None else ca - lo)
        elif op == "Mul":
            if cb is None and ca is not None:
                a, cb = b, ca
            if cb is None or cb == 0:
                return
            if cb < 0:
                lo, hi, cb = (None if hi is None else -hi), (None if lo is None else -lo), -cb
            go(a, None if lo is None else -((-lo) // cb), None if hi is None else hi // cb)
        elif op == "Div":
            if cb is None or cb == 0:
                return
            if cb < 0:
                lo, hi, cb = (None if hi is None else -hi), (None if lo is None else -lo), -cb
            # truncating: q = trunc(a / c)
            al = None if lo is None else (lo * cb if lo > 0 else lo * cb - (cb - 1))
            ah = None if hi is None else (hi * cb + (cb - 1) if hi >= 0 else hi * cb)
            go(a, al, ah)

    def point(self, v):
        try:
            lo, hi = self.ev(v)
        except Unknown:
            return None
        return lo if lo == hi else None

    def exact(self, v):
        """The machine value of v equals its mathematical value on the whole interval (this node only)."""
        k = v["k"]
        if k == "cast":
            lo, hi = self.ev(v["a"])
            a, b = rng(v["t"])
            return a <= lo and hi <= b
        if k == "un":
            lo, hi = self.ev(v["a"])
            a, b = rng(v["t"])
            return a <= -hi and -lo <= b
        if k == "bin":
            lo, hi = self.raw(v)
            a, b = rng(v["t"])
            return a <= lo and hi <= b
        return True

    def fact(self, t, want):
        """Assume boolean term t has truth value `want`."""
        k = t.get("k")
        c = const(t)
        if c is not None:
            if bool(c) != want:
                self.lo, self.hi = 1, 0
            return
        if k == "un" and t["op"] == "Not":
            return self.fact(t["a"], not want)
        if k == "ovf":
            op = t["op"]
            if const(t["a"]) is None and const(t["b"]) is None:
                return
            ty = t["a"].get("t") or t["b"].get("t") or self.t
            if const(t["a"]) is not None:
                ty = t["a"]["t"]
            elif const(t["b"]) is not None:
                ty = t["b"]["t"]
            a, b = rng(ty)
            fake = {"k": "bin", "op": op, "a": t["a"], "b": t["b"], "t": ty}
            try:
                lo, hi = self.raw(fake)
            except Unknown:
                return
            if not want:
                if lo > b or hi < a:
                    self.lo, self.hi = 1, 0
                    return
                self.back(op, t["a"], t["b"], a, b)
            else:
                if a <= lo and hi <= b:
                    self.lo, self.hi = 1, 0
                elif lo >= a:
                    self.back(op, t["a"], t["b"], b + 1, None)
                elif hi <= b:
                    self.back(op, t["a"], t["b"], None, a - 1)
            return
        if k == "bin" and t["op"] in ("BitAnd", "BitOr"):
            if (t["op"] == "BitAnd") == want:
                self.fact(t["a"], want)
                self.fact(t["b"], want)
            else:
                # x & y is false: infeasible only if both must hold
                u, w = self.copy(), self.copy()
                u.fact(t["a"], want)
                w.fact(t["b"], want)
                los = [i.lo for i in (u, w) if not i.empty()]
                his = [i.hi for i in (u, w) if not i.empty()]
                if not los:
                    self.lo, self.hi = 1, 0
                else:
                    self.lo, self.hi = max(self.lo, min(los)), min(self.hi, max(his))
            return
        if k == "bin" and t["op"] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            op = t["op"]
            if not want:
                op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}[op]
            a, b = t["a"], t["b"]
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op))):
                try:
                    xl, xh = self.ev(x)
                    yl, yh = self.ev(y)
                except Unknown:
                    return
                if o == "Lt":
                    self.assume(x, None, yh - 1)
                elif o == "Le":
                    self.assume(x, None, yh)
                elif o == "Gt":
                    self.assume(x, yl + 1, None)
                elif o == "Ge":
                    self.assume(x, yl, None)
                elif o == "Eq":
                    self.assume(x, yl, yh)
                elif yl == yh:
                    if xl == xh == yl:
                        self.lo, self.hi = 1, 0
                    elif yl == xl:
                        self.assume(x, xl + 1, None)
                    elif yl == xh:
                        self.assume(x, None, xh - 1)
                if self.empty():
                    return


def apply_fact(iv, t, f):
    k = t.get("k")
    boolean = k == "ovf" or t.get("t") == "bool" or (k == "bin" and t["op"] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"))
    if boolean:
        if "eq" in f:
            iv.fact(t, f["eq"] != "0")
        elif "0" in f.get("notin", []):
            iv.fact(t, True)
    elif "eq" in f:
        try:
            iv.ev(t)
        except Unknown:
            return
        x = int(f["eq"])
        ty = t.get("t")
        if ty in T.SIGNED and x > rng(ty)[1]:
            x -= 1 << bits(ty)
        iv.assume(t, x, x)


def chain(v, iv):
    """v (mathematically, modulo wrapping that cancels) as sign * chain of [('mul', N) | ('div', D)] applied to the
    input. -> (sign, ops). Raises Unknown. Also requires that v's machine value equals it on the interval."""

    def go(v):
        # returns (sign, ops, mod): mod = None when exact, else n: equal modulo 2^n
        n = T.leaf_name(v)
        if n is not None:
            if n.split(".")[0].lstrip("*") != iv.name:
                raise Unknown("input " + n)
            return 1, [], None
        k = v["k"]
        if k == "cast":
            s, o, m = go(v["a"])
            lo, hi = iv.ev(v["a"])
            if m is None:
                # mathematical interval of the operand
                ml, mh = math(s, o)
                a, b = rng(v["t"])
                if a <= ml and mh <= b:
                    return s, o, None
            nb = bits(v["t"])
            if m is not None and m < nb:
                raise Unknown("widening a wrapped value")
            ml, mh = math(s, o)
            a, b = rng(v["t"])
            return s, o, None if a <= ml and mh <= b else nb
        if k == "un" and v["op"] == "Neg":
            s, o, m = go(v["a"])
            return -s, o, settle(-s, o, v, m)
        if k == "bin":
            op = v["op"]
            ca, cb = const(v["a"]), const(v["b"])
            if op == "Sub" and ca == 0:
                s, o, m = go(v["b"])
                return -s, o, settle(-s, o, v, m)
            if op == "Mul" and (ca is not None or cb is not None):
                x, c = (v["b"], ca) if ca is not None else (v["a"], cb)
                s, o, m = go(x)
                if c < 0:
                    s, c = -s, -c
                o = o + [("mul", c)] if c != 1 else o
                return s, o, settle(s, o, v, m)
            if op == "Div" and cb is not None:
                s, o, m = go(v["a"])
                if m is not None:
                    raise Unknown("division of a wrapped value")
                if cb == 0:
                    raise Unknown("division by zero")
                if cb < 0:
                    s, cb = -s, -cb
                o = o + [("div", cb)] if cb != 1 else o
                return s, o, settle(s, o, v, None)
        raise Unknown("result term " + T.pretty(v)[:160])

    def math(s, ops):
        ends = []
        pts = [iv.lo, iv.hi]
        if iv.lo <= 0 <= iv.hi:
            pts.append(0)
        for x in pts:
            for k, c in ops:
                x = x * c if k == "mul" else tdiv(x, c)
            ends.append(s * x)
        return min(ends), max(ends)

    def settle(s, o, v, m):
        """After an operation in type v.t: exact if the mathematical value fits, else modulo."""
        lo, hi = math(s, o)
        a, b = rng(v["t"])
        nb = bits(v["t"])
        if m is not None and m < nb:
            raise Unknown("mixed widths")
        if m is None or m >= nb:
            if a <= lo and hi <= b:
                return None
        return nb

    s, o, m = go(v)
    if m is not None:
        raise Unknown("the stored number wraps around for inputs in [%d, %d]" % (iv.lo, iv.hi))
    # merge adjacent multiplications
    out = []
    for k, c in o:
        if out and out[-1][0] == k == "mul":
            out[-1] = ("mul", out[-1][1] * c)
        elif out and out[-1][0] == k == "div":
            out[-1] = ("div", out[-1][1] * c)
        else:
            out.append((k, c))
    return s, out
