"""Case analysis on numbers: a function is analysed once per case, a case being one order type of the numbers involved (given by
representatives); conditions that the numbers decide are decided, everything else stays open, and what the function stores, returns
and passes on is compared as numbers. Lengths of vectors are followed through the operations on them."""
import re
from absint import Interp, C, T, mk, last
import q

M64 = (1 << 64) - 1
ORDER = {-1: "Less", 0: "Equal", 1: "Greater"}
ASCII = {"is_ascii_digit": "0123456789", "is_ascii_hexdigit": "0123456789abcdefABCDEF", "is_ascii_lowercase": "abcdefghijklmnopqrstuvwxyz",
         "is_ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "is_ascii_whitespace": " \t\n\r\x0c"}
SAMELEN = {"reserve", "copy_within", "sort", "sort_unstable", "sort_by_key", "sort_by", "sort_unstable_by_key", "reverse", "iter", "iter_mut", "deref", "deref_mut", "as_slice",
           "as_mut_slice", "as_ref", "as_mut", "fill", "swap", "rotate_left", "rotate_right", "into_iter", "index", "index_mut", "get", "get_mut", "last_mut", "first_mut"}


class Case:
    """leaf(t) -> number of a base term or None; length(t) -> number of elements of a base collection or None"""

    def __init__(self, leaf, length=None):
        self.leaf_fn, self.length_fn = leaf, length
        self.I = None

    def bind(self, I):
        self.I = I

    def __call__(self, what, t):
        if what == "variant":
            x = q.strip(t)
            if x.k == "call" and last(x.a[0]) == "cmp" and len(x.a) == 4:
                v = self.num(x)
                return None if v is None else ORDER[v]
            return None
        if what == "value":
            v = self.num(t)
            if v is not None:
                return C(int(v), "bool" if v in (0, 1) else "usize")
        return None

    memo = None

    def num(self, t, depth=0):
        """the number a term stands for in this case, None if it is not known"""
        if self.memo is not None:
            return self.num_of(t, depth)
        self.memo = {}
        try:
            return self.num_of(t, depth)
        finally:
            self.memo = None

    def num_of(self, t, depth):
        t = q.strip(t)
        if t in self.memo:
            return self.memo[t]
        if depth > 40:
            return None
        self.memo[t] = None             # a value that depends on itself is not known
        v = self.memo[t] = self.num1(t, depth)
        return v

    def num1(self, t, depth):
        v = self.leaf_fn(t)
        if v is not None:
            return int(v)
        d = depth + 1
        if t.k == "c":
            return t.a[0] if isinstance(t.a[0], (int, bool)) else None
        if t.k == "cast":
            v = self.num(t.a[2], d)
            w = {"u8": 8, "u16": 16, "u32": 32}.get(t.a[1])
            return v & ((1 << w) - 1) if v is not None and w is not None and not isinstance(v, bool) else v
        if t.k == "un":
            a = self.num(t.a[1], d)
            if a is None:
                return None
            return 1 - a if t.a[0] == "Not" and a in (0, 1) else M64 ^ a if t.a[0] == "Not" and 0 <= a <= M64 else -a if t.a[0] == "Neg" else None
        if t.k == "op":
            a, b = self.num(t.a[1], d), self.num(t.a[2], d)
            op = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
            if a is None or b is None:
                if op == "BitAnd" and (a == 0 or b == 0):
                    return 0
                if op == "BitOr" and (a == 1 or b == 1):
                    return 1
                return None
            if op in ("Div", "Rem"):
                return None if b == 0 else (a // b if op == "Div" else a % b)
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Eq": int(a == b),
                    "Ne": int(a != b), "Lt": int(a < b), "Le": int(a <= b), "Gt": int(a > b), "Ge": int(a >= b),
                    "Shl": a << b if 0 <= b < 64 else None, "Shr": a >> b if 0 <= b < 64 else None}.get(op)
        if t.k == "fld" and t.a[1] == "0" and t.a[0].k == "op":
            return self.num(t.a[0], d)
        if t.k == "fld" and t.a[1] == "1" and t.a[0].k == "op" and "WithOverflow" in t.a[0].a[0]:
            v = self.num(mk("op", t.a[0].a[0].replace("WithOverflow", ""), *t.a[0].a[1:]), d)
            return None if v is None else int(v < 0 or v > M64)
        if t.k == "fld" and t.a[0].k == "agg" and t.a[1] in t.a[0].a[2]:
            return self.num(t.a[0].a[3 + t.a[0].a[2].index(t.a[1])], d)
        if t.k == "fld" and t.a[0].k == "phi":
            vs = {self.num(self.I.project(x, ("f", t.a[1])), d) for x in self.I.phi_in.get(t.a[0], ()) if x is not t.a[0]}
            return vs.pop() if len(vs) == 1 else None
        if t.k == "phi":
            vs = {self.num(x, d) for x in self.I.phi_in.get(t, ())}
            return vs.pop() if len(vs) == 1 else None
        if t.k == "agg" and len(t.a) == 3 and t.a[0].endswith("cmp::Ordering"):
            return {v: k for k, v in ORDER.items()}.get(t.a[1])
        if t.k == "call" and len(t.a) > 2:
            l = last(t.a[0])
            if l == "len" or l == "is_empty":
                if len(t.a) == 3:
                    n = self.length(t.a[2], d)
                    return n if n is None or l == "len" else int(n == 0)
            if l == "unwrap_or_default" or l == "unwrap" or l == "expect":
                return self.num(mk("pay", t.a[2]), d)
            if l in ("contains", "contains_key") and len(t.a) == 4:
                return self.within(q.strip(t.a[2]), self.num(t.a[3], d), d)
            x = [self.num(y, d) for y in t.a[2:]]
            if any(y is None for y in x):
                return None
            if l in ASCII and len(x) == 1 and 0 <= x[0] < 256:
                return int(x[0] < 128 and chr(x[0]) in ASCII[l])
            if len(x) == 2:
                a, b = x
                return {"cmp": (a > b) - (a < b), "min": min(a, b), "max": max(a, b), "saturating_sub": max(a - b, 0), "saturating_add": min(a + b, M64),
                        "wrapping_add": (a + b) & M64, "wrapping_sub": (a - b) & M64, "abs_diff": abs(a - b), "saturating_mul": min(a * b, M64),
                        "next_multiple_of": -(-a // b) * b if b else None, "div_ceil": -(-a // b) if b else None, "rem_euclid": a % b if b > 0 else None, "div_euclid": a // b if b > 0 else None,
                        "lt": int(a < b), "le": int(a <= b), "gt": int(a > b), "ge": int(a >= b), "eq": int(a == b), "ne": int(a != b),
                        "wrapping_mul": (a * b) & M64, "add": a + b if "ptr" in t.a[0] else None, "offset": a + b if "ptr" in t.a[0] else None,
                        "wrapping_offset": a + b if "ptr" in t.a[0] else None}.get(l)
            if len(x) == 3 and l == "clamp":
                return min(max(x[0], x[1]), x[2])
            if len(x) == 1:
                a = x[0]
                return {"next_power_of_two": 1 << max(a - 1, 0).bit_length(), "into": a, "from": a, "abs": abs(a), "to_owned": a, "clone": a}.get(l)
        return None

    def within(self, r, x, d):
        """x in a range"""
        if x is None:
            return None
        if r.k == "call" and last(r.a[0]) == "new" and "RangeInclusive" in r.a[0] and len(r.a) == 4:
            a, b = self.num(r.a[2], d), self.num(r.a[3], d)
            return None if a is None or b is None else int(a <= x <= b)
        if r.k != "agg" or "Range" not in r.a[0]:
            return None
        f = dict(zip(r.a[2], r.a[3:]))
        a, b = (self.num(f[k], d) if k in f else 0 for k in ("start", "end"))
        if "start" in f and a is None or "end" in f and b is None or not f:
            return None
        hi = "end" not in f or (x <= b if "Inclusive" in r.a[0] else x < b)
        return int(("start" not in f or a <= x) and hi)

    def site(self, s):
        I = self.I
        return [e for n, e in list(I.events.items()) if I.site_ids.get(n[:2]) == s]

    def length(self, t, depth=0):
        """number of elements of a collection"""
        t = q.strip(t)
        if depth > 60:
            return None
        if self.lmemo is None:
            self.lmemo = {}
            try:
                return self.length(t, depth)
            finally:
                self.lmemo = None
        if t in self.lmemo:
            return self.lmemo[t]
        self.lmemo[t] = None            # as with num
        v = self.lmemo[t] = self.length1(t, depth)
        return v

    lmemo = None

    def length1(self, t, depth):
        d = depth + 1
        if self.length_fn is not None:
            v = self.length_fn(t)
            if v is not None:
                return v
        if t.k == "s":
            return len(t.a[0])
        s = q.slice_of(t)
        if s is not None:
            hi = self.num(s[2], d) if s[2] is not None else self.length(s[0], d)
            lo = self.num(s[1], d) if s[1] is not None else 0
            return None if hi is None or lo is None else hi - lo
        if t.k == "upd":
            # an element or the slice behind a vector is written
            return self.length(t.a[0], d) if re.match(r"^(\*|i\.)", str(t.a[1])) else None
        if t.k == "agg":
            r = q.range_of(t)
            if r is not None and r[1] is not None:
                hi, lo = self.num(r[1], d), self.num(r[0], d) if r[0] is not None else 0
                return None if hi is None or lo is None else max(hi - lo, 0)
        if t.k == "phi":
            vs = {self.length(x, d) for x in self.I.phi_in.get(t, ())}
            return vs.pop() if len(vs) == 1 else None
        if t.k == "eff":
            l, old = last(t.a[0]), t.a[3]
            if l in SAMELEN:
                return self.length(old, d)
            es = self.site(t.a[1])
            vs = {self.after(e, l, old, d) for e in es}
            return vs.pop() if len(vs) == 1 else None
        if t.k == "call" and len(t.a) > 2 and last(t.a[0]) in SAMELEN:
            return self.length(t.a[2], d)
        if t.k == "call" and last(t.a[0]) in ("new", "with_capacity") and "Vec" in t.a[0]:
            return 0
        if t.k == "call" and t.a[0].endswith("vec::from_elem") and len(t.a) == 4:
            return self.num(t.a[3], d)
        if t.k == "call" and len(t.a) == 3 and last(t.a[0]) in ("to_vec", "to_owned", "clone", "into_vec", "into_boxed_slice", "from"):
            return self.length(t.a[2], d)
        return None

    def after(self, e, l, old, d):
        v = list(e.vals)
        n = self.length(old, d)
        if l == "clear":
            return 0
        if l == "resize":
            return self.num(v[1], d)
        if l == "truncate":
            k = self.num(v[1], d)
            return None if k is None or n is None else min(n, k)
        if n is None:
            return None
        if l == "push":
            return n + 1
        if l == "pop":
            return max(n - 1, 0)
        if l in ("extend_from_slice", "extend", "append"):
            k = self.length(v[1], d)
            return None if k is None else n + k
        if l == "drain":
            r = q.range_of(q.strip(v[1]))
            if r is None:
                return None
            lo = self.num(r[0], d) if r[0] is not None else 0
            hi = self.num(r[1], d) if r[1] is not None else n
            return None if lo is None or hi is None else n - (hi - lo)
        return None


def run(prog, fn, leaf, length=None, **kw):
    c = Case(leaf, length)
    I = Interp(prog, fn, assume=c, **kw)
    c.I = I
    I.case = c
    return I


def field_at(I, st, path, arg=0):
    """value of a field of *self in a state"""
    return I.read(st, ("M", mk("arg", I.entry.path, arg)), tuple(("f", p) for p in path))
