"""Vector terms (16 or 32 bytes) as numbers, for the intrinsics of x86-64 that the digit routines use."""
import re
from absint import last
import q

M64 = (1 << 64) - 1
sgn = lambda x: x - 256 if x > 127 else x


def immediate(I, site):
    """the constant a generic intrinsic is instantiated with"""
    for n, s in I.site_ids.items():
        if s == site:
            t = I.ctx_of_id[n[0]].fn.blocks[n[1]]["t"]
            m = re.findall(r"\[(-?\d+)_", str(t["f"].get("fna", "")))
            return int(m[-1]) if m else None
    return None


def wide(v, n):
    return [int.from_bytes(bytes(v[i:i + n]), "little") for i in range(0, len(v), n)]


def narrow(ws, n):
    m = (1 << 8 * n) - 1
    return [b for w in ws for b in (w & m).to_bytes(n, "little")]


class Lanes:
    """memory(me, pointer) -> 16 bytes read there, or None; memory32 the same for 32 bytes"""

    def __init__(self, memory, memory32=None):
        self.memory, self.memory32 = memory, memory32 or (lambda me, t: None)
        self.memo = {}

    def vec(self, me, t):
        t = q.strip(t)
        k = (id(me), t)
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self.vec1(me, t)
        return self.memo[k]

    def array(self, me, t, n=16):
        t = q.strip(t)
        while t.k in ("addr", "cast", "ref", "deref") and t.a:
            t = q.strip(t.a[2] if t.k == "cast" else t.a[0])
            if not hasattr(t, "k"):
                return None
        if t.k == "call" and last(t.a[0]) in ("as_ptr", "cast") and len(t.a) == 3:
            return self.array(me, t.a[2], n)
        if t.k == "agg" and len(t.a) >= 3 + n and t.a[0] == "array":
            v = [me.num(x) for x in t.a[3:3 + n]]
            return None if None in v else [x & 255 for x in v]
        return None

    def vec1(self, me, t):
        if t.k in ("phi", "fld"):
            if t.k == "fld":
                b = q.strip(t.a[0])
                xs = [me.I.project(x, ("f", t.a[1])) for x in me.I.phi_in.get(b, ())] if b.k == "phi" else [me.I.project(b, ("f", t.a[1]))] if b.k == "agg" else []
            else:
                xs = me.I.phi_in.get(t, ())
            vs = {tuple(v) if v is not None else None for v in (self.vec(me, x) for x in xs)}
            v = vs.pop() if len(vs) == 1 else None
            return None if v is None else list(v)
        if t.k != "call":
            return None
        l = last(t.a[0])
        m = re.match(r"_mm(256)?_(\w+)$", l)
        if not m:
            return None
        size, l = 32 if m.group(1) else 16, m.group(2)
        if re.match(r"(loadu|load|lddqu)_si(128|256)$", l):
            return self.array(me, t.a[2], size) or (self.memory if size == 16 else self.memory32)(me, t.a[2])
        if l == "set1_epi8":
            n = me.num(t.a[2])
            return None if n is None else [n & 255] * size
        if re.match(r"setzero_si(128|256)$", l):
            return [0] * size
        if re.match(r"cvtsi64x?_si128$", l):
            n = me.num(t.a[2])
            return None if n is None else narrow([n & M64, 0], 8)
        xs = [self.vec(me, x) for x in t.a[2:]]
        if None in xs:
            return None
        if len(xs) == 1:
            n = immediate(me.I, t.a[1])
            x = xs[0]
            if l == "cvtepu8_epi16":
                return [y for b in x[:size // 2] for y in (b, 0)]
            if l in ("castsi256_si128", "castsi128_si256"):
                return x[:16] if l == "castsi256_si128" else None
            if n is None:
                return None
            m = re.match(r"s([lr])li_epi(16|32|64)$", l)
            if m:
                b = int(m.group(2)) // 8
                return narrow([(w << n if m.group(1) == "l" else w >> n) if n < 8 * b else 0 for w in wide(x, b)], b)
            if l == "extracti128_si256":
                return x[16 * (n & 1):][:16]
            if l == "permute4x64_epi64":
                return [y for i in range(4) for y in x[8 * ((n >> 2 * i) & 3):][:8]]
            if re.match(r"(b?srli|b?slli)_si128$", l) and size == 16:
                return (x + [0] * 16)[n:n + 16] if "srli" in l else ([0] * n + x)[:16]
            return None
        if len(xs) == 3 and l == "blendv_epi8":
            return [y if z & 128 else x for x, y, z in zip(*xs)]
        if len(xs) != 2:
            return None
        a, b = xs
        one = {"and": lambda x, y: x & y, "andnot": lambda x, y: ~x & y & 255, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}.get(l[:-6]) if re.search(r"_si(128|256)$", l) else None
        one = one or {"cmpgt_epi8": lambda x, y: 255 * (sgn(x) > sgn(y)), "cmplt_epi8": lambda x, y: 255 * (sgn(x) < sgn(y)), "cmpeq_epi8": lambda x, y: 255 * (x == y),
                      "subs_epu8": lambda x, y: max(x - y, 0), "adds_epu8": lambda x, y: min(x + y, 255), "sub_epi8": lambda x, y: (x - y) & 255,
                      "add_epi8": lambda x, y: (x + y) & 255, "min_epu8": min, "max_epu8": max}.get(l)
        if one:
            return [one(x, y) for x, y in zip(a, b)]
        if l == "shuffle_epi8":
            return [0 if i & 128 else a[(k & 16) + (i & 15)] for k, i in enumerate(b)]
        m = re.match(r"unpack(lo|hi)_epi(8|16|32|64)$", l)
        if m:
            n = int(m.group(2)) // 8
            o = 0 if m.group(1) == "lo" else 8
            return [x for h in range(0, size, 16) for i in range(h, h + 8, n) for x in a[o + i:o + i + n] + b[o + i:o + i + n]]
        return None

    def num(self, me, t):
        """numbers that come from vectors, and the arithmetic of 64-bit words"""
        if t.k == "call" and len(t.a) == 3:
            l = last(t.a[0])
            if l == "_mm_movemask_epi8":
                v = self.vec(me, t.a[2])
                return None if v is None else sum((x >> 7) << i for i, x in enumerate(v))
            m = re.match(r"_mm_(extract_epi|cvtsi128_si)(8|16|32|64)$", l)
            if m:
                v, n = self.vec(me, t.a[2]), immediate(me.I, t.a[1]) if m.group(1) == "extract_epi" else 0
                return None if v is None or n is None else wide(v, int(m.group(2)) // 8)[n]
            if l in ("trailing_zeros", "leading_zeros", "count_ones"):
                v = me.num(t.a[2])
                if v is None or "u64" not in t.a[0] and "usize" not in t.a[0]:
                    return None
                v &= M64
                return bin(v).count("1") if l == "count_ones" else 64 if not v else (v & -v).bit_length() - 1 if l == "trailing_zeros" else 64 - v.bit_length()
            if l == "swap_bytes" and re.search("u64|usize", t.a[0]):
                v = me.num(t.a[2])
                return None if v is None else int.from_bytes((v & M64).to_bytes(8, "little"), "big")
        if t.k == "op" and t.a[0] in ("Shl", "ShlUnchecked"):
            a, b = me.num(t.a[1]), me.num(t.a[2])
            return None if a is None or b is None else (a << (b & 63)) & M64
        return None
