"""Exact meaning of straight-line xor/shift code as a linear map over GF(2): a 64-bit value is 64 rows, each the set (bit
mask) of the input bits whose sum it is."""
from lib import *

class NonLinear(Exception): pass

def linear_step(f, nbytes):
    """rows of the map old state -> new state for a method that updates *this, and the state bits the result depends on"""
    t = this_arg(f); v = Values(f)
    n = nbytes * 8
    mem = [1 << k for k in range(n)]
    val, dep = {}, {}
    if len(f.blocks) != 1: raise NonLinear("the step has branches")
    W = lambda ty: {"i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(ty)
    def bits(o, w):
        if isinstance(o, int):
            if o % 2**w: raise NonLinear("a constant is added in")
            return [0] * w
        if isinstance(o, str) and o.startswith("%") and int(o[1:]) in val: return val[int(o[1:])]
        raise NonLinear("operand %s is not a linear function of the state" % o)
    def deps(o):
        return dep.get(int(o[1:]), 0) if isinstance(o, str) and o.startswith("%") else 0
    res = 0
    for i in f.all_instrs():
        d = 0
        for o in i.ops: d |= deps(o)
        if i.op == "load" and W(i.ty):
            k = ptr_arg_off(v.op(i.ops[0]), t)
            if k is None: raise NonLinear("something other than the state is read")
            val[i.id] = mem[8 * k: 8 * k + W(i.ty)]; d = 0
            for b in val[i.id]: d |= b
        elif i.op == "store":
            k = ptr_arg_off(v.op(i.ops[1]), t)
            if k is None: raise NonLinear("something other than the state is written")
            x = f.val(i.ops[0])
            if x is None or not W(x.ty): raise NonLinear("a constant is stored")
            b = bits(i.ops[0], W(x.ty)); mem[8 * k: 8 * k + len(b)] = b
        elif i.op in ("xor", "and", "or", "shl", "lshr", "zext", "trunc") and W(i.ty):
            w = W(i.ty)
            try:
                if i.op == "xor": val[i.id] = [a ^ b for a, b in zip(bits(i.ops[0], w), bits(i.ops[1], w))]
                elif i.op == "and":
                    m = [o for o in i.ops if isinstance(o, int)]
                    if not m: raise NonLinear("bits are multiplied")
                    a = bits([o for o in i.ops if not isinstance(o, int)][0], w)
                    val[i.id] = [a[k] if m[0] >> k & 1 else 0 for k in range(w)]
                elif i.op == "or":
                    a, b = bits(i.ops[0], w), bits(i.ops[1], w)
                    if any(x and y for x, y in zip(a, b)): raise NonLinear("bits are combined with or")
                    val[i.id] = [x ^ y for x, y in zip(a, b)]
                elif i.op in ("shl", "lshr"):
                    if not isinstance(i.ops[1], int): raise NonLinear("the shift distance varies")
                    a = bits(i.ops[0], w); s = i.ops[1]
                    val[i.id] = ([0] * s + a)[:w] if i.op == "shl" else a[s:] + [0] * s
                elif i.op == "zext":
                    x = f.val(i.ops[0]); a = bits(i.ops[0], W(x.ty)); val[i.id] = a + [0] * (w - len(a))
                else: val[i.id] = bits(i.ops[0], 0)[:w]
            except NonLinear as e: val.pop(i.id, None); f_err = e
        elif i.op in ("call", "invoke"):
            c = callee_of(i) or ""
            if c.startswith("llvm.fsh") and i.ops[0] == i.ops[1] and isinstance(i.ops[2], int):
                a = bits(i.ops[0], 64); s = i.ops[2] if c.startswith("llvm.fshl") else len(a) - i.ops[2]
                val[i.id] = a[-s:] + a[:-s] if s % len(a) else a
            elif not c.startswith("llvm."): raise NonLinear("the step calls " + c)
        elif i.op == "ret": res = d
        dep[i.id] = d
    return mem, res

def apply(rows, x):
    r = 0
    for k, m in enumerate(rows):
        if bin(m & x).count("1") & 1: r |= 1 << k
    return r

def rank(rows):
    rows = list(rows); r = 0
    basis = {}
    for m in rows:
        while m:
            h = m.bit_length()
            if h in basis: m ^= basis[h]
            else: basis[h] = m; r += 1; break
    return r

P128 = [3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721]
def maximal_period(rows):
    """whether every nonzero state lies on one cycle: the map's minimal polynomial is primitive"""
    n = len(rows)
    if n != 128: return None
    # Berlekamp-Massey on one bit's sequence
    x = 0x9e3779b97f4a7c15f39cc0605cedc835; s = []
    for _ in range(2 * n): s.append(x & 1); x = apply(rows, x)
    C, B, Ln, m = 1, 1, 0, 1
    for k in range(len(s)):
        d = 0
        for j in range(Ln + 1):
            if C >> j & 1: d ^= s[k - j]
        if d:
            T = C; C ^= B << m
            if 2 * Ln <= k: Ln, B, m = k + 1 - Ln, T, 1
            else: m += 1
        else: m += 1
    if Ln != n: return False
    f = 0
    for j in range(n + 1):
        if C >> j & 1: f |= 1 << (n - j)
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            b >>= 1; a <<= 1
            if a >> n & 1: a ^= f
        return r
    def power(e):
        r, b = 1, 2
        while e:
            if e & 1: r = mul(r, b)
            b = mul(b, b); e >>= 1
        return r
    N = 2**n - 1
    return power(N) == 1 and all(power(N // p) != 1 for p in P128)
