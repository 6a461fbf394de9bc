"""Wire format: sizes and positions in terms of varint lengths, and the order in which items are written."""
from lib import *
from contract import *

COS = "google::protobuf::io::CodedOutputStream"
def varint_len(n):
    n = int(n)
    if n < 0: return 10
    k = 1
    while n >= 128: n >>= 7; k += 1
    return k

class Wire:
    """Interprets protobuf's writing functions: `w` is the sequence of items written so far, every item with its target."""
    def __init__(self, u): self.u = u
    def measure(self, st, e):
        r = st.poly.reduce(e)
        if is_const(r): return const(varint_len(cval(r)))
        a = "vs:" + str(key(r))
        st.poly.add_ge(add(atom(a), const(-1)))
        return atom(a)
    def instr(self, st, i):
        if i.op == "or" and i.ops and isinstance(i.ops[1], int) and 0 <= i.ops[1] < 8:
            j = st.ai.fn.val(i.ops[0])
            if j is not None and (j.op == "shl" and isinstance(j.ops[1], int) and (1 << j.ops[1]) > i.ops[1]):
                st.poly.add_eq(sub(atom(i.id), add(st.lin(i.ops[0]), const(i.ops[1]))), prefer=i.id)
    def item(self, st, kind, target, e):
        w = st.get("w") or (); n = len(w)
        if n >= 12: kind = "many"
        st.assign("wt%d" % n, target); st.assign("wv%d" % n, e)
        st.set("w", w[:12] + (kind,))
    def same(self, st, want):
        """exactly these items were written: (kind, target, value)"""
        w = st.get("w") or ()
        return w == tuple(k for k, t, v in want) and all(
            (t is None or st.eq(sub(atom("wt%d" % n), t))) and (v is None or st.eq(sub(atom("wv%d" % n), v))) for n, (k, t, v) in enumerate(want))
    def shown(self, st):
        def f(e): return " + ".join(("%s%s" % ("" if c == 1 else "%s*" % c, x if x != ONE else "1")) for x, c in st.poly.reduce(e).items()) or "0"
        return ", ".join("%s(%s)" % (k, f(atom("wv%d" % n))) for n, k in enumerate(st.get("w") or ()))[:200] or "nothing"
    def call(self, st, i, c, n):
        """True if handled"""
        if n.startswith(COS + "::"):
            m = n.split("::")[-1]; res = st.ai.v.lin(i.id)
            if m in ("VarintSize32", "VarintSize64"):
                st.poly.add_eq(sub(res, self.measure(st, st.lin(i.ops[0])))); return True
            if m in ("WriteTag", "WriteVarint32", "WriteVarint64"):
                self.item(st, "v", st.lin(i.ops[0]), st.lin(i.ops[1])); return True
            if m in ("WriteTagToArray", "WriteVarint32ToArray", "WriteVarint64ToArray"):
                x, p = st.lin(i.ops[0]), st.lin(i.ops[1])
                self.item(st, "v", p, x)
                st.poly.add_eq(sub(res, add(p, self.measure(st, x)))); return True
            if m == "WriteRawToArray":
                d, n_, p = [st.lin(o) for o in i.ops[:3]]
                self.item(st, "raw", p, n_); self.item(st, "data", p, d)
                st.poly.add_eq(sub(res, add(p, n_))); return True
            if m == "WriteRaw":
                self.item(st, "raw", st.lin(i.ops[0]), st.lin(i.ops[2])); self.item(st, "data", st.lin(i.ops[0]), st.lin(i.ops[1])); return True
        return None
