"""Locksets: which locks are certainly held at every instruction, and which members of a class are touched there.
A lock is named by where it is: an offset into the object a method was called on, or a global."""
from lib import *
from absint import Values
import ir

LOCK = re.compile(r"^(_ZL20)?__gthread_mutex_lock|^_ZL20__gthread_mutex_lockP15pthread_mutex_t$|^pthread_mutex_lock$|^_ZNSt5mutex4lockEv$")
UNLOCK = re.compile(r"^(_ZL22)?__gthread_mutex_unlock|^_ZL22__gthread_mutex_unlockP15pthread_mutex_t$|^pthread_mutex_unlock$|^_ZNSt5mutex6unlockEv$")

def lock_op(f, v, i):
    """("+"|"-", name) if this call takes or releases a lock"""
    if i.op not in ("call", "invoke"): return None
    c = callee_of(i) or ""
    s = None
    if LOCK.match(c) or "__gthread_mutex_lock" in c or re.search(r"SpinLockMutex4lockEv$", c): s = "+"
    elif UNLOCK.match(c) or "__gthread_mutex_unlock" in c or re.search(r"SpinLockMutex6unlockEv$", c): s = "-"
    if s is None or not i.ops: return None
    return s, place(f, v, i.ops[0])

def place(f, v, o, depth=0):
    """(root, offsets...) of an address: root is 'this', a global's name or an instruction; one offset per memory hop"""
    e = v.op(o)
    a = [x for x in e if x != ONE]
    # several atoms: an element of something; the pointer among them is the base
    if len(a) > 1:
        p = [x for x in a if is_ptr(f, x) and e[x] == 1]
        if len(p) != 1: return None
        a = p; off = None
    elif len(a) == 1 and e[a[0]] == 1: off = int(cval({ONE: e[ONE]})) if e.get(ONE) else 0
    else: return None
    x = a[0]
    if x == "arg%d" % this_arg(f): return ("this", off)
    if isinstance(x, int):
        i = f.ins.get(x)
        if i is not None and i.op == "load" and depth < 6:
            b = place(f, v, i.ops[0], depth + 1)
            if b is not None: return b + (off,)
        return ("%%%d" % x, off)
    return (x, off)

def is_ptr(f, x):
    if isinstance(x, str):
        if x.startswith("arg"): return f.args[int(x[3:])][1] == "ptr"
        return x.startswith("@")
    i = f.ins.get(x) if isinstance(x, int) else None
    return i is not None and i.ty == "ptr"

def locksets(f, v, entry=frozenset()):
    """{instruction id: locks certainly held before it}"""
    IN = {0: entry}; work = [0]; at = {}
    while work:
        b = work.pop(); h = IN[b]
        for i in f.blocks[b]:
            at[i.id] = h
            k = lock_op(f, v, i)
            if k and k[1] is not None: h = h | {k[1]} if k[0] == "+" else h - {k[1]}
            elif k and k[0] == "-": h = frozenset()
        for s in f.succ[b]:
            n = h if s not in IN else IN[s] & h
            if s not in IN or n != IN[s]: IN[s] = n; work.append(s)
    return at

SELF = re.compile(r"^std::(__cxx11::)?(basic_string|vector|deque|list|map|set|unordered_map|unordered_set|array|pair|tuple|optional)\b|^lightstep::(FlatMap|CircularBuffer|BufferChain)\b")
SYNC = re.compile(r"^std::(atomic\b|mutex|recursive_mutex|timed_mutex|condition_variable|atomic_flag|once_flag|__atomic_base)|SpinLockMutex$|ConditionVariableWrapper|^pthread_")

class Access:
    def __init__(self, f, i, write, locks, member, path, call):
        self.f, self.i, self.write, self.locks, self.member, self.path, self.call = f, i, write, locks, member, path, call

def accesses(f, rec_members, this="this", glob=()):
    """the accesses of f to members of *this (and to the given globals)"""
    v = Values(f); at = locksets(f, v); out = []
    def member_of(p):
        if p is None: return None
        if p[0].lstrip("@") in glob: return p[0].lstrip("@")
        if p[0] != this: return None
        for m in rec_members:
            if p[1] is not None and m["off"] <= p[1] < m["off"] + max(m["sz"], 1):
                if len(p) == 2: return m
                return m if SELF.match(m["t"]) and not re.search(r"^std::array", m["t"]) else None
        return None
    def note(i, o, write):
        p = place(f, v, o); m = member_of(p)
        if m is None: return
        out.append(Access(f, i, write, at.get(i.id), m, p[1:], i.op in ("call", "invoke")))
    for b in f.rpo():
        for i in f.blocks[b]:
            if i.id not in at: continue
            if i.op == "load" and "ord" not in i.d: note(i, i.ops[0], False)
            elif i.op == "store" and "ord" not in i.d: note(i, i.ops[1], True)
            elif i.op in ("call", "invoke"):
                if lock_op(f, v, i): continue
                c = callee_of(i) or ""
                if c.startswith("llvm."):
                    if not c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): continue
                    note(i, i.ops[0], True)
                    if "memset" not in c: note(i, i.ops[1], False)
                    continue
                gs = targets(c)
                for k, o in enumerate(i.ops):
                    if not isinstance(o, (str, dict)): continue
                    p = place(f, v, o)
                    if p is None or (p[0] == this and len(p) == 2 and p[1] == 0): continue      # the object itself
                    note(i, o, not (gs and all(constant(g, c, k) for g in gs)))
    return out

def targets(c):
    if not c.startswith("vcall$"): return [prog_fn(c)]
    P = ir.program(); _, tid, off = c.split("$")
    return [P.fns[n] for n in P.vtables().get(tid, {}).get(int(off), set()) if n in P.fns]

def constant(g, c, k):
    """the callee only reads through its k-th argument"""
    first = 1 if g is not None and g.args and g.args[0][2] == 2 else 0
    if c.startswith("_ZNK") and k == first: return True
    t = param(g, k) if g is not None else ""
    if t.startswith(("&const", "*const")): return True
    if c in ("memcmp", "strlen", "write", "send"): return True
    return False
