"""Element-kind analysis of one interpretation: complex data must not be written to a real buffer.

A buffer made by zeros/ones/empty/full has the element type of its dtype argument (float when absent);
`.at[..].set/add`, item assignment and astype store values in that type, and storing a complex value in
a real buffer silently keeps the real part only.  Kinds are inferred on the value terms: the operator's
argument may be complex, dtype-preserving primitives keep that, everything else is undecided (quiet).
"""
from . import ops
from . import term as T
from .prims import PRIMS, Fail

MAKE = {"np.zeros": 1, "np.ones": 1, "np.empty": 1, "np.full": 2}
REALT = {"float", "int", "bool", "float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint32", "bool_", "floating", "single", "double"}
CXT = {"complex", "complex64", "complex128", "cdouble", "csingle"}
KEEP = {"reshape", "ravel", "transpose", "flip", "conj", "concat", "hstack", "vstack", "stack", "vdot", "mm", "app", "sum0", "mean0", "sumax", "meanax",
        "cumsum", "scatter", "array", "sort", "pow", "exp", "sin", "cos", "log", "sign", "lin", "bigmul", "tuple"}
REALOP = {"abs", "real", "imag", "n2", "norm1", "norminf", "norm", "argmax", "argmin", "cmp", "dim", "shape", "arange", "not", "and", "or", "dtype", "angle", "const", "num", "ndim", "size", "argsort", "any0", "all0", "floordiv", "eye", "ones", "zeros", "empty", "max0", "min0", "slice"}


def dtkind(d, cx):
    """'real', 'ok' or None for a dtype term (None: undecided)"""
    if d is None or d is T.NONE:
        return "real"
    if any(s in cx for s in T.subterms(d)):
        return "ok"
    if d.op == "ext":
        n = d.args[0].split(".")[-1]
        return "real" if n in REALT else "ok"
    if d.op == "const":
        n = str(d.args[1]).split(".")[-1]
        return "real" if n in REALT else "ok"
    if d.op == "ite":
        ks = [dtkind(x, cx) for x in d.args[1:]]
        c = d.args[0]
        if c.op == "not":
            c = c.args[0]
        # real for a real operand or real data, although the argument may be complex
        if "real" in ks and c.op in ("attr", "sym"):
            return "real"
        return "ok"
    if d.op == "dtype" and d.args[0].op == "sym" and d.args[0] in T.CTX.shapes and d.args[0] in ops.DATA:
        return "real"
    return "ok"


class Kinds:
    def __init__(self, I, cx):
        self.I, self.cx = I, set(cx)
        self.bufs, self.init, self.memo = {}, {}, {}
        for r in I.loops:
            if isinstance(r.head, dict):
                for k, h in r.head.items():
                    if isinstance(h, T.Term) and isinstance(r.init.get(k), T.Term):
                        self.init[h] = r.init[k]
            elif isinstance(r.head, T.Term) and isinstance(r.init, T.Term):
                self.init[r.head] = r.init
        for e in I.events:
            if e.kind == "ext" and e.data[0] in MAKE:
                n, a, kw = e.data
                d = kw.get("dtype", a[MAKE[n]] if len(a) > MAKE[n] else None)
                try:
                    t = PRIMS[n](a, kw)
                except (Fail, KeyError, IndexError):
                    continue
                k = dtkind(d, self.cx)
                if k == "ok" and d.op == "dtype" and d.args[0] in self.cx:
                    k = "cx"
                self.bufs.setdefault(t, set()).add(k)
            elif e.kind == "cast":
                t, d = e.data
                if dtkind(d, self.cx) != "real":
                    self.bufs.setdefault(t, set()).add("ok")
            elif e.kind == "ext" and e.data[0] in ("np.zeros_like", "np.ones_like", "np.empty_like", "np.full_like"):
                try:
                    t = PRIMS[e.data[0]](e.data[1], e.data[2])
                except (Fail, KeyError, IndexError):
                    continue
                self.bufs.setdefault(t, set()).add("ok")

    def root(self, t, n=0):
        while n < 60:
            n += 1
            if t.op in ("at_set", "at_add", "at_mul", "at_multiply"):
                t = t.args[0]
            elif t in self.init:
                t = self.init[t]
            else:
                break
        return t

    def real_buffer(self, t):
        return self.bufs.get(self.root(t)) == {"real"}

    def complex(self, t):
        """True: certainly a complex type for complex arguments; False: certainly not; None: undecided"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        self.memo[t] = r = self._complex(t)
        return r

    def some(self, ts):
        ks = [self.complex(x) for x in ts if isinstance(x, T.Term)]
        return True if True in ks else None if None in ks else False

    def _complex(self, t):
        if t in self.cx:
            return True
        if t in self.init:
            return False if self.real_buffer(t) else None
        if t.op in ("zeros", "ones", "empty"):
            return False if self.real_buffer(t) else True if self.bufs.get(t) == {"cx"} else None
        if t.op in ("num", "const") or t.op in REALOP:
            return False
        if t.op == "sym":
            return None
        if t.op in ("at_set", "at_add", "at_mul"):
            return False if self.real_buffer(t) else self.complex(t.args[0])
        if t.op in ("sum", "prod"):
            return self.some([m for m, _ in t.args[0]])
        if t.op == "ite":
            ks = {self.complex(x) for x in t.args[1:]}
            return ks.pop() if len(ks) == 1 else None
        if t.op == "idx":
            return self.complex(t.args[0])
        if t.op in ("tuple", "concat", "hstack", "array", "vstack", "stack"):
            a = t.args[0]
            return self.some(a if isinstance(a, tuple) else a.args[0] if a.op == "tuple" else [a])
        if t.op == "apply":
            return True if self.some(t.args[1]) else None
        if t.op in KEEP:
            return True if self.some(t.args) else None
        if t.op == "call" and t.args[0] in KEEPCALL:
            return True if self.some(t.args[1]) else None
        if t.op == "call" and t.args[0].startswith("random."):
            return False
        return None

    def findings(self):
        out = []
        self.n = sum(e.kind in ("scatter", "cast") for e in self.I.events)
        self.open = sum(e.kind == "scatter" and self.real_buffer(e.data[0]) and self.complex(e.data[1]) is None for e in self.I.events)
        for e in self.I.events:
            if e.kind == "scatter":
                b, v = e.data
                if self.real_buffer(b) and self.complex(v):
                    out.append(("complex data stored in a real buffer", e.where))
            elif e.kind == "cast":
                t, d = e.data
                if dtkind(d, self.cx) == "real" and self.complex(t):
                    out.append(("complex data cast to a real type", e.where))
            elif e.kind == "ext" and e.data[0] in ("np.asarray", "np.array") and ("dtype" in e.data[2] or len(e.data[1]) > 1):
                n, a, kw = e.data
                if dtkind(kw.get("dtype", a[1] if len(a) > 1 else None), self.cx) == "real" and self.complex(a[0]):
                    out.append(("complex data cast to a real type", e.where))
        return out


KEEPCALL = {"np.dot", "np.matmul", "np.einsum", "np.tensordot", "np.diff", "np.roll", "np.pad", "np.concatenate", "np.reshape", "np.transpose", "np.cumsum",
            "np.sum", "np.fft.fft", "np.fft.ifft", "lax.dynamic_slice"}
