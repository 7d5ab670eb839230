"""P15 diagnostic and evaluation quantities equal their definitions."""
import numpy as np

from .. import ops
from .. import point
from .. import table
from .. import term as T
from .. import interp as IP
from ..table import Row
from ..term import num, NONE, const

EXPLANATION = (
    "Every public evaluation function (dictionary properties, recovery performance, operator matrices and dot tests, thresholds, "
    "cluster/assignment/label utilities, angle and subspace preservation statistics, block utilities, tracker quantities, kernels) is "
    "analysed with symbolic data; the value number of every component of its result is compared with the value number of the textbook "
    "definition over the same data. Equality: normal form, branch cases, ordering cells; a difference is reported only with a separating point.")
FLOOR = 15
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "definitions in vlib/props/p15.py"]

D = "cr.sparse.dict"
arr = lambda nm, *sh: ops.array(nm, *[ops.size(x) if isinstance(x, str) else num(x) for x in sh], real=True)
A = lambda: arr("A", "m", "n")


def rows():
    R = []

    def r(mod, name, args, spec, label="", **kw):
        R.append(Row(mod, name, args, "def spec" + spec if not spec.startswith("def ") else spec, label, **kw))
    dictionary(r)
    geo(r)
    cluster(r)
    ssc(r)
    misc(r)
    recovery(r)
    operators(r)
    utilities(r)
    more(r)
    lanczos(r)
    return R


def cA():
    return ops.array("A", ops.size("m"), ops.size("n"))


def dictionary(r):
    for cp in (0, 1):
        kw = dict(real=not cp, cplx=bool(cp), label="complex" if cp else "")
        a = (lambda: [cA()]) if cp else (lambda: [A()])
        iso = "np.iscomplexobj"
        r(D, "gram", a, "(A): return jnp.conj(A.T) @ A", **kw)
        r(D, "frame", a, "(A): return A @ jnp.conj(A.T)", **kw)
        off = "(A):\n G = jnp.abs(jnp.conj(A.T) @ A)\n n = A.shape[1]\n H = jnp.where(jnp.eye(n) > 0, 0, G)\n"
        r(D, "coherence", a, off + " return jnp.max(H)", **kw)
        r(D, "coherence_with_index", a, off + " return jnp.max(H), jnp.unravel_index(jnp.argmax(H), (n, n))", **kw)
        r(D, "babel", a, off + " S = jnp.sort(H, axis=1)[:, ::-1]\n return jnp.max(jnp.cumsum(S, axis=1), axis=0)[:-1]", **kw,
          env=lambda P, s, g, d: P.env.update({T.sym("A"): unit_cols(g, d("m"), d("n"), bool(P.cplx))}))
        r(D, "frame_bounds", a, "(A):\n s = jnp.linalg.svd(A, False, False)\n return jnp.array([jnp.max(s), jnp.min(s)])", **kw)
        r(D, "upper_frame_bound", a, "(A): return jnp.max(jnp.linalg.svd(A, False, False))", **kw)
        r(D, "lower_frame_bound", a, "(A): return jnp.min(jnp.linalg.svd(A, False, False))", **kw)
        ab = (lambda: [cA(), ops.array("B", ops.size("m"), ops.size("k"))]) if cp else (lambda: [A(), arr("B", "m", "k")])
        mc = "(A, B):\n H = jnp.abs(jnp.conj(A.T) @ B)\n"
        r(D, "mutual_coherence", ab, mc + " return jnp.max(H)", **kw)
        r(D, "mutual_coherence_with_index", ab, mc + " return jnp.max(H), jnp.unravel_index(jnp.argmax(H), H.shape)", **kw)
    def near(P, s, g, d):
        B = unit_cols(g, d("m"), d("n"))
        C = B[:, ::-1] * np.where(np.arange(d("n")) % 2, 1, -1)
        C = C + (0.0, 0.02, 0.1, 0.3)[s % 4] * g.randn(*C.shape) * (np.arange(d("n")) % 3 > 0)
        P.env[T.sym("A")] = B
        P.env[T.sym("B")] = C / np.linalg.norm(C, axis=0)
    r(D, "matching_atoms_ratio", lambda: [A(), arr("B", "m", "n")],
      "(A, B, t=0.01): return jnp.sum(1 - jnp.max(jnp.abs(A.T @ B), axis=1) < t) / A.shape[1]", env=near, n=16)
    r(D, "matching_atoms_ratio", lambda: [A(), arr("B", "m", "n"), ops.scalar("t", True)],
      "(A, B, t=0.01): return jnp.sum(1 - jnp.max(jnp.abs(A.T @ B), axis=1) < t) / A.shape[1]", env=near, label="threshold", n=16)
    r(D, "minimum_coherence", lambda: [ops.size("m"), ops.size("n")], "(m, n): return jnp.sqrt((n - m) / (m * (n - 1)))")


def unit_cols(g, m, n, cplx=False):
    B = g.randn(m, n) + (1j * g.randn(m, n) if cplx else 0)
    return B / np.linalg.norm(B, axis=0)


G = "cr.sparse.geo"


def geo(r):
    def tau():
        t = ops.scalar("tau", True)
        T.CTX.nonneg.add(t)
        return t

    def wide(P, s, g, d):
        x = g.randn(d("n")) * (1, 3, 0.1, 20)[s % 4]
        P.env[T.sym("x")] = x
        P.env[T.sym("tau")] = abs(g.randn()) * (1, 2, 0.3)[s % 3]
    X = lambda: arr("x", "n")
    hard = " return jnp.where(jnp.abs(x) > jnp.sqrt(2 * tau), x, 0)"
    soft = " return jnp.where(x > tau, x - tau, jnp.where(x < -tau, x + tau, 0))"
    half = (" g = (54 ** (1/3) / 4) * tau ** (2/3)\n p = jnp.arccos(tau / 8 * (jnp.abs(x) / 3) ** (-1.5))\n"
            " return jnp.where(jnp.abs(x) >= g, 2/3 * x * (1 + jnp.cos(2 * jnp.pi / 3 - 2 / 3 * p)), 0)")
    for j in ("", "_jit"):
        r(G, "hard_threshold" + j, lambda: [X(), tau()], "(x, tau):\n" + hard, env=wide, n=16)
        r(G, "soft_threshold" + j, lambda: [X(), tau()], "(x, tau):\n" + soft, env=wide, n=16)
        r(G, "half_threshold" + j, lambda: [X(), tau()], "(x, tau):\n" + half, env=wide, n=16)
        sz = {"perc": lambda s: (10, 35, 50, 75, 90)[s % 5], "n": lambda s: 7 + s}
        pc = lambda: ops.size("perc")
        g0 = "(x, perc):\n gam = jnp.percentile(jnp.abs(x), perc)\n"
        xenv = lambda P, s, g, d: P.env.update({T.sym("x"): g.randn(d("n")) * (1, 3, 0.1, 20)[s % 4]})
        r(G, "hard_threshold_percentile" + j, lambda: [X(), pc()], g0 + " return jnp.where(jnp.abs(x) > gam, x, 0)", sizes=sz, n=16, env=xenv)
        r(G, "soft_threshold_percentile" + j, lambda: [X(), pc()], g0 + " tau = gam\n" + soft, sizes=sz, n=16, env=xenv)
        r(G, "half_threshold_percentile" + j, lambda: [X(), pc()], g0 + " tau = (4 / 54 ** (1/3) * gam) ** 1.5\n" + half, sizes=sz, n=16, env=xenv)
    r(G, "soft_threshold", lambda: [ops.array("x", ops.size("n")), tau()],
      "(x, tau): return x * jnp.maximum(1 - tau / jnp.abs(x), 0)", label="complex", real=False, cplx=True,
      env=lambda P, s, g, d: P.env.update({T.sym("x"): (g.randn(d("n")) + 1j * g.randn(d("n"))) * (1, 3)[s % 2], T.sym("tau"): abs(g.randn())}))

    def gam():
        t = ops.scalar("g", True)
        T.CTX.nonneg.add(t)
        return t
    r(G, "gamma_to_tau_half_threshold", lambda: [gam()], "(g): return (4 * g / 54 ** (1/3)) ** 1.5")
    r(G, "gamma_to_tau_hard_threshold", lambda: [gam()], "(g): return g * g / 2")
    r(G, "ricker", lambda: [arr("t", "n"), ops.scalar("f0", True)], "(t, f0):\n a = (jnp.pi * f0 * t) ** 2\n return (1 - 2 * a) * jnp.exp(-a)",
      env=lambda P, s, g, d: P.env.update({T.sym("t"): g.randn(d("n")) * 0.3, T.sym("f0"): 0.5 + s * 0.3}))


C = "cr.sparse.cluster"


def ints(nm, hi, size="n"):
    def f(P, s, g, d):
        P.env[T.sym(nm)] = g.randint(0, hi if isinstance(hi, int) else d(hi), d(size))
    return f


def iarr(nm, *sh):
    from .. import kernel as K
    t = arr(nm, *sh)
    K.INTS.add(t)
    return t


def both(*fs):
    def f(P, s, g, d):
        for x in fs:
            x(P, s, g, d)
    return f


def cluster(r):
    L = lambda: iarr("L", "n")
    sz = {"n": lambda s: 6 + s, "k": lambda s: 2 + s % 3}
    for j in ("", "_jit"):
        r(C, "sizes_from_labels" + j, lambda: [L(), ops.size("k")],
          "(L, k): return jnp.sum(jnp.arange(k)[:, None] == L[None, :], axis=1)", env=ints("L", "k"), sizes=sz)
    pl = lambda *xs: IP.PyTuple([num(x) for x in xs], "list")
    for szs in ((2, 3, 1), (1, 4), (3,)):
        starts = [sum(szs[:i]) for i in range(len(szs))]
        r(C, "start_end_indices", lambda szs=szs: [pl(*szs)], "(s): return jnp.array(%r), jnp.array(%r)" % (
            starts, [a + b for a, b in zip(starts, szs)]), label=str(szs))
        r(C, "labels_from_sizes", lambda szs=szs: [pl(*szs)], "(s): return jnp.array(%r)" % (
            [i for i, q in enumerate(szs) for _ in range(q)],), label=str(szs))
    S = lambda: iarr("S", "k")
    r(C, "start_end_indices", lambda: [S()], "(S): return jnp.cumsum(S) - S, jnp.cumsum(S)", label="array",
      env=lambda P, s, g, d: P.env.update({T.sym("S"): g.randint(1, 5, d("k"))}))
    # errors after the assignment
    T1, T2 = (lambda: iarr("L1", "n")), (lambda: iarr("L2", "n"))
    M = lambda: iarr("M", "n")
    op = lambda I, f, a, kw, node: IP.PyTuple([M(), T.sym("cols"), T.sym("G")])
    err = "(a, b, M, *k):\n q = jnp.sum(a != M)\n return a, b, M, 'skip', q, q / a.shape[0], 100 * q / a.shape[0]"
    env = both(ints("L1", 3), ints("L2", 3), ints("M", 3))
    for nm, bm, ex in (("clustering_error", "best_map", []), ("clustering_error_k", "best_map_k", [num(3)])):
        r(C, nm, (lambda ex: lambda: [T1(), T2()] + ex)(ex), err, opaque={bm: op}, env=env, specargs=lambda I: [T1(), T2(), M()],
          sizes={"n": lambda s: 5 + s})
    V = "cr.sparse.cluster.vq"
    pt, ce = (lambda: arr("p", "m")), (lambda: arr("C", "k", "m"))
    P_ = lambda: arr("X", "n", "m")
    for j in ("", "_jit"):
        r(V, "find_nearest" + j, lambda: [pt(), ce()], "(p, C): return jnp.argmin(jnp.sum((C - p) ** 2, axis=1))")
        r(V, "find_assignment" + j, lambda: [P_(), ce()],
          "(X, C):\n d = jnp.sqrt(jnp.sum((X[:, None, :] - C[None, :, :]) ** 2, axis=2))\n return jnp.argmin(d, axis=1), jnp.min(d, axis=1)")
        a3 = lambda: [iarr("L", "n"), P_(), ops.size("k")]
        r(V, "find_new_centroids" + j, a3,
          "(L, X, k):\n W = (L[None, :] == jnp.arange(k)[:, None]) * 1.0\n return (W @ X) / jnp.maximum(jnp.sum(W, axis=1, keepdims=True), 1)",
          env=ints("L", "k"), sizes=sz)
    r(V, "assignment_counts", lambda: [iarr("L", "n"), ops.size("k")],
      "(L, k): return jnp.maximum(jnp.sum(L[None, :] == jnp.arange(k)[:, None], axis=1, keepdims=True), 1)", env=ints("L", "k"), sizes=sz)
    SP = "cr.sparse.cluster.spectral"
    def W():
        b = arr("B", "n", "n")          # symmetric affinity
        T.CTX.nonneg.add(b)
        return T.add(b, T.mk("T", b))

    def aff(P, s, g, d):
        P.env[T.sym("B")] = np.abs(g.randn(d("n"), d("n")))
    for j in ("", "_jit"):
        r(SP, "normalized_random_walk_laplacian" + j, lambda: [W()],
          "(W): return jnp.eye(W.shape[0]) - W / jnp.sum(W, axis=1)[:, None]", env=aff)
    r(SP, "normalized_symmetric_w", lambda: [W()],
      "(W):\n d = jnp.sum(W, axis=1)\n return W / jnp.sqrt(d)[:, None] / jnp.sqrt(d)[None, :]", env=aff)
    # the embedding handed to k-means decides the assignment up to a rotation: stands for it here
    def km(I, f, a, kw, node):
        return IP.NT(Rec, {"assignment": I.call(I.spec("def spec(X, k): return X @ X.T, k", "spec"), [a[1], a[2]], {})})

    def lan(I, f, a, kw, node):
        return I.call(I.spec("def spec(W, k, p0):\n U, S, VH = jnp.linalg.svd(W)\n return U, S[:k], VH.T, S, k, None", "spec"), list(a[:3]), {})
    op = {"kmeans": km, "lansvd_simple": lan, "lansvd_simple_jit": lan, "lanbpro_random_start": lambda I, f, a, kw, node: T.sym("p0")}
    view = lambda I, f, a, k: I.call(I.spec("def spec(f, *a):\n r = f(*a)\n return r.singular_values, r.assignment, r.laplancian, r.num_clusters, r.connectivity", "spec"), [f] + list(a), {})
    laps = (("unnormalized", "jnp.diag(jnp.sum(W, axis=1)) - W"), ("normalized_random_walk", "jnp.eye(n) - W / jnp.sum(W, axis=1)[:, None]"))
    for nm, lp in laps:
        body = "\n n = W.shape[0]\n L = %s\n U, S, VH = jnp.linalg.svd(L)\n" % lp
        out = " N = VH[n - k:, :]\n return S, (N.T @ N, k), L, k, S[n - 2]"
        for j in ("", "_jit"):
            r(SP, nm + "_k" + j, lambda: [T.sym("key"), W(), ops.size("k")], "(key, W, k):" + body + out, env=aff, opaque=op, call=view, sizes={"n": 5, "k": 2})
        r(SP, nm, lambda: [T.sym("key"), W()], "(key, W):" + body + " k = n - 1 - jnp.argmin(S[1:n - 1] - S[:n - 2])\n" + out, env=aff, opaque=op, call=view, sizes={"n": 5})
    for j in ("", "_jit"):
        r(SP, "normalized_symmetric_fast_k" + j, lambda: [T.sym("key"), W(), ops.size("k")],
          "(key, W, k):\n d = jnp.sqrt(jnp.sum(W, axis=1))\n L = W / d[:, None] / d[None, :]\n U, S, VH = jnp.linalg.svd(L)\n"
          " V = VH[:k].T\n V = V / jnp.sqrt(jnp.sum(V ** 2, axis=1))[:, None]\n return S[:5 * k], (V @ V.T, k), L, k, -1",
          env=aff, opaque=op, call=view, sizes={"n": 12, "k": 2})


class Rec:
    """a record with named fields"""
    name, fields, methods, bases, module = "record", (), {}, (), None


def ssc(r):
    S = "cr.sparse.cluster.ssc"
    X = lambda: arr("X", "m", "n")
    r(S, "angles_between_points", lambda: [X()],
      "(X):\n u = X / jnp.sqrt(jnp.sum(X ** 2, axis=0))\n return jnp.rad2deg(jnp.arccos(jnp.minimum(u.T @ u, 1)))")
    r(S, "rep_to_affinity", lambda: [arr("Z", "n", "n")], "(Z): return jnp.abs(Z) + jnp.abs(Z).T")
    sz = {"n": 6, "m": 3, "k": 2}
    kI = lambda: iarr("I", "k", "n")

    def idx(P, s, g, d):
        P.env[T.sym("I")] = np.stack([g.permutation(d("n"))[:d("k")] for _ in range(d("n"))], axis=1)
    r(S, "sparse_to_full_rep", lambda: [arr("Z", "k", "n"), kI()],
      "(Z, I):\n n = Z.shape[1]\n return jnp.sum((jnp.arange(n)[:, None, None] == I[None, :, :]) * Z[None, :, :], axis=1)", env=idx, sizes=sz)
    szs = (2, 3, 1)
    lab = [i for i, q in enumerate(szs) for _ in range(q)]
    An = lambda: arr("An", 6, 6)
    pl = lambda: IP.PyTuple([num(x) for x in szs], "list")

    def ang(P, s, g, d):
        B = np.abs(g.randn(6, 6)) * 60
        B = B + B.T
        np.fill_diagonal(B, 0)
        P.env[T.sym("An")] = B
    same = " L = jnp.array(%r)\n E = L[:, None] == L[None, :]\n" % (lab,)
    szs2 = (2, 4)
    lab2 = [i for i, q in enumerate(szs2) for _ in range(q)]
    pl2 = lambda: IP.PyTuple([num(x) for x in szs2], "list")
    same2 = " L = jnp.array(%r)\n E = L[:, None] == L[None, :]\n" % (lab2,)
    for nm, body in (("min_angles_inside_cluster", " return jnp.min(jnp.where(E & (jnp.eye(6) == 0), A, 10000), axis=0)"),
                     ("min_angles_outside_cluster", " return jnp.min(jnp.where(E, 10000, A), axis=1)"),
                     ("nearest_neighbors_inside_cluster", " return jnp.argmin(jnp.where(E & (jnp.eye(6) == 0), A, 10000), axis=0)"),
                     ("nearest_neighbors_outside_cluster", " return jnp.argmin(jnp.where(E, 10000, A), axis=1)")):
        r(S, nm, lambda: [An(), pl2()], "(A, s):\n" + same2 + body, env=ang, label=str(szs2))
        if "inside" not in nm:
            r(S, nm, lambda: [An(), pl()], "(A, s):\n" + same + body, env=ang, label=str(szs))
    r(S, "sorted_neighbors", lambda: [An()], "(A): return jnp.argsort(A, axis=1)[:, 1:]", env=ang)
    r(S, "inn_positions", lambda: [iarr("L", "n"), iarr("N", "n", "m")], "(L, N): return jnp.argmax(N == L[:, None], axis=1)",
      env=lambda P, s, g, d: P.env.update({T.sym("L"): g.randint(0, 3, d("n")), T.sym("N"): g.randint(0, 3, (d("n"), d("m")))}), sizes={"m": 5})
    # subspace preservation

    def rep(P, s, g, d):
        n = d("n")
        C_ = g.randn(n, n) * (g.rand(n, n) < 0.5)
        C_[np.arange(n), (np.arange(n) + 1) % n] += 1
        lab = g.randint(0, 2, n)
        if s % 3 == 0:
            C_ = C_ * (lab[:, None] == lab[None, :]) + np.eye(n) * 0.5
        if s % 3 == 1:
            C_ = C_ * (lab[:, None] == lab[None, :]) + np.eye(n) * 0.5 + 2e-4
        P.env[T.sym("C")] = C_
        P.env[T.sym("L")] = lab
    st = ("(C, L):\n A = jnp.abs(C)\n E = L[:, None] == L[None, :]\n f = jnp.all(E | (A < 1e-3), axis=0)\n"
          " e = 1 - jnp.sum(jnp.where(E, A, 0), axis=0) / jnp.sum(A, axis=0)\n"
          " return e, f, jnp.mean(e), jnp.all(f), 100 * jnp.mean(f * 1.0)")
    for j in ("", "_jit"):
        r(S, "subspace_preservation_stats" + j, lambda: [arr("C", "n", "n"), iarr("L", "n")], st, env=rep, sizes={"n": lambda s: 4 + s % 4}, n=18)

    def srep(P, s, g, d):
        n, k = d("n"), d("k")
        I = np.stack([g.permutation(n)[:k] for _ in range(n)], axis=1)
        lab = g.randint(0, 2, n)
        Z = g.randn(k, n)
        Z = np.where(np.abs(Z) < 0.1, 1e-4, Z)
        if s % 2:
            Z = np.where(lab[I] == lab[None, :], Z, 2e-4)
        P.env[T.sym("Z")], P.env[T.sym("I")], P.env[T.sym("L")] = Z, I, lab
    # entries below 1e-3 count as zero and as belonging to the class of the point
    sst = ("(Z, I, L):\n A = jnp.abs(Z)\n E = (L[I] == L[None, :]) | (A < 1e-3)\n f = jnp.all(E, axis=0)\n"
           " e = 1 - jnp.sum(jnp.where(E, A, 0), axis=0) / jnp.sum(A, axis=0)\n"
           " return e, f, jnp.mean(e), jnp.all(f), 100 * jnp.mean(f * 1.0)")
    for j in ("", "_jit"):
        r(S, "sparse_subspace_preservation_stats" + j, lambda: [arr("Z", "k", "n"), kI(), iarr("L", "n")], sst, env=srep,
          sizes={"n": lambda s: 5 + s % 3}, n=18)


def misc(r):
    B = "cr.sparse.block.block"
    sz = {"n": lambda s: 12, "b": lambda s: (1, 2, 3, 4, 6)[s % 5]}
    nb = lambda: [ops.size("n"), ops.size("b")]
    r(B, "start_locations", nb, "(n, b): return jnp.arange(n // b) * b", sizes=sz)
    r(B, "end_locations", nb, "(n, b): return jnp.arange(n // b) * b + (b - 1)", sizes=sz)
    Vn = "cr.sparse.vision"
    for nm, val in (("KERNEL_BOX_3X3", "jnp.full((3, 3), 1/9)"), ("KERNEL_BOX_5X5", "jnp.full((5, 5), 1/25)"), ("KERNEL_BOX_7X7", "jnp.full((7, 7), 1/49)"),
                    ("KERNEL_BOX_21X21", "jnp.full((21, 21), 1/441)"), ("KERNEL_SHARPEN_3X3", "jnp.array([[0,-1,0],[-1,5,-1],[0,-1,0]])"),
                    ("KERNEL_LAPLACIAN_3X3", "jnp.array([[0,1,0],[1,-4,1],[0,1,0]])"), ("KERNEL_SOBEL_X", "jnp.array([[-1,0,1],[-2,0,2],[-1,0,1]])"),
                    ("KERNEL_SOBEL_Y", "jnp.array([[-1,-2,-1],[0,0,0],[1,2,1]])")):
        r(Vn, nm, lambda: [], "(): return " + val, call=lambda I, f, a, kw: f, n=1)
    CS = "cr.sparse.cs.cs1bit"
    r(CS, "measure_1bit", lambda: [A(), arr("x", "n")], "(A, x): return jnp.sign(A @ x)")


PERF = ("M", "N", "K", "T0", "x_norm", "y_norm", "x_hat_norm", "x_dr", "y_dr", "x_hat_dr", "h", "h_norm", "recovery_snr", "h_T0", "T0C", "h_T0C", "T1",
        "h_T1", "TRest", "h_TRest", "R0", "overlap", "num_correct_atoms", "r", "r_norm", "measurement_snr", "h_by_r_norms",
        "support_recovery_ratio", "perfect_support_recovery", "success")
PSPEC = """def spec(A, y, x, z):
    n = A.shape[1]
    nz = lambda v: jnp.nonzero(v)[0]
    dr = lambda v: 20 * jnp.log10(jnp.max(jnp.abs(v)) / jnp.min(jnp.abs(v)))
    from cr.nimble.dsp import largest_indices as big
    T0 = nz(x)
    K = T0.size
    h = x - z
    hc = h.at[T0].set(0)
    T0C = jnp.setdiff1d(jnp.arange(n), T0)
    T1 = big(hc, K)
    TR = jnp.setdiff1d(T0C, T1)
    R0 = jnp.sort(big(z, K))
    ov = jnp.intersect1d(T0, R0)
    r = y - APPLY
    nr = jnp.linalg.norm
    snr = 20 * jnp.log10(nr(x) / nr(h))
    return (A.shape[0], n, K, T0, nr(x), nr(y), nr(z), dr(x[T0]), dr(y), dr(z[nz(z)]), h, nr(h), snr, h[T0], T0C, hc, T1, h[T1], TR, h[TR],
            R0, ov, ov.size, r, nr(r), 20 * jnp.log10(nr(y) / nr(r)), nr(h) / nr(r), ov.size / K, ov.size >= K,
            (ov.size / K > 0.75) & (snr > 30))
"""


def attrs(names):
    def call(I, f, a, kw):
        o = I.call(f, list(a), dict(kw))
        return IP.PyTuple([I.getattr(o, k) for k in names])
    return call


def sparse_env(P, s, g, d):
    n, m, K = d("n"), d("m"), 3 + s % 3
    x = np.zeros(n)
    I = np.sort(g.permutation(n)[:K])
    x[I] = g.randn(K) + np.sign(g.randn(K))
    z = np.zeros(n)
    lvl = (0.3, 1e-3, 0.0, 1e-2)[s % 4]
    z[I] = x[I] + 0.02 * g.randn(K) * (1 if lvl else 0.01)
    J = g.permutation(n)[:2]
    z[J] += lvl * g.randn(2)
    z += 1e-5 * g.randn(n)             # no ties
    if s % 5 == 4:
        z[I[0]] = 0                    # one atom in four or five missed
    P.env[T.sym("x")], P.env[T.sym("z")] = x, z
    if T.sym("I") in T.CTX.shapes:
        P.env[T.sym("I")] = I
        P.env[T.sym("xI")] = z[I]


def recovery(r):
    E = "cr.sparse.ef"
    data = lambda: [arr("y", "m"), arr("x", "n")]
    z = lambda: arr("z", "n")
    sz = {"n": lambda s: 14 + s % 5, "m": 6}
    kw = dict(env=sparse_env, sizes=sz, n=16, parts=PERF, call=attrs(PERF))
    r(E, "RecoveryPerformance", lambda: [A()] + data() + [z()], PSPEC.replace("APPLY", "A @ z"), label="x_hat", **kw)

    def rec(I, fields):
        cls = I.get("cr.sparse._src.types" if "x" in fields else "cr.sparse.pursuit", "RecoveryFullSolution" if "x" in fields else "RecoverySolution")
        return IP.NT(cls, fields)
    r(E, "RecoveryPerformance", lambda I: [A()] + data() + [NONE, rec(I, dict(x=z(), r=T.sym("r_"), iterations=num(3)))],
      PSPEC.replace("APPLY", "A @ z"), label="solution with x", specargs=lambda I: [A()] + data() + [z()], **kw)

    def part(I):
        k = arr("xI", "k")
        return [A()] + data() + [NONE, rec(I, dict(x_I=k, I=iarr("I", "k"), r=T.sym("r_"), r_norm_sqr=T.sym("r_n"), iterations=num(3), length=ops.size("n")))]
    kw2 = dict(kw, env=lambda P, s, g, d: sparse_env(P, s, g, d), sizes=dict(sz, k=lambda s: 3 + s % 3))
    r(E, "RecoveryPerformance", part, PSPEC.replace("def spec(A, y, x, z):", "def spec(A, y, x, xI, I):\n    from cr.nimble.dsp import build_signal_from_indices_and_values as build\n    z = build(A.shape[1], I, xI)")
      .replace("APPLY", "A @ z"), label="solution on support", specargs=lambda I: [A()] + data() + [arr("xI", "k"), iarr("I", "k")], **kw2)

    def oper(I):
        return [ops.operand(I, "F", ops.size("m"), ops.size("n"), linear=T.TRUE)] + data() + [z()]
    r(E, "RecoveryPerformance", oper, PSPEC.replace("APPLY", "A.times(z)"), label="operator", **kw)


def operators(r):
    L = "cr.sparse.lop"
    eM = lambda P, s, g, d: P.env.update({T.sym("M"): g.randn(d("m"), d("n")) + 1j * g.randn(d("m"), d("n"))})
    rM = lambda I: [I.call(I.get(L, "matrix"), [arr("M", "m", "n")], {})]
    cM = lambda I: [I.call(I.get(L, "matrix"), [ops.array("M", ops.size("m"), ops.size("n"))], {})]
    r(L, "to_matrix", rM, "(M): return M", label="matrix", specargs=lambda I: [arr("M", "m", "n")])
    r(L, "to_adjoint_matrix", rM, "(M): return M.T", label="matrix", specargs=lambda I: [arr("M", "m", "n")])
    C = dict(real=False, cplx=True, env=eM, specargs=lambda I: [ops.array("M", ops.size("m"), ops.size("n"))])
    r(L, "to_matrix", cM, "(M): return M", label="complex matrix", **C)
    r(L, "to_adjoint_matrix", cM, "(M): return jnp.conj(M.T)", label="complex matrix", **C)
    r(L, "to_complex_matrix", cM, "(M): return M", label="complex matrix", **C)
    # operators on arrays: rows and columns in the order of the flattened arrays
    def twod(I):
        f = I.spec("def spec(M, N):\n return M, (lambda X: (M @ X) * N), (lambda Y: M.T @ (Y * N))", "spec")
        v = I.call(f, [arr("M", 2, 2), arr("N", 2, 3)], {})
        cls = I.get(L, "Operator")
        t = lambda *x: IP.PyTuple([num(i) for i in x])
        return [I.call(cls, [], dict(times=v.items[1], trans=v.items[2], shape=IP.PyTuple([t(2, 3), t(2, 3)]), linear=T.TRUE, real=T.TRUE,
                                     matrix_safe=T.FALSE, jit_safe=T.TRUE))]
    kr = "(M, N):\n K = jnp.reshape(M[:, None, :, None] * jnp.eye(3)[None, :, None, :] * N[:, :, None, None], (6, 6))\n"
    sa = lambda I: [arr("M", 2, 2), arr("N", 2, 3)]
    r(L, "to_matrix", twod, kr + " return K", label="array operator", specargs=sa)
    r(L, "to_adjoint_matrix", twod, kr + " return K.T", label="array operator", specargs=sa)
    # inner product tests: accept the adjoint, reject another map
    def op(I, real, c):
        M = arr("M", 3, 4) if real else ops.array("M", num(3), num(4))
        f = I.spec("def spec(M):\n return (lambda x: M @ x), (lambda x: %s * (jnp.conj(M.T) @ x))" % c, "spec")
        v = I.call(f, [M], {})
        cls = I.get(L, "Operator")
        return I.call(cls, [], dict(times=v.items[0], trans=v.items[1], shape=IP.PyTuple([num(3), num(4)]), linear=T.TRUE,
                                    real=T.TRUE if real else T.FALSE))
    key = lambda: T.sym("key")
    for nm, real in (("dot_test_real", True), ("dot_test_complex", False), ("rdot_test_complex", False)):
        for lab, c, want in (("adjoint", "1", "True"), ("twice the adjoint", "2", "False"), ("half the adjoint", "0.5", "False"),
                             ("minus the adjoint", "-1", "False"), ("slightly scaled adjoint", "1.001", "False")):
            def kenv(P, s, g, d, real=real):
                P.env[T.sym("key")] = s + 1
                P.env[T.sym("M")] = g.randn(3, 4) + (0 if real else 1j) * g.randn(3, 4)
            k2 = dict(real=real, cplx=not real, n=24, env=kenv)
            r(L, nm, (lambda real, c: lambda I: [key(), op(I, real, c)])(real, c), "(): return " + want, label=lab, specargs=lambda I: [], **k2)


def utilities(r):
    PU = "cr.sparse.pursuit"
    h = lambda: arr("h", "n")
    r(PU, "abs_max_idx", lambda: [h()], "(h): return jnp.argmax(jnp.abs(h))")
    r(PU, "largest_indices", lambda: [h(), num(3)], "(h, K): return jnp.argsort(jnp.abs(h))[::-1][:3]", label="3")

    def chol(P, s, g, d):
        m = 3 + s % 3
        B = g.randn(9, m + 1)
        B = B / np.linalg.norm(B, axis=0)
        L = np.linalg.cholesky(B[:, :m].T @ B[:, :m])
        P.env[T.sym("L")] = L
        P.env[T.sym("v")] = B[:, :m].T @ B[:, m:]
    # the factor of the Gram matrix extended by one unit norm atom
    r(PU, "gram_chol_update", lambda: [arr("L", "k", "k"), arr("v", "k", 1)],
      "(L, v):\n G = L @ L.T\n return jnp.vstack((jnp.hstack((G, v)), jnp.hstack((v.T, jnp.ones((1, 1))))))", label="gram", env=chol,
      sizes={"k": lambda s: 3 + s % 3}, post=lambda I, v: I.call(I.spec("def spec(L): return L @ L.T", "spec"), [v], {}))
    r(PU, "gram_chol_update", lambda: [arr("L", "k", "k"), arr("v", "k", 1)], "(L, v): return 0", label="triangular", env=chol,
      sizes={"k": lambda s: 3 + s % 3}, post=lambda I, v: I.call(I.spec("def spec(L): return jnp.sum(jnp.abs(jnp.triu(L, 1)))", "spec"), [v], {}))
    O = "cr.sparse.opt"
    wide = lambda P, s, g, d: P.env.update({T.sym("x"): g.randn(d("n")) * (1, 4, 0.2)[s % 3], T.sym("q"): 0.3 + abs(g.randn())})
    x = lambda: arr("x", "n")

    def q():
        t = ops.scalar("q", True)
        T.CTX.nonneg.add(t)
        return t
    r(O, "project_to_ball", lambda: [x(), q()], "(x, q): return x * jnp.minimum(1, q / jnp.linalg.norm(x))", env=wide)
    r(O, "project_to_box", lambda: [x(), q()], "(x, q): return jnp.clip(x, -q, q)", env=wide)
    r(O, "project_to_real_upper_limit", lambda: [x(), q()], "(x, q): return jnp.where(x > q, q, x)", env=wide)
    r(O, "shrink", lambda: [x(), q()], "(x, q): return jnp.sign(x) * jnp.maximum(jnp.abs(x) - q, 0)", env=wide)
    V = "cr.sparse.vision"
    for size in (3, 4, (3, 5), (4, 2)):
        hh, ww = size if isinstance(size, tuple) else (size, size)
        sg = lambda: ops.scalar("s", True)
        arg = (lambda size: lambda: IP.PyTuple([num(i) for i in size]) if isinstance(size, tuple) else num(size))(size)
        gs = ("(a, b):\n y = (jnp.arange(%d) - %s)[:, None]\n x = (jnp.arange(%d) - %s)[None, :]\n"
              " k = jnp.exp(-(x ** 2 / (2 * a ** 2) + y ** 2 / (2 * b ** 2)))\n return k / jnp.sum(k)" % (hh, (hh - 1) / 2, ww, (ww - 1) / 2))
        se = lambda P, s, g, d: P.env.update({T.sym("s"): 0.6 + s * 0.2, T.sym("s2"): 1.9 - s * 0.1})
        r(V, "kernel_gaussian", (lambda arg: lambda: [arg(), sg()])(arg), gs, label="size %s" % (size,), specargs=lambda I: [sg(), sg()], env=se)
        r(V, "kernel_gaussian", (lambda arg: lambda: [arg(), IP.PyTuple([sg(), ops.scalar("s2", True)])])(arg), gs, label="size %s, two sigmas" % (size,),
          specargs=lambda I: [sg(), ops.scalar("s2", True)], env=se)
    # assignment of labels: contingency table, optimality, relabelling
    C = "cr.sparse.cluster"
    tl, pl = (lambda: iarr("t", "n")), (lambda: iarr("p", "n"))
    env = both(ints("t", 3), ints("p", 3))
    perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    tot = " + ".join("G[%d, cols[%d]]" % (i, i) for i in range(3))
    best = "jnp.max(jnp.array([%s]))" % ", ".join(" + ".join("G[%d, %d]" % (i, c) for i, c in enumerate(p)) for p in perms)
    post = lambda I, v: I.call(I.spec("def spec(m, cols, G, p): return G, %s, m - (1 * (p == cols[1]) + 2 * (p == cols[2]))" % tot, "spec"), list(v.items) + [pl()], {})
    r(C, "best_map_k", lambda: [tl(), pl(), num(3)],
      "(t, p, k):\n a = jnp.arange(3)\n G = (a[:, None] == t[None, :]) * 1 @ ((p[:, None] == a[None, :]) * 1)\n return G, %s, 0 * p" % best, env=env,
      sizes={"n": lambda s: 6 + s}, n=16, post=post, parts=("table", "optimal", "relabelled"))
    # progress tracker
    TR = "cr.sparse"

    def track(I, f, a, kw):
        o = I.call(f, list(a), dict(kw))
        cls = I.get("cr.sparse._src.types", "RecoveryFullSolution")
        I.call(o, [IP.NT(cls, dict(x=arr("x", "n"), r=arr("r", "m"), iterations=num(7)))], dict(more=T.TRUE))
        return IP.PyTuple([I.getattr(o, k) for k in ("x_norms", "r_norms", "iterations", "snrs")])
    r(TR, "ProgressTracker", lambda: [arr("x0", "n")],
      "(x0, x, r): return (jnp.linalg.norm(x),), (jnp.linalg.norm(r),), (7,), (10 * jnp.log10(jnp.sum(x0 ** 2) / jnp.sum((x0 - x) ** 2)),)",
      call=track, specargs=lambda I: [arr("x0", "n"), arr("x", "n"), arr("r", "m")])


def more(r):
    x, y = (lambda: arr("x", "n")), (lambda: arr("y", "m"))
    # 1-bit compressive sensing: renormalised fixed point iteration
    CS = "cr.sparse.cs.cs1bit"
    step = """
    def step(x, tau):
        q = y * (A @ x)
        g = A.T @ (y * jnp.where(q <= 0, q, 0))
        h = x - delta * (g - jnp.vdot(g, x) * x)
        u = jnp.maximum(0, h - tau) + jnp.minimum(0, h + tau)
        return u / jnp.linalg.norm(u)
"""
    nest = {(1, 1): "step(x, t)", (2, 1): "step(step(x, t), t)", (1, 2): "step(step(x, t), t / 1.5)"}

    def bits(P, s, g, d):
        P.env[T.sym("y")] = np.sign(g.randn(d("m")))
        v = g.randn(d("n"))
        P.env[T.sym("x")] = v / np.linalg.norm(v)
        P.env[T.sym("lam")], P.env[T.sym("delta")] = 1 + s, 0.05 + 0.01 * (s % 4)
    sc = lambda nm: ops.scalar(nm, True)
    for (i, o), e in nest.items():
        r(CS, "rfp", lambda: [A(), y(), x(), sc("lam"), sc("delta")], "def spec(A, y, x, lam, delta):" + step + "    t = delta / lam\n    return " + e,
          label="%d inner, %d outer" % (i, o), kw=(lambda i, o: lambda: dict(inner_iters=num(i), outer_iters=num(o)))(i, o), env=bits,
          post=lambda I, v: I.getattr(v, "x"), sizes={"n": 4, "m": 6})
    r(CS, "rfp_random_guess", lambda: [A()], "(A): return 1", post=lambda I, v: I.call(I.spec("def spec(v): return jnp.sum(v ** 2)", "spec"), [v], {}))
    r(CS, "rfp_lsqr_guess", lambda: [A(), y()], "(A, y):\n v = jnp.linalg.solve(A.T @ A, A.T @ y)\n return v / jnp.sqrt(jnp.sum(v ** 2))", sizes={"n": 3, "m": 6})
    # one step of FOCUSS
    F = "cr.sparse.cvx.focuss"
    for p in (1, 0.5):
        r(F, "step_noiseless", (lambda p: lambda: [A(), y(), x(), num(p)])(p),
          "(A, y, x, p):\n w = jnp.abs(x) ** (2 * %s)\n return w * (A.T @ jnp.linalg.solve((A * w) @ A.T, y))" % p, label="p=%s" % p, sizes={"n": 6, "m": 3})
    # K-sparse self expressive representations
    S = "cr.sparse.cluster.ssc"
    pick = ("(X):\n n = X.shape[1]\n D = X / jnp.sqrt(jnp.sum(X ** 2, axis=0))\n pick = lambda R: jnp.argmax(jnp.abs((D.T @ R) * (1 - jnp.eye(n))), axis=0)\n"
            " i = pick(X)\n a = jnp.sum(D[:, i] * X, axis=0)\n R = X - D[:, i] * a\n")
    one = pick + " return a[None, :], i[None, :], R"
    two = pick + (" j = pick(R)\n b = jnp.sum(D[:, j] * X, axis=0)\n g = jnp.sum(D[:, i] * D[:, j], axis=0)\n"
                  " u = (a - g * b) / (1 - g ** 2)\n v = (b - g * a) / (1 - g ** 2)\n"
                  " return jnp.stack((u, v)), jnp.stack((i, j)), X - D[:, i] * u - D[:, j] * v")
    X = lambda: arr("X", "m", "n")
    osz = {"n": lambda s: 6 + s % 3, "m": 4}
    for j in ("", "_jit"):
        for k, spec in ((1, one), (2, two)):
            kk = lambda k=k: num(k)
            r(S, "build_representation_omp" + j, (lambda kk: lambda: [X(), kk()])(kk), spec, label="%d-sparse" % k, sizes=osz, parts=("coefficients", "indices", "residuals"),
              specargs=lambda I: [X()])
        for b in (4, 6):
            r(S, "batch_build_representation_omp" + j, (lambda b: lambda: [arr("X", "m", 6), num(2), num(b)])(b), two, label="batches of %d" % b, sizes={"m": 4},
              parts=("coefficients", "indices", "residuals"), specargs=lambda I: [arr("X", "m", 6)])
    # affine maps of the first order methods
    FO = "cr.sparse.fom"
    for lab, a, b, body in (("affine", True, True, "A @ x + b"), ("linear", True, False, "A @ x"), ("translation", False, True, "x + b")):
        def aff(I, f, args, kw, a=a):
            g = I.call(f, list(args), dict(kw))
            v = [I.call(g, [arr("x", "n"), num(2)], {})]
            if a:
                v += [I.call(g, [arr("x", "n"), num(0)], {}), I.call(g, [arr("z", "m"), num(1)], {})]
            return IP.PyTuple(v)
        r(FO, "matrix_affine_func", (lambda a, b: lambda: [A() if a else NONE, arr("b", "m" if a else "n") if b else NONE])(a, b),
          "(A, b, x, z): return (%s%s)" % (body, ", A @ x, A.T @ z" if a else ","), label=lab, call=aff,
          specargs=(lambda a, b: lambda I: [A(), arr("b", "m" if a else "n"), arr("x", "n"), arr("z", "m")])(a, b))
    # operators
    L = "cr.sparse.lop"
    mat = lambda I: I.call(I.get(L, "matrix"), [A()], {})
    r(L, "upper_frame_bound", lambda I: [mat(I)], "(A): return jnp.sqrt(jnp.linalg.eigvalsh(A @ A.T)[-1])", specargs=lambda I: [A()], sizes={"m": 3, "n": 5})
    sub = lambda P, s, g, d: P.env.update({T.sym("I"): g.permutation(d("n"))[:d("k")]})
    r(L, "matrix", lambda: [A()], "(A, x, I): return A[:, I] @ x[I]", label="apply_columns", env=sub, sizes={"n": 6, "k": 3, "m": 4},
      call=lambda I, f, a, kw: I.call(I.getattr(I.call(f, list(a), dict(kw)), "apply_columns"), [x(), iarr("I", "k")], {}),
      specargs=lambda I: [A(), x(), iarr("I", "k")])
    r(L, "matrix", lambda: [A()], "(A, x, I): return A[:, I] @ x", label="columns", env=sub, sizes={"n": 6, "k": 3, "m": 4},
      call=lambda I, f, a, kw: I.call(I.getattr(I.call(I.getattr(I.call(f, list(a), dict(kw)), "columns"), [iarr("I", "k")], {}), "times"), [arr("w", "k")], {}),
      specargs=lambda I: [A(), arr("w", "k"), iarr("I", "k")])
    # BSBL options
    B = "cr.sparse.block.bsbl"
    from ..interp import NT
    names = ("learn_block_corr", "learn_lambda", "prune_gamma", "lambda_val", "max_iters", "epsilon")
    fields = lambda I, v: IP.PyTuple([I.getattr(v, k) for k in names])
    for ll, em, bo in ((0, "1e-12, 1e-3", "1e-12, 1e-3"), (1, "1e-3, 1e-2", "sd * 0.01, 1e-2"), (2, "1e-3, 1e-2", "sd * 0.01, 1e-2")):
        for nm, vals, it in (("bsbl_em_options", em, 800), ("bsbl_bo_options", bo, 300)):
            r(B, nm, lambda: [y()], "(y):\n sd = jnp.sqrt(jnp.mean((y - jnp.mean(y)) ** 2))\n lam, pg = %s\n return 1, %d, pg, lam, %d, 1e-8" % (vals, ll, it),
              kw=(lambda ll: lambda: dict(learn_lambda=num(ll)))(ll), label="learn_lambda=%d" % ll, post=fields, parts=names, specargs=lambda I: [y()])
    for nm in ("bsbl_em_options", "bsbl_bo_options"):
        r(B, nm, lambda: [y()], "(y): return 0, 2, 5, 6, 7, 8", label="given", kw=lambda: dict(learn_block_corr=num(0), learn_lambda=num(2), prune_gamma=num(5),
          lambda_val=num(6), max_iters=num(7), epsilon=num(8)), post=fields, parts=names, specargs=lambda I: [y()])
    r("cr.sparse.block.block", "block_lens_from_start_locs", lambda: [iarr("s", "k"), ops.size("n")],
      "(s, n): return jnp.concatenate((s[1:], jnp.array([n]))) - s", env=lambda P, s, g, d: P.env.update({T.sym("s"): np.sort(g.permutation(9)[:d("k")])}),
      sizes={"n": 12, "k": 4})
    # states of matching pursuit and FOCUSS
    def holes(P, s, g, d):
        v = g.randn(d("n"))
        v[g.permutation(d("n"))[:2]] = 0
        P.env[T.sym("x")] = v
    for mod, cls in (("cr.sparse._src.pursuit.mp", "MPState"),):
        r(mod, cls, lambda: [], "(x): return jnp.nonzero(x)[0], x[jnp.nonzero(x)[0]], x.size", env=holes, parts=("I", "x_I", "length"), specargs=lambda I: [x()],
          call=lambda I, f, a, kw: (lambda st: IP.PyTuple([I.getattr(st, k) for k in ("I", "x_I", "length")]))(
              IP.NT(f, dict(x=x(), r=arr("r", "m"), r_norm_sqr=ops.scalar("q", True), iterations=num(3)))))
    # grids of phase transition experiments
    PT = "cr.sparse.pursuit.phasetransition"
    for N, M0 in ((64, 16), (256, 16), (512, 32)):
        r(PT, "configuration", (lambda N: lambda: [num(N)])(N),
          "():\n q = %d\n a = jnp.arange(1, q + 1) * %d\n return a, a / %d, jnp.arange(1, %d) / %d" % (N // 2 // M0, M0, N, min(32, N // 4) + 1, 2 * min(32, N // 4)),
          label=str(N), specargs=lambda I: [], post=lambda I, v: IP.PyTuple([I.getattr(v, k) for k in ("Ms", "etas", "rhos")]), parts=("Ms", "etas", "rhos"))


# PROPACK's bidiagonalisation step with partial reorthogonalisation; the helpers of cr.nimble are stood for by simple functions
# that use all of their arguments, on both sides
HELPERS = """
def z_do_elr(v_prev, v, v_norm, gamma):
    s = jnp.vdot(v_prev, v)
    w = v - s * v_prev
    return w, jnp.linalg.norm(w) + gamma * v_norm / 8, s

def z_reorth_mgs(Q, r, r_norm, indices, alpha):
    w = r - Q @ jnp.where(indices, Q.T @ r, 0)
    return w, jnp.linalg.norm(w) + alpha * r_norm / 8, 1

def z_update_nu(nu, numax, mu, j, alpha, beta, anorm):
    return nu * alpha + mu * anorm / 4, numax + nu * beta[:-1] * j

def z_update_mu(mu, mumax, nu, j, alpha, beta, anorm):
    return mu * beta[1:] + nu * anorm / 4, mumax + mu * alpha * j

def z_compute_ind(mu, delta, eta):
    return jnp.abs(mu) > delta + eta

def z_bpro_norm_estimate(alpha, beta):
    return jnp.sum(alpha) + jnp.max(beta)

def z_new_p_vec(A, U, j, gamma):
    return U[:, 0] * gamma + j, 1

def z_new_r_vec(A, V, j, gamma):
    return V[:, 1] * gamma - j, 1
"""
LANSTEP = """def spec(M, p, U, V, al, be, mu, nu, mumax, numax, ind, anorms, anorm, force, fro, est, delta, eta, gamma, eps, k, j):
    unit = lambda v, c: jnp.where(c == 0, v, v / c)
    nrm = jnp.linalg.norm
    a = jnp.arange(k)
    u = unit(p, be[j])
    U = U.at[:, j].set(u)
    if j == 5:
        anorm = 1.01 * z_bpro_norm_estimate(al, be)
        est = False
    v0 = V[:, j - 1]
    r = M.T @ u - be[j] * v0
    rn = nrm(r)
    e, en, es = z_do_elr(v0, r, rn, gamma)
    c = False if fro else rn < gamma * be[j]
    r, rn, pr = (r, rn, 0) if fro else (jnp.where(c, e, r), jnp.where(c, en, rn), jnp.where(c, es, 0))
    al = al.at[j].set(rn)
    be = be.at[j].add(pr)
    if est:
        q = al[0] ** 2 + be[1] ** 2 + al[1] * be[1] if j == 1 else al[j - 1] ** 2 + be[j] ** 2 + al[j - 1] * be[j - 1] + al[j] * be[j]
        anorm = jnp.maximum(anorm, 1.01 * jnp.sqrt(q))
    if not fro:
        a1, a2 = z_update_nu(nu, numax, mu, j, al, be, anorm)
        nu, numax = jnp.where(rn != 0, a1, nu), jnp.where(rn != 0, a2, numax)
    nu = nu.at[j - 1].set(1.5 * eps)
    c = (jnp.asarray(True) if fro or force else numax[j] > delta) & (al[j] != 0)
    I = a < j if fro else ind if force else z_compute_ind(nu, delta, eta)
    r2, rn2, _ = z_reorth_mgs(V, r, rn, I, gamma)
    r, rn = jnp.where(c, r2, r), jnp.where(c, rn2, rn)
    nu = jnp.where(c, jnp.where(I, 1.5 * eps, nu), nu)
    ind = jnp.where(c, I, ind)
    force = jnp.where(c, not force, force)
    c = rn < max(M.shape[0], M.shape[1]) * anorm * eps
    r, rn, force, ind = jnp.where(c, z_new_r_vec(M, V, j, gamma)[0], r), jnp.where(c, 0, rn), jnp.where(c, True, force), jnp.where(c, a < j, ind)
    al = al.at[j].set(rn)
    v = unit(r, rn)
    V = V.at[:, j].set(v)
    p = M @ v - al[j] * u
    pn = nrm(p)
    e, en, es = z_do_elr(u, p, pn, gamma)
    c = False if fro else pn < gamma * rn
    p, pn, pr = (p, pn, 0) if fro else (jnp.where(c, e, p), jnp.where(c, en, pn), jnp.where(c, es, 0))
    be = be.at[j + 1].set(pn)
    al = al.at[j].add(pr)
    if est:
        anorm = jnp.maximum(anorm, 1.01 * jnp.sqrt(al[j] ** 2 + be[j + 1] ** 2 + al[j] * be[j]))
    if not fro:
        a1, a2 = z_update_mu(mu, mumax, nu, j, al, be, anorm)
        mu, mumax = jnp.where(pn != 0, a1, mu), jnp.where(pn != 0, a2, mumax)
    mu = mu.at[j].set(1.5 * eps)
    c = (jnp.asarray(True) if fro else (mumax[j] > delta) | force) & (pn != 0)
    ext = ind.at[k - jnp.argmax(ind[::-1])].set(True)
    I = a <= j if fro else jnp.where(force, ext, z_compute_ind(mu, delta, eta))
    p2, pn2, _ = z_reorth_mgs(U, p, pn, I, gamma)
    p, pn = jnp.where(c, p2, p), jnp.where(c, pn2, pn)
    mu = jnp.where(c, jnp.where(I, 1.5 * eps, mu), mu)
    ind = jnp.where(c, I, ind)
    force = jnp.where(c, jnp.logical_not(force), force)
    c = pn < max(M.shape[0], M.shape[1]) * anorm * eps
    p, pn, force, ind = jnp.where(c, z_new_p_vec(M, U, j + 1, gamma)[0], p), jnp.where(c, 0, pn), jnp.where(c, True, force), jnp.where(c, a <= j, ind)
    be = be.at[j + 1].set(pn)
    return p, U, V, al, be, mu, nu, mumax, numax, ind * 1, anorm, anorms.at[j].set(anorm), force * 1, j + 1
"""
LANFIELDS = ("p", "U", "V", "alpha", "beta", "mu", "nu", "mumax", "numax", "indices", "anorm", "anorms", "b_force_reorth", "iterations")


def lanczos(r):
    S, L = "cr.sparse.sls.svd", "cr.sparse.lop"
    K, m, n = 6, 5, 7
    LU = "cr.nimble._src.svdpack.lanbpro_utils"
    names = ("do_elr", "reorth_mgs", "update_nu", "update_mu", "compute_ind", "bpro_norm_estimate", "new_p_vec", "new_r_vec")
    stand = lambda nm: lambda I, f, a, kw, node: I.call(I.spec(HELPERS, "z_" + nm), list(a), dict(kw))
    opq = {nm: stand(nm) for nm in names}
    sc = lambda nm: ops.scalar(nm, True)
    vec = lambda: dict(p=arr("p", m), U=arr("U", m, K), V=arr("V", n, K), alpha=arr("al", K), beta=arr("be", K + 1), mu=arr("mu", K), nu=arr("nu", K),
                       mumax=arr("mumax", K), numax=arr("numax", K), indices=T.mk("cmp", "<", arr("ix", K), num(0)), anorms=arr("anorms", K), anorm=sc("anorm"))
    b = lambda v: T.TRUE if v else T.FALSE

    def env(P, s, g, d):
        for nm, sh in (("p", m), ("U", (m, K)), ("V", (n, K)), ("mu", K), ("nu", K), ("ix", K), ("anorms", K), ("M", (m, n))):
            P.env[T.sym(nm)] = g.randn(*(sh if isinstance(sh, tuple) else (sh,)))
        for nm, sh in (("al", K), ("be", K + 1), ("mumax", K), ("numax", K)):
            P.env[T.sym(nm)] = np.abs(g.randn(sh)) + 0.1
        P.env[T.sym("anorm")] = (1.0, 4.0, 9.0)[s % 3]
        for nm, v in (("delta", (0.2, 3.0, 30.0)[(s // 3) % 3]), ("eta", 0.1), ("gamma", (0.7, 3.0)[s % 2]), ("eps", (1e-3, 1e-3, 0.3)[(s // 2) % 3])):
            P.env[T.sym(nm)] = v
    for j, fro, force, est in ((2, 0, 0, 1), (2, 0, 1, 1), (3, 1, 0, 1), (1, 0, 0, 1), (4, 0, 0, 0), (5, 0, 0, 1)):
        def call(I, f, a, kw, j=j, fro=fro, force=force, est=est):
            st = IP.NT(I.get(LU, "LanBProState"), dict(vec(), nreorthu=num(0), nreorthv=num(0), npu=num(0), npv=num(0), nrenewu=num(0), nrenewv=num(0),
                       b_force_reorth=b(force), b_fro=b(fro), b_est_anorm=b(est), iterations=num(j)))
            op = IP.NT(I.get(LU, "LanBDOptions"), dict(delta=sc("delta"), eta=sc("eta"), gamma=sc("gamma"), cgs=T.FALSE, elr=num(2), eps=sc("eps")))
            v = I.call(f, [I.call(I.get(L, "matrix"), [arr("M", m, n)], {}), st, op], {})
            one = I.spec("def spec(v): return v * 1", "spec")
            return IP.PyTuple([I.call(one, [I.getattr(v, q)], {}) if q in ("indices", "b_force_reorth") else I.getattr(v, q) for q in LANFIELDS])
        if j == 5:
            continue
        r(S, "lanbpro_iteration", lambda: [], HELPERS.lstrip() + LANSTEP, label="step %d%s%s%s" % (j, ", full" * fro, ", forced" * force, "" if est else ", norm known"),
          opaque=opq, call=call, env=env, n=18, parts=LANFIELDS, cheap=not fro,
          specargs=(lambda j, fro, force, est: lambda I: [arr("M", m, n)] + list(vec().values()) + [b(force), b(fro), b(est)] +
                    [sc(q) for q in ("delta", "eta", "gamma", "eps")] + [num(K), num(j)])(j, fro, force, est))

    # start of the bidiagonalisation
    init = """def spec(M, p0, k, delta, eta, gamma, eps):
    unit = lambda v, c: jnp.where(c == 0, v, v / c)
    nrm = jnp.linalg.norm
    m, n = M.shape
    b0 = nrm(p0)
    u = unit(p0, b0)
    r = M.T @ u
    a0 = nrm(r)
    v = unit(r, a0)
    p, pn, _ = z_do_elr(u, M @ v - a0 * u, nrm(M @ v - a0 * u), gamma)
    U = jnp.zeros((m, k)).at[:, 0].set(u)
    c = pn < max(m, n) * 1.01 * a0 * eps
    p, pn = jnp.where(c, z_new_p_vec(M, U, 1, gamma)[0], p), jnp.where(c, 0, pn)
    return (p, U, jnp.zeros((n, k)).at[:, 0].set(v), jnp.zeros(k).at[0].set(a0), jnp.zeros(k + 1).at[0].set(b0).at[1].set(pn),
            jnp.maximum(1.01 * a0, 1.01 * jnp.sqrt(a0 ** 2 + pn ** 2)), (jnp.arange(k) < 1) * jnp.where(c, 1, 0), jnp.where(c, 1, 0), 1)
"""
    INITF = ("p", "U", "V", "alpha", "beta", "anorm", "indices", "b_force_reorth", "iterations")

    def start(I, f, a, kw):
        op = IP.NT(I.get(LU, "LanBDOptions"), dict(delta=sc("delta"), eta=sc("eta"), gamma=sc("gamma"), cgs=T.FALSE, elr=num(2), eps=sc("eps")))
        v = I.call(f, [I.call(I.get(L, "matrix"), [arr("M", m, n)], {}), num(K), arr("p", m), op], {})
        one = I.spec("def spec(v): return v * 1", "spec")
        return IP.PyTuple([I.call(one, [I.getattr(v, q)], {}) if q in ("indices", "b_force_reorth") else I.getattr(v, q) for q in INITF])
    r(S, "lanbpro_init", lambda: [], HELPERS.lstrip() + init, opaque=opq, call=start, env=env, n=18, parts=INITF, cheap=True,
      specargs=lambda I: [arr("M", m, n), arr("p", m), num(K)] + [sc(q) for q in ("delta", "eta", "gamma", "eps")])
    # singular triplets from the bidiagonal matrix
    sv = dict(lanbpro_init=lambda I, f, a, kw, node: IP.NT(Rec, dict(p=arr("p", 9), U=arr("U", 9, 8), V=arr("V", 8, 8), alpha=arr("al", 8), beta=arr("be", 9))),
              lanbpro_iteration=lambda I, f, a, kw, node: a[1],
              bdsqr=lambda I, f, a, kw, node: I.call(I.spec("def spec(al, be, k): return jnp.eye(9)[:k+1, :k] * 3 + jnp.outer(be[:k+1], al[:k]), jnp.sort(al[:k])[::-1], jnp.outer(al[:k], be[:k]), be[:k]", "spec"), a, {}),
              refine_bounds=lambda I, f, a, kw, node: I.call(I.spec("def spec(D, b, t): return b + D * t", "spec"), a, {}))
    for j in ("", "_jit"):
        r(S, "lansvd_simple" + j, lambda: [], """def spec(p, U, V, al, be):
    e = jnp.finfo(float).eps
    P = jnp.eye(9)[:, :8] * 3 + jnp.outer(be, al)
    S = jnp.sort(al)[::-1]
    b = jnp.linalg.norm(p) * jnp.abs(be[:8]) + S ** 2 * (8 * e * S[0])
    return U @ P[:8, :2], S[:2], V @ jnp.outer(be[:8], al)[:, :2], b""",
          label="2 of 9 x 8", unroll=8, opaque=sv, parts=("U", "S", "V", "bounds"), cheap=True, env=lambda P, s, g, d: P.env.update({T.sym("al"): np.abs(g.randn(8)) + 0.1, T.sym("be"): np.abs(g.randn(9))}),
          call=lambda I, f, a, kw: IP.PyTuple(I.call(f, [I.call(I.get(L, "matrix"), [arr("M", 9, 8)], {}), num(2), arr("p", 9)], {}).items[:4]),
          specargs=lambda I: [arr("p", 9), arr("U", 9, 8), arr("V", 8, 8), arr("al", 8), arr("be", 9)])


def run(r):
    table.run(r, rows())
