"""Generated dictionaries, bases and test data have the structure asked for.

Each generator is value-numbered over an arbitrary key; the laws relate its
result to a formula: orthonormality, column norms, supports, ranges, angles."""
from .. import interp as IP
from .. import ops
from .. import table
from .. import term as T
from ..table import Row
from ..term import num

EXPLANATION = (
    "Every public generator of dictionaries, bases, sparse signals, index sets, subspaces and frames is analysed with an arbitrary key "
    "(random draws are uninterpreted arrays of the drawn shape); the value number of an expression over its result that must be constant "
    "(Gram matrix, column norms, support, ranges, pairwise products) is compared with that constant. Equality: normal form and branch cases; "
    "a difference is reported only with a separating outcome of the draws.")
FLOOR = 5
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "laws in vlib/props/p17.py", "one-level filter bank of cr.wavelets"]
D = "cr.sparse.dict"
X = "cr.sparse.data"
ORTH = "jnp.conj(%s.T) @ %s"


def rows():
    R = []

    def law(mod, name, lhs, rhs, label="", pre=(), **kw):
        """lhs(f, key, *pre) against rhs(key, *pre)"""
        ar = lambda: [T.sym("key")] + [ops.size(p) if isinstance(p, str) else num(p) if isinstance(p, int) else p() for p in pre]
        R.append(Row(mod, name, ar, "def spec" + rhs, label,
                     call=lambda I, f, a, k: I.call(I.spec("def spec" + lhs, "spec"), [f] + list(a), {}), n=kw.pop("n", 6), rule=kw.pop("rule", "law"), **kw))
    dictionaries(law)
    bases(law)
    signals(law)
    blocks(law)
    subspaces(law)
    frames(law)
    return R


def dictionaries(law):
    law(D, "gaussian_mtx", "(f, key, m, n): return jnp.sum(f(key, m, n) ** 2, axis=0)", "(key, m, n): return jnp.ones(n)", "unit norm atoms", ("m", "n"))
    law(D, "gaussian_mtx", "(f, key, m, n):\n A = f(key, m, n)\n B = f(key, m, n, False)\n return A * jnp.sqrt(jnp.sum(B ** 2, axis=0))[None, :] - B, A.shape[0], A.shape[1]",
        "(key, m, n): return jnp.zeros((m, n)), (m, n)", "same directions", ("m", "n"))
    law(D, "gaussian_mtx", "(f, key, m, n): return f(key, m, n, normalize_atoms=False)", "(key, m, n): return jax.random.normal(key, (m, n)) / jnp.sqrt(m)",
        "variance 1/m", ("m", "n"))
    law(D, "rademacher_mtx", "(f, key, m, n):\n A = f(key, m, n)\n return jnp.abs(A), f(key, m, n, False) - A * jnp.sqrt(m)",
        "(key, m, n): return jnp.ones((m, n)) / jnp.sqrt(m), jnp.zeros((m, n))", "signs over sqrt(m)", ("m", "n"))
    for dd in (1, 2, 3):
        s = "A = f(key, 5, 7, %d, dense=True)\n B = f(key, 5, 7, %d, normalize_atoms=False, dense=True)\n" % (dd, dd)
        law(D, "sparse_binary_mtx", "(f, key):\n %s return jnp.sum(A != 0, axis=0), jnp.sum(A ** 2, axis=0), jnp.sum(B, axis=0), A * jnp.sqrt(%d) - B, B * B - B, A.shape[0], A.shape[1]" % (s, dd),
            "(key): return %d * jnp.ones(7), jnp.ones(7), %d * jnp.ones(7), jnp.zeros((5, 7)), jnp.zeros((5, 7)), 5, 7" % (dd, dd), "d = %d" % dd)


def bases(law):
    law(D, "random_onb", "(f, key, n):\n A = f(key, n)\n return A.T @ A, A @ A.T", "(key, n): return jnp.eye(n), jnp.eye(n)", "orthonormal", ("n",))
    law(D, "random_orthonormal_rows", "(f, key, m, n):\n A = f(key, m, n)\n return A @ A.T, A.shape[0], A.shape[1]", "(key, m, n): return jnp.eye(m), (m, n)", "orthonormal rows", ("m", "n"),
        sizes={"n": lambda s: 5 + s % 2})
    for n in (1, 2, 4, 8):
        law(D, "hadamard", "(f, key):\n H = f(%d)\n return H @ H.T, H * H, H - H.T, H[0]" % n,
            "(key): return %d * jnp.eye(%d), jnp.ones((%d, %d)), jnp.zeros((%d, %d)), jnp.ones(%d)" % ((n,) * 7), "order %d" % n)
        law(D, "hadamard_basis", "(f, key):\n H = f(%d)\n return H @ H.T, H.T @ H, H * H" % n,
            "(key): return jnp.eye(%d), jnp.eye(%d), jnp.ones((%d, %d)) / %d" % ((n,) * 5), "order %d" % n)
        if n > 1:
            law(D, "dirac_hadamard_basis", "(f, key): return f(%d)" % n, "(key):\n import cr.sparse.dict as d\n return jnp.hstack((jnp.eye(%d), d.hadamard_basis(%d)))" % (n, n), "order %d" % n)
            law(D, "dirac_hadamard_cosine_basis", "(f, key): return f(%d)" % n,
                "(key):\n import cr.sparse.dict as d\n return jnp.hstack((jnp.eye(%d), d.hadamard_basis(%d), d.cosine_basis(%d)))" % (n, n, n), "order %d" % n)
    for n in (2, 3, 5, 8):
        dct = "(key):\n k = jnp.arange(%d)\n C = jnp.cos(jnp.pi * (2 * k[None, :] + 1) * k[:, None] / %d) * jnp.where(k == 0, jnp.sqrt(1 / %d), jnp.sqrt(2 / %d))[:, None]\n" % (n, 2 * n, n, n)
        law(D, "cosine_basis", "(f, key):\n C = f(%d)\n return C @ C.T, C.T @ C, C" % n, dct + " return jnp.eye(%d), jnp.eye(%d), C" % (n, n), "order %d" % n, tol=1e-5)
        law(D, "dirac_cosine_basis", "(f, key): return f(%d)" % n, dct + " return jnp.hstack((jnp.eye(%d), C))" % n, "order %d" % n, tol=1e-5)
        ft = "(key):\n k = jnp.arange(%d)\n F = jnp.exp(2j * jnp.pi * k[:, None] * k[None, :] / %d) / jnp.sqrt(%d)\n" % (n, n, n)
        law(D, "fourier_basis", "(f, key):\n F = f(%d)\n return jnp.conj(F.T) @ F, F" % n, ft + " return jnp.eye(%d), F" % n, "order %d" % n, real=False, cplx=True, tol=1e-5)
    for w in ("haar", "db2", "db4"):
        for n, lv in ((8, 1), (16, 1), (16, 2)):
            if w == "db4" and lv == 2:
                continue
            law(D, "wavelet_basis", "(f, key):\n F = f(%d, '%s', %d)\n return F.T @ F, F @ F.T" % (n, w, lv), "(key): return jnp.eye(%d), jnp.eye(%d)" % (n, n), "%s, %d, level %d" % (w, n, lv), tol=1e-4)


def signals(law):
    for n, k, s in ((7, 3, 1), (8, 2, 1), (6, 4, 3), (5, 5, 2), (5, 1, 2)):
        lab = "n=%d k=%d s=%d" % (n, k, s)
        shp = "(%d,)" % n if s == 1 else "(%d, %d)" % (n, s)
        put = "jnp.zeros(%d).at[w].set(1)%s" % (n, "" if s == 1 else "[:, None] * jnp.ones((%d, %d))" % (n, s))
        base = "m = %s\n return 1 * (x != 0) - m, w.shape[0], jnp.sum(w[1:] > w[:-1]), jnp.sum((w >= 0) & (w < %d)), x.ndim, x.shape[0], " % (put, n)
        want = "jnp.zeros(%s), %d, %d, %d, %d, %d, " % (shp, k, k - 1, k, 1 if s == 1 else 2, n)
        law(X, "sparse_normal_representations", "(f, key):\n x, w = f(key, %d, %d, %d)\n %s 0" % (n, k, s, base), "(key): return %s 0" % want, lab)
        law(X, "sparse_biuniform_representations", "(f, key):\n x, w = f(key, 0.5, 1.5, %d, %d, %d)\n a = jnp.abs(x[w])\n %s jnp.sum((a < 0.5) | (a > 1.5))" % (n, k, s, base),
            "(key): return %s 0" % want, lab)
        law(X, "sparse_spikes", "(f, key):\n x, w = f(key, %d, %d, %d)\n %s jnp.sum(jnp.abs(x[w]) != 1)" % (n, k, s, base), "(key): return %s 0" % want, lab)
    law(X, "sparse_biuniform_representations", "(f, key):\n x, w = f(key, 2., 3., 40, 20, 5)\n v = x[w]\n a = jnp.abs(v)\n return jnp.min(a) < 2.5, jnp.max(a) > 2.5, jnp.min(v) < 0, jnp.max(v) > 0",
        "(key): return True, True, True, True", "both signs, whole range", n=3)
    law(X, "sparse_spikes", "(f, key):\n x, w = f(key, 40, 20, 5)\n v = x[w]\n return jnp.min(v) + 1, jnp.max(v) - 1", "(key): return 0, 0", "both signs", n=3)
    for ax in (0, 1):
        law(X, "index_sets", "(f, key):\n I = f(key, 9, 4, 5%s)\n J = jnp.sort(I, axis=%d)\n return I.shape[0], I.shape[1], jnp.sum(%s), jnp.sum((I < 0) | (I >= 9))"
            % (", 1" if ax else "", 1 - ax, "J[1:] == J[:-1]" if ax else "J[:, 1:] == J[:, :-1]"), "(key): return %s, 0, 0" % ("(4, 5)" if ax else "(5, 4)"), "axis %d" % ax)
    law(X, "points_orthogonal_to", "(f, key, x):\n P = f(key, x, 4)\n return P @ x, P.shape[0], P.shape[1]", "(key, x): return jnp.zeros(4), (4, x.shape[0])", "orthogonal", (lambda: ops.array("x", ops.size("n"), real=True),))
    law(X, "points_orthogonal_to", "(f, key, x):\n P = f(key, x, 4)\n Z = jax.random.normal(key, (4,) + x.shape)\n u = x / jnp.sqrt(jnp.sum(x ** 2))\n E = Z - P\n return E - (E @ u)[:, None] * u[None, :]",
        "(key, x): return jnp.zeros((4,) + x.shape)", "only the component along x is removed", (lambda: ops.array("x", ops.size("n"), real=True),))


def blocks(law):
    for n, k, b, s in ((12, 2, 3, 1), (12, 3, 2, 1), (12, 2, 3, 2), (8, 2, 4, 3), (6, 3, 2, 2)):
        c = n // b
        for nrm in (False, True):
            for cor in (0.0, 0.6):
                lab = "n=%d k=%d b=%d s=%d%s%s" % (n, k, b, s, " normalized" if nrm else "", " correlated" if cor else "")
                shp = "(%d,)" % n if s == 1 else "(%d, %d)" % (n, s)
                mask = "jnp.zeros(%d).at[i].set(1)%s" % (n, "" if s == 1 else "[:, None] * jnp.ones((%d, %d))" % (n, s))
                law(X, "sparse_normal_blocks",
                    "(f, key):\n x, w, i = f(key, %d, %d, %d, %d, cor=%r, normalize_blocks=%r)\n v = x.reshape((%d, %d, %d))\n q = jnp.sum(v ** 2, axis=1)[w]\n"
                    " e = i.reshape((%d, %d)) - %d * w[:, None] - jnp.arange(%d)[None, :]\n"
                    " return 1 * (x != 0) - %s, w.shape[0], jnp.sum(w[1:] > w[:-1]), jnp.sum((w >= 0) & (w < %d)), e, %s" % (
                        n, k, b, s, cor, nrm, c, b, s, k, b, b, b, mask, c, "q" if nrm else "1 * (q > 0)"),
                    "(key): return jnp.zeros(%s), %d, %d, %d, jnp.zeros((%d, %d)), jnp.ones((%d, %d))" % (shp, k, k - 1, k, k, b, k, s), lab, n=3)


def subspaces(law):
    for fn in ("random_subspaces", "random_subspaces_jit"):
        law(X, fn, "(f, key):\n B = f(key, 6, 2, 3)\n return len(B), B[0].T @ B[0], B[1].T @ B[1], B[2].T @ B[2], B[0].shape[0], B[0].shape[1]", "(key): return 3, jnp.eye(2), jnp.eye(2), jnp.eye(2), (6, 2)", "orthonormal bases")
    for fn in ("uniform_points_on_subspaces", "uniform_points_on_subspaces_jit"):
        law(X, fn, "(f, key):\n import cr.sparse.data as d\n k = jax.random.split(key)\n B = d.random_subspaces(k[0], 6, 2, 3)\n Y = f(k[1], B, 4)\n"
            " P = lambda A, Z: jnp.sum(jnp.abs(Z - A @ (A.T @ Z)))\n return Y.shape[0], Y.shape[1], jnp.sum(Y ** 2, axis=0), P(B[0], Y[:, :4]), P(B[1], Y[:, 4:8]), P(B[2], Y[:, 8:])",
            "(key): return (6, 12), jnp.ones(12), 0, 0, 0", "unit points in their subspace", tol=1e-5)
    for th in (30, 45, 60, 90):
        for dim, big in ((1, 6), (2, 6), (3, 8)):
            for sfx in ("", "_jit"):
                e = "jnp.zeros((%d, %d)).at[0, 0].set(jnp.cos(jnp.pi * %d / 180))" % (dim, dim, th)
                i = "jnp.eye(%d)" % dim
                law(X, "two_subspaces_at_angle" + sfx, "(f, key):\n A, B = f(key, %d, %d, %d)\n return A.T @ A, B.T @ B, A.T @ B" % (big, dim, th), "(key): return %s, %s, %s" % (i, i, e),
                    "%d degrees, dimension %d" % (th, dim), n=3, tol=1e-5)
                law(X, "three_subspaces_at_angle" + sfx, "(f, key):\n A, B, C = f(key, %d, %d, %d)\n return A.T @ A, B.T @ B, C.T @ C, A.T @ B, A.T @ C, B.T @ C" % (big + 3, dim, th),
                    "(key): return %s, %s, %s, %s, %s, %s" % (i, i, i, e, e, e), "%d degrees, dimension %d" % (th, dim), n=3, tol=1e-5)


def frames(law):
    law(D, "minimum_coherence", "(f, key, m, n): return f(m, n) ** 2 * (m * (n - 1))", "(key, m, n): return n - m", "Welch bound", ("m", "n"), sizes={"n": lambda s: 6 + s})
    for it in (1, 2, 4):
        law(D, "build_grassmannian_frame", "(f, key):\n import cr.sparse.dict as d\n A = d.gaussian_mtx(key, 4, 8)\n F = f(A, 0.8, 0.7, %d)\n return F.T @ F, F.shape[0], F.shape[1]" % it,
            "(key):\n import cr.sparse.dict as d\n A = d.gaussian_mtx(key, 4, 8)\n G = A.T @ A\n off = 1 - jnp.eye(8)\n for k in range(%d):\n"
            "  B = jnp.abs(G)\n  s = jnp.sort(B.ravel())\n  G = jnp.where(off * (B > s[44]) > 0, 0.7 * G, jnp.where(B < s[10], G / 0.7, G))\n"
            "  U, s, V = jnp.linalg.svd(G)\n  G = (U[:, :4] * s[:4]) @ V[:4]\n  w = jnp.sqrt(jnp.diag(G))\n  G = G / (w[:, None] * w[None, :])\n"
            " U, s, V = jnp.linalg.svd(G)\n return (U[:, :4] * s[:4]) @ U[:, :4].T, 4, 8" % it, "%d rounds of alternate projections" % it, tol=1e-5, unroll=6)


def run(r):
    table.run(r, rows())
