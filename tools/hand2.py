# further batches (read by hand.py): each entry rewrites functions of several files
H["b1-operators"] = [
("lop/basic.py", "    times = lambda x: jnp.concatenate((jnp.flipud(x), x))\n    trans = lambda x: x[n:] + x[n-1::-1]",
 "    def times(x):\n        mirrored = x[::-1]\n        return jnp.concatenate([mirrored, x], axis=0)\n    def trans(x):\n        head, tail = x[:n], x[n:]\n        return jnp.flip(head, axis=0) + tail"),
("lop/basic.py", "    times = lambda x: jnp.flipud(x)\n    trans = lambda x: jnp.flipud(x)", "    flip = lambda x: x[::-1]\n    times, trans = flip, flip"),
("lop/basic.py", "    times = lambda x: jnp.sum(x, keepdims=True, axis=0)", "    times = lambda x: jnp.sum(x, axis=0)[None]"),
("lop/basic.py", "def:heaviside.trans_u", "def trans_u(x):\n    return jnp.cumsum(x[::-1])[::-1]"),
("lop/basic.py", "    times_u = lambda x: jnp.diff(x, prepend=0)\n", "    times_u = lambda x: jnp.concatenate((x[:1], x[1:] - x[:-1]))\n"),
("lop/basic.py", "    times_n = lambda x: jnp.diff(x, prepend=0) * w\n", "    times_n = lambda x: w * times_u(x)\n"),
("lop/basic.py", "            return jnp.pad(x, pad_1_dim)", "            return jnp.concatenate((jnp.zeros(before, x.dtype), x, jnp.zeros(after, x.dtype)))"),
("lop/basic.py", "    times = lambda x: jnp.real(x)\n    trans = lambda x: jnp.real(x)", "    real_part = lambda x: jnp.real(x)\n    times = real_part\n    trans = real_part"),
("lop/basic.py", "def:restriction.times", """
def times(x):
    if x.ndim <= 2:
        ax = 0 if x.ndim == 1 else axis
        return jnp.take(x, jnp.asarray(I), axis=ax)
    return jnp.apply_along_axis(times1d, axis, x)"""),
("lop/basic.py", "def:matrix.trans", """
def trans(x):
    if x.ndim == 1:
        return trans1d(x)
    if x.ndim > 2:
        return jnp.apply_along_axis(trans1d, axis, x)
    AH = _hermitian(A)
    return AH @ x if axis == 0 else x @ AH.T"""),
("lop/lop.py", "def:hcat", """
def hcat(A, B):
    (ma, na), (mb, nb) = A.shape, B.shape
    assert ma == mb
    def times(x):
        left, right = jnp.split(x, [na])
        return A.times(left) + B.times(right)
    def trans(y):
        return jnp.concatenate([op.trans(y) for op in (A, B)], axis=0)
    flags = {k: getattr(A, k) and getattr(B, k) for k in ('jit_safe', 'matrix_safe', 'real', 'linear')}
    return Operator(times=times, trans=trans, shape=(ma, na + nb), **flags)"""),
("lop/lop.py", "def:apply_n", """
def apply_n(func, n, x):
    return jax.lax.fori_loop(0, n, lambda i, v: func(v), x)"""),
("lop/lop.py", "def:adjoint", """
def adjoint(A):
    return hermitian(A)"""),
("lop/lop.py", "def:subtract", """
def subtract(A, B):
    return add(A, neg(B))"""),
("lop/lop.py", "def:partial_op", """
def partial_op(A, picks, perm=None):
    assert picks.ndim == 1
    assert perm is None or perm.ndim == 1
    m, n = A.shape
    k = picks.shape[0]
    def times(x):
        return A.times(x if perm is None else x[perm])[picks]
    def trans(x):
        tmp = jnp.zeros((m,) + x.shape[1:], dtype=x.dtype).at[picks].set(x)
        y = A.trans(tmp)
        if perm is None:
            return y
        return jnp.zeros_like(y).at[perm].set(y)
    return A._replace(times=times, trans=trans, shape=(k, n))"""),
("lop/block_diag.py", "def:block_diag.times", """
def times(x):
    return jnp.concatenate([op.times(x[sl]) for op, sl in zip(operators, in_slices)])"""),
("lop/calculus.py", "def:_derivative_centered_adj", """
def _derivative_centered_adj(x, dx):
    d = x[1:-1] / (2 * dx)
    z = jnp.zeros(2, dtype=d.dtype)
    return jnp.concatenate((z, d)) - jnp.concatenate((d, z))"""),
("lop/calculus.py", "    trans = lambda x : jnp.convolve(x[1:-1], filter, 'full')", "    def trans(x):\n        inner = x[1:-1]\n        return jnp.convolve(filter, inner)"),
("lop/fft.py", "def:fft.trans", "def trans(w):\n    return lax.slice_in_dim(jfft.ifft(w, n, axis=axis) * n, 0, m, axis=axis)"),
("lop/util.py", "def:to_matrix", """
def to_matrix(A):
    if not A.linear:
        raise Exception("This operator is not linear.")
    def apply(x):
        if A.input_ndim > 1:
            return A.times(x.reshape(A.input_shape)).flatten()
        return A.times(x)
    basis = jnp.eye(A.input_size)
    return jax.vmap(apply, in_axes=1, out_axes=1)(basis)"""),
]
H["b2-proj"] = [
("opt/projectors/basic.py", "def:proj_affine.projector", """
@jit
def projector(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    w = cnb.solve_Ux_b(R, cnb.solve_UTx_b(R, A @ x - b))
    return x - A.T @ w"""),
("opt/projectors/basic.py", "def:proj_box.box_bound", """
@jit
def box_bound(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    return jnp.minimum(u, jnp.maximum(l, x))"""),
("opt/projectors/basic.py", "def:proj_conic.proj", """
@jit
def proj(x):
    x = jnp.asarray(x)
    x = cnb.promote_arg_dtypes(x)
    body, t = x[:-1], x[-1]
    nx = norm(body)
    def surface(_):
        alpha = 0.5 * (nx + t)
        return jnp.append(alpha * (body / nx), alpha)
    def keep(_):
        return jnp.where(t > 0, x, jnp.zeros_like(x))
    return lax.cond(nx > jnp.abs(t), surface, keep, None)"""),
("opt/projectors/lpballs.py", "def:proj_l1_ball.project_inside_ball", """
def project_inside_ball(y):
    a = jnp.abs(y)
    u = -jnp.sort(-a)
    cu = jnp.cumsum(u)
    ks = jnp.arange(1, u.size + 1)
    K = jnp.sum(cu - q <= u * ks)
    kappa = (cu[K-1] - q)/K
    return jnp.sign(y) * jnp.maximum(a - kappa, 0)"""),
("opt/proximal_ops/lpnorms.py", "def:prox_l1_pos.proximal_op", """
@jit
def proximal_op(x, t):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    shifted = x - t * q
    return jnp.where(shifted > 0, shifted, 0.)"""),
("opt/proximal_ops/lpnorms.py", "def:prox_l1.func", """
@jit
def func(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    return jnp.sum(jnp.abs(q * x))"""),
("opt/proximal_ops/lpnorms.py", "def:prox_l2.proximal_op", """
@jit
def proximal_op(x, t):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    v = cnb.arr_l2norm(x)
    tq = t * q
    return jnp.where(v > tq, 1 - tq / v, 0.) * x"""),
("opt/smooth/quad.py", "def:smooth_quad_matrix.func", """
@jit
def func(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    Px = x if P is None else P @ x
    v = cnb.arr_rdot(Px, x) / 2
    if q is not None:
        v += cnb.arr_rdot(x, q)
    return v if r is None else r + v"""),
("opt/smooth/entropy.py", "def:smooth_entropy_vg.in_domain", """
def in_domain(x):
    g = -(1 + cnb.log_pos(x))
    return g, jnp.vdot(x, g + 1)"""),
("opt/smooth/logdet.py", "def:smooth_logdet.func", """
@jit
def func(X):
    X = cnb.promote_arg_dtypes(jnp.asarray(X))
    L = cholesky(X)
    v = -q * jnp.sum(2 * jnp.log(jnp.diagonal(L)))
    return v if C is None else v + cnb.arr_rdot(X, C)"""),
]
H["b3-cluster"] = [
("cluster/ssc/util.py", "def:subspace_preservation_stats.stats", """
def stats(i):
    ci = C[:, i]
    same = labels == labels[i]
    spr_flag = jnp.all((ci < 1e-3) | same)
    return spr_flag, 1 - jnp.sum(ci * same) / jnp.sum(ci)"""),
("cluster/ssc/util.py", "def:rep_to_affinity", """
@sparsify
def rep_to_affinity(Z):
    W = jnp.abs(Z)
    return W.T + W"""),
("cluster/ssc/util.py", "def:sparse_to_full_rep", """
@jit
def sparse_to_full_rep(X, I):
    n  = X.shape[1]
    def column(x, i):
        z = jnp.zeros(n)
        return z.at[i].set(x)
    return vmap(column)(X.T, I.T).T"""),
("cluster/ssc/util.py", "def:inn_positions", """
def inn_positions(labels, sorted_neighbor_labels):
    same = sorted_neighbor_labels == labels[:, None]
    return jnp.argmax(same, axis=1)"""),
("cluster/util.py", "def:sizes_from_labels", """
def sizes_from_labels(labels, k):
    match = labels[:, None] == jnp.arange(k)[None, :]
    return jnp.sum(match, axis=0)"""),
("cluster/util.py", "def:start_end_indices", """
def start_end_indices(cluster_sizes):
    cluster_sizes = jnp.asarray(cluster_sizes)
    ends = jnp.cumsum(cluster_sizes)
    return ends - cluster_sizes, ends"""),
("cluster/util.py", "def:labels_from_sizes", """
def labels_from_sizes(sizes):
    sizes = jnp.asarray(sizes)
    labels = []
    for k in range(len(sizes)):
        labels.append(jnp.full(sizes[k], k, dtype=int))
    return jnp.concatenate(labels)"""),
("cluster/util.py", "def:clustering_error_k", """
def clustering_error_k(true_labels, pred_labels, k):
    mapped_labels, mapping, _ = best_map_k(true_labels, pred_labels, k)
    wrong = mapped_labels != true_labels
    num_missed = jnp.sum(wrong)
    error = num_missed / len(true_labels)
    return ClusteringError(true_labels=true_labels, pred_labels=pred_labels,
        mapped_labels=mapped_labels, mapping=mapping, num_missed=num_missed,
        error=error, error_perc=100 * error)"""),
("data/synthetic/subspaces.py", "def:random_subspaces", """
def random_subspaces(key, N, D, K):
    def basis(sub):
        k1, k2 = random.split(sub)
        Q, _ = jnp.linalg.qr(random.normal(k1, [N, D]))
        signs = 2 * random.bernoulli(k2, shape=(D,)) - 1
        return cnb.diag_postmultiply(Q, signs)
    return [basis(sub) for sub in random.split(key, K)]"""),
("data/synthetic/subspaces.py", "def:uniform_points_on_subspaces", """
def uniform_points_on_subspaces(key, bases, n):
    keys = random.split(key, len(bases))
    points = []
    for A, sub in zip(bases, keys):
        coeffs = cnb.normalize_l2_cw(random.normal(sub, [A.shape[1], n]))
        points.append(A @ coeffs)
    return jnp.hstack(points)"""),
("geo/thresholding.py", "def:hard_threshold", """
def hard_threshold(x, tau):
    x = promote_arg_dtypes(x)
    return jnp.where(jnp.abs(x) > jnp.sqrt(2*tau), x, 0)"""),
("geo/thresholding.py", "def:soft_threshold", """
def soft_threshold(x, tau):
    x = promote_arg_dtypes(x)
    mag = jnp.maximum(jnp.abs(x) - tau, 0.)
    if not np.iscomplexobj(x):
        return jnp.sign(x) * mag
    return mag * jnp.exp(1j * jnp.angle(x))"""),
("geo/thresholding.py", "def:hard_threshold_percentile", """
def hard_threshold_percentile(x, perc):
    x = promote_arg_dtypes(x)
    gamma = jnp.percentile(jnp.abs(x), perc)
    return hard_threshold(x, gamma_to_tau_hard_threshold(gamma))"""),
("geo/wavelets.py", "def:ricker", """
def ricker(t, f0=10):
    a = (jnp.pi * f0 * t) ** 2
    return (1 - 2 * a) * jnp.exp(-a)"""),
]
H["b4-solvers"] = [
("pursuit/htp.py", "def:matrix_solve.cond", """
def cond(state):
    unsolved = state.r_norm_sqr > max_r_norm_sqr
    changed = jnp.any(state.I != state.I_prev)
    return unsolved & (state.iterations < max_iters) & ((state.iterations < min_iters) | changed)"""),
("pursuit/sp.py", "def:matrix_solve", """
def _fit(D, y):
    x = jnp.linalg.lstsq(D, y)[0]
    r = y - D @ x
    return x, r

def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
    M, N = Phi.shape
    limit = M if max_iters is None else max_iters
    thr = (y @ y) * res_norm_rtol ** 2

    def pack(I, it):
        x_I, r = _fit(Phi[:, I], y)
        return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=r @ r, iterations=it, length=N)

    def body(state):
        h = (state.r @ Phi).at[state.I].set(0)
        cand = jnp.concatenate((state.I, largest_indices(h, K)))
        x_p, _ = _fit(Phi[:, cand], y)
        return pack(cand[largest_indices(x_p, K)], state.iterations + 1)

    def cond(state):
        return (state.iterations < limit) & (state.r_norm_sqr > thr)

    return lax.while_loop(cond, body, pack(largest_indices(Phi.T @ y, K), 1))
"""),
("cs/cs1bit/biht.py", "def:biht", """
def biht(Phi, y, K, tau, max_iters=1000):
    N = Phi.shape[1]

    def make(I, x_I, it):
        r = y - jnp.sign(Phi[:, I] @ x_I)
        return BIHTState(x_I=x_I, I=I, r=r, n_mismatched_bits=jnp.count_nonzero(r), iterations=it)

    def body(state):
        x = build_signal_from_indices_and_values(N, state.I, state.x_I)
        I, x_I = hard_threshold(x + 0.5 * tau * (Phi.T @ state.r), K)
        return make(I, x_I, state.iterations + 1)

    cond = lambda s: jnp.logical_and(s.iterations < max_iters, s.n_mismatched_bits > 0)
    return lax.while_loop(cond, body, make(jnp.arange(0, K), jnp.zeros(K), 0))
"""),
("opt/spg.py", "def:solve_from.cond", """
def cond(state):
    gap = jnp.max(jnp.abs(state.x - proj(state.x - state.g)))
    checks = [state.iterations < options.max_iters,
        state.f_calls < options.max_f_calls,
        gap >= options.optim_tol,
        state.delta <= -options.progress_tol]
    res = checks[0]
    for c in checks[1:]:
        res = jnp.logical_and(res, c)
    return res"""),
("opt/spg.py", "def:line_search.next_func", """
def next_func(state):
    a = state.alpha
    curv = 2 * (state.f_val - f_last - a * delta)
    trial = -(a * a) / curv
    ok = (trial >= SIGMA_1) & (trial <= SIGMA_2 * a)
    alpha = jnp.where(ok, trial, a / 2)
    x_new = x + alpha * d
    return LineSearchState(alpha=alpha, x_new=x_new, f_val=func(x_new),
        f_lim=f_max + alpha * gd, f_calls=1 + state.f_calls)"""),
]
H["b5-random"] = [
("data/synthetic/random.py", "def:sparse_normal_representations", """
def _support(key, D, K):
    perm = random.permutation(key, jnp.arange(D))
    return jnp.sort(perm[:K])

def sparse_normal_representations(key, D, K, S=1):
    value_key, support_key = random.split(key)
    omega = _support(support_key, D, K)
    values = random.normal(value_key, [K, S])
    return jnp.squeeze(jnp.zeros([D, S]).at[omega, :].set(values)), omega"""),
("data/synthetic/random.py", "def:sparse_biuniform_representations", """
def sparse_biuniform_representations(key, a, b, D, K, S=1):
    k_support, k_mag, k_sign = random.split(key, 3)
    omega = _support(k_support, D, K)
    mags = random.uniform(k_mag, [K, S]) * (b - a) + a
    signs = jnp.sign(random.normal(k_sign, [K, S]))
    result = jnp.zeros([D, S]).at[omega, :].set(mags * signs)
    return jnp.squeeze(result), omega"""),
("data/synthetic/random.py", "def:sparse_spikes", """
def sparse_spikes(key, N, K, S=1):
    subs = iter(random.split(key))
    omega = jnp.sort(random.permutation(next(subs), N)[:K])
    spikes = jnp.sign(random.normal(next(subs), (K,S)))
    return jnp.squeeze(jnp.zeros((N, S)).at[omega, :].set(spikes)), omega"""),
("data/synthetic/random.py", "def:index_sets", """
def index_sets(key, N, K, S, out_axis=0):
    def one(sub):
        return random.permutation(sub, jnp.arange(N))[:K]
    sets = jnp.stack([one(sub) for sub in random.split(key, S)])
    return jnp.moveaxis(sets, 0, out_axis)"""),
("data/synthetic/random.py", "def:points_orthogonal_to", """
def points_orthogonal_to(key, x, S):
    unit = x / cnb.arr_l2norm(x)
    points = random.normal(key, (S,) + x.shape)
    return points - jnp.outer(points @ unit, unit)"""),
("dict/simple.py", "def:random_onb", """
def _signed_q(A):
    Q, R = jnp.linalg.qr(A)
    return diag_postmultiply(Q, jnp.sign(jnp.diag(R)))

def random_onb(key, N):
    return _signed_q(random.normal(key, (N, N)))"""),
("dict/simple.py", "def:random_orthonormal_rows", """
def random_orthonormal_rows(key, M, N):
    return _signed_q(random.normal(key, (N, M))).T"""),
("dict/simple.py", "def:hadamard", """
def hadamard(n, dtype=int):
    lg2 = int(math.log(n, 2))
    assert 2**lg2 == n, "n must be positive integer and a power of 2"
    H2 = jnp.array([[1, 1], [1, -1]], dtype=dtype)
    H = jnp.ones((1, 1), dtype=dtype)
    while H.shape[0] < n:
        H = jnp.kron(H2, H)
    return H"""),
("dict/simple.py", "def:rademacher_mtx", """
def rademacher_mtx(key, M, N, normalize_atoms=True):
    bits = random.bernoulli(key, shape=(M, N))
    signs = jnp.where(bits, 1, -1)
    return signs / math.sqrt(M) if normalize_atoms else signs"""),
("dict/simple.py", "def:gaussian_mtx", """
def gaussian_mtx(key, N, D, normalize_atoms=True):
    G = random.normal(key, (N, D))
    return normalize_l2_cw(G) if normalize_atoms else G / math.sqrt(N)"""),
("dict/simple.py", "def:dirac_hadamard_cosine_basis", """
def dirac_hadamard_cosine_basis(n):
    parts = [make(n) for make in (jnp.eye, hadamard_basis, cosine_basis)]
    return jnp.concatenate(parts, axis=1)"""),
("cluster/kmeans.py", "def:find_assignment", """
def find_assignment(points, centroids):
    gaps = points[:, None, :] - centroids[None, :, :]
    dist = jnp.sqrt(jnp.sum(gaps ** 2, axis=-1))
    return jnp.argmin(dist, axis=1), jnp.min(dist, axis=1)"""),
("cluster/kmeans.py", "def:find_new_centroids", """
def find_new_centroids(assignment, points, k):
    member = (jnp.arange(k)[:, None] == assignment[None, :]).astype(points.dtype)
    return (member @ points) / assignment_counts(assignment, k)"""),
("cluster/kmeans.py", "def:kmeans_with_seed", """
def kmeans_with_seed(key, points, k, thresh=1e-5, max_iters=100):
    n = points.shape[0]
    start = points[random.permutation(key, n)[:k], :]
    def evaluate(centroids, prev, it):
        assignment, distances = find_assignment(points, centroids)
        return KMeansState(centroids, assignment, distances.mean(), prev, it)
    def body(s):
        return evaluate(find_new_centroids(s.assignment, points, k), s.distortion, s.iterations + 1)
    def cond(s):
        return (s.iterations < max_iters) & (s.distortion < s.prev_distortion - thresh)
    return lax.while_loop(cond, body, evaluate(start, jnp.inf, 0))"""),
("cluster/spectral.py", "def:unnormalized", """
def _solve(key, L, k=None):
    n = L.shape[0]
    _, S, VH = jnp.linalg.svd(L)
    if k is None:
        k = n - jnp.argmin(jnp.diff(S[:-1])) - 1
    rows = VH.T[:, n-k:]
    return SpectralclusteringSolution(laplancian=L, singular_values=S,
        assignment=kmeans(key, rows, k, iter=100).assignment,
        num_clusters=k, connectivity=S[-2])

def unnormalized(key, W):
    m, n = W.shape
    assert m == n, "W must be square"
    return _solve(key, unnormalized_laplacian(W))"""),
("cluster/spectral.py", "def:normalized_random_walk_k", """
def normalized_random_walk_k(key, W, k):
    m, n = W.shape
    assert m == n, "W must be square"
    return _solve(key, normalized_random_walk_laplacian(W), k)"""),
("lop/random.py", "def:binary_dict_alg.trans", """
def trans(y):
    rows = [jax.random.bernoulli(k, shape=(m,)) @ y for k in keys]
    return jnp.stack(rows).astype(y.dtype)"""),
]
H["b6-greedy"] = [
("pursuit/mp.py", "def:matrix_solve", """
def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
    n = Phi.shape[1]
    limit = (res_norm_rtol ** 2) * jnp.dot(y, y)

    def body_func(state):
        h = state.r @ Phi
        j = jnp.abs(h).argmax()
        r = state.r - h[j] * Phi[:, j]
        return state._replace(x=state.x.at[j].set(state.x[j] + h[j]), r=r,
            r_norm_sqr=jnp.dot(r, r), iterations=state.iterations + 1)

    def cond_func(state):
        jax.debug.callback(tracker, state)
        return jnp.logical_and(state.iterations < max_iters, state.r_norm_sqr > limit)

    start = MPState(x=jnp.zeros(n), r=y, r_norm_sqr=jnp.dot(y, y), iterations=0)
    return lax.while_loop(cond_func, body_func, start)"""),
("pursuit/omp.py", "def:matrix_solve", """
def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
    p = Phi.T @ y
    i = abs_max_idx(p)
    I = jnp.array([i])
    atoms = Phi[:, i][:, None]
    L = jnp.ones((1,1))
    x_I = p[I]
    r = y - atoms @ x_I
    count = 1
    while count < max_iters:
        i = abs_max_idx(Phi.T @ r)
        atom = Phi[:, i]
        L = gram_chol_update(L, atoms.T @ atom)
        I = jnp.append(I, i)
        atoms = jnp.concatenate((atoms, atom[:, None]), axis=1)
        x_I = solve_spd_chol(L, p[I])
        r = y - atoms @ x_I
        count += 1
    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=r.T @ r, iterations=count, length=Phi.shape[1])"""),
("pursuit/omp.py", "def:operator_solve.cond_func", """
def cond_func(state):
    if state.iterations >= K:
        return False
    return state.r_norm_sqr > max_r_norm_sqr"""),
("pursuit/cosamp.py", "def:matrix_solve.cond", """
def cond(state):
    go = state.iterations < max_iters
    go &= state.r_norm_sqr > max_r_norm_sqr
    return go"""),
]
H["b7-first-order"] = [
("cvx/focuss.py", "def:matrix_solve_noiseless", """
def matrix_solve_noiseless(Phi, y, p=1., max_iters=20):
    def make(x, iterations):
        r = y - Phi @ x
        return FocussState(x=x, r=r, r_norm_sqr=jnp.vdot(r, r), iterations=iterations)
    def step(_, state):
        return make(step_noiseless(Phi, y, state.x, p), state.iterations + 1)
    return lax.fori_loop(0, max_iters, step, make(jnp.ones(Phi.shape[1]), 0))"""),
("fom/fom.py", "def:backtrack_L", """
@jit
def backtrack_L(x, A_x, g_Ax, y, A_y, g_Ay, L, Lexact, beta):
    diff = x - y
    den = cnb.arr_rnorm_sqr(diff)
    def update(L):
        est = 2 * cnb.arr_rdot(g_Ax - g_Ay, A_x - A_y) / den
        grown = jnp.maximum(L / beta, est)
        return jnp.where(est > L, jnp.minimum(grown, Lexact), L)
    return lax.cond(den != 0, update, lambda L: L, L)"""),
("fom/fom.py", "def:fom.advance_theta", """
def advance_theta(theta_old,L,L_old):
    ratio = L / (L_old * theta_old ** 2)
    return 2 / (1 + jnp.sqrt(4 * ratio + 1))"""),
("fom/fom.py", "def:fom.body_func", """
def body_func(state):
    L = options.alpha * state.L
    theta = advance_theta(state.theta, L, state.L)
    blend = lambda v: state.x + theta * (v - state.x)
    y = blend(state.z)
    A_y = A.times(y)
    g_Ay, f_y = smooth_f.grad_val(A_y)
    g_y = A.trans(g_Ay)
    t = 1 / (L * theta)
    z, C_z = prox_h.prox_vec_val(state.z - t * g_y, t)
    x = blend(z)
    A_z, A_x = A.times(z), A.times(x)
    g_Ax, f_x = smooth_f.grad_val(A_x)
    return state._replace(L=backtrack_L(x, A_x, g_Ax, y, A_y, g_Ay, L, options.Lexact, options.beta), theta=theta,
        x=x, A_x=A_x, g_Ax=g_Ax, f_x=f_x,
        y=y, A_y=A_y, g_Ay=g_Ay, g_y=g_y, f_y=f_y,
        z=z, A_z=A_z, C_z=C_z,
        norm_x=cnb.arr_rnorm(x), norm_dx=cnb.arr_rnorm(state.x - x),
        iterations=1 + state.iterations)"""),
("sls/fista.py", "def:fista.body", """
def body(state):
    forward = state.z + step_size * operator.trans(state.r)
    x = basis.times(threshold_func(state.iterations, basis.trans(forward)))
    change = x - state.x
    t = 0.5 + jnp.sqrt(0.25 + state.t ** 2)
    z = x + change * (state.t - 1.) / t
    r = b - operator.times(z)
    return FISTAState(x, z, r, t, arr_l2norm_sqr(r), arr_l2norm(change), state.iterations + 1)"""),
("sls/power.py", "def:power_iterations.cond", """
def cond(state):
    old, new = state.old_estimate, state.new_estimate
    moving = jnp.abs(new - old) > error_tolerance * jnp.abs(old)
    return moving & (state.iterations < max_iters)"""),
("opt/pcg.py", "def:solve_from.body", """
def body(state):
    x, r, p, gamma, k = state
    q = A(p)
    a = gamma / jnp.vdot(p, q)
    r = r - a * q
    z = M(r)
    gamma_new = jnp.vdot(r, z).astype(float)
    return PCGState(x + a * p, r, z + (gamma_new / gamma) * p, gamma_new, k + 1)"""),
("opt/indicators/basic.py", "def:indicator_box.box_bound", """
@jit
def box_bound(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    inside = jnp.all((l <= x) & (x <= u))
    return jnp.where(inside, 0, jnp.inf)"""),
("opt/indicators/basic.py", "def:indicator_conic", """
def indicator_conic():
    @jit
    def indicator(x):
        x = cnb.promote_arg_dtypes(jnp.asarray(x))
        r = norm(x[:-1])
        return jnp.where(r > x[-1], jnp.inf, 0)
    return indicator"""),
("opt/indicators/basic.py", "def:indicator_affine.indicator", """
@jit
def indicator(x):
    x = cnb.promote_arg_dtypes(jnp.asarray(x))
    off = norm(b - A @ x) > 1e-10 * norm(b)
    return jnp.where(off, jnp.inf, 0)"""),
("opt/indicators/lpballs.py", "def:indicator_l1_ball", """
def indicator_l1_ball(q=1., b=None, A=None):
    promote = lambda v: None if v is None else cnb.promote_arg_dtypes(jnp.asarray(v))
    b, A = promote(b), promote(A)
    @jit
    def indicator(x):
        x = promote(x)
        r = x if A is None else A @ x
        if b is not None:
            r = r - b
        return jnp.where(cnb.arr_l1norm(r) <= q, 0, jnp.inf)
    return indicator"""),
("opt/smooth/smooth.py", "def:smooth_func_translate", """
def smooth_func_translate(smooth_func, b):
    b = cnb.promote_arg_dtypes(jnp.asarray(b))
    def shifted(f):
        @jit
        def g(x):
            return f(b + cnb.promote_arg_dtypes(jnp.asarray(x)))
        return g
    return SmoothFunction(*(shifted(f) for f in smooth_func))"""),
("opt/proximal_ops/prox.py", "def:build", """
def build(func, prox_op):
    parts = dict(func=jit(func), prox_op=jit(prox_op))
    return ProxCapable(prox_vec_val=build_prox_value_vec_func(**parts), **parts)"""),
("sls/lsqr.py", "def:lsqr.cond", """
def cond(state):
    ratio = state.A_norm * state.x_norm / b_norm
    rel_r = state.r_norm / b_norm
    rel_atr = state.atr_norm / atr_norm0
    inv_cond = 1. / state.A_cond
    tiny = [inv_cond, rel_atr, rel_r / (1. + ratio)]
    go = state.iterations < max_iters
    for v in tiny:
        go = go & (1 + v > 1)
    for v, lim in zip((inv_cond, rel_atr, rel_r), (ctol, atol, btol + atol * ratio)):
        go = go & (v > lim)
    return go"""),
]
H["b8-plumbing"] = [
("cluster/kmeans.py", "kmeans_jit = jit(kmeans, static_argnums=(2,3,4,5))", "kmeans_jit = jit(kmeans, static_argnames=['k', 'iter', 'thresh', 'max_iters'])"),
("sls/power.py", "power_iterations_jit = jit(power_iterations, static_argnums=(0, 2, 3))", "_STATIC = ('operator', 'max_iters', 'error_tolerance')\npower_iterations_jit = jit(fun=power_iterations, static_argnames=_STATIC)"),
("geo/thresholding.py", "soft_threshold_jit = jit(soft_threshold, static_argnums=(1,))", "def _compiled(f):\n    return jit(f, static_argnums=(1,))\n\nsoft_threshold_jit = _compiled(soft_threshold)"),
("opt/cg.py", "solve_jit  = jit(solve,\n    static_argnames=(\"max_iters\", \"res_norm_rtol\"))", "from functools import partial\nsolve_jit = partial(jit, static_argnames=(\"max_iters\", \"res_norm_rtol\"))(solve)"),
("opt/cg.py", "def:solve", """
def solve(A, b, max_iters=None, res_norm_rtol=1e-4):
    opts = {'max_iters': max_iters, 'res_norm_rtol': res_norm_rtol}
    return solve_from_jit(A, b, jnp.zeros(A.shape[0]), **opts)"""),
("problems/problems.py", "def:generate", """
def generate(name:str, key=crn.KEY0, **args) -> Problem:
    problem_id = PROBLEM_MAP.get(name)
    assert problem_id is not None, "Unrecognized problem"
    package = __name__.rsplit('.', 1)[0]
    return importlib.import_module(f'.{problem_id}', package).generate(key, **args)"""),
("problems/problems.py", "def:names", """
def names() -> List[str]:
    return sorted(PROBLEM_MAP)"""),
("problems/prob003.py", "def:generate", """
def _sparse(index_key, value_key, n, k):
    where = random.choice(index_key, n, shape=(k,), replace=False)
    return jnp.zeros(n).at[where].set(random.normal(value_key, shape=(k,)))


def generate(key, c=2, k=120, n=1024):
    k1, k2, k3, k4 = random.split(key, 4)
    t = jnp.arange(n)/n
    dirac, dct = crlop.identity(n), crlop.cosine_basis(n)
    model = crlop.jit(crlop.hcat(dirac, dct))
    coeffs = jnp.sqrt(n/2) * _sparse(k1, k2, n, c)
    cosine = dct.times(coeffs)
    spikes = _sparse(k3, k4, n, k)
    b = spikes + cosine
    x = jnp.hstack([spikes, coeffs])
    panels = [
        ('Cosine with spikes', lambda ax: ax.plot(t, b)),
        ('Cosine part of signal', lambda ax: ax.plot(t, cosine)),
        ('Spikes part of signal', lambda ax: ax.stem(t, spikes, markerfmt='.')),
        ('Dirac DCT Model', lambda ax: ax.stem(x, markerfmt='.')),
    ]
    figures = [title for title, _ in panels]
    def plot(i, ax):
        title, draw = panels[i]
        ax.set_title(title)
        draw(ax)
    return Problem('cosine-spikes:dirac-dct', dirac, model, model, b, model.times,
        x=x, figures=figures, plot=plot)"""),
("tracker.py", "def:ProgressTracker.__call__", """
def __call__(self, state, more=False):
    x_norm, r_norm = get_x_norm(state), get_r_norm(state)
    for log, value in ((self._r_norms, r_norm), (self._x_norms, x_norm), (self._iterations, state.iterations)):
        log.append(value)
    msg = ''
    if self.x0 is not None:
        self._snr.append(signal_noise_ratio(self.x0, get_x_like(state, self.x0)))
        msg = f', SNR: {self._snr[-1]:.2f} dB'
    if not more or state.iterations % self._every == 0:
        print(f'[{state.iterations}] x_norm: {x_norm:.2e}, r_norm: {r_norm:.2e}{msg}')
    if not more:
        print(f'Algorithm converged in {state.iterations} iterations.')"""),
("tracker.py", "def:signal_noise_ratio", """
def _energy(v):
    return np.abs(np.vdot(v, v))

def signal_noise_ratio(reference_arr, test_arr):
    eps = np.finfo(float).eps
    ref = _energy(reference_arr) or eps
    err = _energy(reference_arr - test_arr) or eps
    return 10 * (np.log10(ref) - np.log10(err))"""),
("tools/trials_at_fixed_m_n.py", "def:RecoveryTrialsAtFixed_M_N._process", """
def _process(self, name, solver):
    M, N = self.M, self.N
    key = jax.random.PRNGKey(0)
    for K in self.Ks:
        print(f'\\nK={K}')
        start_time = time.perf_counter()
        key, subkey = jax.random.split(key)
        successes, iters = 0, []
        for dk in jax.random.split(subkey, self.num_dict_trials):
            dict_key, signals_key = jax.random.split(dk)
            print('*', end='', flush=True)
            Phi = crdict.gaussian_mtx(dict_key, M, N)
            for signal_key in jax.random.split(signals_key, self.num_signal_trials):
                x, _ = crdata.sparse_normal_representations(signal_key, N, K, 1)
                x = jnp.squeeze(x)
                y = Phi @ x
                sol = solver(Phi, y, K)
                rp = RecoveryPerformance(Phi, y, x, sol=sol)
                if not iters:
                    start_time = time.perf_counter()
                successes += rp.success
                iters.append(sol.iterations)
                print('+' if bool(rp.success) else '-', end='', flush=True)
            print('')
        runtime = time.perf_counter() - start_time
        trials = len(iters)
        counts = np.array(iters)
        row = Row(name, M, N, K, trials=trials, successes=successes,
            failures=trials - successes, success_rate=successes / trials,
            min_iters=counts.min(), max_iters=counts.max(), mean_iters=counts.mean(),
            runtime=runtime, mean_runtime=runtime * 1000 / (trials - 1))
        print(row)
        self.df.loc[len(self.df)] = row
        self.save()
    self.save()"""),
("pursuit/defs.py", "def:RecoverySolution.__str__", """
def __str__(self):
    lines = ["iterations %s" % self.iterations,
        "m=%d, n=%d, k=%d" % (len(self.r), self.length, len(self.I)),
        "r_norm %e" % math.sqrt(float(self.r_norm_sqr)),
        "x_norm %e" % float(norm(self.x_I))]
    return '\\n'.join(lines)"""),
]
