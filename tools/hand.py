#!/usr/bin/env python3
"""Development tool: hand-written behaviour-preserving edits; checks have to stay quiet on each.

hand.py run [id...] [Pxx...]
"""
import os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = {}
H["ista-helper"] = [("sls/ista.py", """    def body(state):
        # compute the gradient step
        grad = step_size * operator.trans(state.r)
        # update the solution
        x = state.x + grad
        # compute the representation of x in the sparsifying basis
        alpha = basis.trans(x)
        # apply the thresholding function on the sparse representation
        alpha = threshold_func(state.iterations, alpha)
        # convert back to data space
        x = basis.times(alpha)
        # update the residual
        r = b - operator.times(x)
        # compute the norm of the current residual
        r_norm_sqr = arr_l2norm_sqr(r)
        x_change_norm = arr_l2norm(x - state.x)
        return ISTAState(x=x, r=r, r_norm_sqr=r_norm_sqr, 
            x_change_norm=x_change_norm, iterations=state.iterations+1)
""", """    def shrink_step(z, it):
        coeffs = threshold_func(it, basis.trans(z))
        return basis.times(coeffs)

    def body(state):
        k = state.iterations
        x = shrink_step(state.x + operator.trans(state.r) * step_size, k)
        delta = state.x - x
        r = -(operator.times(x) - b)
        return state._replace(r_norm_sqr=jnp.sum(jnp.abs(r)**2), x=x, r=r,
            iterations=1 + k, x_change_norm=jnp.sqrt(arr_l2norm_sqr(delta)))
"""), ("sls/ista.py", """        not_converged = jnp.greater(state.r_norm_sqr, r_norm_sqr_threshold)
        not_converged = jnp.logical_and(state.x_change_norm > x_norm_change_tol, not_converged)
        # return true if the the algorithm hasn't converged and there are more iterations to go
        return jnp.logical_and(state.iterations < max_iters, not_converged)
""", """        done = (state.r_norm_sqr <= r_norm_sqr_threshold) | (state.x_change_norm <= x_norm_change_tol)
        return ~(done | (state.iterations >= max_iters))
""")]
H["iht-shared"] = [("pursuit/iht.py", """        h = Phi.T @ y
        mu = get_step_size(h, I_prev)
        # update
        x = mu * h
        # threshold
        I, x_I = hard_threshold(x, K)
        # Form the subdictionary of corresponding atoms
        Phi_I = Phi[:, I]
        # Compute new residual
        r = y - Phi_I @ x_I
        # Compute residual norm squared
        r_norm_sqr = r.T @ r
        return IHTState(x_I=x_I, I=I, r=r, r_norm_sqr=r_norm_sqr, 
            iterations=1,
            I_prev=I_prev, x_I_prev=x_I_prev, r_norm_sqr_prev=r_norm_sqr_prev)
""", """        I, x_I, r, r_norm_sqr = advance(jnp.zeros(N), y, I_prev)
        return IHTState(x_I=x_I, I=I, r=r, r_norm_sqr=r_norm_sqr, 
            iterations=1,
            I_prev=I_prev, x_I_prev=x_I_prev, r_norm_sqr_prev=r_norm_sqr_prev)
"""), ("pursuit/iht.py", """        # compute the correlations of dictionary atoms with the residual
        h = Phi.T @ state.r
        # current approximation
        x = build_signal_from_indices_and_values(N, state.I, state.x_I)
        # Step size calculation
        mu = get_step_size(h, I_prev)
        # update
        x = x + mu * h
        # threshold
        I, x_I = hard_threshold(x, K)
        # Form the subdictionary of corresponding atoms
        Phi_I = Phi[:, I]
        # Compute new residual
        r = y - Phi_I @ x_I
        # Compute residual norm squared
        r_norm_sqr = r.T @ r
""", """        x = jnp.zeros(N).at[state.I].set(state.x_I)
        I, x_I, r, r_norm_sqr = advance(x, state.r, I_prev)
"""), ("pursuit/iht.py", """    def init():
        # Data""", """    def advance(x, r, I_prev):
        h = Phi.T @ r
        I, x_I = hard_threshold(x + get_step_size(h, I_prev) * h, K)
        res = y - Phi[:, I] @ x_I
        return I, x_I, res, jnp.vdot(res, res)

    def init():
        # Data""")]
H["cg-reorder"] = [("opt/cg.py", """        rho_1 = r.T @ r
        rho_2 = state.r_norm_sqr
""", """        rho_2 = state.r_norm_sqr
        rho_1 = jnp.sum(r * r)
""")]
H["power-fused"] = [("sls/power.py", """        v_norm = arr_l2norm(v)
        v = v / v_norm
        # compute the next vector
        v_new = operator.times(v)
        # estimate the eigen value
        new_estimate = jnp.vdot(v, v_new)
""", """        unit = v / jnp.linalg.norm(v)
        v_new = operator.times(unit)
        new_estimate = jnp.sum(jnp.conj(unit) * v_new)
""")]
H["coherence-mask"] = [("dict/props.py", """    G = G.at[jnp.diag_indices(n)].set(0)
""", """    G = jnp.where(jnp.eye(n, dtype=bool), 0, G)
""")]
H["babel-flip"] = [("dict/props.py", """    G = jnp.sort(G)
    # reverse each row and drop last entry [self similarity is 1]
    G = G[:, -2::-1]
""", """    G = jnp.flip(jnp.sort(G, axis=-1), axis=1)[:, 1:]
""")]
H["fwd-slices"] = [("lop/calculus.py", """    append = jnp.array([x[-1]])
    return jnp.diff(x, append=append) / dx
""", """    d = (x[1:] - x[:-1]) / dx
    return jnp.concatenate((d, jnp.zeros(1, dtype=d.dtype)))
""")]
H["bwd-adj-at"] = [("lop/calculus.py", """    x = x.at[0].set(0)
    append = jnp.array([0])
    return jnp.diff(-x, append=append) / dx
""", """    d = x[1:] / dx
    y = jnp.zeros(x.shape, dtype=d.dtype)
    return y.at[1:].add(d).at[:-1].add(-d)
""")]
H["quad-grad"] = [("opt/smooth/quad.py", """        r = A @ x - b
        v = 0.5 * jnp.dot(r, r)
        g = r.T @ A
        return g, v
""", """        r = A @ x - b
        return A.T @ r, jnp.sum(r**2) / 2
""")]
H["l2ball-scale"] = [("opt/projectors/lpballs.py", """        norm_x = norm(x)
        invalid = norm_x > q
""", """        norm_x = jnp.sqrt(jnp.sum(x * x))
        invalid = jnp.logical_not(norm_x <= q)
""")]
H["second-der-slices"] = [("lop/calculus.py", """    times = lambda x : jnp.pad(jnp.convolve(x, filter, 'valid'), (1, 1))""",
  """    times = lambda x : jnp.pad((x[2:] - 2 * x[1:-1] + x[:-2]) / dx**2, (1, 1))""")]

H["omp-while"] = [("pursuit/omp.py", """    k = 0
    for k in range(1, K):
        norm_r_sqr = norm_r_new_sqr
        # compute the correlations
        h = Phi.T @ r
        # Index of best match
        i = abs_max_idx(h)
        # Update the set of indices
        I = jnp.append(I, i)
        # best matching atom
        phi_i = Phi[:, i]
        # Correlate with previously selected atoms
        v = Phi_I.T @ phi_i
        # Update the Cholesky factorization
        L = gram_chol_update(L, v)
        # Update the subdictionary
        Phi_I = jnp.hstack((Phi_I, jnp.expand_dims(phi_i,1)))
""", """    k = 0
    while k < K - 1:
        k += 1
        i = jnp.argmax(jnp.abs(r @ Phi))
        phi_i = Phi[:, i]
        L = gram_chol_update(L, Phi_I.T @ phi_i)
        I = jnp.hstack((I, i))
        Phi_I = Phi[:, I]
""")]
H["spgl1-bb"] = [("cvx/spgl1.py", """        s = x - state.x
        y = g - state.g
        sts = jnp.real(jnp.dot(jnp.conj(s), s))
        sty = jnp.real(jnp.dot(jnp.conj(s), y))
        alpha_next = lax.cond(sty <= 0,
            lambda _: alpha_max,
            lambda _: jnp.clip(sts / sty, alpha_min, alpha_max),
            None)
""", """        alpha_next = barzilai(x - state.x, g - state.g)
"""), ("cvx/spgl1.py", """    def body_func(state):
        f_max = jnp.max(state.f_past)
""", """    def barzilai(s, y):
        num = jnp.sum(jnp.abs(s) ** 2)
        den = jnp.real(jnp.vdot(s, y))
        return jnp.where(den > 0, jnp.minimum(jnp.maximum(num / den, alpha_min), alpha_max), alpha_max)

    def body_func(state):
        f_max = jnp.max(state.f_past)
""")]
H["kmeans-squared"] = [("cluster/kmeans.py", """    return jnp.argmin(vmap(norm)(centroids - point))
""", """    return jnp.argmin(jnp.sum((point - centroids) ** 2, axis=1))
""")]
H["kmeans-map"] = [("cluster/kmeans.py", """    results = vmap(kmeans_core, 0, 0)(keys)
""", """    results = lax.map(kmeans_core, keys)
""")]
H["matrix-conj"] = [("lop/basic.py", """    trans1d = lambda x : _hermitian(_hermitian(x) @ A )
""", """    trans1d = lambda x : A.conj().T @ x
""")]


exec(open(os.path.join(ROOT, "tools", "hand2.py")).read())


def redefine(s, path, new):
    """replace the function outer.inner of the source by new (text at column 0)"""
    import ast, textwrap
    body, node = ast.parse(s).body, None
    parts, nth = path.split("."), 0
    for k in parts:
        m = [x for x in ast.walk(ast.Module(body, [])) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == k]
        if not m:
            return None
        node = m[0]
        body = node.body
    ls = s.split("\n")
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return "\n".join(ls[:first - 1] + textwrap.indent(textwrap.dedent(new).strip("\n"), " " * node.col_offset).split("\n") + ls[node.end_lineno:])


def main(a):
    props = [x for x in a if re.fullmatch(r"P\d\d", x)] or ["P%02d" % i for i in range(1, 18)]
    ids = [x for x in a if x in H] or list(H)
    for i in ids:
        d = "/tmp/hand_" + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        ok = True
        for f, o, n in H[i]:
            p = d + "/src/cr/sparse/_src/" + f
            s = open(p).read()
            if o.startswith("def:"):
                s2 = redefine(s, o[4:], n)
                if s2 is None:
                    print(i, "does not apply:", o)
                    ok = False
                else:
                    open(p, "w").write(s2)
                continue
            if o not in s:
                print(i, "does not apply:", o[:60].strip())
                ok = False
                continue
            open(p, "w").write(s.replace(o, n, 1))
        if ok and "test" in a:
            subprocess.run(["cp", "-a", "/repo/tests", d + "/tests"])
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "6", "-p", "no:cacheprovider", "tests"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d + "/src"), capture_output=True, text=True)
            print(i, "tests", r.stdout.strip().splitlines()[-1:])
        for p in props if ok else ():
            r = subprocess.run([sys.executable, "check.py", p], cwd=ROOT, env=dict(os.environ, VP_REPO=d, VP_EVID="/tmp/ev_hand"), capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if re.match(r"P\d\d:", l)]
            if r.returncode or "test" not in a:
                print(i, p, r.returncode, line[0][:90] if line else r.stdout[-200:], flush=True)
                for l in r.stdout.splitlines():
                    if "VIOLATION" in l or "refuted" in l and r.returncode:
                        print("    ", l[:260])
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[2:])
