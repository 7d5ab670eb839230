"""P16 every solver iteration is the published update of its algorithm."""
import re

import numpy as np

from .. import eqv
from .. import interp as IP
from .. import inv
from .. import ops
from .. import par
from .. import point
from .. import solve
from .. import term as T
from ..term import num, ONE, ZERO, mk, const
from . import p04
from . import p05

EXPLANATION = (
    "Every iterative solver is analysed with symbolic data; its main loop is extracted as a recurrence over its state record (initial state, "
    "next state, guard). The fields of the next state that carry the iterate are compared with the update formula of the algorithm over the "
    "same heads, the initial fields with the documented start and the guard with the documented stopping rule. Equality: normal form under "
    "the inductive facts of the loop; a difference is reported only with a reachable state of the recurrence on which the two sides differ.")
FLOOR = 40
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "update formulas in vlib/props/p16.py"]

MATRIX = "    A = lambda x: Phi @ x\n    At = lambda x: jnp.conj(Phi.T) @ x\n    cols = lambda I: Phi[:, I]\n"
OPER = "    A = lambda x: Phi.times(x)\n    At = lambda x: Phi.trans(x)\n    cols = lambda I: Phi.columns(I)\n"
HEAD = ("    from cr.nimble.dsp import hard_threshold, hard_threshold_sorted, build_signal_from_indices_and_values as build\n"
        "    largest_indices = lambda h, k: jnp.argsort(jnp.abs(h))[:-k - 1:-1]\n"
        "    n2 = lambda v: jnp.sum(jnp.abs(v) ** 2)\n    nrm = lambda v: jnp.sqrt(n2(v))\n"
        "    fit = lambda I: jnp.linalg.lstsq(cols(I), y)[0]\n")


class Spec:
    """pat: regular expression over solver names; args: extra parameters; init, step: python text whose top level names are fields of the loop
    state; guard: text; loop: a field naming the loop (default: the main loop); heads: names of the positions of a tuple state"""

    def __init__(self, pat, args=(), init="", step="", guard=None, final=None, tol=1e-5, loop=None, heads=None, unit=False, skip=()):
        self.pat, self.args, self.init, self.step, self.guard, self.final, self.tol = re.compile(pat), args, init, step, guard, final, tol
        self.loop, self.heads, self.unit, self.skip = loop, heads, unit, skip


def table():
    S = []

    def s(*a, **k):
        S.append(Spec(*a, **k))
    # ---- greedy pursuits
    s(r"^pursuit\.mp\.", ("N",), init="x = jnp.zeros(Phi.shape[1])\nr = y",
      step="h = At(S.r)\ni = jnp.argmax(jnp.abs(h))\nx = S.x.at[i].add(h[i])\nr = S.r - h[i] * cols(jnp.array([i]))[:, 0]",
      guard="(n2(S.r) > TOL ** 2 * n2(y)) & (S.iterations < N)")
    for pat, k in ((r"^pursuit\.omp\.(matrix_)?solve", "1"), (r"^pursuit\.omp\.operator", "1 / nrm(y)")):
        s(pat, ("N",), unit=True,
          init="I = jnp.array([jnp.argmax(jnp.abs(At(y)))])\nx_I = %s * fit(I)\nr = %s * (y - cols(I) @ fit(I))" % (k, k),
          step="I = jnp.append(S.I, jnp.argmax(jnp.abs(At(S.r))))\nx_I = %s * fit(I)\nr = %s * y - cols(I) @ x_I" % (k, k),
          guard="(n2(S.r) > TOL ** 2) & (S.iterations < N)" if "nrm" in k else None,
          final="I = S.I\nx_I = fit(S.I)\nr = y - cols(S.I) @ x_I")
    thr = "I, x_I = hard_threshold(x, K)\n"
    same = " & ((S.iterations < jnp.minimum(3 * K, 20)) | jnp.any(S.I != S.I_prev))"
    for md in ("iht", "htp"):
        end = thr if md == "iht" else "I, u_I = hard_threshold_sorted(x, K)\nx_I = fit(I)\n"
        end += "I_prev = S.I\n" if md == "htp" else ""
        gd = "(n2(S.r) > TOL ** 2 * n2(y)) & (S.iterations < N)" + (same if md == "htp" else "")
        s(r"^pursuit\.%s\.\w+ (step_size|default limit|tolerance)" % md, ("K", "mu", "N"), init="x = mu * At(y)\n" + thr,
          step="x = build(Phi.shape[1], S.I, S.x_I) + mu * At(S.r)\n" + end, guard=gd)
        s(r"^pursuit\.%s\.matrix_solve default step" % md, ("K", "N"), init="mu = 0.98 / jnp.max(jnp.linalg.svd(Phi, False, False))\nx = mu * At(y)\n" + thr,
          step="mu = 0.98 / jnp.max(jnp.linalg.svd(Phi, False, False))\nx = build(Phi.shape[1], S.I, S.x_I) + mu * At(S.r)\n" + end, guard=gd)
        s(r"^pursuit\.%s\.\w+ normalized" % md, ("K", "N"), guard=gd,
          step="h = At(S.r)\ng = h[S.I]\nmu = n2(g) / n2(cols(S.I) @ g)\nx = build(Phi.shape[1], S.I, S.x_I) + mu * h\n" + end)
    for mt in ("matrix", "operator"):
        k = "" if mt == "matrix" else " / nrm(y)"
        gd = "(n2(S.r) > TOL ** 2 * n2(y)) & (S.iterations < N)" if mt == "matrix" else "(n2(S.r) > TOL ** 2) & (S.iterations < N)" + same
        pv = "" if mt == "matrix" else "\nI_prev = S.I"
        s(r"^pursuit\.sp\." + mt, ("K", "N"), init="I = largest_indices(At(y), K)\nx_I = fit(I)" + k,
          step="y = S.r + cols(S.I) @ S.x_I\nh = At(S.r).at[S.I].set(0)\nJ = jnp.hstack((S.I, largest_indices(h, K)))\n"
               "I = J[largest_indices(fit(J), K)]\nx_I = fit(I)" + pv, guard=gd)
        s(r"^pursuit\.cosamp\." + mt, ("K", "N"), init="J = largest_indices(At(y), 3 * K)\nz = fit(J)%s\nk = largest_indices(z, K)\nI = J[k]\nx_I = z[k]" % k,
          step="y = S.r + cols(S.I) @ S.x_I\nh = At(S.r).at[S.I].set(0)\nJ = jnp.hstack((S.I, largest_indices(h, 2 * K)))\n"
               "z = fit(J)\nk = largest_indices(z, K)\nI = J[k]\nx_I = z[k]" + pv, guard=gd)
    s(r"^cs\.cs1bit\.biht", ("K", "tau", "N"), init="x_I = jnp.zeros(K)",
      step="x = build(Phi.shape[1], S.I, S.x_I) + tau / 2 * At(S.r)\n" + thr + "r = y - jnp.sign(cols(I) @ x_I)\nn_mismatched_bits = jnp.sum(r != 0)",
      guard="(S.n_mismatched_bits > 0) & (S.iterations < N)")
    # ---- linear systems
    s(r"^opt\.cg\.", ("N",), step="q = A(S.p)\na = n2(S.r) / (S.p @ q)\nx = S.x + a * S.p\nr = S.r - a * q\np = r + n2(r) / n2(S.r) * S.p",
      init="x = x0\nr = y - A(x0)\np = r", guard="(n2(S.r) > TOL ** 2 * n2(y)) & (S.iterations < N)")
    for lab, m in (("( |$)(?!preconditioned)", "M = lambda v: v"), (" preconditioned", "M = lambda v: Mop.times(v)")):
        s(r"^opt\.pcg\.\w+" + lab, ("N",) + (("Mop",) if "pre" in lab and "?!" not in lab else ()),
          init=m + "\nx = x0\nr = y - A(x0)\np = M(r)\ngamma = jnp.vdot(r, p)",
          step=m + "\nq = A(S.p)\na = jnp.vdot(S.r, M(S.r)) / jnp.vdot(S.p, q)\nx = S.x + a * S.p\nr = S.r - a * q\nz = M(r)\ngamma = jnp.vdot(r, z)\n"
               "p = z + gamma / jnp.vdot(S.r, M(S.r)) * S.p",
          guard="(n2(S.r) > jnp.maximum(TOL ** 2 * n2(y), ATOL ** 2)) & (S.iterations < N)")
    for damp in ("", " damped"):
        d = "damp" if damp else "0"
        unitv = "unit = lambda v: jnp.where(nrm(v) > 0, v / nrm(v), v)\n"
        s(r"^sls\.lsqr%s( tolerance)?$" % damp, ("N",) + (("damp",) if damp else ()), tol=1e-4, skip="b0 = nrm(y - A(x0))\nq0 = nrm(At(y - A(x0)))\n",
          guard="(S.iterations < N) & (1 / S.A_cond > (1 / CLIM)) & (S.atr_norm / q0 > LAT) & (S.r_norm / b0 > LBT + LAT * S.A_norm * S.x_norm / b0)",
          init=unitv + "x = x0\nbb = y - A(x0)\nbeta = nrm(bb)\nu = unit(bb)\nalpha = nrm(At(u))\nv = unit(At(u))\nw = v\nrho_bar = alpha\nphi_bar = beta\n"
               "r_norm = beta\natr_norm = alpha * beta",
          step=unitv + "d = %s\nq = A(S.v) - S.alpha * S.u\nbeta = nrm(q)\nu = unit(q)\np = At(u) - beta * S.v\nalpha = nrm(p)\nv = unit(p)\n"
               "rb = jnp.sqrt(S.rho_bar ** 2 + d ** 2)\nrho = jnp.sqrt(S.rho_bar ** 2 + d ** 2 + beta ** 2)\npb = S.rho_bar / rb * S.phi_bar\n"
               "rho_bar = -rb / rho * alpha\nphi_bar = beta / rho * pb\nx = S.x + (rb / rho * pb / rho) * S.w\nw = v - (beta / rho * alpha / rho) * S.w\n"
               "cum_psi_sqr = S.cum_psi_sqr + (d / rb * S.phi_bar) ** 2\nr_norm = jnp.sqrt(phi_bar ** 2 + cum_psi_sqr)\n"
               "atr_norm = alpha * jnp.abs(beta / rho * (rb / rho) * pb)\nA_norm = jnp.sqrt(S.A_norm ** 2 + S.alpha ** 2 + beta ** 2 + d ** 2)\n"
               "D_norm_sqr = S.D_norm_sqr + n2(S.w) / rho ** 2\nA_cond = A_norm * jnp.sqrt(D_norm_sqr)\n"
               "gb = -S.cs2 * rho\nrhs = rb / rho * pb - S.sn2 * rho * S.z\ntheta = beta / rho * alpha\ngam = jnp.sqrt(gb ** 2 + theta ** 2)\n"
               "x_norm = jnp.sqrt(S.cum_z_sqr + (rhs / gb) ** 2)\ncs2 = gb / gam\nsn2 = theta / gam\nz = rhs / gam\ncum_z_sqr = S.cum_z_sqr + z ** 2" % d)
    # ---- iterative shrinkage; the default threshold leaves its argument as it is beyond the rule in sls.defs
    for nm in ("ista", "fista"):
        for lab, W in (("( default limit| tolerance)?$", ("", "")), (" threshold$", ("", "")), (" basis$", ("W.trans", "W.times"))):
            src = "x" if nm == "ista" else "z"
            th = "threshold = lambda i, v: v * (jnp.abs(v) > lam / (i + 1))\n" if "thr" in lab else "from cr.sparse._src.sls.defs import default_threshold as threshold\n"
            step = th + ("x = %s(threshold(S.iterations, %s(S.%s + mu * At(y - A(S.%s)))))\n"
                    % (W[1], W[0], src, src))
            if nm == "fista":
                step += "t = (1 + jnp.sqrt(1 + 4 * S.t ** 2)) / 2\nz = x + (S.t - 1) / t * (x - S.x)\n"
            step += "x_change_norm = nrm(x - S.x)"
            s(r"^sls\.%s%s" % (nm, lab), ("mu", "N") + (("W",) if W[0] else ("lam",) if "thr" in lab else ()),
              guard="(n2(S.r) > RT ** 2 * n2(y)) & (S.x_change_norm > CT) & (S.iterations < N)", init="x = x0" + ("\nz = x0\nt = 1" if nm == "fista" else ""), step=step)
    # ---- spectral
    s(r"^sls\.power_iterations", ("N",), init="v = y", step="u = S.v / nrm(S.v)\nv = A(u)\nnew_estimate = jnp.vdot(u, v)\nold_estimate = S.new_estimate",
      guard="(S.iterations < N) & (jnp.abs((S.new_estimate - S.old_estimate) / S.old_estimate) > 1e-6)",
      final="v = S.v / nrm(S.v)\ns = S.new_estimate")
    s(r"^lop\.normest", ("N",), step="u = S.v / nrm(S.v)\nv = At(A(u))\nnew_estimate = jnp.abs(jnp.vdot(u, v))\nold_estimate = S.new_estimate",
      guard="(S.iterations < N) & (jnp.abs((S.new_estimate - S.old_estimate) / S.old_estimate) > 1e-6)")
    s(r"^cvx\.focuss\.\w+$", ("N",), init="x = jnp.ones(Phi.shape[1])",
      step="w = jnp.abs(S.x) ** 2\nB = w[:, None] * Phi.T\nx = B @ jnp.linalg.solve(Phi @ B, y)")
    s(r"^cvx\.focuss\.\w+ p=", ("N",), init="x = jnp.ones(Phi.shape[1])",
      step="w = jnp.abs(S.x) ** (2 * POW)\nB = w[:, None] * Phi.T\nx = B @ jnp.linalg.solve(Phi @ B, y)")
    # ---- l1 regularised least squares, interior point
    nu = "nu_ = lambda z: jnp.minimum(1, lam / jnp.max(jnp.abs(At(2 * z)))) * (2 * z)\n"
    obj = "primal_obj = n2(z) + lam * jnp.sum(jnp.abs(%s))\n"
    l1 = ("lam",)
    s(r"^cvx\.l1ls", l1 + ("N",), init=nu + "z = A(x0) - y\nnu = nu_(z)\n" + obj % "x0" + "dual_obj = -n2(nu) / 4 - nu @ y\ngap = primal_obj - dual_obj\n"
      "rel_gap = gap / jnp.abs(dual_obj)\nx = x0",
      step=nu + "z = A(B.x) - y\nnu = nu_(z)\n" + obj % "B.x" + "dual_obj = jnp.maximum(-n2(nu) / 4 - nu @ y, S.dual_obj)\ngap = primal_obj - dual_obj\n"
      "rel_gap = gap / jnp.abs(dual_obj)\nn = Phi.shape[1]\nt = jnp.where(B.s < 0.5, S.t, jnp.maximum(jnp.minimum(2 * n * 2 / gap, 2 * S.t), S.t))",
      guard="(S.rel_gap > RT) & (S.iterations < N)")
    hes = ("n = Phi.shape[1]\nx, u, t = O.x, O.u, O.t\ni1 = 1 / (u + x) ** 2\ni2 = 1 / (u - x) ** 2\nd1 = (i1 + i2) / t\nd2 = (i1 - i2) / t\n"
           "top = lambda v: 2 * At(A(v[:n])) + d1 * v[:n] + d2 * v[n:]\nlow = lambda v: d2 * v[:n] + d1 * v[n:]\n"
           "H = lambda v: jnp.concatenate((top(v), low(v)))\n"
           "gr = jnp.concatenate((2 * At(O.z) - (1 / (u + x) - 1 / (u - x)) / t, lam - (1 / (u + x) + 1 / (u - x)) / t))\n"
           "dt = (2 + d1) * d1 - d2 ** 2\nM = lambda v: jnp.concatenate(((d1 * v[:n] - d2 * v[n:]) / dt, ((2 + d1) * v[n:] - d2 * v[:n]) / dt))\n")
    s(r"^cvx\.l1ls", l1, loop="gamma", init=hes + "x = O.dxu\nr = -gr - H(O.dxu)\np = M(r)\ngamma = r @ p",
      step=hes + "q = H(S.p)\na = S.gamma / (S.p @ q)\nx = S.x + a * S.p\nr = S.r - a * q\ngamma = r @ M(r)\np = M(r) + gamma / S.gamma * S.p")
    ph = "phi = lambda x, u, z: n2(z) + lam * jnp.sum(u) - (jnp.sum(jnp.log(u - x)) + jnp.sum(jnp.log(u + x))) / t\n"
    s(r"^cvx\.l1ls", l1, loop="@s", skip=hes + ph, guard="phi(B.x, B.u, A(B.x) - y) - phi(x, u, O.z) > 0.01 * B.s * (gr @ B.dxu)")
    # ---- spectral projected gradient, l1 ball
    ball = "from cr.sparse._src.cvx.spgl1 import project_to_l1_ball as proj\nhalf = lambda r: n2(r) / 2\n"
    ini = "r = y - A(x)\ng = -At(r)\nf_past = jnp.full(MEM, half(r))\nr_norm = nrm(r)\n"
    gap = "r_gap = jnp.abs(jnp.vdot(r, r - y) + %s * jnp.max(jnp.abs(g))) / jnp.maximum(1, half(r))\n"
    bb = "s = B.x - S.x\nsy = jnp.real(jnp.vdot(s, g - S.g))\nalpha_next = jnp.where(sy <= 0, AMAX, jnp.clip(n2(s) / sy, AMIN, AMAX))\n"
    clip = "alpha = jnp.clip(1 / jnp.max(jnp.abs(proj(x - g, %s) - x)), AMIN, AMAX)\nalpha_next = alpha\n"
    push = "f_past = jnp.concatenate((jnp.array([half(r)]), S.f_past[:MEM - 1]))\n"
    s(r"^cvx\.spgl1\.solve_lasso", ("tau", "N"), init=ball + "x = proj(x0, tau)\n" + ini + gap % "tau" + clip % "tau",
      step=ball + "r = y - A(B.x)\ng = -At(r)\n" + push + "r_norm = nrm(r)\n" + gap % "tau" + bb,
      guard="(S.iterations < N) & (S.r_gap > OTOL) & (S.r_norm >= OTOL * nrm(y))")
    sig = (("solve_bp$", "0.0", ()), ("solve_bpic", "sigma", ("sigma",)))
    for pat, sg, ag in sig:
        err = ("r_res_error = jnp.abs(r_norm - %s) / jnp.maximum(1, r_norm)\nr_f_error = jnp.abs(half(r) - %s ** 2 / 2) / jnp.maximum(1, half(r))\n" % (sg, sg))
        s(r"^cvx\.spgl1\." + pat, ag + ("N",), init=ball + "x = x0\nt0 = jnp.sum(jnp.abs(x0))\n" + ini + gap % "t0" + err +
          "tau = jnp.maximum(0, t0 + r_norm * (r_norm - %s) / jnp.max(jnp.abs(g)))\n" % sg + clip % "0.0",
          step=ball + "r = y - A(B.x)\ng = -At(r)\n" + push + "r_norm = nrm(r)\n" + bb,
          guard="(((S.r_gap > jnp.maximum(OTOL, S.r_f_error)) & (S.r_res_error > OTOL)) | ((S.r_norm > %s) & (S.r_res_error > OTOL) & "
                "(S.r_norm > BTOL * nrm(y)))) & (S.iterations < N) & (S.n_times + S.n_trans < MMAX)" % sg)
        # the Newton update of tau, in terms of the accepted line search point
        s(r"^cvx\.spgl1\." + pat, ag, step=ball + "l = y - A(LS.x_new)\nln = nrm(l)\nf = half(l)\ndf = jnp.abs(f - S.f_past[0])\n"
          "slow = jnp.where(ln > 2 * SG, df <= DTOL * f, df <= 0.1 * f * jnp.abs(ln - SG))\ntau_changed = slow & ~S.tau_changed\n"
          "tau = jnp.where(tau_changed, jnp.maximum(0, S.tau + ln * (ln - SG) / jnp.max(jnp.abs(At(l)))), S.tau)\n"
          "x = jnp.where(tau < S.tau, proj(LS.x_new, tau), LS.x_new)\n".replace("SG", sg))
    cand = ("x_new = proj(O.x - alpha * scale * g, %s)\nr_new = y - A(x_new)\nd_new = x_new - O.x\ngtd = scale * jnp.real(jnp.vdot(g, d_new))\n"
            "f_val = half(r_new)\nf_lim = jnp.max(O.f_past) + GAM * alpha * gtd\n")
    for pat, tau, ag in (("solve_lasso", "tau", ("tau",)), ("solve_bp", "O.tau", ())):
        s(r"^cvx\.spgl1\." + pat, ag, loop="x_new", init=ball + "g = O.alpha_next * O.g\nalpha = 1.0\nscale = 1.0\n" + cand % tau + "d_norm_old = 0.0",
          step=ball + "g = O.alpha_next * O.g\nalpha = S.alpha / 2\nd_norm_old = nrm(S.d_new) / jnp.sqrt(Phi.shape[1])\n"
          "close = jnp.abs(d_norm_old - S.d_norm_old) <= 1e-6 * d_norm_old\n"
          "scale = jnp.where(close, d_norm_old / (nrm(g) / jnp.sqrt(Phi.shape[1])) / 2.0 ** S.n_safe, S.scale)\nn_safe = jnp.where(close, S.n_safe + 1, S.n_safe)\n"
          + cand % tau, guard="(S.n_iters < 10) & (S.gtd < 0) & (S.f_val >= S.f_lim)")
    # ---- spectral projected gradient, any smooth function
    s(r"^opt\.spg\.", (("F", 0), ("P", 1), "N"),
      init="p = P(x0)\ng0 = F.grad(p)\nd = P(p - g0) - p\ndelta = g0 @ d\nx_prev = p\ng_prev = g0\nx = p + jnp.minimum(1, 1 / jnp.sum(jnp.abs(g0))) * d\n"
           "g = F.grad(x)\nf_past = jnp.full(SMEM, F.func(x))",
      step="s = S.x - S.x_prev\neps = 1.1920928955078125e-07\nl = n2(s) / (s @ (S.g - S.g_prev) + eps)\nl = jnp.where((l < 1e-10) | (l > 1e10), 1, l)\n"
           "d = P(S.x - l * S.g) - S.x\ndelta = S.g @ d\nx_prev = S.x\ng_prev = S.g\ng = F.grad(B.x)\n"
           "f_past = jnp.concatenate((jnp.array([F.func(B.x)]), S.f_past[:SMEM - 1]))",
      guard="(S.iterations < N) & (S.delta <= -PTOL) & (jnp.max(jnp.abs(P(S.x - S.g) - S.x)) >= OPTOL) & (S.f_calls < FMAX)")
    d = ("s = O.x - O.x_prev\neps = 1.1920928955078125e-07\nl = n2(s) / (s @ (O.g - O.g_prev) + eps)\nl = jnp.where((l < 1e-10) | (l > 1e10), 1, l)\n"
         "d = P(O.x - l * O.g) - O.x\ndl = O.g @ d\n")
    tail = "x_new = O.x + alpha * d\nf_val = F.func(x_new)\nf_lim = jnp.max(O.f_past) + SDEC * alpha * dl\n"
    s(r"^opt\.spg\.", (("F", 0), ("P", 1)), loop="x_new", init=d + "alpha = 1.0\n" + tail,
      step=d + "a = -S.alpha ** 2 / 2 / (S.f_val - O.f_past[0] - S.alpha * dl)\n"
      "alpha = jnp.where((a >= 0.1) & (a <= 0.9 * S.alpha), a, S.alpha / 2)\n" + tail, guard="(S.f_val > S.f_lim) & (S.f_calls < 50)")
    # ---- alternating directions on the dual
    for mode, q, po, do, ag, infeas, nil in (
            ("bp", "", "", "", (), "(nrm(S.rp) >= YT * nrm(b))", "False"),
            ("l1l2", "q = q / (1 + rho / bm / mu)", " + n2(rp) / (2 * rho / bm)", " - rho / bm / 2 * n2(q)", ("rho",), None, "jnp.max(jnp.abs(Awt(y))) <= rho"),
            ("l1l2con", "q = jnp.maximum(0, 1 - delta / bm / mu / nrm(q)) * q", "", " - delta / bm * nrm(q)", ("delta",), "(nrm(S.rp) > delta / bm * (1 + YT))", "nrm(y) <= delta")):
        for var in ("", "nonneg", "basis", "nojit", "start", "tolerance", "weights", "weights nonneg"):
            pre = "bm = jnp.max(jnp.abs(y))\nb = y / bm\nmu = jnp.mean(jnp.abs(b))\n"
            pre += "Aw = %s\nAwt = %s\n" % (("lambda x: A(W.times(x))", "lambda x: W.trans(At(x))") if var == "basis" else ("A", "At"))
            wt = "wt" if "weights" in var else "1"
            box = "z = jnp.minimum(WT, v)" if "nonneg" in var else "z = WT * v / jnp.maximum(WT, jnp.abs(v))"
            box = box.replace("WT", wt)
            it = ("def it(x, z):\n    q = Aw(z - x / mu) + b / mu\n    %s\n    v = Awt(q) + x / mu\n    %s\n    return (x - %s * mu * (z - Awt(q)), z, q)\n"
                  % (q or "pass", box, "gamma" if "nonneg" in var else "1"))
            l1w = "jnp.sum(jnp.abs(%s" % wt
            start = "x = x0\nz = z0\n" if var == "start" else "x = Awt(y) / bm\nz = jnp.zeros(Phi.shape[1])\n"
            change = "(nrm(S.x - S.x_prev) / nrm(S.x) > YT * %s)" % ("1" if mode == "l1l2con" else "0.9")
            rg = "((jnp.abs(S.dual_objective - S.primal_objective) / S.primal_objective > YT) | (nrm(S.rd) / nrm(S.z) > YT)%s)" % (" | " + infeas if infeas else "")
            s(r"^cvx\.adm\.yall1\.solve %s%s$" % (mode, " " + var if var else ""),
              ag + ("N",) + {"nonneg": ("gamma",), "basis": ("W",), "start": ("x0", "z0"), "weights": ("wt",), "weights nonneg": ("wt", "gamma")}.get(var, ()),
              init=pre + start + "rp = b - Aw(x)\nrd = -Awt(b)\nprimal_objective = %s * x))%s\ndual_objective = 0.0" % (l1w, po),
              step=pre + it + "x1, z1, q1 = it(S.x, S.z)\nx, z, q = it(x1, z1)\nx_prev = x1\nrd = z - Awt(q)\nrp = b - Aw(x)\n"
              "primal_objective = %s * x))%s\ndual_objective = b @ q%s" % (l1w, po, do),
              guard="(S.iterations < N) & %s & %s" % (change, rg), skip=pre,
              final="w = jnp.where(%s, 0, %s)\nx = bm * %s\nr = bm * (b - Aw(w))" % (
                  nil.replace("jnp.max(jnp.abs(Awt(y))) <= rho", "jnp.max(jnp.abs(Awt(y)) / wt) <= rho") if "weights" in var else nil, "jnp.maximum(0, S.x)" if "nonneg" in var else "S.x", "W.times(w)" if var == "basis" else "w"))
    # ---- block sparse Bayesian learning
    for nm in ("bsbl_em", "bsbl_bo", "bsbl_bo_np"):
        for lab, ll in (("$", 1), (" fixed noise$", 0), ("(?<!options) high snr$", 2), (" no correlation$", 1), (" options$", 1), (" options high snr$", 2)):
            act = "jnp.ones(S.gammas.shape)" if nm == "bsbl_bo_np" else "1.0 * (S.gammas > PG)"
            post = ("m, n = Phi.shape\nnb = n // blk\nD = Phi.T.reshape((nb, blk, m))\nDt = jnp.swapaxes(D, 1, 2)\na = %s\nP = S.Sigma0 * a[:, None, None]\n"
                    "C = S.lambda_val * jnp.eye(m) + jnp.sum(Dt @ P @ D, axis=0)\nhy = (Phi.T @ jnp.linalg.solve(C, y)).reshape((nb, blk))\n"
                    "HD = jnp.linalg.solve(C, Phi).T.reshape((nb, blk, m)) @ Dt\nmu_x = jnp.sum(P * hy[:, None, :], axis=2)\nSx = P - P @ HD @ P\n"
                    "Cov = Sx + mu_x[:, :, None] * mu_x[:, None, :]\ngs = jnp.where(a > 0, S.gammas, 1)\nB0 = jnp.sum(Cov / gs[:, None, None], axis=0)\n"
                    "ro = jnp.clip(jnp.mean(jnp.diag(B0, 1)) / jnp.mean(jnp.diag(B0)), -0.99, 0.99)\nk = jnp.arange(blk)\nBm = ro ** jnp.abs(k[:, None] - k[None, :])\n"
                    "r = y - Phi @ mu_x.flatten()\nr_norm_sqr = n2(r)\n" % act)
            if "corr" in lab:
                post = re.sub(r"Bm = .*", "Bm = jnp.eye(blk)", post)
            if ll == 1:
                post += "lambda_val = (n2(r) + jnp.sum((Dt @ Sx) * Dt)) / m\n"
            elif ll == 0:
                post += "lambda_val = S.lambda_val\n"
            else:
                post += ("on = S.gammas > 0\ntr = jnp.sum(Sx * jnp.linalg.inv(Bm).T[None], axis=(1, 2)) / jnp.where(on, S.gammas, 1)\n"
                         "lambda_val = (n2(r) + S.lambda_val * (jnp.sum(on) * blk - jnp.sum(jnp.where(on, tr, 0)))) / m\n")
            if nm == "bsbl_em":
                post += "gammas = a * jnp.sum(jnp.linalg.inv(Bm).T[None] * Cov, axis=(1, 2)) / blk\n"
            else:
                post += "gammas = a * S.gammas * jnp.sqrt(jnp.sum((hy @ Bm) * hy, axis=1) / jnp.sum(HD * Bm.T[None], axis=(1, 2)))\n"
            post += "Sigma0 = gammas[:, None, None] * Bm[None]\ndmu = jnp.max(jnp.abs(mu_x - S.mu_x))"
            s(r"^block\.bsbl\.%s%s" % (nm, lab), ("blk", "N"), step=post,
              init="nb = Phi.shape[1] // blk\nmu_x = jnp.zeros((nb, blk))\nr = y\ngammas = jnp.ones(nb)\nSigma0 = jnp.ones(nb)[:, None, None] * jnp.eye(blk)[None]\n"
                   "lambda_val = LV\ndmu = 1.0", guard="(S.dmu > EPS) & (S.iterations < N)")
    # ---- accelerated first order methods
    acc = ("al = FA\nL = S.L * al\ntheta = 2 / (1 + jnp.sqrt(1 + 4 * (L / S.L) / S.theta ** 2))\ny = (1 - theta) * S.x + theta * S.z\nA_y = A(y)\n"
           "g_Ay = grad(A_y)\ng_y = At(g_Ay)\nz = prox(S.z - g_y / (theta * L), 1 / (theta * L))\nx = (1 - theta) * S.x + theta * z\nA_x = A(x)\nA_z = A(z)\nf_x = func(A_x)\nf_y = func(A_y)\n"
           "g_Ax = grad(A_x)\nnorm_x = nrm(x)\nnorm_dx = nrm(x - S.x)\nsq = n2(x - y)\nloc = 2 * jnp.sum((A_x - A_y) * (g_Ax - g_Ay)) / sq\n"
           "L = jnp.where((sq == 0) | (loc <= L), L, jnp.minimum(LX, jnp.maximum(loc, L / FB)))")
    gd = "(S.iterations < N) & (S.norm_dx >= FT * jnp.maximum(S.norm_x, 1))"
    s(r"^fom\.fom", (("F", 0), ("H", 1), "N"), step="b = y\ngrad = lambda v: F.grad(v + b)\nfunc = lambda v: F.func(v + b)\nprox = H.prox_op\nLX = FLX\n" + acc, guard=gd)
    s(r"^fom\.scd", (("H", 0), ("G", 1), "mu", "x0", "N"), step="b = y\npx = lambda v: H.prox_op(x0 + mu * (v + b), mu)\ngrad = lambda v: -px(v)\n"
      "func = lambda v: -((v + b) @ px(v) - H.func(px(v)) - n2(px(v) - x0) / (2 * mu))\nprox = G.prox_op\nLX = FLX\n" + acc, guard=gd)
    for nm, px in (("lasso", "prox_l1_ball"), ("l1rls", "prox_l1"), ("owl1rls", "prox_owl1")):
        s(r"^fom\.%s( options)?$" % nm, ("lam", "N"), step="import cr.sparse.opt as opt\nb = y\ngrad = lambda v: v - b\nfunc = lambda v: n2(v - b) / 2\nprox = opt.%s(lam).prox_op\nLX = FLX\n" % px + acc, guard=gd)
    # ---- clustering
    km = ("d = jnp.sqrt(jnp.sum((pts[:, None, :] - centroids[None, :, :]) ** 2, axis=2))\nassignment = jnp.argmin(d, axis=1)\n"
          "distortion = jnp.mean(jnp.min(d, axis=1))")
    s(r"kmeans_with_seed", ("pts", "K", "N"),
      step="M = (S.assignment[None, :] == jnp.arange(K)[:, None]) * 1.0\ncentroids = (M @ pts) / jnp.maximum(jnp.sum(M, axis=1, keepdims=True), 1)\n"
           + km + "\nprev_distortion = S.distortion", guard="(S.prev_distortion - S.distortion > 1e-5) & (S.iterations < N)")
    return S


def extra_solvers():
    """configurations beyond the solver table"""
    out = []
    BS = "cr.sparse.block.bsbl"
    for nm in ("bsbl_em", "bsbl_bo", "bsbl_bo_np"):
        for lab, ll in (("fixed noise", 0), ("high snr", 2), ("no correlation", 1)):
            def a(s, ll=ll, lab=lab):
                o = solve.opts(s, BS, "BSBL_Options", max_iters=ops.size("N"), learn_lambda=num(ll), learn_block_corr=num(0 if "corr" in lab else 1))
                return [s.A, s.y, ops.size("blk")], {"options": o}
            out.append(solve.Solver(BS, nm, lab, a, "matrix", True, x="x", first=0))
        for lab, ll in (("options", 1), ("options high snr", 2)):
            out.append(solve.Solver(BS, nm, lab, lambda s, ll=ll: ([s.A, s.y, ops.size("blk")], {"options": solve.opts(
                s, BS, "BSBL_Options", max_iters=ops.size("N"), learn_lambda=num(ll), **named(s, prune_gamma="PG", lambda_val="LV", epsilon="EPS"))}), "matrix", True, x="x", first=0))

    def c(mod, name, label, args, model="matrix", real=True, **kw):
        out.append(solve.Solver(mod, name, label, args, model, real, **kw))
    N, K = (lambda: solve.isz("N")), (lambda: solve.isz("K"))
    vec = lambda s, n, d: ops.array(n, ops.size(d), real=True)
    PU = "cr.sparse.pursuit."
    both = (("matrix_solve", "matrix"), ("operator_solve", "op"))
    for md in ("iht", "htp"):
        for nm, mdl in both:
            c(PU + md, nm, "tolerance", lambda s: ([s.A, s.y, K()], {"step_size": solve.sc("mu"), "max_iters": N(), "res_norm_rtol": solve.sc("tol")}), mdl, support=True, first=1)
        c(PU + md, "matrix_solve", "default step", lambda s: ([s.A, s.y, K()], {"max_iters": N()}), "matrix", support=True, first=1)
    for md in ("sp", "cosamp"):
        for nm, mdl in both:
            c(PU + md, nm, "tolerance", lambda s: ([s.A, s.y, K()], {"max_iters": N(), "res_norm_rtol": solve.sc("tol")}), mdl, support=True, first=1)
    c(PU + "omp", "operator_solve", "tolerance", lambda s: ([s.A, s.y, N()], {"res_norm_rtol": solve.sc("tol")}), "op", support=True, first=1)
    c("cr.sparse.opt.cg", "solve_from", "tolerance", lambda s: ([s.A, s.y, vec(s, "x0", "m")], {"max_iters": N(), "res_norm_rtol": solve.sc("tol")}), "square", x="x", first=0)
    mop = lambda s: s.I.getattr(ops.operand(s.I, "Mop", ops.size("m"), ops.size("m"), real=T.TRUE), "times")
    for lab in ("tolerance", "preconditioned tolerance"):
        c("cr.sparse.opt.pcg", "solve_from", lab, lambda s, lab=lab: ([s.I.getattr(s.A, "times"), s.y, vec(s, "x0", "m")], dict(
            {"max_iters": N(), "tol": solve.sc("tol")}, **named(s, atol="ATOL"), **({"M": mop(s)} if "pre" in lab else {}))), "sqop", x="x", first=1)
    for lab, kw, at, bt, cl in (("tolerance", {}, 200, 3, 400), ("damped tolerance", {"damp": "damp"}, 40, 40, 4)):
        c("cr.sparse.sls", "lsqr", lab, lambda s, kw=kw, at=at, bt=bt, cl=cl: ([s.A, s.y, vec(s, "x0", "n")], dict(
            {"max_iters": N()}, **{k: solve.sc(v) for k, v in kw.items()}, **scaled(s, at, atol="LAT"), **scaled(s, bt, btol="LBT"),
            **scaled(s, T.Fraction(1, cl), conlim="CLIM"))), "op", x="x", first=1)
    for nm in ("ista", "fista"):
        c("cr.sparse.sls", nm, "tolerance", lambda s: ([s.A, s.y, vec(s, "x0", "n"), solve.sc("mu")], dict(
            {"max_iters": N(), "res_norm_rtol": solve.sc("tol")}, **named(s, x_norm_change_tol="CT"))), "op", x="x", first=0)
        c("cr.sparse.sls", nm, "threshold", lambda s: ([s.A, s.y, vec(s, "x0", "n"), solve.sc("mu"), s.I.call(s.I.spec(
            "def spec(lam): return lambda i, v: v * (jnp.abs(v) > lam / (i + 1))", "spec"), [solve.sc("lam")], {})], {"max_iters": N()}), "op", x="x", first=0)
    for pw in (T.Fraction(1, 2), T.Fraction(2)):
        def a(s, pw=pw):
            s.opt = {"POW": num(pw)}
            return [s.A, s.y], {"p": num(pw), "max_iters": N()}
        c("cr.sparse.cvx.focuss", "matrix_solve_noiseless", "p=%s" % pw, a, x="x", first=0)
    c("cr.sparse.cvx.l1ls", "solve_from", "tolerance", lambda s: ([s.A, s.y, solve.sc("lam"), vec(s, "x0", "n"), vec(s, "u0", "n")], {
        "max_iters": N(), "pcg_max_iters": solve.isz("M"), "tol": solve.sc("tol")}), "op", x="x", first=1)
    SG = "cr.sparse.cvx.spgl1"

    def sgo(s):
        s.opt = {"MEM": num(5)}
        return {"options": solve.opts(s, SG, "SPGL1Options", max_iters=N(), memory=num(5), **named(
            s, opt_tol="OTOL", bp_tol="BTOL", dec_tol="DTOL", gamma="GAM", alpha_min="AMIN", alpha_max="AMAX", max_matvec="MMAX"))}
    c(SG, "solve_lasso_from", "options", lambda s: ([s.A, s.y, solve.sc("tau"), vec(s, "x0", "n")], sgo(s)), "op", x="x", first=1)
    c(SG, "solve_bpic_from", "options", lambda s: ([s.A, s.y, solve.sc("sigma"), vec(s, "x0", "n")], sgo(s)), "op", x="x", first=1)
    SP = "cr.sparse.opt.spg"

    def spo(s):
        s.opt = {"SMEM": num(4)}
        return {"options": solve.opts(s, SP, "SPGOptions", max_iters=N(), memory=num(4), **named(
            s, progress_tol="PTOL", optim_tol="OPTOL", suff_dec="SDEC", max_f_calls="FMAX"))}
    c(SP, "solve_from", "options", lambda s: ([solve.smooth(s, "F", "n"), solve.projector(s, "P", "n"), vec(s, "x0", "n")], spo(s)), None, first=1)
    YA = "cr.sparse.cvx.adm.yall1"
    def wt():
        w = ops.array("wt", ops.size("n"), real=True)
        T.CTX.nonneg.add(w)
        return w

    for lab, kw in (("bp", lambda s: {}), ("l1l2", lambda s: {"rho": solve.pos("rho")}), ("l1l2con", lambda s: {"delta": solve.pos("delta")})):
        for l2, k2 in (("tolerance", lambda s: {"tolerance": solve.sc("tol")}), ("weights", lambda s: {"weights": wt()}),
                       ("weights nonneg", lambda s: {"weights": wt(), "nonneg": const(True), "gamma": solve.pos("gamma")})):
            c(YA, "solve", lab + " " + l2, lambda s, kw=kw, k2=k2: ([s.A, s.y], dict({"max_iters": N()}, **kw(s), **k2(s))), "op", x="x", first=0, step=2)
    FO = "cr.sparse.fom"
    for nm in ("lasso", "l1rls"):
        c(FO, nm, "options", lambda s: ([s.A, s.y, solve.pos("lam"), vec(s, "x0", "n"), solve.opts(s, FO, "FomOptions", max_iters=N(), **named(
            s, tol="FT", Lexact="FLX", alpha="FA", beta="FB"))], {}), "op", first=1)
    return out


def scaled(s, by, **kw):
    """named(), the sampled values divided"""
    out = named(s, **kw)
    for k, v in kw.items():
        s.opt[v] = out[k] = T.mul(out[k], num(T.Fraction(1) / by))
    return out


def named(s, **kw):
    """symbolic options; the update formulas refer to them by the name given"""
    if not hasattr(s, "opt"):
        s.opt = {}
    out = {}
    for k, v in kw.items():
        s.opt[v] = out[k] = solve.pos("o_" + k)
    return out


class Pair:
    def __init__(self, c, specs):
        self.c, self.specs = c, specs
        self.construct = c.construct


def cases():
    out = []
    specs = table()
    for c in solve.table() + extra_solvers():
        ss = [s for s in specs if s.pat.search(c.construct)]
        main = [s for s in ss if s.loop is None]
        if ss:
            out.append(Pair(c, ss))
    return out


def run(r):
    T.CTX.free_heads = True
    par.each(r, cases() + [Dual()], one, "update")


def assigned(text):
    out = []
    for l in text.split("\n"):
        m = re.match(r"^([A-Za-z_0-9, ]+?) = ", l)
        if m:
            for n in m.group(1).split(","):
                if n.strip() not in out:
                    out.append(n.strip())
    return out


def spec_values(an, text, fields, recs, extra):
    """field -> term of the formula text"""
    I = an.I
    names = [f for f in assigned(text) if f in fields]
    pre = MATRIX if an.case.model in ("matrix", "square") else OPER if an.case.model in ("op", "sqop") else ""
    body = "".join("    %s\n" % l for l in text.split("\n") if l.strip())
    allp = dict(recs)
    allp.update(extra)
    args = ["Phi", "y"] + list(allp)
    src = "def spec(%s):\n%s%s%s    return (%s,)\n" % (", ".join(args), HEAD, pre, body, ", ".join(names))
    v = I.call(I.spec(src, "spec"), [an.A if an.A is not None else T.NONE, an.y] + list(allp.values()), {})
    vals = [I.to_term(x) for x in v.items]
    return dict(zip(names, vals))


# options and their documented defaults
OPTION = {"TOL": "1e-4", "ATOL": "0", "RT": "1e-3", "CT": "1e-10", "POW": "1", "YT": "0.005", "AMIN": "1e-16", "AMAX": "1e5", "MEM": "3", "OTOL": "1e-4", "BTOL": "1e-6",
          "DTOL": "1e-4", "GAM": "1e-4", "MMAX": "100000", "SMEM": "10", "PTOL": "1e-9", "OPTOL": "1e-5", "SDEC": "1e-4", "FMAX": "2000",
          "LAT": "1e-8", "LBT": "1e-8", "CLIM": "1e8", "PG": "1e-3", "LV": "1e-12", "EPS": "1e-8", "FA": "0.9", "FB": "0.5", "FT": "1e-8", "FLX": float("inf")}


def params(an, s):
    d = {}
    for a in s.args:
        if isinstance(a, tuple):
            d[a[0]] = an.args[a[1]]
        elif a in ("Mop", "W"):
            d[a] = an.I.opsyms[a] if hasattr(an.I, "opsyms") and a in an.I.opsyms else opnd(an, a)
        elif a == "N":
            d[a] = p05.limit_of(an.case)
        else:
            d[a] = T.sym(a)
    if "x0" not in d:
        d["x0"] = T.sym("x0") if T.sym("x0") in T.CTX.shapes else zeros(an)
    for k, v in OPTION.items():
        q = getattr(an, "opt", {}).get(k, v)
        d[k] = q if isinstance(q, T.Term) else num(T.Fraction(q)) if not isinstance(q, float) else const(q)
    if T.sym("tol") in T.CTX.scalars:
        d["TOL"] = d["RT"] = d["YT"] = d["FT"] = T.sym("tol")
    return d


def opnd(an, name):
    n = "m" if name == "Mop" else "n"
    return ops.operand(an.I, name, ops.size(n), ops.size(n), real=T.TRUE, linear=T.TRUE)


def zeros(an):
    n = "n" if an.case.model not in ("square", "sqop") else "m"
    return an.I.call(an.I.spec("def spec(n): return jnp.zeros(n)", "spec"), [ops.size(n)], {})


def record(an, v):
    """a loop state as a record"""
    if isinstance(v, IP.NT):
        return v
    if isinstance(v, dict):
        nts = [x for x in v.values() if isinstance(x, IP.NT)]
        if nts:
            return max(nts, key=lambda x: len(x.fields))
        return IP.NT(BAG, dict(v))
    return None


class Bag:
    """stands for the class of a state kept in local variables"""
    name, fields, methods, bases, module = "locals", (), {}, (), None


BAG = Bag()


def find_loop(an, s):
    if s.loop is None:
        return p05.outermost(an)
    if s.loop.startswith("@"):
        # the loop that produces this field of the next state
        t = an.I.to_term(record(an, p05.outermost(an).body).fields[s.loop[1:]])
        for L in an.loops:
            if L.cond is not None and any(x is t for x in IP._flat(L.head)):
                return L
        return None
    for L in an.loops:
        rc = record(an, L.head)
        if rc is not None and s.loop in rc.fields and L.cond is not None and L is not p05.outermost(an):
            return L
    return None


class Pending:
    def __init__(self, rule, construct, lhs, rhs, tol, L, place, field):
        self.rule, self.construct, self.lhs, self.rhs, self.tol, self.L, self.place, self.field = rule, construct, lhs, rhs, tol, L, place, field
        self.why, self.seen, self.hit = "no state", 0, None


class Dual:
    """the smoothed conic dual driver: the gradient used by the method is the gradient of the dual of the documented problem"""
    construct = "fom.scd"


def dual(r):
    FO = "cr.sparse.fom"
    vec = lambda n: ops.array(n, ops.size("m"), real=True)
    c = solve.Solver(FO, "scd", "", lambda s: ([solve.proxcap(s, "H", "m"), solve.proxcap(s, "G", "m"), s.A, s.y, solve.pos("mu"), vec("x0"), vec("z0"),
                                               solve.opts(s, FO, "FomOptions", max_iters=ops.size("N"))], {}), "sqop", first=1)
    an = solve.Analysed(c)
    B = record(an, p05.outermost(an).body)
    S = Spec("", (("H", 0), "mu", "x0"))
    recs = {"B": B}
    want = spec_values(an, "g = A(H.prox_op(x0 + At(B.y) / mu, 1 / mu)) + y\nh = A(H.prox_op(x0 - At(B.y) / mu, 1 / mu)) + y", ["g", "h"], recs, params(an, S))
    got = an.I.to_term(B.fields["g_y"])
    same = [T.sub(got, want["g"]), T.add(got, want["g"]), T.sub(got, want["h"]), T.add(got, want["h"])]
    if any(e is ZERO for e in same):
        r.proved("formulation", "fom.scd", an.where, "dual gradient")
        return
    w = []
    for k in range(4):
        kind, v = point.separate(same[k], T.mul(ZERO, got), states(an, [], 20, 6.0), 1e-5)
        if kind != "differ":
            r.unknown("formulation", "fom.scd", an.where, "%s %s" % (kind, v))
            return
        w.append(v)
    r.refuted("formulation", "fom.scd", an.where, "the gradient step uses the gradient of another function than the dual of f(x) + mu/2 |x - x0|^2 + h(A x + b)")


def one(r, p):
    if isinstance(p, Dual):
        return dual(r)
    c = p.c
    an = solve.Analysed(c)
    A = p04.model(an)
    F = inv.Facts(an, A) if an.A is not None else None
    pend = []
    over = {}
    outer = record(an, p05.outermost(an).head) if p05.outermost(an) is not None else None
    for s in p.specs:
        rule = "update" if s.loop is None else "inner loop"
        try:
            collect(r, an, F, s, pend, over, outer)
        except RecursionError:
            raise
        except Exception as e:  # noqa
            r.unknown(rule, c.construct, an.where, "analyser exception %s: %s" % (type(e).__name__, e))
    settle(r, an, pend, over, p.specs)


def collect(r, an, F, s, pend, over, outer):
    c = an.case
    L = find_loop(an, s)
    if L is None:
        r.unknown("update", c.construct, an.where, "no loop over a state record")
        return
    H, B0, B1 = record(an, L.head), record(an, L.init), record(an, L.body)
    if s.loop and s.loop.startswith("@"):
        H, B0, B1 = outer, None, record(an, p05.outermost(an).body)
    elif H is None or B0 is None or B1 is None:
        r.unknown("update", c.construct, an.where, "the loop state is not a record")
        return
    extra = params(an, s)
    fields = list(H.fields)
    recs = {"S": H, "B": B1, "O": outer}
    for L2 in an.loops:
        q = record(an, L2.head)
        if L2 is not L and q is not None and "x_new" in q.fields:
            recs["LS"] = q
    inner = "" if s.loop is None else " inner"

    def rec(v, f):
        return an.I.to_term(v.fields[f])
    ov = over.setdefault(L.label, {"init": {}, "step": {}, "guard": None})
    for rule, text, rc in (("start", s.init, B0), ("update", s.step, B1)):
        if not text:
            continue
        want = spec_values(an, text, fields, recs, extra)
        for f, w in want.items():
            if T.depends(w, rec(H, f)) and rule == "start":
                continue
            k = "%s%s %s" % (c.construct, inner, f)
            lhs = rec(rc, f)
            if proved(F, lhs, w):
                r.proved(rule, k, an.where, "; ".join(F.log)[:200] if F is not None else "")
            else:
                pend.append(Pending(rule, k, lhs, w, s.tol, L, "init" if rule == "start" else "step", f))
            ov["init" if rule == "start" else "step"].setdefault(rec(H, f), w)
    if s.guard:
        w = spec_values(an, (s.skip or "") + "guard__ = " + s.guard, ["guard__"], recs, extra)["guard__"]
        g, u = (F.apply(L.cond), F.apply(w)) if F is not None else (L.cond, w)
        if g is u or eqv.decide(g, u, [], ())[0] == "proved":
            r.proved("stopping rule", c.construct + inner, an.where, "")
        else:
            pend.append(Pending("stopping rule", c.construct + inner, L.cond, w, 1e-5, L, "guard", None))
        ov["guard"] = w
    if s.final and isinstance(an.result, IP.NT):
        want = spec_values(an, (s.skip or "") + s.final, list(an.result.fields), recs, extra)
        for f, w in want.items():
            lhs = an.I.to_term(an.result.fields[f])
            k = "%s %s" % (c.construct, f)
            if proved(F, lhs, w):
                r.proved("result", k, an.where, "")
            else:
                pend.append(Pending("result", k, lhs, w, s.tol, L, "final", f))


def proved(F, lhs, rhs):
    if lhs is rhs:
        return True
    try:
        e = T.sub(lhs, rhs)
        if F is not None:
            return F.zero(e)
        return e is ZERO or T.equal(e, ZERO) is True
    except RecursionError:
        raise
    except Exception:  # noqa
        return False


# ranges of symbolic options along the sampled histories
RANGE = {"o_opt_tol": (1e-3, 1.5), "o_bp_tol": (1e-3, 1.5), "o_atol": (0.1, 20), "o_alpha_min": (1e-3, 0.3), "o_alpha_max": (0.3, 1e3), "o_max_matvec": (4, 100), "o_max_f_calls": (4, 60), "o_alpha": (0.5, 1.0),
         "o_beta": (0.2, 0.9), "o_Lexact": (1.0, 500.0), "o_prune_gamma": (0.02, 0.6), "o_lambda_val": (0.01, 1.0), "tol": (1e-3, 1.0)}


def prepare(an, specs, P):
    i = 0
    q = point.rng_for("options", P.salt)
    for t in sorted(T.CTX.scalars, key=str):
        if t.op == "sym" and (t.args[0].startswith("o_") or t.args[0] == "tol"):
            i += 1
            a, b = RANGE.get(t.args[0], (1e-4, 0.5))
            P.env[t] = float(a * (b / a) ** q.rand())
    if i:
        P.memo.clear()
    if any(s.unit for s in specs) and an.case.model == "matrix":
        for k in list(P.sizes):
            if k.op == "sym" and k.args[0] == "N":
                P.sizes[k] = min(P.sizes[k], 4)
        M = np.asarray(P.val(an.A))
        P.env[an.A] = M / np.sqrt(np.sum(np.abs(M) ** 2, axis=0))
        P.memo.clear()
    return P


def states(an, specs, n, seconds):
    for P in p04.histories(an, n, seconds=seconds, extreme=False):
        yield prepare(an, specs, P)


def evaluate(P, t):
    try:
        return P.val(t), None
    except point.Undefined as e:
        return None, str(e)
    except Exception as e:  # noqa
        return None, "%s: %s" % (type(e).__name__, e)


def settle(r, an, pend, over, specs):
    """separating reachable states; a difference inside the loop counts when it reaches what the solver returns"""
    if not pend:
        return
    live = list(pend)
    for P in states(an, specs, 60, 10.0):
        for q in list(live):
            a, ea = evaluate(P, q.lhs)
            if ea is None:
                b, ea = evaluate(P, q.rhs)
            if ea is not None:
                q.why = ea
                continue
            d = point.differ(a, b, q.tol)
            if d is None:
                q.why = "undefined value"
            elif d:
                q.hit = (dict(P.steps), a, b)
                live.remove(q)
            else:
                q.seen += 1
        if not live:
            break
    for q in live:
        if q.place == "guard":
            guards(an, specs, q)
    obs = None
    for q in pend:
        if q.hit is None:
            r.unknown(q.rule, q.construct, an.where, "%s vs %s; %s" % (T.show(q.lhs, 5), T.show(q.rhs, 5),
                                                                      "agree on %d reachable states" % q.seen if q.seen else q.why))
            continue
        if q.place != "final":
            obs = observable(an, over, specs) if obs is None else obs
            if obs is False:
                r.unknown(q.rule, q.construct, an.where, "differs inside the loop, the results are the same")
                continue
        r.refuted(q.rule, q.construct, an.where, ("the code does %s steps, the algorithm %s%s" % (q.hit[1], q.hit[2], "; result: " + obs if obs else "")) if q.hit[0] == "?" else
                  "code gives %s, the algorithm %s (after %s steps)%s" % (point.fmt(q.hit[1]), point.fmt(q.hit[2]), q.hit[0], "; result: " + obs if obs else ""))


def guards(an, specs, q):
    """the number of steps under the guard of the code and under the published one"""
    h = [x for x in IP._flat(q.L.head) if isinstance(x, T.Term) and x.op == "sym"]
    if not h:
        return
    n = 0
    for P, Q in zip(states(an, specs, 60, 8.0), states(an, specs, 60, 8.0)):
        Q.over = {q.L.label: {"init": {}, "step": {}, "guard": q.rhs}}
        a, e1 = evaluate(P, h[0])
        b, e2 = evaluate(Q, h[0])
        # no answer when one of the two runs beyond the bound
        if e1 is None and e2 is None:
            n += 1
            if P.steps[q.L.label] != Q.steps[q.L.label]:
                q.hit = ("?", P.steps[q.L.label], Q.steps[q.L.label])
                return
    # starts close to the solution: residuals of every order of magnitude
    for k, (P, Q) in enumerate(zip(states(an, specs, 32, 6.0), states(an, specs, 32, 6.0))):
        if not (near(an, P, k) and near(an, Q, k)):
            break
        Q.over = {q.L.label: {"init": {}, "step": {}, "guard": q.rhs}}
        a, b = steps(P, h[0], q.L.label), steps(Q, h[0], q.L.label)
        if a is not None and b is not None:
            n += 1
            if a != b:
                q.hit = ("?", a, b)
                return
    q.seen = max(q.seen, n)


def steps(P, h, label):
    """number of steps of the loop, "more than n" beyond the bound, None when undefined"""
    try:
        P.val(h)
        return P.steps.get(label)
    except inv.TooLong as e:
        return "more than %s" % P.BOUND if e.label == label else None
    except Exception:  # noqa
        return None


def near(an, P, k):
    """y := A x0 + noise of relative size 10^-(1..8); False when the solver has no starting point"""
    x0, y = T.sym("x0"), T.sym("y")
    if x0 not in T.CTX.shapes or y not in T.CTX.shapes:
        return False
    try:
        t = an.I.to_term(an.I.call(an.A.fields["times"], [x0], {})) if isinstance(an.A, IP.NT) else T.mm(an.A, x0)
        b = np.asarray(P.val(t))
        z = point.rng_for("near", k, P.salt).randn(*b.shape)
    except Exception:  # noqa
        return False
    P.env[y] = b + 10.0 ** -(1 + k % 8 + 0.4) * np.linalg.norm(b) * z / np.linalg.norm(z)
    P.memo.clear()
    return True


def observable(an, over, specs):
    """do the results differ when the loops follow the published recurrences"""
    outs = []
    for cond, rec in p04.results(an):
        for x in IP._flat(rec):
            try:
                outs.append((cond, x if isinstance(x, T.Term) else an.I.to_term(x)))
            except Exception:  # noqa
                pass
    gen = [(P, Q) for P, Q in zip(states(an, specs, 60, 12.0), states(an, specs, 60, 12.0))]
    close = [(P, Q) for k, (P, Q) in enumerate(zip(states(an, specs, 32, 6.0), states(an, specs, 32, 6.0))) if near(an, P, k) and near(an, Q, k)]
    for P, Q in gen + close:
        Q.over = over
        for cond, t in outs:
            a, e1 = evaluate(P, t)
            b, e2 = evaluate(Q, t)
            if e1 is None and e2 is None and point.differ(a, b, 1e-5):
                return "%s instead of %s" % (point.fmt(a), point.fmt(b))
    return False
