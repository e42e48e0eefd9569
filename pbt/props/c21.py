"""C21: the advection-diffusion assembly is the consistent spectral discretisation of the weak form."""
import logging
import warnings
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Prop, Sub, fail, require
from pbt.util import close

LD = np.longdouble
EPS = ref.EPS


# --- independent Gauss-Lobatto rules and Lagrange polynomials on [0, 1] ----------------------------------
def gll(p):
    """p + 1 Gauss-Lobatto nodes and weights on [0, 1], ascending, in extended precision."""
    from numpy.polynomial import legendre as leg
    c = np.zeros(p + 1)
    c[p] = 1.0
    inner = np.sort(leg.legroots(leg.legder(c))) if p > 1 else np.array([])
    x = np.concatenate([[-1.0], inner, [1.0]]).astype(LD)
    P = np.array([float(v) for v in c], dtype=LD)
    d1, d2 = leg.legder(P), leg.legder(P, 2)
    for _ in range(3):      # Newton on P_p'(x)
        if p > 1:
            x[1:-1] -= leg.legval(x[1:-1], d1.astype(LD)) / leg.legval(x[1:-1], d2.astype(LD))
    w = LD(2) / (p * (p + 1) * leg.legval(x, P) ** 2)
    return (1 + x) / 2, w / 2


def lagrange(nodes, x):
    """Values and derivatives of the Lagrange polynomials of `nodes` at x: two arrays [i, q]."""
    nodes, x = np.asarray(nodes, dtype=LD), np.asarray(x, dtype=LD)
    n = len(nodes)
    V, D = np.zeros((n, len(x)), dtype=LD), np.zeros((n, len(x)), dtype=LD)
    for i in range(n):
        v = np.ones(len(x), dtype=LD)
        for j in range(n):
            if j != i:
                v = v * (x - nodes[j]) / (nodes[i] - nodes[j])
        V[i] = v
        for k in range(n):
            if k == i:
                continue
            t = np.ones(len(x), dtype=LD) / (nodes[i] - nodes[k])
            for j in range(n):
                if j not in (i, k):
                    t = t * (x - nodes[j]) / (nodes[i] - nodes[j])
            D[i] += t
    return V, D


def breakpoints(widths, x0):
    xs = [x0]
    for w in widths:
        xs.append(float(f"{xs[-1] + w:.12g}"))
    return xs


def build_mesh(c):
    import skfem as fem
    xs = np.array(breakpoints(c["widths"], c["x0"]))
    n = len(xs)
    order = np.argsort(np.array(c["shuffle"][:n], dtype=float), kind="stable") if c.get("shuffle") else np.arange(n)
    inv = np.argsort(order)
    m = fem.MeshLine1(xs[order][None, :], np.vstack([inv[:-1], inv[1:]]))
    tol = 1e-6 * min(c["widths"])
    m = m.with_boundaries({"left": lambda x: np.abs(x[0] - xs[0]) < tol, "right": lambda x: np.abs(x[0] - xs[-1]) < tol})
    if c["per"]:
        m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    return m, xs


@st.composite
def mesh(draw, kmin=1, kmax=8):
    per = draw(st.booleans())
    k = draw(st.integers(max(kmin, 3 if per else 1), kmax))
    uniform = draw(st.booleans())
    w = draw(st.sampled_from([0.125, 0.5, 1.0, 0.01])) if uniform else None
    widths = [w] * k if uniform else draw(st.lists(st.one_of(st.sampled_from([0.1, 0.25, 1.0]), gen.logscale(-2, 1)), min_size=k, max_size=k))
    return {"widths": widths, "x0": draw(st.sampled_from([0.0, 0.0, -1.0, 3.0])), "per": per,
            "p": draw(st.integers(1, 4)),
            "shuffle": draw(st.one_of(st.none(), st.permutations(range(k + 1)).map(list)))}


FIELDS = {
    "const": lambda x, L, a: a + 0.0 * x,
    "linear": lambda x, L, a: a * (1.0 + 0.5 * (x - x.min()) / L),
    "wave": lambda x, L, a: a * (1.5 + np.sin(3.0 * x / L)),
    "step": lambda x, L, a: np.where(x < x.min() + 0.4 * L, a, 2.0 * a),
    "change": lambda x, L, a: a * (1.0 - 1.3 * (x - x.min()) / L),
}


@st.composite
def case(draw, fields=True):
    c = draw(mesh())
    c["nu"] = draw(st.one_of(st.just(0.0), gen.q(0, 2, 8), gen.logscale(-12, 1)))
    c["vel"] = draw(st.one_of(st.just(0.0), gen.q(-2, 2, 4), gen.logscale(-4, 2), gen.logscale(-2, 1).map(lambda v: -v)))
    c["tau"] = draw(st.one_of(st.just(0.0), st.just(0.0), gen.q(0, 1, 8), gen.logscale(-3, 0)))
    c["fields"] = {}
    if fields and draw(st.booleans()):
        for f in draw(st.sets(st.sampled_from(["nu", "vel", "tau"]), min_size=1, max_size=3)):
            c["fields"][f] = draw(st.sampled_from(sorted(FIELDS) if f == "vel" else ["const", "linear", "wave", "step"]))
        c["scale"] = draw(st.sampled_from([None, 1.0, 2.0, 0.5]))
        c["late"] = draw(st.booleans())
    return c


def params_at(c, X, L):
    """nu, vel, tau at the nodes X of the discretisation."""
    out = {}
    for f in ("nu", "vel", "tau"):
        a = c[f]
        if f in c["fields"]:
            out[f] = np.asarray(FIELDS[c["fields"][f]](X, L, a), dtype=float) * (c.get("scale") or 1.0)
        else:
            out[f] = np.full(len(X), float(a))
    return out


def assembler(c, m, L):
    from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM

    def fn(name):
        def f(x, nu, vel, tau, scale=1.0, **kwargs):
            x = np.asarray(x)
            require(x.ndim >= 1 and x.shape[0] == 1, f"field function called with x of shape {x.shape}")
            require((nu, vel, tau) == (c["nu"], c["vel"], c["tau"]), "field function called with other parameters")
            return FIELDS[c["fields"][name]](x, L, c[name]) * scale
        return f
    params = {k: c[k] for k in ("nu", "vel", "tau")}
    fns = {k: fn(k) for k in c["fields"]}
    before = dict(params), dict(fns)
    if c.get("late"):                       # the same fields registered after construction, the first one replacing another
        sem = AdDiffSEM(m, p=c["p"], params=params)
        for k in fns:
            sem.validate_add_field_fn(k, lambda x, **kw: 0.0 * x + 7.0)
            sem.validate_add_field_fn(k, fns[k])
    else:
        sem = AdDiffSEM(m, p=c["p"], params=params, field_fns=fns)
    require((params, fns) == before, "the parameters given were changed")
    return sem


def quad_matrices(c, xs, nodes_of, par, q, w, N, gll_nodes):
    """Dense stiffness, lumped mass and their magnitudes, with quadrature (q, w) on [0, 1]."""
    A = np.zeros((N, N), dtype=LD)
    Am = np.zeros((N, N))
    Ml, Mm = np.zeros(N, dtype=LD), np.zeros(N)
    V, D = lagrange(gll_nodes, q)
    for e in range(len(xs) - 1):
        h = LD(xs[e + 1]) - LD(xs[e])
        I = nodes_of[e]
        nu, vel, tau = (sum(LD(par[k][I[i]]) * V[i] for i in range(len(I))) for k in ("nu", "vel", "tau"))
        # upwind parameter: tau h / (2 |vel|), none where nothing moves
        th = np.where(vel == 0, LD(0), tau * h / (2 * np.where(vel == 0, LD(1), np.abs(vel))))
        for i in range(len(I)):
            gi = D[i] / h
            Ml[I[i]] += h * np.sum(w * (V[i] + th * vel * gi))
            Mm[I[i]] += float(h * np.sum(w * (np.abs(V[i]) + np.abs(th * vel * gi))))
            for j in range(len(I)):
                gj = D[j] / h
                A[I[i], I[j]] += h * np.sum(w * (nu * gj * gi - vel * V[j] * gi + th * vel * vel * gi * gj))
                Am[I[i], I[j]] += float(h * np.sum(w * (np.abs(nu * gj * gi) + np.abs(vel * V[j] * gi) + np.abs(th * vel * vel * gi * gj))))
    return A, Am, Ml, Mm


def layout(c, xs):
    """Coordinates of the global nodes in ascending order, and the node numbers of every element."""
    g, w = gll(c["p"])
    X, nodes_of = [xs[0]], []
    for e in range(len(xs) - 1):
        h = xs[e + 1] - xs[e]
        I = [len(X) - 1]
        for s in g[1:-1]:
            X.append(float(xs[e] + h * s))
            I.append(len(X) - 1)
        X.append(xs[e + 1])
        I.append(len(X) - 1)
        nodes_of.append(I)
    if c["per"]:
        X = X[:-1]
        nodes_of[-1][-1] = 0
    return np.array(X), nodes_of, g, w


def match(c, xs, X, got):
    """Permutation that brings the code's degrees of freedom into ascending order."""
    got = np.array(got, dtype=float)
    if c["per"]:
        got = np.where(np.abs(got - xs[-1]) < 1e-9 * (xs[-1] - xs[0]), xs[0], got)
    require(len(got) == len(X), f"{len(got)} collocation points, expected {len(X)}")
    o = np.argsort(got, kind="stable")
    close(None, got[o], X, 1e-12 * (np.abs(xs).max() + 1), "collocation points are the Gauss-Lobatto nodes of the elements")
    return o


def check(ctx, c):
    m, xs = build_mesh(c)
    L = xs[-1] - xs[0]
    if not c["per"] and m.boundaries is None:
        return False
    X, nodes_of, g, w = layout(c, xs)
    N = len(X)
    # the field functions are defined by the coordinates the code hands out, including the wrap-around node
    sem = assembler(c, m, L)
    pts = np.asarray(sem.collocation_points())
    o = match(c, xs, X, pts)
    par = params_at(c, pts, L)
    par = {k: v[o] for k, v in par.items()}
    scale = {} if c.get("scale") is None or not c["fields"] else {"scale": c["scale"]}
    A, Ml, b = sem.assemble(**scale)
    A = np.asarray(A.todense())[np.ix_(o, o)]
    Ml, b = np.asarray(Ml)[o], np.asarray(b)[o]
    want, mag, wM, mM = quad_matrices(c, xs, nodes_of, par, g, w, N, g)
    if c["per"]:
        require(sem.dirichlet_bd is None or len(sem.dirichlet_bd) == 0, "a periodic mesh has no Dirichlet point")
    else:
        want[N - 1, N - 1] += LD(par["vel"][N - 1])       # outflow through the right end
        mag[N - 1, N - 1] += abs(par["vel"][N - 1])
        want[0], mag[0] = 0, 0
        want[0, 0] = 1
        wM[0], mM[0] = 1, 0
        d = np.asarray(sem.dirichlet_bd)
        require(d.shape == (1,) and o[0] == d[0], f"Dirichlet points {d}, the left end is degree of freedom {o[0]}")
    # derivative values carry the roundoff of the basis, relative to the largest entry of the rows
    fac = 64 * EPS * (1 + np.abs(xs).max() / min(c["widths"]))
    # (rows and columns share the elements' magnitude)
    scaleA = np.maximum(mag, np.maximum(mag.max(axis=1)[:, None], mag.max(axis=0)[None, :]))
    if not c["per"]:
        scaleA[0] = 1e-3
    close(ctx, A, want, fac * scaleA + 1e-300, "stiffness matrix", "stiffness")
    close(ctx, Ml, wM, fac * (mM + np.abs(wM)) + 1e-300, "lumped mass", "mass")
    close(ctx, b, np.zeros(N), 1e-300, "load without source", "load")
    # the conserved quantity
    if c["per"]:
        close(ctx, A.sum(axis=0), np.zeros(N), N * fac * scaleA.max(axis=0) + 1e-300, "column sums of the stiffness (conservation)", "conserve")
        close(ctx, Ml.sum(), L, N * fac * mM.sum(), "the lumped masses add up to the length of the domain", "length")
    else:
        cs = A[1:].sum(axis=0)
        flux = np.zeros(N, dtype=LD)
        flux[N - 1] = par["vel"][N - 1]
        # columns that do not touch the first element's rows
        far = [j for j in range(N) if j not in nodes_of[0]]
        close(ctx, cs[far], flux[far], N * fac * (scaleA.max(axis=0)[far] + 1e-300), "column sums: what is lost leaves through the right end", "conserve")
    A2, M2, b2 = sem.assemble(**scale)
    close(ctx, np.asarray(A2.todense())[np.ix_(o, o)], A, fac * scaleA + 1e-300, "second assembly: stiffness", "again")
    close(ctx, np.asarray(M2)[o], Ml, fac * (mM + np.abs(wM)) + 1e-300, "second assembly: mass", "again")
    ctx.label(f"p={c['p']}")
    ctx.label("periodic" if c["per"] else "dirichlet")
    for f in c["fields"]:
        ctx.label("field " + f)
    if c["tau"]:
        ctx.label("stabilised")
    return len(c["widths"]) > 1 and (c["nu"] != 0 or c["vel"] != 0)


# --- patch test: polynomials of degree p, exact integrals ------------------------------------------------
@st.composite
def patch(draw):
    c = draw(case(fields=False))
    c["per"] = False
    c["widths"] = [max(w, 0.05) for w in c["widths"]]
    c["coef"] = draw(gen.nzvec(c["p"] + 1))
    return c


def check_patch(ctx, c):
    from numpy.polynomial import polynomial as P
    m, xs = build_mesh(c)
    L = xs[-1] - xs[0]
    X, nodes_of, g, _ = layout(c, xs)
    N = len(X)
    sem = assembler(c, m, L)
    pts = np.asarray(sem.collocation_points())
    o = match(c, xs, X, pts)
    A = np.asarray(sem.assemble()[0].todense())[np.ix_(o, o)]
    # q(x) in the scaled coordinate (x - x0)/L
    q = np.array(c["coef"], dtype=LD)
    ql = lambda x, k: P.polyval((np.asarray(x, dtype=LD) - xs[0]) / L, P.polyder(q, k) if k else q) / LD(L) ** k
    gx, gw = np.polynomial.legendre.leggauss(12)
    gx, gw = (1 + gx.astype(LD)) / 2, gw.astype(LD) / 2
    V, D = lagrange(g, gx)
    want = np.zeros(N, dtype=LD)
    mag = np.zeros(N)
    nu, vel = LD(c["nu"]), LD(c["vel"])
    for e, I in enumerate(nodes_of):
        h = LD(xs[e + 1]) - LD(xs[e])
        x = xs[e] + h * gx
        th = c["tau"] * h / (2 * abs(vel)) if vel != 0 else LD(0)
        for i in range(len(I)):
            terms = (nu * ql(x, 1) * D[i] / h, -vel * ql(x, 0) * D[i] / h, th * vel * vel * ql(x, 1) * D[i] / h)
            want[I[i]] += h * np.sum(gw * sum(terms))
            mag[I[i]] += float(h * np.sum(gw * sum(np.abs(t) for t in terms)))
    want[N - 1] += vel * ql(xs[-1:], 0)[0]
    # strong form: vel q' - nu q'' tested with every basis function, and the diffusive flux at the right end
    strong = np.zeros(N, dtype=LD)
    for e, I in enumerate(nodes_of):
        h = LD(xs[e + 1]) - LD(xs[e])
        x = xs[e] + h * gx
        th = c["tau"] * h / (2 * abs(vel)) if vel != 0 else LD(0)
        for i in range(len(I)):
            strong[I[i]] += h * np.sum(gw * ((vel * ql(x, 1) - nu * ql(x, 2)) * V[i] + th * vel * vel * ql(x, 1) * D[i] / h))
    strong[N - 1] += nu * ql(xs[-1:], 1)[0]
    got = A @ np.asarray(ql(X, 0), dtype=float)
    size = np.abs(A) @ np.abs(np.asarray(ql(X, 0), dtype=float))
    tol = 1e-13 * (1 + np.abs(xs).max() / min(c["widths"])) * (size + mag)[1:] + 1e-290
    close(ctx, got[1:], want[1:], tol, "stiffness applied to a polynomial of degree p", "weak")
    close(ctx, got[1:], strong[1:], tol, "stiffness applied to a polynomial of degree p, strong form", "strong")
    ctx.label(f"p={c['p']}")
    return c["nu"] != 0 or c["vel"] != 0


# --- elements and quadrature ------------------------------------------------------------------------------
@st.composite
def elem(draw):
    p = draw(st.integers(1, 4))
    npts = draw(st.integers(1, 6))
    sets = [draw(st.lists(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), gen.real(0, 1, 6)), min_size=npts, max_size=npts)) for _ in range(3)]
    return {"p": p, "sets": sets, "widths": draw(st.lists(gen.logscale(-2, 1), min_size=1, max_size=4)), "x0": 0.0, "per": False,
            "shuffle": None, "orders": draw(st.lists(st.integers(1, 9), min_size=2, max_size=4))}


def check_elem(ctx, c):
    import skfem as fem
    from ormatex_py.progression.element_line_pp_nodal import ElementLinePp_nodal, GLL_quad
    logging.disable(logging.WARNING)
    p = c["p"]
    x, w = GLL_quad()(p + 1)
    gx, gw = gll(p)
    require(np.asarray(x).shape == (1, p + 1) and np.asarray(w).shape == (p + 1,), f"rule of shapes {np.shape(x)}, {np.shape(w)}")
    o = np.argsort(x[0])
    close(ctx, x[0][o], gx, 4 * EPS, "Gauss-Lobatto nodes", "nodes")
    close(ctx, w[o], gw, 4 * EPS, "Gauss-Lobatto weights", "weights")
    for d in range(2 * p):
        close(ctx, float(np.sum(w * x[0] ** d)), 1.0 / (d + 1), 16 * EPS, f"rule with {p + 1} points on x^{d}", "rule")
    el = ElementLinePp_nodal(p)
    nodes = np.asarray(el.doflocs)[:, 0]
    close(ctx, np.sort(nodes), gx, 4 * EPS, "degrees of freedom sit at the Gauss-Lobatto nodes", "nodes")
    for pts in c["sets"] + c["sets"][:1]:
        V, D = lagrange(nodes, pts)
        for i in range(p + 1):
            v, d = el.lbasis(np.array([pts]), i)
            close(ctx, np.asarray(v), V[i], 1e-12, f"basis function {i} of order {p}", "basis")
            close(ctx, np.asarray(d)[0], D[i], 1e-11, f"derivative of basis function {i} of order {p}", "derivative")
    # the same element under several quadrature rules
    m, xs = build_mesh(c)
    for order in c["orders"]:
        B = fem.Basis(m, el, intorder=order)
        if order >= 2 * p:
            M = fem.BilinearForm(lambda u, v, _: u * v).assemble(B).toarray()
            K = fem.BilinearForm(lambda u, v, _: u.grad[0] * v.grad[0]).assemble(B).toarray()
            f = np.asarray(B.doflocs[0])
            L = xs[-1] - xs[0]
            for d in range(p + 1):
                q = (f - xs[0]) / L
                close(ctx, q ** d @ M @ q ** d, L / (2 * d + 1), 1e-11 * L, f"mass of x^{d} (rule of order {order})", "mass form")
                close(ctx, q ** d @ K @ q ** d, d * d / (2 * d - 1) / L, 1e-9 * d * d / L * (1 + L / min(c["widths"])) + 1e-13 * np.abs(K).sum(), f"energy of x^{d} (rule of order {order})", "energy form")
    try:
        ElementLinePp_nodal(0)
    except ValueError:
        pass
    else:
        fail("an element of order 0 is accepted")
    ctx.label(f"p={p}")
    return True


# --- defaults ---------------------------------------------------------------------------------------------
def check_default(ctx, c):
    from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM
    m, xs = build_mesh(c)
    full = {"nu": 5e-3, "vel": 1.0, "tau": 0.0}
    given = {k: v for k, v in c["given"].items()}
    a = AdDiffSEM(m, p=c["p"], params=given)
    b = AdDiffSEM(m, p=c["p"], params=dict(full, **given))
    e = AdDiffSEM(m, p=c["p"], params=dict(full, **given), field_fns={k: (lambda x, _k=k, **kw: 0.0 * x + kw[_k]) for k in c["as_fields"]})
    ra, rb, re = a.assemble(), b.assemble(), e.assemble()
    for i, what in enumerate(("stiffness", "mass", "load")):
        A, B, E = (np.asarray(r[i].todense() if i == 0 else r[i]) for r in (ra, rb, re))
        close(ctx, A, B, 1e-12 * (np.abs(B).max() + 1e-300), f"{what} with parameters left at their defaults", "defaults")
        close(ctx, E, B, 1e-12 * (np.abs(B).max() + 1e-300), f"{what} with constant fields in place of constants", "constant fields")
    try:
        AdDiffSEM(m, p=c["p"], field_fns={"vel": 1.0})
    except AssertionError:
        pass
    else:
        fail("a field function that cannot be called is accepted")
    return len(given) < 3


@st.composite
def default_case(draw):
    c = draw(mesh(kmax=4))
    c["given"] = draw(st.fixed_dictionaries({}, optional={"nu": gen.q(0, 2, 4), "vel": gen.q(-2, 2, 4), "tau": gen.q(0, 1, 4)}))
    c["as_fields"] = sorted(draw(st.sets(st.sampled_from(["nu", "vel", "tau"]))))
    return c


PROP = Prop("C21", [
    Sub("assembly", lambda ctx: case(), check, 700, parts=8, cost=2, rule="more than one element and a non-zero operator"),
    Sub("patch", lambda ctx: patch(), check_patch, 300, parts=4, cost=2, rule="a non-zero operator"),
    Sub("elements", lambda ctx: elem(), check_elem, 300, parts=4, rule="every case"),
    Sub("defaults", lambda ctx: default_case(), check_default, 100, parts=2, rule="a parameter is left out"),
], rule="Non-uniform meshes of 1..8 elements in any vertex order, periodic and Dirichlet, p=1..4, constants and field functions over decades, with and without stabilisation.",
    assumptions=["oracle: an independent 80-bit assembly from Lagrange polynomials and Gauss-Lobatto rules; exact Gauss integrals in the patch test"])
