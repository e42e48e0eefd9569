"""A pool of calls into ORMATEX for C26. An op is (name, args); build(name, args) returns
(inputs, thunk): thunk() performs the call on the live inputs and returns arrays."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from pbt import gen

OPS = {}


def op(name, strategy):
    def deco(f):
        OPS[name] = (strategy, f)
        return f
    return deco


def build(name, args):
    return OPS[name][1](args)


def strategy(name):
    return OPS[name][0]


def leaves(x):
    """Arrays (and other plain values) of a result, in order."""
    if isinstance(x, dict):
        return [l for k in sorted(x, key=str) for l in leaves(x[k])]
    if isinstance(x, (list, tuple)):
        return [l for y in x for l in leaves(y)]
    if x is None:
        return []
    return [np.array(x)]


def mat(n, maxnorm=3.0, kinds=None):
    return gen.matrix(n, kinds=kinds, maxnorm=maxnorm).map(lambda m: m["a"])


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def A_(x):
    return np.array(x, dtype=float)


def J_(x):
    import jax.numpy as jnp
    return jnp.asarray(np.array(x, dtype=float))


# --- tables and point sets ---------------------------------------------------------------------------
END = st.one_of(gen.q(-4, 4, 2), gen.real(-10, 10, 2))


@op("leja_fast", fixed(a=END, w=st.sampled_from([0.5, 1.0, 4.0, 3.0]), n=st.sampled_from([5, 8, 12])))
def _(c):
    from ormatex_py.matexp_leja import gen_leja_fast
    return {}, lambda: gen_leja_fast(c["a"], c["a"] + c["w"], c["n"])


@op("leja_conj", fixed(n=st.sampled_from([8, 9, 20]), a=gen.q(-8, -0.25, 4), c=gen.q(0, 6, 4)))
def _(c):
    from ormatex_py.matexp_leja import gen_leja_conjugate
    return {}, lambda: gen_leja_conjugate(c["n"], c["a"], 0.0, c["c"])


@op("leja_circle", fixed(n=st.sampled_from([4, 8, 20]), conj=st.booleans()))
def _(c):
    from ormatex_py.matexp_leja import gen_leja_circle
    return {}, lambda: gen_leja_circle(c["n"], conjugate=c["conj"])


@op("leja_complex", fixed(beta=gen.q(0.5, 6, 4), n=st.sampled_from([6, 10])))
def _(c):
    from ormatex_py.matexp_leja import gen_complex_conj_leja_fast
    return {}, lambda: gen_complex_conj_leja_fast(c["beta"], c["n"])


DD = ["newton_poly_div_diff", "leja_coeffs_exp_dd", "leja_coeffs_exp", "dd_exp_taylor", "leja_coeffs_ts_ss",
      "leja_coeffs_ts_phi", "leja_coeffs_ts_phi_jax", "leja_coeffs_dd_phi", "leja_seq_pad_zeros", "leja_seq_reordering"]


@op("divided_differences", fixed(f=st.sampled_from(DD), x=st.sampled_from([2.0, 1.5, 1.0]), shift=gen.q(-3, 0, 4),
                                 scale=gen.q(0.25, 1, 4), h=st.sampled_from([1.0, 0.5, 0.1]), l=st.integers(0, 2)))
def _(c):
    from ormatex_py import matexp_poly as mp
    f = getattr(mp, c["f"])
    x = np.array([c["x"], -c["x"], 0.0, 0.5 * c["x"], -0.75 * c["x"], 0.25 * c["x"]])
    if c["f"] == "newton_poly_div_diff":
        y = np.exp(c["h"] * (c["shift"] + c["scale"] * x))
        return {"x": x, "y": y}, lambda: f(x, y)
    if c["f"] == "leja_seq_pad_zeros":
        return {"x": x}, lambda: f(x, p=c["l"] + 1)
    if c["f"] == "leja_seq_reordering":
        z = x * (1.0 + 0.5j)
        return {"x": z}, lambda: f(z)
    if c["f"] in ("leja_coeffs_ts_ss", "leja_coeffs_dd_phi"):
        return {"x": x}, lambda: f(x, c["shift"], c["scale"], c["h"], l=c["l"])
    if c["f"] in ("leja_coeffs_ts_phi", "leja_coeffs_ts_phi_jax"):
        return {"x": x}, lambda: f(x, c["shift"], c["scale"], c["h"], k=0)
    return {"x": x}, lambda: f(x, c["shift"], c["scale"], c["h"])


@op("expm_taylor", fixed(A=mat(3), shift=gen.q(-1, 1, 4), scale=gen.q(0.25, 1, 4), p=st.sampled_from([12, 20])))
def _(c):
    from ormatex_py.matexp_poly import expm_taylor
    A = A_(c["A"])
    return {"A": A}, lambda: expm_taylor(A, c["shift"], c["scale"], p=c["p"])


# --- phi functions -------------------------------------------------------------------------------------
PHI = ["f_phi_k", "f_phi_k_ext", "f_phi_k_poly_all", "f_phi_k_sq_all", "f_phi_k_sq"]


@op("phi", fixed(f=st.sampled_from(PHI), A=st.one_of(mat(2), mat(3)), k=st.integers(1, 3)))
def _(c):
    from ormatex_py import matexp_phi as mp
    A = A_(c["A"])
    return {"A": A}, lambda: getattr(mp, c["f"])(A, c["k"])


@op("phi_applied", fixed(A=mat(3), b=gen.nzvec(3), k=st.integers(0, 3)))
def _(c):
    from ormatex_py.matexp_phi import f_phi_k_appl
    A, b = A_(c["A"]), A_(c["b"])
    return {"A": A, "b": b}, lambda: f_phi_k_appl(A, b.reshape(-1, 1), c["k"])


@op("phi_pfd", fixed(A=mat(3, kinds=["negdef", "decay"]), b=gen.nzvec(3), k=st.integers(0, 3),
                     method=st.sampled_from(["cram_16", "cram_14", "cram_48", "pade_8_8", "pade_10_10"])))
def _(c):
    from ormatex_py.matexp_phi import f_phi_k_pfd
    A, b = A_(c["A"]), A_(c["b"])
    return {"A": A, "b": b}, lambda: f_phi_k_pfd(A, b, 0 if c["method"] == "cram_48" else c["k"], c["method"])


# --- operators and Krylov -------------------------------------------------------------------------------
def lop(kind, A, b):
    from ormatex_py.ode_sys import AugMatrixLinOp, DiagLinOp, EyeLinOp, MatrixLinOp
    if kind == "diag":
        return DiagLinOp(J_(np.diag(A)))
    if kind == "eye":
        return EyeLinOp(len(A))
    return MatrixLinOp(J_(A))


@op("linop", fixed(kind=st.sampled_from(["matrix", "diag", "eye"]), A=st.one_of(mat(2), mat(3)), v=gen.nzvec(3)))
def _(c):
    A = A_(c["A"])
    v = A_(c["v"])[:len(A)]
    L = lop(c["kind"], A, v)
    return {"A": A, "v": v}, lambda: [L.matvec(v), L(v), L.matvec_npcompat(v), L.dense()]


@op("krylov", fixed(f=st.sampled_from(["phi", "exp", "kiops", "kiops", "arnoldi"]), kind=st.sampled_from(["matrix", "matrix", "diag"]), A=mat(3),
                    v=gen.nzvec(3), w=gen.nzvec(3), k=st.integers(1, 2), dt=st.sampled_from([1.0, 0.5, 0.1]), m=st.sampled_from([3, 5]),
                    zero=st.sampled_from([0, 0, 1, 2, -1])))
def _(c):
    from ormatex_py import arnoldi_jax, matexp_krylov as mk
    A, v, w = A_(c["A"]), A_(c["v"]), A_(c["w"])
    L = lop(c["kind"], A, v)
    if c["f"] == "phi":
        f = lambda: mk.phi_linop(L, c["dt"], v, c["k"], c["m"])
    elif c["f"] == "exp":
        f = lambda: mk.matexp_linop(L, c["dt"], v, c["m"])
    elif c["f"] == "kiops":
        vb = [J_(v), J_(w)] + [0 * J_(w)] * c["zero"] if c["zero"] >= 0 else [J_(v), 0 * J_(w), J_(w)]
        return {"A": A, "v": v, "w": w, "vb": vb}, lambda: mk.kiops_fixedsteps(L, c["dt"], vb, c["m"], n_steps=2)
    else:
        f = lambda: arnoldi_jax.arnoldi_lop(L, c["dt"], J_(v), 2, 10)
    return {"A": A, "v": v}, f


@op("leja_expmv", fixed(A=mat(3, kinds=["negdef", "tridiag"]), v=gen.nzvec(3), w=gen.nzvec(3), dt=st.sampled_from([1.0, 0.5, 0.1]),
                        f=st.sampled_from(["real", "ellipse", "substep", "shift", "power"]), tau=st.sampled_from([1.0, 0.5]),
                        dd=st.sampled_from(["taylor", "pade"])))
def _(c):
    from ormatex_py import matexp_leja as ml
    A, v, w = A_(c["A"]) - 0.25 * np.eye(3), A_(c["v"]), A_(c["w"])
    L = lop("matrix", A, v)
    a = -max(1.0, float(np.abs(A).sum(axis=1).max())) * c["dt"]
    inp = {"A": A, "v": v, "w": w}
    if c["f"] == "power":
        return inp, lambda: ml.power_iter(L, J_(v), 20)
    vb = [J_(v), J_(w)]
    if c["f"] == "shift":
        def g():
            t, u, n = ml.build_a_tilde(L, c["dt"], vb)
            return [t.matvec(u), u, ml.leja_shift_scale(t, u.shape[0], 20, None, 1.2)]
        return dict(inp, vb=vb), g
    dd = ml.dd_method_dict[c["dd"]]
    if c["f"] == "ellipse":
        x, nreal, scale, shift = ml.gen_leja_conjugate(24, a, 0.0, 1.0)
        x = J_c(x)
        co = dd(x, shift, scale, 1.0)
        return dict(inp, x=x, co=co), lambda: ml.complex_conj_leja_expmv(L, c["dt"], J_(v), shift, scale, x, nreal, co, 1e-8)
    x = J_(ml.gen_leja_fast(-2.0, 2.0, 24))
    shift, scale = a / 2, -a / 4
    if c["f"] == "real":
        co = dd(x, shift, scale, 1.0)
        return dict(inp, x=x, co=co), lambda: ml.real_leja_expmv(L, c["dt"], J_(v), shift, scale, x, co, 1e-8)

    def sub():
        t, u, n = ml.build_a_tilde(L, c["dt"], vb)
        return ml.real_leja_expmv_substep(t, c["tau"], u, x, n, shift, scale, 1e-8, dd_method=c["dd"])
    return dict(inp, vb=vb, x=x), sub


def J_c(x):
    import jax.numpy as jnp
    return jnp.asarray(np.asarray(x))


# --- systems and integrators ------------------------------------------------------------------------------
def evaluate(s, t, u, split, **kw):
    J = s.fjac(t, u, **kw)
    out = [s.frhs(t, u, **kw), J.matvec(u), J._fdt(), J._frhs_cached()]
    if type(J).__name__ != "FdJacLinOp":
        out.append(J.dense())
    return out + ([s.fl(t, u, **kw).dense()] if split else [])


SYS = gen.gensys(3, maxnorm=2.0, forcing=2)


@op("system", fixed(kind=st.sampled_from(["ad", "custom", "custom_nodt", "fd", "split"]), sys=SYS, t=gen.q(-2, 2, 4), u=gen.nzvec(3, -1, 1),
                    th=st.sampled_from([None, 0.5, -0.25])))
def _(c):
    from pbt import systems
    d = systems.from_case(3, c["sys"])
    s = systems.GenSplit(d) if c["kind"] == "split" else systems.JAC_KINDS[c["kind"]](d)
    u = J_(c["u"])
    kw = {} if c["th"] is None else {"frhs_kwargs": {"theta": c["th"]}}
    return {"u": u, "kw": kw}, lambda: evaluate(s, c["t"], u, c["kind"] == "split", **kw)


METHODS = ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exp1", "exp2", "exp3", "exp1_dense",
           "exp2_dense", "exp3_dense", "epi2_leja_re", "epi2_leja_im", "epi3_leja_im", "rk4", "exprb2_pfd"]


@op("integrate", fixed(method=st.sampled_from(METHODS), sys=SYS, u=gen.nzvec(3, -1, 1), t0=st.sampled_from([0.0, 0.5]),
                       dt=st.sampled_from([0.1, 0.25]), N=st.integers(1, 3), m=st.sampled_from([None, 3]), cb=st.booleans()))
def _(c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import schemes, systems
    d = systems.from_case(3, c["sys"])
    s = (systems.GenSplit if c["method"] in schemes.SPLIT else systems.GenSys)(d)
    u = J_(c["u"])
    kw = {} if c["m"] is None else {"max_krylov_dim": c["m"]}
    if "leja" in c["method"]:
        kw = {"n_leja": 30, "leja_tol": 1e-10, "leja_a": -16.0, "leja_c": 4.0}
        if c["method"].endswith("_re"):
            kw.pop("leja_c")
    given = {"theta": 0.25}
    if c["cb"]:
        kw["callback_before_step"] = lambda s, t, y: given

    def f():
        r = integrate(s, u, c["t0"], c["dt"], c["N"], c["method"], **kw)
        return [r.t, r.y]
    return {"u": u, "given": given, "kw": {k: v for k, v in kw.items() if not callable(v)}}, f


@op("diffrax", fixed(method=st.sampled_from(["dopri5", "heun"]), sys=SYS, u=gen.nzvec(3, -1, 1), t0=st.sampled_from([0.0, 0.5]),
                     dt=st.sampled_from([0.1, 0.25]), N=st.integers(1, 3)))
def _(c):
    from ormatex_py.integrate_wrapper import integrate
    from pbt import systems
    s = systems.GenSys(systems.from_case(3, c["sys"]))
    u = J_(c["u"])

    def f():
        r = integrate(s, u, c["t0"], c["dt"], c["N"], c["method"])
        return [r.t, r.y]
    return {"u": u}, f


# --- example problems ---------------------------------------------------------------------------------------
LIB = ["a", "b", "c"]
RATES = st.one_of(gen.q(0.25, 4, 4), gen.logscale(-3, 1))


@op("decay", fixed(rates=st.lists(RATES, min_size=3, max_size=3, unique=True), chain=st.booleans(), phi=st.sampled_from([None, 2.0, 1e3]),
                   order=st.permutations(range(3)).map(list), u=st.lists(gen.q(0, 4, 4), min_size=3, max_size=3), dt=st.sampled_from([0.1, 1.0])))
def _(c):
    from ormatex_py.progression import bateman_sys as bs
    ch = dict(zip(LIB, ["b", "c", "none"]))
    lib = {k: (ch[k], r) if c["chain"] or k != "a" else (("b", r), ("c", 0.5 * r)) for k, r in zip(LIB, c["rates"])}
    names = [LIB[i] for i in c["order"]]
    u = J_(c["u"])

    def f():
        with contextlib.redirect_stdout(io.StringIO()):
            out = [bs.gen_bateman_matrix(names, lib), bs.gen_transmute_matrix(names, lib, **({} if c["phi"] is None else {"phi": c["phi"]}))]
            s = bs.TestBatemanSysJac(names, lib)
            out += evaluate(s, 0.0, u, True)
            if c["chain"] and c["order"] == [0, 1, 2]:
                t = np.array([0.0, 0.5, 2.0])
                out.append(bs.analytic_bateman_single_parent(t, np.asarray(out[0]), 2.0))
        return out
    return {"lib": lib, "names": names, "u": u}, f


@op("predator_prey", fixed(rates=st.fixed_dictionaries({}, optional={k: gen.q(0, 3, 4) for k in ("alpha", "beta", "delta", "gamma")}),
                           nonauto=st.booleans(), t=gen.q(0, 40, 4), u=st.lists(gen.q(0.25, 3, 4), min_size=2, max_size=2)))
def _(c):
    from ormatex_py.progression.lotka_volterra import LotkaVolterra, LotkaVolterraNonauto
    u = J_(c["u"])
    s = (LotkaVolterraNonauto if c["nonauto"] else LotkaVolterra)(**c["rates"])
    return {"u": u, "rates": c["rates"]}, lambda: evaluate(s, c["t"], u, True)


@op("tank", fixed(kw=st.fixed_dictionaries({}, optional={"n_phi": st.sampled_from([0.0, 1e12, 1e14]), "tank_vol": st.sampled_from([1.0, 50.0])}),
                  u=st.lists(gen.logscale(-12, -7), min_size=9, max_size=9)))
def _(c):
    from ormatex_py.progression import bateman_nonlin_sys as m
    u = J_(c["u"])[:len(m.keymap)]
    s = m.NonlinearBateman(**c["kw"])
    return {"u": u, "kw": c["kw"]}, lambda: [s.frhs(0.0, u), s.fjac(0.0, u).dense(), s.fl(0.0, u).dense()]


def transport(c, params=None):
    from pbt.props import c21
    d = {"widths": c["widths"], "x0": 0.0, "per": c["per"], "p": c["p"], "shuffle": None, "fields": {"nu": "wave"} if c["field"] else {},
         "nu": c["nu"], "vel": c["vel"], "tau": c["tau"], "scale": None, "late": c.get("late")}
    mesh, xs = c21.build_mesh(d)
    if c["plain"]:
        from ormatex_py.progression.advection_diffusion_1d import AdDiffSEM
        return AdDiffSEM(mesh, p=c["p"], **({} if params is None else {"params": params}))
    return c21.assembler(d, mesh, xs[-1] - xs[0])


TR = dict(widths=st.sampled_from([[0.5, 0.5], [0.25, 1.0], [1.0, 1.0]]), per=st.booleans(), p=st.sampled_from([1, 3]), field=st.booleans(),
          nu=gen.q(0, 1, 8), vel=gen.q(0, 2, 4), tau=st.sampled_from([0.0, 0.25]), plain=st.booleans(), late=st.booleans())


@op("assembly", fixed(given=st.sampled_from([None, ["nu"], ["vel"], ["tau", "vel"]]), **TR))
def _(c):
    params = None if c["given"] is None else {k: c[k] for k in c["given"]}

    def f():
        sem = transport(c, params)
        A, M, b = sem.assemble()
        return [A.todense(), M, b, sem.collocation_points()]
    inputs = {} if params is None else {"params": params}
    keep = transport(c, None if params is None else dict(params))

    def g():
        A, M, b = keep.assemble()
        return f() + [A.todense(), M, b]
    return inputs, g


@op("transport", fixed(name=st.sampled_from(["affine", "rad_1d_2s", "rad_1d_3s", "rad_1d_9s"]), u=st.lists(gen.q(0, 1, 8), min_size=63, max_size=63), **TR))
def _(c):
    import importlib
    sem = transport(c)
    n = {"affine": 1, "rad_1d_2s": 2, "rad_1d_3s": 3, "rad_1d_9s": 9}[c["name"]]
    N = len(np.asarray(sem.collocation_points()))
    u = J_((c["u"] * 2)[:n * N])
    if c["name"] == "affine":
        s = sem.ode_sys()
    else:
        s = importlib.import_module("ormatex_py.progression." + c["name"]).RAD_SEM(sem)
    return {"u": u}, lambda: [s.frhs(0.0, u), s.fjac(0.0, u).matvec(u), s.fl(0.0, u).dense()]


LAW = {"mxf_liq_vapor_lin": ("k", "k_g", "k_a", "a"), "mxf_liq_vapor_nonlin": ("k", "k_g", "k_a"),
       "mxf_liq_vapor_bubble_ig": ("alpha_g", "k", "T"), "mxf_diffusion_sorption": ("k", "a"), "mxf_arrhenius": ("m_a", "T")}


@op("law", fixed(f=st.sampled_from(sorted(LAW)), ua=st.lists(gen.q(0, 4, 4), min_size=3, max_size=3), ug=st.lists(gen.q(0, 4, 4), min_size=3, max_size=3),
                 kw=st.lists(st.one_of(st.none(), gen.q(0.25, 2, 4)), min_size=4, max_size=4), pos=gen.q(0.25, 4, 4), numpy=st.booleans()))
def _(c):
    from ormatex_py.progression import species_source_sink as sss
    f = getattr(sss, c["f"])
    ua, ug = (A_ if c["numpy"] else J_)(c["ua"]), (A_ if c["numpy"] else J_)(c["ug"])
    kw = {k: v * (100 if k == "T" else 0.1 if k == "alpha_g" else 1) for k, v in zip(LAW[c["f"]], c["kw"]) if v is not None}
    pos = {"mxf_liq_vapor_bubble_ig": [c["pos"]], "mxf_diffusion_sorption": [c["pos"]], "mxf_arrhenius": [c["pos"] * 1e3, 2.0]}.get(c["f"], [])
    return {"ua": ua, "ug": ug, "kw": kw}, lambda: f(ua, ug, *pos, **kw)


@op("layout", fixed(u=gen.vec(12), n=st.sampled_from([2, 3, 4])))
def _(c):
    from ormatex_py.ode_utils import flatten_u, stack_u
    u = A_(c["u"])
    return {"u": u}, lambda: [stack_u(u, c["n"]), flatten_u(stack_u(u, c["n"]))]
