"""C24: the predator-prey systems follow their model, and keep its invariant."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, schemes
from pbt.core import Prop, Sub, require
from pbt.props.c03 import jnp_
from pbt.props.c10 import FLOOR, ORDER
from pbt.util import close, exact, finite

LD = np.longdouble
EPS = ref.EPS
RATES = ("alpha", "beta", "delta", "gamma")


class LV:
    """The model in extended precision: prey x, predators y, hunted at the rate 0.4 (sin(t/5) + 1) if nonauto."""

    def __init__(self, rates, nonauto):
        self.r = [LD(rates.get(k, 1.0)) for k in RATES]
        self.nonauto = nonauto

    def hunt(self, t):
        return LD("0.4") * (np.sin(LD(t) / 5) + 1) if self.nonauto else LD(0)

    def hunted(self):
        """sin + 1 cancels: its round-off is that of its terms."""
        return LD("0.8") if self.nonauto else LD(0)

    def f(self, t, u, th=0.0, src=0.0):
        a, b, d, g = self.r
        x, y = (LD(v) for v in u)
        return np.array([a * x - b * x * y, d * x * y - g * y - self.hunt(t) * y])

    def mag(self, t, u):
        a, b, d, g = (abs(v) for v in self.r)
        x, y = (abs(LD(v)) for v in u)
        return np.array([a * x + b * x * y, d * x * y + g * y + self.hunted() * y])

    def jac(self, t, u, th=0.0):
        a, b, d, g = self.r
        x, y = (LD(v) for v in u)
        return np.array([[a - b * y, -b * x], [d * y, d * x - g - self.hunt(t)]])

    def jmag(self, t, u):
        a, b, d, g = (abs(v) for v in self.r)
        x, y = (abs(LD(v)) for v in u)
        return np.array([[a + b * y, b * x], [d * y, d * x + g + self.hunted()]]).astype(float)

    def fdt(self, t, u, src=0.0):
        return np.array([LD(0), -LD("0.08") * np.cos(LD(t) / 5) * LD(u[1]) if self.nonauto else LD(0)])

    def L(self, t, u, th=0.0):
        a, b, d, g = self.r
        return np.array([[a - 2 * b, LD(0)], [LD(0), -g]])

    def first_integral(self, u):
        a, b, d, g = self.r
        x, y = u
        return d * x - g * np.log(x) + b * y - a * np.log(y)


def system(rates, nonauto):
    from ormatex_py.progression.lotka_volterra import LotkaVolterra, LotkaVolterraNonauto
    return (LotkaVolterraNonauto if nonauto else LotkaVolterra)(**rates)


def rates(lo=-3, hi=2):
    r = st.one_of(gen.q(0, 3, 4), gen.logscale(lo, hi), st.just(0.0))
    return st.fixed_dictionaries({}, optional={k: r for k in RATES})


POP = st.one_of(st.just(0.0), gen.q(0, 3, 8), gen.logscale(-8, 3), gen.real(0, 3, 4))


def strat(ctx):
    return st.fixed_dictionaries({"rates": rates(), "nonauto": st.booleans(), "t": st.one_of(gen.q(-20, 40, 4), gen.real(0, 100, 3)),
                                  "u": st.lists(POP, min_size=2, max_size=2), "v": gen.vec(2), "sign": st.sampled_from([1, 1, 1, -1])})


def check(ctx, c):
    tw, sysm = LV(c["rates"], c["nonauto"]), system(c["rates"], c["nonauto"])
    t, u, v = c["t"], c["sign"] * np.array(c["u"]), np.array(c["v"])
    te = 1 + abs(t)        # sin of a rounded argument
    for k in RATES:
        require(float(getattr(sysm, k)) == c["rates"].get(k, 1.0), f"{k} is {getattr(sysm, k)}, given {c['rates']}")
    tol = 16 * EPS * te * tw.mag(t, u).astype(float) + 1e-300
    f = np.asarray(sysm.frhs(t, jnp_(u)))
    close(ctx, f, tw.f(t, u), tol, "right-hand side", "rhs")
    J = sysm.fjac(t, jnp_(u))
    jm = 16 * EPS * te * tw.jmag(t, u)
    close(ctx, np.asarray(J.dense()), tw.jac(t, u), jm + 1e-300, "Jacobian", "jacobian")
    close(ctx, np.asarray(J.matvec(jnp_(v))), tw.jac(t, u) @ v, jm @ np.abs(v) + 1e-300, "Jacobian times a vector", "jacobian")
    close(ctx, np.asarray(J._fdt()), tw.fdt(t, u), 16 * EPS * te * abs(u[1]) * np.array([0, 1.0]) + 1e-300, "time derivative", "fdt")
    close(ctx, np.asarray(J._frhs_cached()), tw.f(t, u), tol, "right-hand side in the Jacobian", "rhs")
    # the hand-written derivatives are those of the right-hand side itself
    import jax
    ja = np.asarray(jax.jacfwd(lambda x: sysm.frhs(t, x))(jnp_(u)))
    close(ctx, np.asarray(J.dense()), ja, 2 * jm + 1e-300, "Jacobian against the derivative of the right-hand side", "autodiff")
    da = np.asarray(jax.jacfwd(lambda s: sysm.frhs(s, jnp_(u)))(float(t)))
    close(ctx, np.asarray(J._fdt()), da, 32 * EPS * te * abs(u[1]) * np.array([0, 1.0]) + 1e-300, "time derivative against that of the right-hand side", "autodiff")
    L = sysm.fl(t, jnp_(u))
    close(ctx, np.asarray(L.dense()), tw.L(t, u), 8 * EPS * np.abs(np.array([[tw.r[0] + 2 * tw.r[1], 0], [0, tw.r[3]]], dtype=float)) + 1e-300, "linear part", "L")
    for i in (0, 1):
        e = np.array(u)
        e[i] = 0.0
        require(np.asarray(sysm.frhs(t, jnp_(e)))[i] == 0.0, f"population {i} appears from nothing")
    ctx.label("nonautonomous" if c["nonauto"] else "autonomous")
    return bool(u.any())


# --- steps against the documented formulas, with this system's own derivatives ----------------------------
METHODS = ["exprb2", "epi2", "exprb3", "epi3", "pexprb4", "exprb2_dense", "exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense", "rk4"]


def strat_steps(ctx):
    methods = ctx.share(METHODS)
    return st.fixed_dictionaries({"method": st.sampled_from(methods), "rates": rates(-2, 0), "nonauto": st.booleans(),
                                  "t": gen.q(-5, 30, 2), "u": st.lists(st.one_of(st.just(0.0), gen.q(0, 3, 8), gen.real(0, 3, 3)), min_size=2, max_size=2),
                                  "dts": st.lists(st.sampled_from([0.1, 0.25, 0.5, 0.05, -0.1]), min_size=1, max_size=3)})


def check_steps(ctx, c):
    tw, sysm, method = LV(c["rates"], c["nonauto"]), system(c["rates"], c["nonauto"]), c["method"]
    t, u = c["t"], np.array(c["u"])
    it = schemes.integrator(method, sysm, t, jnp_(u))
    prev = None
    for i, h in enumerate(c["dts"]):
        r = it.step(h)
        want = schemes.step(method, tw, t, u, h, prev=prev)
        J = np.maximum(tw.jmag(t, u), np.abs(tw.L(t, u)).astype(float))
        g = float(np.exp(min(30.0, ref.infnorm(h * J))))
        if ref.infnorm(h * J) > 6:
            return False
        size = float(np.max(np.abs(h) * tw.mag(t, u))) + (h * h * 0.1 * u[1] if c["nonauto"] else 0.0) + 1e-30
        tol = g * g * size * (1e-12 if method in ("epi2", "rk4") else 8e-6 if method.endswith("_dense") else 2e-6) + 1e-14 * (1 + ref.maxabs(u))
        y = np.asarray(r.y)
        close(ctx, y, want, tol, f"{method} step {i + 1} from t={t:g} by {h:g}", method)
        for k in (0, 1):
            if u[k] == 0:
                require(abs(y[k]) <= 1e-14 * (1 + ref.maxabs(u)), f"{method}: an empty population becomes {y[k]}")
        it.accept_step(r)
        prev = (t, u)
        t, u = float(r.t), y
        if ref.maxabs(u) > 50:
            return False
    ctx.label(method)
    return bool(np.all(np.array(c["u"]) != 0))


# --- the first integral along trajectories ---------------------------------------------------------------
FI_METHODS = ["exprb2", "epi2", "exprb3", "epi3", "pexprb4", "exprb2_dense", "exp2", "exp3", "exp2_dense", "rk4", "dopri5", "bosh3"]


def strat_orbit(ctx):
    methods = ctx.share(FI_METHODS)
    r = st.sampled_from([0.5, 1.0, 1.5, 0.75, 2.0])
    return st.fixed_dictionaries({"method": st.sampled_from(methods), "rates": st.fixed_dictionaries({}, optional={k: r for k in RATES}),
                                  "u": st.lists(gen.q(0.25, 2, 8), min_size=2, max_size=2), "t0": st.sampled_from([0.0, 3.0]), "T": st.sampled_from([1.0, 2.0, 4.0])})


def check_orbit(ctx, c):
    from ormatex_py.integrate_wrapper import integrate
    tw, sysm, method = LV(c["rates"], False), system(c["rates"], False), c["method"]
    p, T = ORDER[method], c["T"]
    V0 = float(tw.first_integral(np.array(c["u"], dtype=LD)))
    drift = []
    grad = 0.0
    for n in (16, 32, 128):
        res = integrate(sysm, jnp_(c["u"]), c["t0"], T / n, n, method)
        Y = np.array([np.asarray(y) for y in res.y])
        require(Y.shape == (n + 1, 2), f"{method}: states of shape {Y.shape} for {n} steps")
        finite(Y, f"{method}: states")
        if np.any(Y <= 1e-3) or np.any(Y > 50):
            require(n == 16, f"{method}: populations {Y.min(axis=0)} to {Y.max(axis=0)} on a closed orbit from {c['u']}")
            return False
        grad = max(grad, float(np.max(np.abs(np.array(tw.r[2:0:-1], dtype=float) - np.array([tw.r[3], tw.r[0]], dtype=float) / Y))))
        drift.append(float(max(abs(tw.first_integral(y.astype(LD)) - V0) for y in Y)))
    floor = FLOOR.get(method, 1e-6) * 40 * (1 + grad)
    C = max(drift[0], 2.0 ** p * drift[1])
    bound = 3 * C / 8.0 ** p + floor
    ctx.maximum("drift/bound " + method, drift[2] / bound)
    require(drift[2] <= bound, f"{method}: first integral drifts by {drift} with 16, 32, 128 steps, not at order {p}")
    lip = float(max(tw.r)) * 4
    require(drift[1] <= 20 * (1 + grad) * (1 + lip * T) ** 3 * (T / 32) ** min(p, 2) + floor, f"{method}: first integral drifts by {drift[1]:.3g} with 32 steps")
    ctx.label(method)
    return drift[0] > 10 * floor


PROP = Prop("C24", [
    Sub("model", strat, check, 800, parts=8, cost=2, rule="a non-zero state"),
    Sub("steps", strat_steps, check_steps, 240, parts=8, cost=5, rule="both populations present"),
    Sub("orbits", strat_orbit, check_orbit, 96, parts=8, cost=8, rule="the coarse drift stands clear of the floor"),
], rule="Rates over five decades and zero, any subset given; populations over 11 decades and zero; both systems.",
    assumptions=["oracle: the model, its derivatives and its first integral in 80-bit arithmetic"])
