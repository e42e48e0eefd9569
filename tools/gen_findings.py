"""Writes known_findings.jsonl: the defects of ORMATEX found by the checks and repaired by fix: commits in /repo."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C02", "6b09dbf", "the partial-fraction tables of the Pade approximants of order >= 10 had residues wrong in the leading digits (f_phi_k_pfd with 'pade_10_*' and higher)"),
 ("C15", "2e10f44", "diffrax methods integrated from t0 to dt*nsteps instead of t0 + dt*nsteps (any t0 != 0)"),
 ("C16", "2377228", "IntegrateSys.state raised AttributeError instead of returning the current state"),
 ("C07", "04194ca", "FdJacLinOp at u=0 divided by zero and returned NaN"),
 ("C13", "929206b", "expm_taylor applied scale to the first power of A only"),
 ("C13", "f1a5247", "leja_coeffs_ts_phi_jax raised on the in-place fill_diagonal"),
 ("C13", "0f59298", "leja_coeffs_ts_phi_substep substeps did not add up to one for a non-integer scale"),
 ("C09", "a7ab57e", "remainder terms of exprb3, pexprb4, epi3 and the Leja methods dropped frhs_kwargs"),
 ("C25", "56888c8", "exprb2_dense dropped frhs_kwargs"),
 ("C25", "f8e622c", "RKIntegrator.step did not take frhs_kwargs, so callbacks raised TypeError"),
 ("C25", "e4538e5", "ExpSplitIntegrator dropped frhs_kwargs in the rhs and in L"),
 ("C11", "bbd30c6", "complex_conj_imag_leja_expmv error estimate lacked abs: converged=True with an error of O(1) (beta=4, rotation 1.2)"),
 ("C11", "73d94bc", "complex_conj_leja_expmv stopped on a vanishing first update: A=-I on the ellipse [-2,0]x[-1,1] converged with error 2e-3"),
 ("C10", "3252429", "diffrax methods with a constant step size raised max_steps for t0=1, dt=0.05, nsteps=2 (rounding), or returned an extra point"),
 ("C12", None, "gen_leja_fast weighed its first two candidates by the zero padding: a non-Leja selection for any interval but [-2, 2]"),
 ("C23", "3d0f71d", "NonlinearBateman ignored its tank_vol argument"),
 ("C21", "88e9a5f", "ElementLinePp_nodal cached its basis values by index only: p >= 3 elements evaluated at other points returned the values of the first"),
 ("C21", "308e382", "the SUPG parameter divided by the velocity: NaN matrices for vel = 0, anti-diffusion for vel < 0"),
 ("C22", "1b83cfb", "rad_1d_3s RAD_SEM.fl raised NotImplementedError (no negation of a BCSR matrix)"),
 ("C13", None, "leja_coeffs_ts_phi(full=True) table wrong for scale != 1, and with it leja_coeffs_ts_phi_substep for non-integer scales"),
 ("C01", "8b4179d", "f_phi_k of a complex matrix used the transpose of the unitary QR factor: errors of O(1) for k >= 1, no warning"),
 ("C01", "be68b19", "f_phi_k_sq and f_phi_k_appl (k >= 1) raised TypeError for complex matrices"),
]
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
def find(prefix):
    r = [l.split()[0] for l in log if prefix in l]
    assert len(r) == 1, (prefix, r)
    return r[0]
SUBJ = {"gen_leja_fast weighed": "fast Leja candidates", "leja_coeffs_ts_phi(full": "full TS(II)"}
if __name__ == "__main__":
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for pid, c, what in FIXED:
            if c is None:
                c = find(next(v for k, v in SUBJ.items() if what.startswith(k)))
            f.write(json.dumps({"status": "fixed", "property": pid, "commit": c, "what": what,
                                "line": f"fixed: property={pid} {c} {what}"}) + "\n")
