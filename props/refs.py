"""Reference comparisons shared by the bounded checks: matrix form against direct evaluation."""

import numpy as np


def fill(f, seed, drop_invalid=True):
    """Random coefficients in all valid modes, zero elsewhere."""
    rng = np.random.default_rng(seed)
    f.change_layout("c")
    d = rng.standard_normal(f.data.shape)
    if np.iscomplexobj(f.data):
        d = d + 1j * rng.standard_normal(f.data.shape)
    f.data[...] = d
    if drop_invalid:
        f.data[...] *= f.valid_modes
    return f


def matrix_vs_eval(d3, expr, vars, cutoff=1e-12, tol=1e-9, coupling=None, rows_valid=True, exact=True):
    """None, or a description of the first subproblem where matrix @ coefficients differs from evaluation."""
    p = d3.LBVP(list(vars), namespace={})
    p.add_equation((expr, 0))
    kw = {} if coupling is None else dict(matrix_coupling=np.array(coupling))
    s = p.build_solver(ncc_cutoff=cutoff, **kw)
    eq = p.equations[0]
    L = eq["L"]
    L.gather_ncc_coeffs()
    out = L.evaluate()
    out.change_layout("c")
    for v in vars:
        v.change_layout("c")
    ref = out.data.copy()
    vm = eq["valid_modes"]
    scale = max(1.0, float(abs(ref).max()) if ref.size else 1.0)
    seen = np.zeros(ref.shape, dtype=int)
    for sp in s.subproblems:
        mats = L.expression_matrices(subproblem=sp, vars=vars, ncc_cutoff=cutoff, max_ncc_terms=None)
        for ss in sp.subsystems:
            sl = ss.field_slices(out)
            want = ref[sl].ravel()
            seen[sl] += 1
            got = np.zeros(want.shape, dtype=complex)
            for v in vars:
                if v in mats and ss.field_size(v) and want.size:
                    got = got + mats[v] @ v.data[ss.field_slices(v)].ravel()
            ok = vm[sl].ravel() if rows_valid else np.ones(want.shape, bool)
            if want.size and abs((got - want)[ok]).max(initial=0) > tol * scale:
                j = int(np.argmax(abs(got - want) * ok))
                return {"group": [None if g is None else int(g) for g in sp.group], "row": j, "matrix gives": complex(got[j]), "evaluation gives": complex(want[j])}
    if ((seen != 1) & vm).any():
        return {"modes not in exactly one subproblem": int(((seen != 1) & vm).sum())}
    return None
