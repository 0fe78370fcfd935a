"""Seams shared by several checks."""


def patch_minimize(fn):
    """Replace scipy's minimiser by `fn` wherever the fitting module can reach it; returns the undo function."""
    import scipy.optimize
    import radvel.fitting as F
    real = scipy.optimize.minimize
    scipy.optimize.minimize = fn
    undo = [(scipy.optimize, 'minimize', real)]
    for n, v in list(vars(F).items()):
        if v is real:
            setattr(F, n, fn)
            undo.append((F, n, real))

    def restore():
        for o, n, v in undo:
            setattr(o, n, v)
    return restore
