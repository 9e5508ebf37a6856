import importlib


def get(prop):
    import numpy  # noqa: imported here so that forked runs share it
    import scipy.sparse.linalg, scipy.io, scipy.linalg, scipy.optimize, scipy.special  # noqa
    for m in ("ed_io", "ed_geometry", "ed_symmetry", "ed_base", "ed_spins", "ed_fermions", "ed_nlce", "fermi_gas",
              "greens_fns"):
        try:
            importlib.import_module("exact_diag." + m)
        except ImportError:
            pass
    return importlib.import_module("sim." + prop.lower())
