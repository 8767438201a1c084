"""pandas' C reader aborts PyPy when it is collected (tp_dealloc re-enters cpyext), whatever is
read; every CSV is read with pandas' Python engine instead."""


def patch():
    import pandas as pd

    if getattr(pd.read_csv, "verif", False):
        return
    orig = pd.read_csv

    def read_csv(f, *a, **k):
        k.pop("low_memory", None)
        k["engine"] = "python"
        return orig(f, *a, **k)

    read_csv.verif = True
    pd.read_csv = read_csv
    pd.io.parsers.read_csv = read_csv
