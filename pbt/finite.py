"""Building evoMPS finite-chain objects from cases."""
import numpy as np
from hypothesis import strategies as st
from . import gens, dense
from .core import Skip


@st.composite
def prep(draw, noncanon=True):
    """How the state is refreshed before it is measured."""
    return dict(form=draw(st.sampled_from(["right", "left"])),
                restore=draw(st.booleans()) if noncanon else True,
                normalize=draw(st.sampled_from([True, True, False])))


def plain(c, p=None, As=None, update=True):
    import evoMPS.mps_gen as mg
    As = gens.tensors(c) if As is None else As
    s = mg.EvoMPS_MPS_Generic(c["N"], list(c["D"]), [0] + list(c["q"]))
    p = p or dict(form="right", restore=True, normalize=True)
    s.canonical_form = p["form"]
    for n in range(1, c["N"] + 1):
        s.A[n] = As[n - 1].copy()
    if update:
        s.update(restore_CF=p["restore"], normalize=p["normalize"])
    return s


def tdvp(c, h, p=None, As=None, update=True, as_callable=False, pad_ham=False):
    import evoMPS.tdvp_gen as tg
    lst, terms = gens.ham_terms(c, h)
    ham = gens.ham_callable(lst) if as_callable else lst
    As = gens.tensors(c) if As is None else As
    p = p or dict(form="right", restore=True, normalize=True)
    s = tg.EvoMPS_TDVP_Generic(c["N"], list(c["D"]), [0] + list(c["q"]), ham, ham_sites=h["sites"])
    set_form(s, p["form"])
    for n in range(1, c["N"] + 1):
        s.A[n] = As[n - 1].copy()
    if update:
        s.update(restore_CF=p["restore"], normalize=p["normalize"])
    return s, terms


def set_form(s, form):
    s.canonical_form = form
    s.gauge_fixing = form
