"""Frame conditions (P28): every contract of the other properties is run again
and only its frame condition - the caller's arrays are not written on any
path - is an obligation here."""
import importlib
from .registry import REGISTRY

FROM = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P19", "P21", "P22", "P23", "P24", "P25", "P26", "P30"]


def P28(S):
    S.frames = True
    for pid in FROM:
        S.prefix = pid + " "
        for mod in REGISTRY[pid]["contracts"]:
            getattr(importlib.import_module("vf." + mod), pid)(S)
    S.prefix = ""
    S.frames = False
