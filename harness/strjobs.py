"""Strings shared by the analysis properties."""
import itertools

from .lib import *

BOUNDS = ("every string of Lojban letters (24, incl. y and ') up to the stated length, plus words made of 2-4 rafsi "
          "or zi'evla pieces joined by every hyphen (templates with every letter symbolic), plus 14 words of five or more "
          "rafsi or many syllables (partly written out); all settings symbolic")
OUTSIDE = "longer strings that fit none of the templates"

PIECES = ("CVC", "IV", "CD", "CV'V")
TAILS = ("IV", "CD", "CV'V", "CVC", "CVPV", "IVCV")


def words2(hy=("", "y", "'y", "r", "n")):
    heads = PIECES + ("CVP", "IVC", "CVPV", "IVCV", "VPVC", "IVCVC")
    return [a + x + b for a in heads for x in hy for b in TAILS]


def words3(mid=("CVC", "IV", "CD", "CV'V"), hy=("", "y", "'y")):
    out = []
    for a, b, c in itertools.product(PIECES, mid, ("IV", "CD", "CVC", "CVPV")):
        for x, y in itertools.product(hy + ("r",), hy):
            out.append(a + x + b + y + c)
    return out


def joints():
    """Two arbitrary letters between a head and a tail."""
    out = [a + "LL" + b for a in ("CVP", "IVC", "CD", "CV'V") for b in ("IV", "CVC", "CVPV")]
    out += ["CVCLLCVPV", "IVLLCVPV", "VPVCVLLIV", "CVPVLLIV", "VPVCLLCVPV", "CVCyCVLL", "CVPyCDLL", "CDLLCVCCV", "LLCVPyIV",
            "CV'VLLV'V", "IVCVCLLCVPV", "CVCLL'VCV"]
    return out


def zihevla():
    return ["VPVCV", "VCVPV", "IVCVCV", "CDPV", "CD'VPV", "CVPDCV", "IV'VCV", "CVPCVCV", "VPV'V", "CVCIVCV",
            "CVPV'V", "IVGVCV", "CVPVGV", "VPCVCV", "VCV'VIV", "SVPVCV", "VCCCCV", "CVCCCCV", "CVCSCSV"]


def extended():
    return ["VPVCyIV", "IVCVCyCVPV", "CVCyVPV", "CVCy'VPV", "VPV'yCVC", "CVPVCV'yIV", "IVCVyCVC", "CVPVyIV",
            "CV'yVPV", "CVCyGVPV", "IVCVCV'yCV'V", "VPVCV'y'VPV", "V'yIVCV", "V'V'yCVPV", "CVCyV'V", "CDyCVPV",
            "CVCyGV'yCVPV", "CDCD'yCVPV", "CDCDCD'yCVPV", "CV'V'y'VCV", "GV'yCVC", "CV'VyGV", "CDrCVPyCVV", "CVPyCVPyVPV", "IVCyCVPy'VPV", "CVPy'GVPV", "CDCVPV'yIV", "CDCDCVPV'yIV", "CDCDCVPV'yCVPV", "CV'VCDIVCV'yCVPV", "CV'VCVPV'yCVC"]


def long():
    """Five or more rafsi, or zi'evla of many syllables; partly written out so that the paths stay few."""
    return ["klaCVCgauIVblaCD", "CVCblaCDgauklaIVmauCVPV", "CDrgauklaCVCblaIVLbla", "CV'VnriCVCblagauIVCVC", "mlatyCVPyblaCDspageti'yIV",
            "spageti'yCVPyklaVPVCVy'aspa", "blaCDCVCyblagaukla'yIVspaCV", "IVCVCVtarsoflaCV", "VPVCVla'irsodaCV'a", "klamatCVCarloiCV",
            "gauLklablaspataiCDma'abroda", "toCVabruspakelCVbroda", "CVCykerblaspagauCVkelbri", "klaspablatraLcraLmaifra"]


def standard(tier, n_quick=7, n_thorough=8, words=True, light=False):
    n = n_quick if tier == "quick" else n_thorough
    out = [("L" * k) for k in range(0, n + 1)]
    if words:
        w = words2() + joints() + zihevla() + extended()
        if light and tier == "quick":
            w = [x for x in words2() if tlen(x) <= 9 and not ("n" in x and x[:2] in ("CV", "IV") and "'" not in x)]
            w += zihevla()[:12] + extended() + joints()[::3]
        if tier == "thorough":
            w = w + words3()
        w = w + long()
        out += [x for x in w if tlen(x) > n]
    return list(dict.fromkeys(out))
