import intervals
import ran
import modint
import helpers
import ipow
import statics
import poly
import pgcd
import pybind
import constants

CHECKS = {
    "C01": (intervals.C01, {}),
    "C02": (intervals.C02, {}),
    "C10": (ran.C10, {}),
    "C11": (ran.C11, {}),
    "C12": (ran.C12, {}),
    "C13": (ran.C13, {}),
    "C20": (modint.C20, {}),
    "C14": (ran.C14, {}),
    "C21": (statics.C21, {}),
    "C04": (constants.C04, {}),
    "C03": (ipow.C03, {}),
    "C30": (poly.C30, {}),
    "C31": (poly.C31, {}),
    "C32": (poly.C32, {}),
    "C33": (poly.C33, {}),
    "C34": (poly.C34, {}),
    "C35": (pgcd.C35, {}),
    "C70": (pybind.C70, {"python": True}),
    "C40": (helpers.C40, {}),
}
