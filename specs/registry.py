import importlib

MODULE = {"C01": "hardsphere", "C02": "hardsphere", "C03": "hardsphere", "C04": "hardsphere", "C05": "hardsphere",
          "C06": "charged", "C08": "hardsphere", "C09": "quantum", "C10": "quantum", "C11": "quantum",
          "C15": "legacy", "C16": "legacy", "C17": "reichmoore", "C18": "legacy",
          "C19": "rmatrix", "C20": "rgroup", "C21": "rlegacy", "C22": "rlegacy", "C23": "rlegacy", "C24": "rgrid",
          "C14": "coulomb", "C07": "coulomb",
          "C12": "algebra", "C13": "algebra"}


def get(pid):
    return getattr(importlib.import_module("specs." + MODULE[pid]), pid)()
