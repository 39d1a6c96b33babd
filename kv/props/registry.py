"""property id -> rule set"""
import importlib

TABLE = {
    "C01": ("flow", "c01"), "C02": ("flow", "c02"),
    "C08": ("runtime", "c08"),
    "C14": ("arith", "c14"),
    "C06": ("reent", "c06"),
    "C09": ("transl_checks", "c09"), "C16": ("transl_checks", "c16"),
    "C10": ("stmt", "c10"), "C20": ("transl_checks", "c20"), "C25": ("transl_checks", "c25"),
    "C13": ("fold", "c13"), "C11": ("grammar", "c11"),
    "C18": ("types", "c18"),
    "C21": ("decls", "c21"), "C22": ("decls", "c22"),
    "C29": ("ppdir", "c29"),
    "C28": ("transl_checks", "c28"),
}


def get(pid):
    m, fn = TABLE[pid]
    return getattr(importlib.import_module("kv.props." + m), fn)
