"""Which check decides which property."""
import importlib

MODULES = {
    "C01": ("c_hist", "Loss"), "C02": ("c_hist", "Mirror"), "C03": ("c_hist", "Idem"), "C04": ("c_hist", "Conflict"),
    "C05": ("c_hist", "Deletion"), "C06": ("c_hist", "Trash"), "C07": ("c_hist", "Limit"), "C08": ("c_hist", "Select"),
    "C09": ("c_hist", "Exclude"), "C10": ("c_crash", "Kill"), "C11": ("c_crash", "Fault"), "C12": ("c_init", "Init"),
    "C13": ("c_crash", "Reset"), "C14": ("c_lock", "Lock"), "C15": ("c_safe", "Safe"), "C16": ("c_gone", "Gone"), "C17": ("c_db", "Databases"), "C18": ("c_daemon", "DaemonCheck"), "C19": ("c_conf", "Configs"), "C20": ("c_hist", "Meta"),
    "C21": ("c_cli", "Cli"), "C22": ("c_conc", "Concurrent"),
}


def get(prop):
    mod, cls = MODULES[prop]
    return getattr(importlib.import_module("vz." + mod), cls)()
