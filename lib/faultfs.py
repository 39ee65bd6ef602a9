"""Builds the fault-injecting LD_PRELOAD shim and re-executes the check under it."""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

import vf

MODES = {"count": 0, "kill before": 1, "kill after": 2, "torn": 3, "eio": 4, "enospc": 5, "eacces": 6}
SRC = os.path.join(vf.VERIF, "lib", "shim", "faultfs.c")


def build():
    so = os.path.join(vf.scratch_root(), "faultfs.so")
    if not os.path.exists(so):
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, SRC, "-ldl"])
    return so


def environment(so, prefix, mode, n, log):
    """Variables that run a program under the shim, armed from its start."""
    return {"LD_PRELOAD": so, "VF_ARM": f"{MODES[mode]} {n} {log} {prefix}"}


def reexec():
    """Under the shim: returns. Otherwise builds it and re-executes this script with it loaded."""
    if os.environ.get("VF_FAULTFS"):
        return
    so = os.path.join(vf.scratch_root(), "faultfs.so")
    subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, SRC, "-ldl"])
    env = dict(os.environ, LD_PRELOAD=so, VF_FAULTFS=so)
    rc = subprocess.call([sys.executable] + sys.argv, env=env)
    sys.exit(rc)


def arm(prefix, mode, n, logfd=-1):
    lib = ctypes.CDLL(os.environ["VF_FAULTFS"])
    os.environ.pop("LD_PRELOAD", None)
    lib.vf_arm(os.fsencode(prefix), MODES[mode], n, logfd)
