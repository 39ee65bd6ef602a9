"""capgen, with file lists in an output directory as the real generators have them."""
import os

from capgen import *  # noqa: F401,F403
import capgen

captured = []
generator_filelist_paths = None


def CalculateGeneratorInputInfo(params):
    global generator_filelist_paths
    if params.get("generator_flags", {}).get("lists"):
        top = params["options"].toplevel_dir
        generator_filelist_paths = {"toplevel": top, "qualified_out_dir": os.path.normpath(os.path.join(top, "out", "gypfiles"))}
    capgen.CalculateGeneratorInputInfo(params)


def GenerateOutput(target_list, target_dicts, data, params):
    captured.append((list(target_list), dict(target_dicts), data))
