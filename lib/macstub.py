"""Stand-ins for the macOS tools that gyp asks about the SDK (fixed answers)."""
import os

import vf

SCRIPT = """#!/bin/sh
case "$(basename "$0") $*" in
"xcodebuild -version"*) printf 'Xcode 14.2\\nBuild version 14C18\\n';;
"sysctl -n hw.memsize"*) echo 17179869184;;
"sysctl -n hw.logicalcpu"*) echo 8;;
*macosx10.9*show-sdk-path*) echo /sdk9;;
*show-sdk-path*) echo /sdk;;
*show-sdk-version*) echo 13.1;;
*show-sdk-platform-path*) echo /platform;;
*) echo 1;;
esac
"""


def path():
    """A directory to put in front of PATH."""
    d = os.path.join(vf.scratch_root(), "macbin")
    if not os.path.exists(d):
        os.makedirs(d)
        for n in ("xcrun", "xcodebuild", "sysctl", "sw_vers", "xcode-select", "reg.exe"):
            p = os.path.join(d, n)
            with open(p, "w") as f:
                f.write(SCRIPT)
            os.chmod(p, 0o755)
    return d
