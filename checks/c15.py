"""C15: every edit/build history through real make ends in what a clean build gives."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildhist  # noqa: E402
import vf  # noqa: E402

vf.main(lambda: buildhist.run("C15", "make"))
