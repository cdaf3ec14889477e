"""Setup: builds the compiler under test in all variants, and checks that the tools the checks use are there."""
import shutil, sys
from . import core


def main():
    for t in ("gcc", "clang", "as", "ld", "make", "objdump", "readelf"):
        if not shutil.which(t): raise core.CheckError("missing tool " + t)
    for v in ("plain", "asan", "self"):
        print(v, core.build(v))
    return 0


core.main_wrapper(main)
