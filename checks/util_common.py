"""Commands for drivers/util.cpp and drivers/asn1.cpp."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gm
from gm import hx

SRC = ["src/memory_utils/memxor.cpp", "src/memory_utils/memdump.cpp"]
FIXED = list(range(1, 1042)) + [1279, 1536, 2047, 2048]


def ucfg(maxsize, widths, lines):
    return "SPECIFICATION UMSpec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxSize = %d\n  Widths = {%s}\n  Lines = {%s}\n" % (
        maxsize, ", ".join(map(str, widths)), ", ".join(map(str, lines)))
