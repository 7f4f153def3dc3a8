#!/usr/bin/env python3
"""setup: confirm the analysis toolchain (clang 18, libLLVM-C) is present and /repo compiles for it"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import common
M = common.lib()
print('lifted %d functions from %s' % (len(M.fns), common.ir.SRC))
