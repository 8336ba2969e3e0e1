#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
exe, err = common.build_native()
print(exe or err[-3000:])
sys.exit(0 if exe else 1)
