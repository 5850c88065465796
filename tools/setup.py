#!/usr/bin/env python3
"""Builds the engine and warms the dependency builds (IR and native) so that checks only rebuild the crate under check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_ir as B
try:
    print(B.engine())
    print(B.build_ir("C32", ["common.rs", "C32.rs"])[0])
    print(B.build_native("C32"))
except B.BuildError as e:
    # a tree that does not build is for the checks to report
    print(e)
    sys.exit(0 if os.path.exists(os.path.join(B.BUILD)) else 1)
