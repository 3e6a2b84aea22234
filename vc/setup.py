"""Checks that the tools are there and warms the cache (the checks rebuild whatever the current tree needs)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, ir
ir.Program().compile_all()
import bounded
bounded.Bounded().build()
print("ok")
