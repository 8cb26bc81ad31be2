"""builds the extractor and warms the IR cache for the current tree"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import ir
t = time.time()
P = ir.load()
print(f"{len(P.fns)} functions, {len(P.classes)} classes from {len(P.units)} units ({P.parsed} parsed) in {time.time() - t:.1f} s")
