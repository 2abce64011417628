"""setup: the tools the checks need are present and the prover rejects false and accepts true statements"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from terms import *
from prover import prove
for tool in ("clang++", "g++", "cvc5"):
    assert shutil.which(tool), tool
n, i, j = var("n", "I"), fresh("$i", "I"), fresh("$j", "I")
f = lambda k: app("f", (k,), "R")
s = sum_(i, f(i), n)
ok, _ = prove([le(num(1), n)], [], eq(sum_(i, f(i), add(n, num(1))), add(s, f(n))))
assert ok
ok, _ = prove([le(num(1), n)], [], eq(s, sum_(i, f(i), sub(n, num(1)))), timeout=1)
assert not ok
ok, _ = prove([le(num(1), n)], [], FALSE, timeout=1)
assert not ok
print("ok")
