import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.check import *

BASE_TRUST = ['the extraction: clang 18 AST of the translation unit as built (same defines), lowered by engine/cxx/cxxir.cpp; assert() is off as in the build; '
              'logging macros and OpenMP pragmas are dropped (the parallel region is executed as its sequential text)',
              'engine/cxx/interp.py: symbolic execution of that IR; engine/sym.py: VC construction', 'z3, cvc5',
              'double/float arithmetic treated as real arithmetic, int/long as unbounded integers',
              'axiom instances for sqrt, log, exp, sin, cos, asin, acos, atan2, truncation to int (engine/sym.py axioms())']

def start(pid, timeout=12.0, level='proof'):
    c = Check(pid, timeout, level)
    c.trust(*BASE_TRUST)
    return c

def ir(c, *tus):
    """IR of the translation units; on a tree that does not parse this is a check problem, the bounded part still runs"""
    try: return extract(*tus)
    except Exception as e:
        c.group('extraction', _fail, repr(e)[:800]); return None

def _fail(ctx, why): raise RuntimeError(why)

def py_trust(c):
    c.trust('engine/pysym.py: the Python functions are executed by CPython on symbolic arrays (value at one generic index per axis); numpy functions by the definitions in that file; '
            'inside the treecorr modules `np` and `len` are shadowed by versions that understand symbolic arrays')
