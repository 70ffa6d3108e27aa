"""What the rewritten library code calls at run time.

`mode` holds the hooks of the running mode: symbolic (symx.sym) or concrete.
This module does not import Z3.
"""

class Concrete:
    @staticmethod
    def is_symint(x): return False
    @staticmethod
    def canon(k): return (k, k)
    @staticmethod
    def tick(): pass

mode = Concrete

def is_symint(x): return mode.is_symint(x)
def canon(k): return mode.canon(k)
def tick(): mode.tick()
