from .core import (SymNum, SymBool, SymC, is_sym, Unsupported, And, Or, Not, Implies, ite,
                   PathAbort, lift, bool_to_int)
