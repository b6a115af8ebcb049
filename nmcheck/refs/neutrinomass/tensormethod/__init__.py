from .core import Index, Field, IndexedField, Operator, decompose_product, delta, eps, D
from .contract import colour_singlets, contract_su2, unsimplified_invariants, invariants
from .lagrangian import Lagrangian
from .sm import L, Q, eb, ub, db, H, G, W, B, Gb, Wb, Bb
