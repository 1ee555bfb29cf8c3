"""Operators that select by index, mask, position or order."""
from props.p21 import CORE
from props.p22 import AVX, ops
CPP = [
    dict(name="select", src="selops.cpp", flags=AVX,
         sources=CORE + ops("Gather", "Index", "MaskedScatter", "CausalMask", "TopK", "Argsort"),
         quick=[dict(FULL=0, MAXD=3, MAXA=3, OPLO=a, OPHI=a) for a in (3, 2, 0, 1, 5, 4)],
         thorough=[dict(FULL=1, MAXD=4, MAXA=4, OPLO=a, OPHI=a) for a in (3, 2, 0, 1, 5, 4)],
         reach=["gather", "index", "masked_scatter", "causal", "topk", "argsort"]),
]
BUDGET = dict(quick=120, thorough=700)
