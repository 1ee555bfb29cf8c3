"""Operators that move data."""
from props.p21 import CORE
def ops(*n): return [f"mllm/core/aops/{x}Op.cpp" for x in n] + [f"mllm/backends/cpu/ops/{x}Op.cpp" for x in n]
AVX = ["-mavx2", "-mfma", "-mf16c"]
CPP = [
    dict(name="move", src="opsmove.cpp", flags=AVX,
         sources=CORE + ops("Contiguous", "Clone", "Copy", "Transpose", "Permute", "Concat", "Stack", "Repeat", "Pad", "Scatter2Shards", "Slice")
         + ["mllm/backends/cpu/kernels/x86/transpose.cpp"],
         quick=[dict(RANK=3, MAXD=3, OPLO=a, OPHI=b) for a, b in ((0, 2), (3, 4), (5, 6), (7, 9))],
         thorough=[dict(RANK=4, MAXD=3, OPLO=a, OPHI=b) for a, b in ((0, 2), (3, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9))],
         reach=["contiguous", "clone", "copy", "transpose", "permute", "concat", "stack", "repeat", "pad", "shards"]),
]
BUDGET = dict(quick=60, thorough=700)
