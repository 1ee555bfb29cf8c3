"""Paged key/value storage of the on-device prefix cache."""
from props.p21 import CORE
P = "mllm/engine/prefix_cache/"
SRC = CORE + ["mllm/core/aops/FillOp.cpp", "mllm/core/aops/SliceOp.cpp", P + "ZenFS.cpp", P + "TLB.cpp", P + "Allocator.cpp"]
CPP = [
    dict(name="zenfs", src="zenfs.cpp", sources=SRC, symbolic=["cpp:h/mm_stub.cpp"], natflags=["-Dmmap=kx_guarded_mmap"], native=["cpp:h/mm_guard.cpp"],
         quick=[dict(MODE=0, NOPS=3, PBL=0, PBH=1, LBL=0, LBH=1, ELEN=3),
                dict(MODE=1, NOPS=2, PBL=1, PBH=1, LBL=1, LBH=1, ELEN=2),
                dict(MODE=0, NOPS=2, PBL=1, PBH=1, LBL=0, LBH=0, ELEN=1024),
                dict(MODE=0, NOPS=2, PBL=1, PBH=1, LBL=1, LBH=1, ELEN=1024, FILEB=1),
                dict(MODE=0, NOPS=2, PBL=0, PBH=1, LBL=6, LBH=6, ELEN=1)],
         thorough=[dict(MODE=0, NOPS=4, PBL=0, PBH=2, LBL=0, LBH=1, ELEN=2), dict(MODE=1, NOPS=4, PBL=1, PBH=1, LBL=0, LBH=1, ELEN=1024, FILEB=1),
                   dict(MODE=0, NOPS=3, PBL=1, PBH=1, LBL=6, LBH=7, ELEN=1)],
         reach=["history"]),
    dict(name="prefixcache", src="prefixcache.cpp", sources=SRC + [P + "RadixTree.cpp", "mllm/nn/lmcache/PrefixCache.cpp"], symbolic=["cpp:h/mm_stub.cpp"], natflags=["-Dmmap=kx_guarded_mmap"], native=["cpp:h/mm_guard.cpp"],
         quick=[dict(TURNS=2, LEN=3)], thorough=[dict(TURNS=3, LEN=3)], reach=["trimmed", "conversation"]),
]
BUDGET = dict(quick=60, thorough=700)
