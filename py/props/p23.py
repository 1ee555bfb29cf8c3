"""Key/value caches."""
from props.p21 import CORE
CPP = [
    dict(name="kv", src="kvcache.cpp",
         sources=CORE + ["mllm/core/aops/SliceOp.cpp", "mllm/core/aops/FillOp.cpp", "mllm/core/aops/KVCacheOp.cpp", "mllm/nn/lmcache/StaticCache.cpp", "mllm/backends/cpu/ops/KVCacheOp.cpp"],
         quick=[dict(MODE=0, NOPS=3, CAP=3, LAYERS=1, GEOM=0, TYPES=0), dict(MODE=0, NOPS=2, CAP=3, LAYERS=2, GEOM=3, TYPES=2),
                dict(MODE=1, NOPS=3, CAP=3, LAYERS=1, GEOM=1, TYPES=1), dict(MODE=1, NOPS=2, CAP=3, LAYERS=2, GEOM=2, TYPES=2),
                dict(MODE=2, NOPS=3, CAP=3, LAYERS=2, GEOM=0, TYPES=0), dict(MODE=2, NOPS=2, CAP=3, LAYERS=1, GEOM=3, TYPES=0)],
         thorough=[dict(MODE=0, NOPS=4, CAP=3, LAYERS=1, GEOM=0, TYPES=0), dict(MODE=0, NOPS=3, CAP=3, LAYERS=2, GEOM=1, TYPES=1),
                   dict(MODE=1, NOPS=4, CAP=4, LAYERS=2, GEOM=1, TYPES=2), dict(MODE=2, NOPS=4, CAP=4, LAYERS=2, GEOM=0, TYPES=0)],
         reach=[]),
]
BUDGET = dict(quick=60, thorough=700)
