"""C++ prefix-cache radix tree."""
SRC = ["mllm/engine/prefix_cache/RadixTree.cpp", "mllm/utils/Log.cpp"]
CPP = [
    dict(name="radix", src="radix.cpp", sources=SRC,
         quick=[dict(NINS=2, LEN=3, NKEYS=1), dict(NINS=2, LEN=2, NKEYS=2), dict(NINS=3, LEN=2, NKEYS=1), dict(NINS=3, LEN=3, NKEYS=1),
                dict(NINS=4, LEN=4, NKEYS=1, LENS="2,4,2,4")],
         thorough=[dict(NINS=3, LEN=3, NKEYS=2), dict(NINS=4, LEN=2, NKEYS=1), dict(NINS=3, LEN=4, NKEYS=1), dict(NINS=4, LEN=3, NKEYS=1), dict(NINS=4, LEN=4, NKEYS=1, LENS="3,4,2,4"), dict(NINS=5, LEN=4, NKEYS=1, LENS="2,4,2,4,3")],
         reach=["full match", "partial match", "match over several nodes"]),
]
BUDGET = dict(quick=60, thorough=700)
