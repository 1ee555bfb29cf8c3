"""Memory manager of the C++ engine."""
SRC = ["mllm/utils/Log.cpp", "mllm/core/DeviceTypes.cpp", "mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/backends/cpu/CPUAllocator.cpp"]
CPP = [
    dict(name="manager", src="mem.cpp", sources=SRC, quick=[dict(MODE=0, NOPS=2), dict(MODE=0, NOPS=5, FEW=4)], thorough=[dict(MODE=0, NOPS=3), dict(MODE=0, NOPS=6, FEW=5)], reach=["history", "out of memory"],
         bounds="blocks of 4, 8, 16 bytes in segments from 16 bytes up; every size up to 32 or FEW selected ones; NOPS operations, then all freed; segments at rising or falling addresses, the first or second one refused"),
    dict(name="objects", src="mem.cpp", sources=SRC, quick=[dict(MODE=1, NOPS=2), dict(MODE=1, NOPS=4, FEW=3)], thorough=[dict(MODE=1, NOPS=3), dict(MODE=1, NOPS=6, FEW=4)], reach=["history", "uncached"],
         bounds="three sets of cached sizes that change at any step; NOPS operations"),
    dict(name="cpu", src="mem.cpp", sources=SRC, quick=[dict(MODE=2, SIZE=70)], thorough=[dict(MODE=2, SIZE=300)], reach=["allocated"], bounds="sizes up to SIZE, alignments 1 to 128 and refused ones"),
]
BUDGET = dict(quick=60, thorough=700)
