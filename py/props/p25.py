"""Model files (C++ reader and writer)."""
from props.p21 import CORE
SRC = CORE + ["mllm/core/ParameterFile.cpp", "mllm/core/MappedFile.cpp", "mllm/core/aops/SliceOp.cpp"]
FS = dict(src="modelfile.cpp", sources=SRC, symflags=["-I@stubs_fs"], symbolic=["cpp:h/fs_stub.cpp"])
CPP = [
    dict(name="roundtrip", **FS,
         quick=[dict(MODE=0, NT=1, RANK=2, DTS=5), dict(MODE=0, NT=2, RANK=1, DTS=0)],
         thorough=[dict(MODE=0, NT=2, RANK=2, DTS=5), dict(MODE=0, NT=3, RANK=1, DTS=0)], reach=["round trip"],
         bounds="V1 and V2, read mapped or as a stream; up to NT tensors of rank <= RANK, extents <= 2 (times a quantised block), DTS+1 types, "
                "dense or the middle of a larger storage; arbitrary payload bytes; names of 1-2 arbitrary bytes, 200 or 255 bytes"),
    dict(name="broken", **FS, quick=[dict(MODE=1, VER=1, ND=1), dict(MODE=1, VER=2, ND=1)],
         thorough=[dict(MODE=1, VER=1, ND=2), dict(MODE=1, VER=2, ND=2)], reach=["accepted"],
         bounds="a file of up to ND descriptors whose descriptor table size / offset / count, name length, data length, data offset and shape are arbitrary "
                "64/32-bit fields, cut at one of four lengths, read mapped or as a stream"),
    dict(name="foreign", **FS, quick=[dict(MODE=2, NT=2)], thorough=[dict(MODE=2, NT=3)], reach=["foreign file"],
         bounds="sound V1 and V2 files of another writer, read mapped or as a stream: up to NT parameters of three types with up to 2 elements, payloads in any order, "
                "overlapping or with gaps, a data segment in front of the V2 descriptors; arbitrary payload bytes"),
]
BUDGET = dict(quick=60, thorough=700)
