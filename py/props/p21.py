"""Tensor views."""
CORE = ["mllm/core/Tensor.cpp", "mllm/core/TensorStorage.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/BaseOp.cpp",
        "mllm/core/DataTypes.cpp", "mllm/core/SlicePrimitives.cpp", "mllm/utils/Log.cpp"]
CPP = [
    dict(name="views", src="views.cpp",
         sources=CORE + ["mllm/core/aops/SliceOp.cpp", "mllm/core/aops/ViewOp.cpp", "mllm/core/aops/SplitOp.cpp"],
         quick=[dict(RANK=2, NOPS=1, FIRST=0, PICKD=1, MAXD=3, DT="kFloat32"),
                dict(RANK=3, NOPS=1, FIRST=1, PICKD=1, MAXD=3, DT="kFloat16"),
                dict(RANK=2, NOPS=2, FIRST=1, PICKD=1, MAXD=2, DT="kInt64"),
                dict(RANK=1, NOPS=2, FIRST=0, PICKD=1, MAXD=4, STEPS=2, DT="kInt8"),
                dict(RANK=2, NOPS=2, FIRST=0, PICKD=1, MAXD=2, STEPS=0, DT="kFloat32"),
                dict(RANK=2, NOPS=2, DIMS="2,3", OPSEQ="0,2", FIRST=0, MAXD=3, STEPS=0, DT="kInt16"),
                dict(RANK=3, NOPS=2, DIMS="2,3,2", OPSEQ="1,2", FIRST=0, MAXD=3, DT="kFloat32")],
         thorough=[dict(RANK=2, NOPS=2, FIRST=1, PICKD=1, MAXD=3, DT="kInt64"),
                   dict(RANK=3, NOPS=1, FIRST=0, PICKD=1, MAXD=3, DT="kInt16"),
                   dict(RANK=4, NOPS=1, FIRST=1, PICKD=1, MAXD=3, DT="kFloat32"),
                   dict(RANK=2, NOPS=3, FIRST=1, PICKD=1, MAXD=2, DT="kFloat32")],
         reach=["slice taken", "split taken", "view taken"]),
]
BUDGET = dict(quick=75, thorough=700)
