// the kernels that need no external library (highway is not installed here)
#pragma once
#include "mllm/backends/cpu/kernels/x86/transpose.hpp"
#include "mllm/backends/cpu/kernels/x86/fill.hpp"
#include "mllm/backends/cpu/kernels/common/permute-inl.hpp"
