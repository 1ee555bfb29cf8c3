// stand-in for the engine context: memory comes straight from the heap and
// tensor operators are dispatched by the harness (kx_op).
#pragma once
#include <atomic>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/core/BaseOp.hpp"
#include "mllm/core/OpTypes.hpp"
#include "mllm/core/TensorStorage.hpp"
namespace mllm {
class MemoryManager {
 public:
  using ptr_t = std::shared_ptr<MemoryManager>;
  void alloc(Storage* s) { if (!s->ptr_) s->ptr_ = std::malloc(s->size_); }
  void alloc(const std::shared_ptr<Storage>& s) { alloc(s.get()); }
  void free(Storage* s) { std::free(s->ptr_); s->ptr_ = nullptr; }
  void free(const std::shared_ptr<Storage>& s) { free(s.get()); }
};
std::vector<Tensor> kx_op(OpTypes type, const BaseOpOptionsBase& options, const std::vector<Tensor>& inputs);
class Context {
 public:
  static Context& instance() { static Context c; return c; }
  MemoryManager::ptr_t memoryManager() { return mm_; }
  std::vector<Tensor> buildOpAndSubmitTask(OpTypes t, const BaseOpOptionsBase& o, const std::vector<Tensor>& in, DeviceTypes = kDeviceTypes_End) { return kx_op(t, o, in); }
  uint32_t getUUID() { return uuid_++; }
  uint64_t getRandomState() { return 42; }
  uint64_t curTime() { return 0; }
  int32_t getCpuOpThreads() const { return 1; }
  int getPrintPrecision() const { return 4; }
  int getPrintMaxElementsPerDim() const { return 12; }
 private:
  MemoryManager::ptr_t mm_ = std::make_shared<MemoryManager>();
  uint32_t uuid_ = 1;
};
}
