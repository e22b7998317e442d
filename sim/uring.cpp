// Simulated io_uring / eventfd kernel (placeholder until the io_uring scenarios are built).
#include "dsim_int.h"
namespace dsim
{
  bool uring_syscall(long, long, long, long, long, long, long, long*) { return false; }
  void uring_reset() {}
  u64  uring_next_deadline() { return 0; }
  void uring_poll_time() {}
}
