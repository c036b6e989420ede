// The only part of the runtime that must be able to unwind: calling a once-function that throws.
#include <pthread.h>
extern "C" void simrt_once_abort(pthread_once_t* o);
namespace {
struct Guard {
  pthread_once_t* o;
  ~Guard() { if (o) simrt_once_abort(o); }
};
}
extern "C" int simrt_once_call(void (*fn)(void), pthread_once_t* o) {
  Guard g{o};
  fn();
  g.o = nullptr;
  return 0;
}
