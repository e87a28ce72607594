#ifndef NOTHREADS_HH
#define NOTHREADS_HH
#include <cstddef>
extern bool gRealThreads;      // false: std::thread objects are recorded but never run
namespace nothreads {
size_t started();              // threads created so far in this process
void run(size_t i);            // runs the function of thread i here and now, until it returns or throws
}
#endif
