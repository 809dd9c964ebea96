#include <new>
extern "C" void pysim_throw() { throw std::bad_alloc(); }
