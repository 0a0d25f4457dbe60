// Common part of the proof drivers: entry points with flat argument arrays.
#ifndef DGV_HH
#define DGV_HH

#include <dune/common/exceptions.hh>
// exception messages are dropped (the exception type is kept)
#undef DUNE_THROW
#define DUNE_THROW(E, m) throw E()

#define DGV_ENTRY(name, ...) \
  extern "C" int name (const double* in, const long* iin, double* out, long* iout) \
  { try { __VA_ARGS__ return 0; } catch (...) { return 1; } }

#endif
