// The faults of iofault.h for a whole program, by LD_PRELOAD: IOFAULT="<kind> <at> <errno> <path>", IOFAULT_HIT=<file>.
#include "iofault.h"

static bool start() {
  const char* s = getenv("IOFAULT");
  const char* h = getenv("IOFAULT_HIT");
  if (h) iofault::hit_file = h;
  int kind = 0, err = 0, used = 0;
  long at = 0;
  if (!s || sscanf(s, "%d %ld %d %n", &kind, &at, &err, &used) < 3) return false;
  iofault::Plan p;
  p.kind = iofault::Kind(kind), p.at = at, p.err = err, p.path = s + used;
  iofault::arm(p);
  return true;
}
static bool started = start();
