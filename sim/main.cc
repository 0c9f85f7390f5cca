#include "sim.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>
extern int mzn_product_main(int argc, const char** argv);
namespace sim { int sim_main(const char* prefix, int (*product)(int, const char**)); }
int main(int argc, char** argv) {
  if (argc < 2) return 96;
  // Fixed stack/library addresses where the kernel allows it (not required: no result depends on them).
  int p = personality(0xffffffff);
  if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      char* const* av = argv;
      extern char** environ;
      syscall(SYS_execve, "/proc/self/exe", av, environ);
    }
  }
  return sim::sim_main(argv[1], mzn_product_main);
}
