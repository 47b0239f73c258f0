// Simulated operating system: one shared-memory world (file system, clock,
// allocator policy, fault plan, event log) that the code under test reaches
// through interposed libc entry points.  See DESIGN.md, "The simulator".
#ifndef SIMRT_HH
#define SIMRT_HH 1
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG ----
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }
inline uint64_t fnv(uint64_t h, void const *p, size_t n) {
  auto c = static_cast<unsigned char const *>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ULL;
  }
  return h;
}
inline uint64_t fnv(uint64_t h, std::string const &s) {
  h = fnv(h, s.data(), s.size());
  unsigned char z = 0;
  return fnv(h, &z, 1);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s{mix64(seed)} {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    return mix64(s);
  }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return below((uint64_t)den) < (uint64_t)num; }
  template <class T> T const &pick(std::vector<T> const &v) {
    return v[below(v.size())];
  }
};

// ------------------------------------------------------------- faults ----
enum class OpClass : int { OPEN, READ, WRITE, CLOSE, RENAME, OTHER, ALLOC, N };
char const *op_name(OpClass c);
OpClass op_from_name(std::string const &s);

// What happens when a fault fires.
enum class Eff : int {
  ERR,          // the call fails with errno = arg
  EINTR_ONCE,   // the call fails with EINTR once
  SHORT,        // transfers at most arg (>=1) bytes
  FULL,         // writes/creates fail with ENOSPC from here on (arg bytes fit)
  CRASH_BEFORE, // the process dies before the call takes effect
  CRASH_AFTER,  // ... after it took effect
  CRASH_MID,    // ... write: after arg bytes took effect
  BADALLOC,     // operator new throws
  N
};
char const *eff_name(Eff e);
Eff eff_from_name(std::string const &s);

struct Fault {
  int proc = 0; // which process of the run
  OpClass op = OpClass::READ;
  int nth = 0; // which call of that class in that process (0-based)
  Eff eff = Eff::ERR;
  int arg = 0;
  bool fired = false;
};

// --------------------------------------------------------- the world ----
constexpr int MAX_INODE = 64, MAX_DENT = 64, MAX_FD = 64, MAX_FAULT = 64;
constexpr int NAME_CAP = 120;
constexpr uint32_t DATA_CAP = 256 * 1024;
constexpr int MAX_JRN = 512;
constexpr uint32_t LOG_CAP = 256 * 1024;

struct Inode {
  int used, nlink;
  uint32_t size, dsize; // current size, durable size
  int dirty;            // data differs from durable
  char data[DATA_CAP];
  char ddata[DATA_CAP];
};
struct Dent {
  int used, ino;
  char name[NAME_CAP];
};
struct Jrn { // metadata journal record (ordered mode)
  int kind;  // 0 link(name->ino), 1 rename(a->b), 2 unlink(a), 3 trunc(ino,size)
  int ino;
  uint32_t size;
  char a[NAME_CAP], b[NAME_CAP];
};
struct Fd {
  int used, ino, flags;
  uint32_t pos;
};

struct World {
  // file system
  Inode inode[MAX_INODE];
  Dent dent[MAX_DENT];
  Dent dent0[MAX_DENT]; // durable directory at the start of the run
  Jrn jrn[MAX_JRN];
  int njrn;
  int jrn_synced; // records before this index are durable
  int disk_full;  // ENOSPC from now on
  uint32_t full_left;
  // standard streams
  int in_ino, out_ino, err_ino;
  uint32_t in_pos;
  // per process
  int proc;                     // index of the current process
  Fd fd[MAX_FD];
  long calls[(int)OpClass::N];  // per class call counters of this process
  long total_calls, total_allocs;
  long call_budget, budget_hit;
  int crashed; // simulated crash fired in this process
  // policies
  uint64_t salt;
  int chunk;       // max bytes per read; 0 = unlimited
  int heap_fill;   // -1 none, else byte used to dirty fresh/freed memory
  int heap_jitter; // extra allocation padding policy
  int64_t clock_ns;
  int64_t sim_ns; // simulated time covered
  int clock_mode; // 0 steady, 1 frozen, 2 jumps both ways
  // faults
  Fault fault[MAX_FAULT];
  int nfault;
  long fired[(int)Eff::N][(int)OpClass::N];
  long clock_reads;
  // event log
  uint64_t hash;
  long nevents;
  uint32_t loglen;
  char log[LOG_CAP];
  // result channel of in-process sessions
  int viol;
  char vclass[64];
  char vmsg[8192];
  uint64_t obs_hash;
  long counters[64];
  uint32_t blob_len;
  char blob[1 << 20];
};
extern World *W;

void world_create();             // map the shared world
void world_reset(uint64_t salt); // fresh, empty
void set_file(std::string const &name, std::string const &data); // durable
bool get_file(std::string const &name, std::string &data);
void remove_file(std::string const &name);
std::vector<std::string> list_files();
void reset_faults();
void add_fault(Fault const &f);
void log_event(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
// Reduce the world to what survives a power loss.
void power_loss(uint64_t choice);
// Everything the processes did so far becomes durable.
void sync_world();

struct ProcResult {
  enum Kind { EXIT, SIGNAL, CRASHED, HANG } kind = EXIT;
  int code = 0;
  std::string out, err;
  std::vector<long> calls;
  long allocs = 0;
  bool ok() const { return kind == EXIT && code == 0; }
  std::string str() const;
};

// Run body in a forked child as simulated process number W->proc.  body's
// return value is the exit status.
ProcResult run_child(std::function<int()> const &body,
                     std::string const &stdin_data = {});
// Run one of the real command line tools.
ProcResult run_tool(std::string const &tool,
                    std::vector<std::string> const &args,
                    std::string const &stdin_data = {});

// Allocation faults are only armed inside this scope.
struct AllocArm {
  AllocArm();
  ~AllocArm();
};
extern bool g_active;      // inside a simulated process
extern bool g_alloc_armed; // allocation faults/dirt enabled
} // namespace sim
#endif
