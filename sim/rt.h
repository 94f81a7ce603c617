// Simulator runtime: one simulated run = one forked child executing the real
// fstalign main() with every libc entry point that touches files, threads,
// clocks, memory or the locale served from here.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Env {
  uint64_t seed = 1;       // PRNG stream for chunk sizes, schedule, jitter
  int chunk = 0;           // 0 full reads, 1: 1..7 bytes, 2: 1..64, 3: 1..1024, 4: mixed incl. full
  int eintr = 0;           // per-mille of reads/writes interrupted by EINTR (fd level only)
  int wshort = 0;          // 0 full writes, else writes accept 1..wshort bytes
  int csv_block = 1 << 24; // CSV reader block length (tuning knob)
  int heap_fill = 0;       // 0 zero, 1 0xff, 2 0xa5, 3 pseudo-random, 4 0x01
  int heap_shuffle = 0;    // perturb heap layout
  int stack_fill = 0;      // same codes, painted below main()
  int64_t clock0 = 1700000000;
  int clock_jump = 0;      // per-mille of clock reads that jump
  std::string tz = "UTC0", lang = "C.UTF-8";
  int locale_ok = 0;       // does setlocale() succeed
  int tty = 0;
  int sched = 0;           // 0 run until blocked, 1 random
  int spurious = 0;        // per-mille of sched points waking a cond waiter for nothing
  int pid = 4242;
  int cap = 8000000;      // simulated steps after which the run is cut off
  int limit = -1;          // after that many random decisions behave like the default environment
};

struct Fault {
  std::string op;    // open read write close alloc thread kill
  std::string path;  // file, "<stdout>" or ""
  int64_t nth = 1;   // n-th matching operation (write: unused)
  int err = 5;
  int persist = 0;
  int64_t off = 0;   // write: byte offset at which it fails
};

struct FileStat {
  std::string data;
  bool exists = false, was_input = false, modified = false;
  int opens_r = 0, opens_w = 0, nreads = 0, nwrites = 0, ncloses = 0;
  int64_t a0 = 0, a1 = 0;  // allocations before its first open, and at its last close
  int64_t rbytes = 0, wbytes = 0;
};

struct RunConfig {
  std::vector<std::string> argv;
  std::map<std::string, std::string> files;  // initial content
  Env env;
  std::vector<Fault> faults;
  bool sites = false;  // note the call path of every allocation
};

enum { K_EXIT = 0, K_SIGNAL = 1, K_KILLED = 2, K_DEADLOCK = 3, K_STEPCAP = 4, K_HEAP = 5, K_STUCK = 6, K_MEMCAP = 7, K_CPU = 8 };
struct RunResult {
  int kind = K_EXIT;
  int code = 0;  // exit status or signal number
  std::map<std::string, FileStat> files;
  std::string out, err;
  uint64_t hash = 0;
  std::string trace;
  int64_t steps = 0, allocs = 0, io_ops = 0, sched_points = 0, switches = 0, spurious = 0, threads = 0, eintrs = 0,
          short_reads = 0, short_writes = 0, clock_jumps = 0, escapes = 0, decisions = 0;
  int64_t sim_ns = 0;
  uint64_t sched_hash = 0;
  std::vector<int> fired;  // per fault
  std::vector<uint16_t> sites;  // call path of each allocation, numbered by first use
  bool ok() const { return kind == K_EXIT && code == 0; }
  std::string status() const;
};

void rt_init(bool want_trace_default);
RunResult rt_run(const RunConfig &cfg, bool want_trace = false);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
  bool mille(int m) { return below(1000) < m; }
};
