// The runtime behind sched.hpp.  Compiled without thread instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <locale>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc (std::size_t);
void __libc_free (void*);
void* __libc_calloc (std::size_t, std::size_t);
void* __libc_realloc (void*, std::size_t);
void* __libc_memalign (std::size_t, std::size_t);
}

namespace {

using sched::max_threads;

// ------------------------------------------------------------- memory of the threads
// Never reused within an execution, so that an address always means the same object.
constexpr std::size_t arena_size = std::size_t{1} << 32;
char* arena = nullptr;
std::size_t arena_used = 0;

// The thread's number, and whether its operations are to be recorded.
__thread int self __attribute__ ((tls_model ("initial-exec"))) = -1;
__thread unsigned quiet __attribute__ ((tls_model ("initial-exec"))) = 0;
bool active = false;

bool on () { return active && self >= 0 && quiet == 0; }
struct Quiet {
  Quiet () { ++quiet; }
  ~Quiet () { --quiet; }
};

// A block that its own thread gives back is used again by that thread only: the header in
// front of a block holds its size and owner.
struct Header {
  std::uint32_t owner, klass;
  std::uint64_t size;
};
struct Free {
  Free* next;
};
constexpr unsigned classes = 64;
Free* free_list[max_threads][classes] = {};

void* arena_get (std::size_t n, std::size_t align = 16) {
  if (align < 16) align = 16;
  unsigned k = 0;
  std::size_t room = 16;
  while (room < n) {
    ++k;
    room = k % 2 == 1 ? (std::size_t{16} << (k / 2)) * 3 / 2 : std::size_t{16} << (k / 2);
    room = (room + 15) & ~std::size_t{15};
  }
  if (align == 16 && free_list[self][k] != nullptr) {
    auto* const p = free_list[self][k];
    free_list[self][k] = p->next;
    reinterpret_cast<Header*> (p)[-1].size = n;
    return p;
  }
  std::size_t const at = (arena_used + sizeof (Header) + align - 1) & ~(align - 1);
  if (at + room > arena_size) return nullptr;
  reinterpret_cast<Header*> (arena + at)[-1] = {static_cast<std::uint32_t> (self), k, n};
  arena_used = at + room;
  return arena + at;
}
void arena_free (void* p) {
  auto const& h = static_cast<Header*> (p)[-1];
  if (self < 0 || static_cast<int> (h.owner) != self) return;
  auto* const f = static_cast<Free*> (p);
  f->next = free_list[self][h.klass];
  free_list[self][h.klass] = f;
}
bool in_arena (void const* p) { return arena != nullptr && p >= arena && p < arena + arena_size; }
void* map (std::size_t n) {
  void* const p = ::mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) std::abort ();
  return p;
}

// ------------------------------------------------------------- vector clocks and shadow memory
struct Clock {
  std::uint32_t c[max_threads] = {};
  void join (Clock const& o) {
    for (unsigned i = 0; i < max_threads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Cell {       // one byte of memory
  std::uint32_t w[max_threads], r[max_threads];    // the time of each thread's last plain access
};
struct AtomicCell {
  std::uint32_t w[max_threads], r[max_threads];
};
constexpr std::size_t page_size = 4096;
constexpr std::size_t page_slots = 1 << 16;
struct Page {
  std::uintptr_t number;   // + 1
  Cell* plain;
  AtomicCell* atomic;
  unsigned users;          // one bit for each thread
};
Page* pages = nullptr;

struct Sync {       // a mutex, once flag, guard, condition or atomic object
  std::uintptr_t address;
  Clock clock;
  int owner;        // exclusive holder, or -1
  int readers;
  unsigned depth;
  unsigned state;   // of a once flag or guard: 0 new, 1 running, 2 done
  unsigned signals; // wake-ups not consumed yet
};
constexpr std::size_t sync_slots = 1 << 14;
Sync* syncs = nullptr;

struct Thread {
  pthread_t handle;
  sem_t go;
  std::function<void ()> const* body;
  bool finished = false;
  bool blocked = false;
  Clock clock, fence_release, fence_acquire;
  bool has_fence = false;
  unsigned alone = 0;  // synchronisation operations since another thread ran
};
Thread threads[max_threads];
unsigned nthreads = 0;
int running = -1;
sem_t all_done;
sched::Report* report = nullptr;
sched::Objects* objects = nullptr;
std::vector<std::uint8_t> const* prefix = nullptr;

Page* page_of (std::uintptr_t a) {
  auto const n = a / page_size;
  static Page* last = nullptr;
  if (last != nullptr && last->number == n + 1) return last;
  auto i = (n * 0x9E3779B97F4A7C15ULL) >> 48;
  for (std::size_t k = 0; k < page_slots; ++k, i = (i + 1) % page_slots) {
    if (pages[i].number == n + 1) return last = &pages[i];
    if (pages[i].number == 0) {
      pages[i].number = n + 1;
      pages[i].plain = static_cast<Cell*> (map (page_size * sizeof (Cell)));
      return last = &pages[i];
    }
  }
  std::abort ();
}
Sync& sync_of (void const* p) {
  auto const a = reinterpret_cast<std::uintptr_t> (p);
  auto i = (a * 0x9E3779B97F4A7C15ULL) >> 50;
  for (std::size_t k = 0; k < sync_slots; ++k, i = (i + 1) % sync_slots) {
    if (syncs[i].address == a) return syncs[i];
    if (syncs[i].address == 0) {
      syncs[i].address = a;
      syncs[i].owner = -1;
      return syncs[i];
    }
  }
  std::abort ();
}

void say (char const* format, ...) __attribute__ ((format (printf, 1, 2)));
void say (char const* format, ...) {
  if (report->message[0] != 0) return;
  std::va_list args;
  va_start (args, format);
  std::vsnprintf (report->message, sizeof report->message, format, args);
  va_end (args);
}
void name_of (void const* p, char* out, std::size_t n) {
  Dl_info info;
  if (::dladdr (p, &info) != 0 && info.dli_sname != nullptr) {
    std::snprintf (out, n, "%s+%zu", info.dli_sname, static_cast<std::size_t> (static_cast<char const*> (p) - static_cast<char const*> (info.dli_saddr)));
  } else if (info.dli_fname != nullptr && info.dli_fbase != nullptr) {
    std::snprintf (out, n, "image+0x%zx", static_cast<std::size_t> (static_cast<char const*> (p) - static_cast<char const*> (info.dli_fbase)));
  } else {
    std::snprintf (out, n, "%s", in_arena (p) ? "memory allocated by a thread" : "other memory");
  }
}
void race (std::uintptr_t a, int other, bool write, bool other_write, void* pc, bool atomic) {
  if (report->race) return;
  report->race = true;
  char where[400], what[400];
  name_of (pc, where, sizeof where);
  name_of (reinterpret_cast<void*> (a), what, sizeof what);
  say ("data race: %s%s by thread %d (in %s) and %s by thread %d of %s are not ordered", atomic ? "an atomic " : "a ", write ? "write" : "read",
       self, where, other_write ? "a write" : "a read", other, what);
}

void access (void const* p, std::size_t n, bool write, void* pc) {
  if (!on ()) return;
  Quiet const q;
  ++report->accesses;
  auto const& now = threads[self].clock;
  auto a = reinterpret_cast<std::uintptr_t> (p);
  auto const mine = 1U << self;
  for (std::size_t k = 0; k < n;) {
    Page& pg = *page_of (a);
    pg.users |= mine;
    if (pg.users == mine) {  // nobody else has been on this page
      auto const count = std::min (n - k, page_size - a % page_size);
      Cell* const c = pg.plain + a % page_size;
      if (write) {
        for (std::size_t i = 0; i < count; ++i) c[i].w[self] = now.c[self];
      } else {
        for (std::size_t i = 0; i < count; ++i) c[i].r[self] = now.c[self];
      }
      k += count;
      a += count;
      continue;
    }
    Cell& c = pg.plain[a % page_size];
    for (unsigned t = 0; t < nthreads; ++t) {
      if (static_cast<int> (t) == self) continue;
      if (c.w[t] > now.c[t]) race (a, static_cast<int> (t), write, true, pc, false);
      if (write && c.r[t] > now.c[t]) race (a, static_cast<int> (t), write, false, pc, false);
      if (pg.atomic != nullptr) {
        AtomicCell const& x = pg.atomic[a % page_size];
        if (x.w[t] > now.c[t]) race (a, static_cast<int> (t), write, true, pc, false);
        if (write && x.r[t] > now.c[t]) race (a, static_cast<int> (t), write, false, pc, false);
      }
      if (k == 0 && (c.w[t] != 0 || c.r[t] != 0)) {
        if (c.w[self] == 0 && c.r[self] == 0) ++report->shared_locations;
      }
    }
    (write ? c.w : c.r)[self] = now.c[self];
    ++k;
    ++a;
  }
}
void atomic_access (void const* p, std::size_t n, bool write, void* pc) {
  Quiet const q;
  ++report->accesses;
  auto const& now = threads[self].clock;
  auto a = reinterpret_cast<std::uintptr_t> (p);
  for (std::size_t k = 0; k < n; ++k, ++a) {
    Page& pg = *page_of (a);
    pg.users |= 1U << self;
    if (pg.atomic == nullptr) pg.atomic = static_cast<AtomicCell*> (map (page_size * sizeof (AtomicCell)));
    Cell const& c = pg.plain[a % page_size];
    for (unsigned t = 0; t < nthreads; ++t) {
      if (static_cast<int> (t) == self) continue;
      if (c.w[t] > now.c[t]) race (a, static_cast<int> (t), write, true, pc, true);
      if (write && c.r[t] > now.c[t]) race (a, static_cast<int> (t), write, false, pc, true);
    }
    AtomicCell& x = pg.atomic[a % page_size];
    (write ? x.w : x.r)[self] = now.c[self];
  }
}

// ------------------------------------------------------------- scheduling
void give_way (int next) {
  if (next == self) return;
  threads[self].alone = 0;
  threads[next].alone = 0;
  running = next;
  int const me = self;
  ::sem_post (&threads[next].go);
  if (threads[me].finished) return;
  while (::sem_wait (&threads[me].go) != 0) {
  }
}

// Chooses who goes on.  forced: the current thread cannot, or has asked to let others run.
void choose (bool can_continue, bool forced) {
  std::uint8_t options[max_threads];
  unsigned n = 0;
  if (can_continue && !forced) options[n++] = static_cast<std::uint8_t> (self);
  for (unsigned k = 1; k <= nthreads; ++k) {
    auto const t = (static_cast<unsigned> (self) + k) % nthreads;
    if (static_cast<int> (t) == self && !(can_continue && forced)) continue;
    if (!threads[t].finished && !threads[t].blocked) options[n++] = static_cast<std::uint8_t> (t);
  }
  if (n == 0) {
    if (threads[self].finished) {
      bool all = true;
      for (unsigned t = 0; t < nthreads; ++t) all = all && threads[t].finished;
      if (all) {
        ::sem_post (&all_done);
        return;
      }
    }
    report->deadlock = true;
    say ("deadlock: every thread that has not finished waits for another");
    ::sem_post (&all_done);
    for (;;) ::pause ();
  }
  unsigned chosen = 0;
  if (n > 1) {
    auto const at = report->choices;
    if (at < prefix->size ()) chosen = (*prefix)[at] < n ? (*prefix)[at] : 0;
    if (at < sched::max_choices) {
      report->trace[at] = {static_cast<std::uint8_t> (chosen), static_cast<std::uint8_t> (n), can_continue && !forced};
      ++report->choices;
    } else {
      report->overflow = true;
      chosen = 0;
    }
    if (chosen != 0 && can_continue && !forced) ++report->preemptions;
  }
  give_way (options[chosen]);
}

// Before a synchronisation operation.
bool visible (void const* p, bool write) {
  auto const a = reinterpret_cast<std::uintptr_t> (p);
  auto const bit = static_cast<std::uint8_t> (1U << self);
  unsigned i = 0;
  while (i < objects->count && objects->object[i].address != a) ++i;
  if (i == sched::Objects::max) {
    objects->overflow = true;
    return true;
  }
  auto& o = objects->object[i];
  if (i == objects->count) {
    o = {a, 0, 0};
    ++objects->count;
  }
  bool const before = o.visible ();
  o.users |= bit;
  if (write) o.writers |= bit;
  if (!before && o.visible ()) objects->grown = true;
  return o.visible ();
}
void point (void const* p, bool write) {
  ++report->sync_operations;
  if (!visible (p, write)) return;
  bool const spinning = ++threads[self].alone > 200;  // let others run: this thread may be waiting for them
  choose (true, spinning);
}
void wait_for_change () {
  threads[self].blocked = true;
  choose (false, false);
}
void wake_all () {  // they look again at what they wait for
  for (unsigned t = 0; t < nthreads; ++t) threads[t].blocked = false;
}
void acquire (Sync const& s) { threads[self].clock.join (s.clock); }
void tick () { ++threads[self].clock.c[self]; }
void release (Sync& s) {
  s.clock.join (threads[self].clock);
  tick ();
}

void* thread_main (void* arg) {
  auto const me = static_cast<int> (reinterpret_cast<std::intptr_t> (arg));
  while (::sem_wait (&threads[me].go) != 0) {
  }
  self = me;
  (*threads[me].body) ();
  {
    Quiet const q;
    threads[me].finished = true;
    wake_all ();
    choose (false, false);
    self = -1;
  }
  for (;;) ::pause ();
}

// ------------------------------------------------------------- blocking operations
bool lock (void const* m, bool recursive, bool try_only) {
  Quiet const q;
  point (m, true);
  for (;;) {
    Sync& s = sync_of (m);
    if (s.owner == self && recursive) {
      ++s.depth;
      return true;
    }
    if (s.owner < 0 && s.readers == 0) {
      s.owner = self;
      s.depth = 1;
      acquire (s);
      return true;
    }
    if (try_only) return false;
    wait_for_change ();
  }
}
bool lock_shared (void const* m, bool try_only) {
  Quiet const q;
  point (m, true);
  for (;;) {
    Sync& s = sync_of (m);
    if (s.owner < 0) {
      ++s.readers;
      acquire (s);
      return true;
    }
    if (try_only) return false;
    wait_for_change ();
  }
}
void unlock (void const* m) {
  Quiet const q;
  point (m, true);
  Sync& s = sync_of (m);
  if (s.readers > 0) {
    --s.readers;
  } else if (--s.depth == 0) {
    s.owner = -1;
  } else {
    return;
  }
  release (s);
  wake_all ();
}

}  // namespace

void sched::run (std::vector<std::function<void ()>> const& bodies, std::vector<std::uint8_t> const& chosen, Report& rep, Objects& obj) {
  report = &rep;
  objects = &obj;
  prefix = &chosen;
  nthreads = static_cast<unsigned> (bodies.size ());
  if (nthreads == 0 || nthreads > max_threads) std::abort ();
  arena = static_cast<char*> (map (arena_size));
  pages = static_cast<Page*> (map (page_slots * sizeof (Page)));
  syncs = static_cast<Sync*> (map (sync_slots * sizeof (Sync)));
  ::sem_init (&all_done, 0, 0);
  pthread_attr_t attr;
  pthread_attr_init (&attr);
  pthread_attr_setstacksize (&attr, 1 << 22);
  for (unsigned t = 0; t < nthreads; ++t) {
    threads[t].body = &bodies[t];
    threads[t].clock.c[t] = 1;
    ::sem_init (&threads[t].go, 0, 0);
    if (pthread_create (&threads[t].handle, &attr, thread_main, reinterpret_cast<void*> (static_cast<std::intptr_t> (t))) != 0) std::abort ();
  }
  // libstdc++ initialises its locales once more when there are several threads
  (void)std::locale{};
  active = true;
  // who begins is a choice, too
  report->choices = 0;
  unsigned first = 0;
  if (nthreads > 1) {
    if (!chosen.empty () && chosen[0] < nthreads) first = chosen[0];
    report->trace[0] = {static_cast<std::uint8_t> (first), static_cast<std::uint8_t> (nthreads), 0};
    report->choices = 1;
  }
  running = static_cast<int> (first);
  ::sem_post (&threads[first].go);
  while (::sem_wait (&all_done) != 0) {
  }
  active = false;
}

// ------------------------------------------------------------- what the instrumented code calls
#define PC __builtin_return_address (0)
extern "C" {
void __tsan_init () {}
void __tsan_func_entry (void*) {}
void __tsan_func_exit () {}
void __tsan_ignore_thread_begin () {}
void __tsan_ignore_thread_end () {}
#define ACCESS(n)                                                                  \
  void __tsan_read##n (void* p) { access (p, n, false, PC); }                      \
  void __tsan_write##n (void* p) { access (p, n, true, PC); }                      \
  void __tsan_read_write##n (void* p) { access (p, n, true, PC); }                 \
  void __tsan_unaligned_read##n (void* p) { access (p, n, false, PC); }            \
  void __tsan_unaligned_write##n (void* p) { access (p, n, true, PC); }            \
  void __tsan_unaligned_read_write##n (void* p) { access (p, n, true, PC); }       \
  void __tsan_volatile_read##n (void* p) { access (p, n, false, PC); }             \
  void __tsan_volatile_write##n (void* p) { access (p, n, true, PC); }             \
  void __tsan_unaligned_volatile_read##n (void* p) { access (p, n, false, PC); }   \
  void __tsan_unaligned_volatile_write##n (void* p) { access (p, n, true, PC); }
ACCESS (1)
ACCESS (2)
ACCESS (4)
ACCESS (8)
ACCESS (16)
void __tsan_read_range (void* p, std::size_t n) { access (p, n, false, PC); }
void __tsan_write_range (void* p, std::size_t n) { access (p, n, true, PC); }
void __tsan_vptr_update (void** p, void* v) {
  if (*p != v) access (p, sizeof v, true, PC);
}
void __tsan_vptr_read (void** p) { access (p, sizeof *p, false, PC); }
void* __tsan_memcpy (void* d, void const* s, std::size_t n) {
  access (s, n, false, PC);
  access (d, n, true, PC);
  return std::memcpy (d, s, n);
}
void* __tsan_memmove (void* d, void const* s, std::size_t n) {
  access (s, n, false, PC);
  access (d, n, true, PC);
  return std::memmove (d, s, n);
}
void* __tsan_memset (void* d, int c, std::size_t n) {
  access (d, n, true, PC);
  return std::memset (d, c, n);
}
}

namespace {
bool acquires (int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases (int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void before_load (void const* p, std::size_t n, int mo, void* pc) {
  if (sync_of (p).state != 2) point (p, false);  // a guard that is done does not change any more
  atomic_access (p, n, false, pc);
  auto& t = threads[self];
  auto const& s = sync_of (p);
  if (acquires (mo)) t.clock.join (s.clock);
  t.fence_acquire.join (s.clock);
}
void release_value (Sync& s, int mo, bool keep) {
  auto& t = threads[self];
  if (!keep) s.clock = Clock{};
  if (releases (mo)) {
    s.clock.join (t.clock);
    tick ();
  } else if (t.has_fence) {
    s.clock.join (t.fence_release);
  }
}
void before_store (void const* p, std::size_t n, int mo, void* pc) {
  point (p, true);
  atomic_access (p, n, true, pc);
  release_value (sync_of (p), mo, false);
  wake_all ();
}
void before_rmw (void const* p, std::size_t n, int mo, void* pc) {
  point (p, true);
  atomic_access (p, n, true, pc);
  auto& t = threads[self];
  auto& s = sync_of (p);
  if (acquires (mo)) t.clock.join (s.clock);
  t.fence_acquire.join (s.clock);
  release_value (s, mo, true);
  wake_all ();
}
template <typename T> int exchange_if (T volatile* p, T* expected, T desired, int mo, int fmo, void* pc) {
  if (!on ()) return __atomic_compare_exchange_n (p, expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  Quiet const q;
  point (const_cast<T const*> (p), true);
  T e = *expected;
  bool const ok = __atomic_compare_exchange_n (p, &e, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  auto const* const a = const_cast<T const*> (p);
  auto& t = threads[self];
  auto& s = sync_of (a);
  atomic_access (a, sizeof (T), ok, pc);
  if (acquires (ok ? mo : fmo)) t.clock.join (s.clock);
  t.fence_acquire.join (s.clock);
  if (ok) {
    release_value (s, mo, true);
    wake_all ();
  } else {
    *expected = e;
  }
  return ok;
}
}  // namespace

#define RMW(bits, T, name, builtin)                                               \
  T __tsan_atomic##bits##_##name (T volatile* p, T v, int mo) {                   \
    if (on ()) {                                                                  \
      Quiet const q;                                                              \
      before_rmw (const_cast<T*> (p), sizeof (T), mo, PC);                        \
      return builtin (p, v, __ATOMIC_SEQ_CST);                                    \
    }                                                                             \
    return builtin (p, v, __ATOMIC_SEQ_CST);                                      \
  }
#define ATOMIC(bits, T)                                                           \
  T __tsan_atomic##bits##_load (T const volatile* p, int mo) {                    \
    if (on ()) {                                                                  \
      Quiet const q;                                                              \
      before_load (const_cast<T const*> (p), sizeof (T), mo, PC);                 \
      return __atomic_load_n (p, __ATOMIC_SEQ_CST);                               \
    }                                                                             \
    return __atomic_load_n (p, __ATOMIC_SEQ_CST);                                 \
  }                                                                               \
  void __tsan_atomic##bits##_store (T volatile* p, T v, int mo) {                 \
    if (on ()) {                                                                  \
      Quiet const q;                                                              \
      before_store (const_cast<T*> (p), sizeof (T), mo, PC);                      \
    }                                                                             \
    __atomic_store_n (p, v, __ATOMIC_SEQ_CST);                                    \
  }                                                                               \
  RMW (bits, T, exchange, __atomic_exchange_n)                                    \
  RMW (bits, T, fetch_add, __atomic_fetch_add)                                    \
  RMW (bits, T, fetch_sub, __atomic_fetch_sub)                                    \
  RMW (bits, T, fetch_and, __atomic_fetch_and)                                    \
  RMW (bits, T, fetch_or, __atomic_fetch_or)                                      \
  RMW (bits, T, fetch_xor, __atomic_fetch_xor)                                    \
  RMW (bits, T, fetch_nand, __atomic_fetch_nand)                                  \
  int __tsan_atomic##bits##_compare_exchange_strong (T volatile* p, T* e, T d, int mo, int fmo) { return exchange_if (p, e, d, mo, fmo, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak (T volatile* p, T* e, T d, int mo, int fmo) { return exchange_if (p, e, d, mo, fmo, PC); }   \
  T __tsan_atomic##bits##_compare_exchange_val (T volatile* p, T e, T d, int mo, int fmo) {                                                    \
    exchange_if (p, &e, d, mo, fmo, PC);                                          \
    return e;                                                                     \
  }

extern "C" {
ATOMIC (8, std::uint8_t)
ATOMIC (16, std::uint16_t)
ATOMIC (32, std::uint32_t)
ATOMIC (64, std::uint64_t)
void __tsan_atomic_thread_fence (int mo) {
  __atomic_thread_fence (__ATOMIC_SEQ_CST);
  if (!on ()) return;
  Quiet const q;
  auto& t = threads[self];
  if (acquires (mo)) t.clock.join (t.fence_acquire);
  if (releases (mo)) {
    t.fence_release = t.clock;
    t.has_fence = true;
    tick ();
  }
}
void __tsan_atomic_signal_fence (int) {}

// ------------------------------------------------------------- initialisation of local statics
int __cxa_guard_acquire (std::uint64_t* g) {
  auto* const byte = reinterpret_cast<std::uint8_t*> (g);
  if (!on ()) return __atomic_load_n (byte, __ATOMIC_SEQ_CST) == 0;
  Quiet const q;
  point (g, __atomic_load_n (byte, __ATOMIC_SEQ_CST) == 0);
  for (;;) {
    Sync& s = sync_of (g);
    if (__atomic_load_n (byte, __ATOMIC_SEQ_CST) != 0) {
      acquire (s);
      return 0;
    }
    if (s.state != 1) {
      s.state = 1;
      s.owner = self;
      return 1;
    }
    if (s.owner == self) {
      say ("a local static is initialised while it is being initialised");
      std::abort ();
    }
    wait_for_change ();
  }
}
void __cxa_guard_release (std::uint64_t* g) {
  auto* const byte = reinterpret_cast<std::uint8_t*> (g);
  if (!on ()) {
    __atomic_store_n (byte, 1, __ATOMIC_SEQ_CST);
    return;
  }
  Quiet const q;
  point (g, true);
  Sync& s = sync_of (g);
  s.state = 2;
  s.owner = -1;
  release (s);
  __atomic_store_n (byte, 1, __ATOMIC_SEQ_CST);
  wake_all ();
}
void __cxa_guard_abort (std::uint64_t* g) {
  if (!on ()) return;
  Quiet const q;
  Sync& s = sync_of (g);
  s.state = 0;
  s.owner = -1;
  wake_all ();
}

// ------------------------------------------------------------- pthread operations
#define REAL(name) reinterpret_cast<decltype (&name)> (::dlsym (RTLD_NEXT, #name))
int pthread_mutex_lock (pthread_mutex_t* m) noexcept {
  if (!on ()) return REAL (pthread_mutex_lock) (m);
  (void)lock (m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false);
  return 0;
}
int pthread_mutex_trylock (pthread_mutex_t* m) noexcept {
  if (!on ()) return REAL (pthread_mutex_trylock) (m);
  return lock (m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true) ? 0 : EBUSY;
}
int pthread_mutex_unlock (pthread_mutex_t* m) noexcept {
  if (!on ()) return REAL (pthread_mutex_unlock) (m);
  unlock (m);
  return 0;
}
int pthread_rwlock_rdlock (pthread_rwlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_rwlock_rdlock) (m);
  (void)lock_shared (m, false);
  return 0;
}
int pthread_rwlock_tryrdlock (pthread_rwlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_rwlock_tryrdlock) (m);
  return lock_shared (m, true) ? 0 : EBUSY;
}
int pthread_rwlock_wrlock (pthread_rwlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_rwlock_wrlock) (m);
  (void)lock (m, false, false);
  return 0;
}
int pthread_rwlock_trywrlock (pthread_rwlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_rwlock_trywrlock) (m);
  return lock (m, false, true) ? 0 : EBUSY;
}
int pthread_rwlock_unlock (pthread_rwlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_rwlock_unlock) (m);
  unlock (m);
  return 0;
}
int pthread_spin_lock (pthread_spinlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_spin_lock) (m);
  (void)lock (const_cast<int const*> (m), false, false);
  return 0;
}
int pthread_spin_unlock (pthread_spinlock_t* m) noexcept {
  if (!on ()) return REAL (pthread_spin_unlock) (m);
  unlock (const_cast<int const*> (m));
  return 0;
}
int pthread_once (pthread_once_t* o, void (*f) ()) {
  if (!on ()) return REAL (pthread_once) (o, f);
  {
    Quiet const q;
    point (o, (*o & 3) != 2);
    for (;;) {
      Sync& s = sync_of (o);
      if (s.state == 2 || (*o & 3) == 2) {
        acquire (s);
        return 0;
      }
      if (s.state == 0) {
        s.state = 1;
        s.owner = self;
        break;
      }
      wait_for_change ();
    }
  }
  struct Done {
    pthread_once_t* o;
    bool ok = false;
    ~Done () {
      Quiet const q;
      Sync& s = sync_of (o);
      s.owner = -1;
      s.state = ok ? 2 : 0;
      if (ok) {
        *o = 2;
        release (s);
      }
      wake_all ();
    }
  } done{o};
  f ();
  done.ok = true;
  return 0;
}
int pthread_cond_wait (pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on ()) return REAL (pthread_cond_wait) (c, m);
  {
    Quiet const q;
    Sync& s = sync_of (c);
    auto const seen = s.signals;
    unlock (m);
    while (sync_of (c).signals == seen) wait_for_change ();
  }
  (void)lock (m, false, false);
  return 0;
}
int pthread_cond_signal (pthread_cond_t* c) noexcept {
  if (!on ()) return REAL (pthread_cond_signal) (c);
  Quiet const q;
  point (c, true);
  ++sync_of (c).signals;  // every waiter may go on: spurious wake-ups are allowed
  wake_all ();
  return 0;
}
int pthread_cond_broadcast (pthread_cond_t* c) noexcept {
  if (!on ()) return REAL (pthread_cond_broadcast) (c);
  return pthread_cond_signal (c);
}
int sched_yield () noexcept {
  if (!on ()) return REAL (sched_yield) ();
  Quiet const q;
  ++report->sync_operations;
  choose (true, true);
  return 0;
}
int nanosleep (timespec const* t, timespec* left) {
  if (!on ()) return REAL (nanosleep) (t, left);
  return sched_yield ();
}
int clock_nanosleep (clockid_t id, int flags, timespec const* t, timespec* left) {
  if (!on ()) return REAL (clock_nanosleep) (id, flags, t, left);
  return sched_yield ();
}

// ------------------------------------------------------------- memory
void* malloc (std::size_t n) noexcept {
  if (active && self >= 0) return arena_get (n);
  return __libc_malloc (n);
}
void free (void* p) noexcept {
  if (in_arena (p)) return arena_free (p);
  if (active && self >= 0) return;  // memory from before the threads began: kept
  __libc_free (p);
}
void* calloc (std::size_t n, std::size_t m) noexcept {
  if (active && self >= 0) {
    void* const p = arena_get (n * m);
    return p != nullptr ? std::memset (p, 0, n * m) : p;
  }
  return __libc_calloc (n, m);
}
void* realloc (void* p, std::size_t n) noexcept {
  if (in_arena (p) || (active && self >= 0)) {
    void* const r = arena_get (n);
    if (p != nullptr && r != nullptr) {
      std::size_t old = n;
      if (in_arena (p)) old = static_cast<Header*> (p)[-1].size;
      std::memcpy (r, p, old < n ? old : n);
      if (in_arena (p)) arena_free (p);
    }
    return r;
  }
  return __libc_realloc (p, n);
}
void* aligned_alloc (std::size_t a, std::size_t n) noexcept {
  if (active && self >= 0) return arena_get (n, a);
  return __libc_memalign (a, n);
}
void* memalign (std::size_t a, std::size_t n) noexcept { return aligned_alloc (a, n); }
int posix_memalign (void** out, std::size_t a, std::size_t n) noexcept {
  *out = aligned_alloc (a, n);
  return *out != nullptr ? 0 : ENOMEM;
}

// ------------------------------------------------------------- functions of the C library which share a hidden object
#define HIDDEN(name)                 \
  static char hidden_##name;         \
  access (&hidden_##name, 1, true, PC)
char* strtok (char* s, char const* d) noexcept {
  HIDDEN (strtok);
  return REAL (strtok) (s, d);
}
tm* gmtime (time_t const* t) noexcept {
  HIDDEN (gmtime);
  return REAL (gmtime) (t);
}
tm* localtime (time_t const* t) noexcept {
  HIDDEN (localtime);
  return REAL (localtime) (t);
}
char* setlocale (int c, char const* l) noexcept {
  static char hidden;
  access (&hidden, 1, l != nullptr, PC);
  return REAL (setlocale) (c, l);
}
int setenv (char const* n, char const* v, int o) noexcept {
  HIDDEN (setenv);
  return REAL (setenv) (n, v, o);
}
int mblen (char const* s, std::size_t n) noexcept {
  HIDDEN (mblen);
  return REAL (mblen) (s, n);
}
int mbtowc (wchar_t* w, char const* s, std::size_t n) noexcept {
  HIDDEN (mbtowc);
  return REAL (mbtowc) (w, s, n);
}
int wctomb (char* s, wchar_t w) noexcept {
  HIDDEN (wctomb);
  return REAL (wctomb) (s, w);
}
// ... and functions which write through a pointer that instrumentation does not see
char* strcpy (char* d, char const* s) noexcept {
  auto const n = std::strlen (s) + 1;
  access (s, n, false, PC);
  access (d, n, true, PC);
  std::memcpy (d, s, n);
  return d;
}
char* strncpy (char* d, char const* s, std::size_t n) noexcept {
  access (s, ::strnlen (s, n), false, PC);
  access (d, n, true, PC);
  std::size_t i = 0;
  for (; i < n && s[i] != 0; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
int snprintf (char* d, std::size_t n, char const* f, ...) noexcept {
  std::va_list args;
  va_start (args, f);
  auto const r = ::vsnprintf (d, n, f, args);
  va_end (args);
  if (d != nullptr && n > 0 && r >= 0) access (d, std::min<std::size_t> (static_cast<std::size_t> (r) + 1, n), true, PC);
  return r;
}
int sprintf (char* d, char const* f, ...) noexcept {
  std::va_list args;
  va_start (args, f);
  auto const r = ::vsprintf (d, f, args);
  va_end (args);
  if (r >= 0) access (d, static_cast<std::size_t> (r) + 1, true, PC);
  return r;
}
}
