// C19: a failing allocation is reported, leaks nothing and corrupts nothing.
#include <cstdlib>
#include <new>
#include "calls.hpp"

char const* const mc_kinds[] = {"one failure", "failures from there on", "two failures"};

namespace {
struct Heap {
  bool armed = false, persistent = false, injected = false;
  std::uint64_t count = 0, first = 0, second = 0;
  std::int64_t live = 0;
} heap;

void* allocate (std::size_t n, std::size_t align = 0) {
  if (heap.armed) {
    ++heap.count;
    if (heap.count == heap.first || heap.count == heap.second || (heap.persistent && heap.count > heap.first)) {
      heap.injected = true;
      return nullptr;
    }
  }
  void* const p = align ? std::aligned_alloc (align, (n + align - 1) / align * align) : std::malloc (n ? n : 1);
  if (p) ++heap.live;
  return p;
}
void release (void* p) {
  if (!p) return;
  --heap.live;
  std::free (p);
}
void* must (void* p) {
  if (!p) throw std::bad_alloc{};
  return p;
}
}  // namespace

void* operator new (std::size_t n) { return must (allocate (n)); }
void* operator new[] (std::size_t n) { return must (allocate (n)); }
void* operator new (std::size_t n, std::nothrow_t const&) noexcept { return allocate (n); }
void* operator new[] (std::size_t n, std::nothrow_t const&) noexcept { return allocate (n); }
void* operator new (std::size_t n, std::align_val_t a) { return must (allocate (n, static_cast<std::size_t> (a))); }
void* operator new[] (std::size_t n, std::align_val_t a) { return must (allocate (n, static_cast<std::size_t> (a))); }
void operator delete (void* p) noexcept { release (p); }
void operator delete[] (void* p) noexcept { release (p); }
void operator delete (void* p, std::size_t) noexcept { release (p); }
void operator delete[] (void* p, std::size_t) noexcept { release (p); }
void operator delete (void* p, std::align_val_t) noexcept { release (p); }
void operator delete[] (void* p, std::align_val_t) noexcept { release (p); }
void operator delete (void* p, std::size_t, std::align_val_t) noexcept { release (p); }
void operator delete[] (void* p, std::size_t, std::align_val_t) noexcept { release (p); }

namespace {

struct Normal {
  std::string result, arguments;
  std::uint64_t allocations = 0;
};
Normal const& normal (std::size_t i) {
  static std::map<std::size_t, Normal> known;
  auto const it = known.find (i);
  if (it != known.end ()) return it->second;
  auto const& e = calls::with_large ()[i];
  Normal n;
  for (int round = 0; round < 2; ++round) {  // the first round also builds what is built lazily
    auto c = e.create ();
    c->prepare ();
    n.arguments = c->arguments ();
    heap = Heap{.armed = true, .live = heap.live};
    c->run ();
    heap.armed = false;
    n.allocations = heap.count;
    n.result = c->result ();
  }
  return known.emplace (i, n).first->second;
}

void one (std::size_t i, std::uint64_t first, std::uint64_t second, bool persistent) {
  auto const& n = normal (i);
  auto const& e = calls::with_large ()[i];
  std::string const what = mc::cat ("\"", e.name, "\" when allocation ", first, persistent ? " and all later ones fail" : "",
                                    second ? mc::cat (" and ", second) : "", persistent ? "" : " fails", " (of ", n.allocations, "): ");
  auto const before = heap.live;
  char const* outcome = "";
  std::uint64_t made = 0;
  {
    auto c = e.create ();
    c->prepare ();
    auto const at_call = heap.live;
    bool reported = false;
    std::string other;
    heap = Heap{.armed = true, .persistent = persistent, .first = first, .second = second, .live = heap.live};
    try {
      c->run ();
      heap.armed = false;
    } catch (std::bad_alloc const&) {
      heap.armed = false;
      reported = true;
    } catch (std::exception const& x) {
      heap.armed = false;
      other = x.what ();
    }
    made = heap.count;
    MC_CHECK (other.empty (), what, "reported as a different exception: ", other);
    if (reported) {
      MC_CHECK (heap.injected, what, "out of memory is reported though nothing failed");
      MC_CHECK (heap.live == at_call, what, heap.live - at_call, " blocks of memory are leaked");
      outcome = "reported";
    } else {
      auto const r = c->result ();
      bool const stream = e.stream && heap.injected && r == "stream failed";
      MC_CHECK (r == n.result || stream, what, "gives ", mc::show (r), " instead of ", mc::show (n.result));
      outcome = stream ? "reported by the stream" : heap.injected ? "succeeded in spite of it" : "not reached";
    }
    MC_CHECK (c->arguments () == n.arguments, what, "the arguments are changed to ", mc::show (c->arguments ()));
    c->run ();
    MC_CHECK (c->result () == n.result, what, "the next call gives ", mc::show (c->result ()), " instead of ", mc::show (n.result));
    MC_CHECK (c->arguments () == n.arguments, what, "the arguments are changed by the next call");
  }
  MC_CHECK (heap.live == before, what, heap.live - before, " blocks of memory are leaked");
  mc::step (made);
  mc::outcome (outcome);
  if (outcome != std::string_view{"not reached"}) mc::state (mc::cat (i, ' ', first, ' ', second, ' ', persistent, ' ', outcome));
}

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const& all = calls::with_large ();
  for (std::uint32_t i = 0; i < all.size (); ++i) {
    if (all[i].may_terminate) continue;
    for (unsigned kind = 0; kind < (thorough ? 3 : 2); ++kind) emit (kind, mc::Writer{}.u32 (i).s);
  }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  mc::Reader r{payload};
  auto const i = r.u32 ();
  auto const n = normal (i).allocations;
  mc::maximum ("allocations in one call", n);
  auto const limit = kind == 2 ? std::min<std::uint64_t> (n, 400) : n;
  for (std::uint64_t k = 1; k <= limit + 1; ++k) {
    if (kind < 2) {
      one (i, k, 0, kind == 1);
    } else {
      for (std::uint64_t j = k + 1; j <= std::min<std::uint64_t> (k + 60, n + 1); ++j) one (i, k, j, false);
    }
  }
}

MC_MAIN (gen_cases)
