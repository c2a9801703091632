// What the drivers share: allocation counting, output capture, failure reporting, matrix storage.
#ifndef VERIF_DRIVER_HPP_
#define VERIF_DRIVER_HPP_
#include "ops.hpp"
#include <unordered_map>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include <new>

int gf_mod = 46337;

static volatile long g_allocs = 0;
static volatile bool g_count = false;
static inline void tick() { if (g_count) g_allocs = g_allocs + 1; }

#ifndef VERIF_NO_ALLOC_HOOKS
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { tick(); return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { tick(); return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { tick(); return __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t b) { tick(); return __real_aligned_alloc(a, b); }
int __wrap_posix_memalign(void** p, size_t a, size_t b) { tick(); return __real_posix_memalign(p, a, b); }
}
static void* do_new(size_t n) { tick(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { tick(); return __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { tick(); return __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
#endif

void Ctx::begin() { g_allocs = 0; measuring = true; g_count = true; }
void Ctx::end() { g_count = false; if (measuring) allocs = g_allocs; measuring = false; }

static std::unordered_map<std::string, void (*)(Ctx&)>& table() { static std::unordered_map<std::string, void (*)(Ctx&)> t; return t; }
void register_ops(const Entry* e, size_t n) { for (size_t k = 0; k < n; ++k) table()[e[k].key] = e[k].fn; }

static int cap_fd = -1, saved_fd = -1;
std::string capture_begin()
{
  std::cout.flush(); std::fflush(stdout);
  if (cap_fd < 0) { char nm[] = "captureXXXXXX"; cap_fd = mkstemp(nm); unlink(nm); }
  if (ftruncate(cap_fd, 0)) {} lseek(cap_fd, 0, SEEK_SET);
  saved_fd = dup(1); dup2(cap_fd, 1);
  return "";
}
std::string capture_end()
{
  std::cout.flush(); std::fflush(stdout);
  dup2(saved_fd, 1); close(saved_fd);
  std::string r; char b[4096]; ssize_t n; lseek(cap_fd, 0, SEEK_SET);
  while ((n = read(cap_fd, b, sizeof b)) > 0) r.append(b, size_t(n));
  return r;
}
std::string codes(const std::string& s)
{
  std::string r = "[";
  for (size_t k = 0; k < s.size(); ++k) r += (k ? "," : "") + std::to_string(int(static_cast<unsigned char>(s[k])));
  return r + "]";
}

static FILE* logf_;
static int log_fd;
static long step_no = 0;
static void emergency(const char* what)
{
  char b[128]; int n = std::snprintf(b, sizeof b, "{\"n\":%ld,\"st\":\"%s\"}\n", step_no, what);
  if (write(log_fd, b, size_t(n)) < 0) {}
}
static void on_signal(int sig) { emergency(sig == SIGALRM ? "hang" : "crash"); std::_Exit(90); }
#ifdef VERIF_SANITIZE
extern "C" void __asan_on_error() { emergency("memory"); }
#endif
static void on_terminate() { emergency("terminate"); std::_Exit(91); }

static const size_t PAD = 64;
static std::string matrix_json(const TypeOps& t, const unsigned char* p, int r, int c)
{
  std::string s = "[";
  for (int i = 0; i < r; ++i) {
    s += i ? ",[" : "[";
    for (int j = 0; j < c; ++j) { if (j) s += ","; s += t.fmt(p, size_t(i) * c + j); }
    s += "]";
  }
  return s + "]";
}
static const size_t CAP = 1024 * 1024;
static void store(Slot& s, const TypeOps& t, const unsigned char* data, int r, int c)
{
  size_t n = t.size * size_t(r) * size_t(c);
#ifdef VERIF_EXACT
  std::free(s.p); s.p = static_cast<unsigned char*>(std::malloc(n ? n : 1));   // exact size: red zones follow directly
#else
  if (!s.p) { s.p = static_cast<unsigned char*>(::aligned_alloc(64, CAP)) + PAD; }
  if (n + 2 * PAD > CAP) { std::fprintf(stderr, "harness: matrix too big\n"); std::_Exit(3); }
  std::memset(s.p - PAD, 0xA5, PAD); std::memset(s.p + n, 0xA5, PAD);
#endif
  if (data) std::memcpy(s.p, data, n);
  s.r = r; s.c = c; s.bytes = n;
}
static bool frame_ok(const Slot& s)
{
#ifndef VERIF_EXACT
  if (s.p) for (size_t k = 0; k < PAD; ++k) if (s.p[-long(PAD) + long(k)] != 0xA5 || s.p[s.bytes + k] != 0xA5) return false;
#endif
  return true;
}


static std::unordered_map<std::string, TypeOps> all_types()
{
  return {
#define TY_(t) {#t, type_ops<t>()},
    TY_(u8) TY_(i8) TY_(u16) TY_(i16) TY_(i32) TY_(u32) TY_(i64) TY_(u64) TY_(lng) TY_(f32) TY_(f64) TY_(ld) TY_(c32) TY_(c64) TY_(gf) TY_(coop)
#undef TY_
  };
}
static void setup(const char* out)
{
  log_fd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  logf_ = fdopen(log_fd, "a");
  std::signal(SIGALRM, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGABRT, on_signal);
  std::signal(SIGILL, on_signal); std::signal(SIGTRAP, on_signal);
#ifndef VERIF_SANITIZE
  std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal);
#endif
  std::set_terminate(on_terminate);
}
#endif
