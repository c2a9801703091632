// Conformance driver: executes a program file (written by lib/vlib.py) against the
// library and logs one JSON line per step.
//   prog <id> <type> <mod>        start of a program: clears nothing but the type
//   load <slot> <r> <c> v...      the caller stores a matrix
//   call <key> a b d d2 i j e eps s [n]    one library call (-1: no such operand); with n, made n times
//                                 or until its outcome differs from the one before: the last one is logged
//   fmt <flags>                   sets std::cout's formatting state
#include "driver.hpp"
#include <cfenv>
#include <cstdio>

void sched_point() {}

// digits in groups of three, decimal comma: what an application's locale may ask for
struct Grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};

// What a call finds in its process and has to leave as it was: the streams' formatting state and
// targets, the floating-point control modes, and that nothing was written (print's text is captured).
static long err_bytes = 0;
struct Counting : std::streambuf {
  int overflow(int c) override { ++err_bytes; return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { err_bytes += n; return n; }
};
static ssize_t count_err(void*, const char* b, size_t n) { err_bytes += long(n); return write(2, b, n); }
struct World {
  int round; unsigned fpu;
  std::ios_base::fmtflags f[4]; std::streamsize prec[4], width[4]; char fill[4]; std::streambuf* buf[4]; std::ostream* tie[4]; std::ios_base::iostate bits[4];
  off_t out; long err;
  World()
  {
    round = std::fegetround();
#ifdef __SSE__
    fpu = __builtin_ia32_stmxcsr() & 0xFFC0u;
#else
    fpu = 0;
#endif
    std::ios* s[4] = { &std::cout, &std::cerr, &std::clog, &std::cin };
    for (int k = 0; k < 4; ++k) { f[k] = s[k]->flags(); prec[k] = s[k]->precision(); width[k] = k ? s[k]->width() : 0; fill[k] = s[k]->fill(); buf[k] = s[k]->rdbuf(); tie[k] = s[k]->tie(); bits[k] = s[k]->rdstate(); }
    std::cout.flush(); std::fflush(stdout);
    out = lseek(1, 0, SEEK_CUR); err = err_bytes;
  }
  bool operator==(const World& o) const
  {
    for (int k = 0; k < 4; ++k) if (f[k] != o.f[k] || prec[k] != o.prec[k] || width[k] != o.width[k] || fill[k] != o.fill[k] || buf[k] != o.buf[k] || tie[k] != o.tie[k] || bits[k] != o.bits[k]) return false;
    return round == o.round && fpu == o.fpu && out == o.out && err == o.err;
  }
};
static void watch_world()
{
  char nm[] = "stdoutXXXXXX"; int fd = mkstemp(nm); unlink(nm);
  if (fd >= 0) { dup2(fd, 1); close(fd); }
  static Counting counting;
  std::cerr.rdbuf(&counting); std::clog.rdbuf(&counting);
  cookie_io_functions_t io = { nullptr, count_err, nullptr, nullptr };
  FILE* e = fopencookie(nullptr, "w", io);
  if (e) { setvbuf(e, nullptr, _IONBF, 0); stderr = e; }
}

int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  FILE* in = std::fopen(argv[1], "r");
  if (!in) return 3;
  setup(argv[2]);
  watch_world();
  std::unordered_map<std::string, TypeOps> types = all_types();
  TypeOps ty = types["i32"];
  static Slot slots[16];
  char* line = nullptr; size_t cap = 0; ssize_t len;
  std::vector<const char*> w;
  while ((len = getline(&line, &cap, in)) > 0) {
    w.clear();
    for (char* t = std::strtok(line, " \n"); t; t = std::strtok(nullptr, " \n")) w.push_back(t);
    if (w.empty()) continue;
    std::string cmd = w[0];
    ++step_no;
    if (cmd == "prog") { ty = types.at(w[2]); gf_mod = std::atoi(w[3]) > 0 ? std::atoi(w[3]) : 46337; continue; }
    if (cmd == "fmt") {
      std::string f = w[1];
      std::cout.copyfmt(std::ios(nullptr));
      if (f == "fixed3") { std::cout << std::fixed; std::cout.precision(3); }
      else if (f == "prec3") std::cout.precision(3);
      else if (f == "prec12") std::cout.precision(12);
      else if (f == "showpos") std::cout << std::showpos;
      else if (f == "hex") std::cout << std::hex << std::showbase;
      else if (f == "sci") std::cout << std::scientific;
      else if (f == "prec17") std::cout.precision(17);
      else if (f == "prec0") { std::cout << std::fixed; std::cout.precision(0); }
      else if (f == "oct") std::cout << std::oct << std::showbase;
      else if (f == "upper") std::cout << std::hex << std::uppercase << std::showbase << std::scientific;
      else if (f == "point") std::cout << std::showpoint << std::boolalpha;
      else if (f == "left") { std::cout << std::left; std::cout.fill('*'); }
      else if (f == "group") std::cout.imbue(std::locale(std::locale::classic(), new Grouped));
      else if (f == "hexfloat") std::cout << std::hexfloat;
      else if (f == "width") { std::cout.width(12); std::cout.fill('.'); }
      else if (f == "unitbuf") std::cout << std::unitbuf;
      caller_format().copyfmt(std::cout);
      continue;
    }
    if (cmd == "load") {
      Slot& s = slots[std::atoi(w[1])]; int r = std::atoi(w[2]), c = std::atoi(w[3]);
      if (w.size() != 4 + size_t(r) * c) { std::fprintf(stderr, "harness: bad load\n"); return 3; }
      store(s, ty, nullptr, r, c); ty.parse(s.p, w.data() + 4, size_t(r) * c);
      continue;
    }
    if (cmd != "call") return 3;
    auto f = table().find(w[1]);
    if (f == table().end()) { std::fprintf(stderr, "harness: no %s\n", w[1]); return 3; }
    Ctx x; int a = std::atoi(w[2]), b = std::atoi(w[3]), d = std::atoi(w[4]), d2 = std::atoi(w[5]);
    if (a >= 0) x.a = &slots[a];
    if (b >= 0) x.b = &slots[b];
    x.i = size_t(std::atoll(w[6])); x.j = size_t(std::atoll(w[7])); x.e = static_cast<long long>(w[8][0] == '-' ? std::strtoll(w[8], nullptr, 10) : static_cast<long long>(std::strtoull(w[8], nullptr, 10)));
    x.eps = std::strtof(w[9], nullptr); x.s = w.size() > 10 ? w[10] : "0";
    const char* st = "ok";
    std::fflush(logf_);
    const World before;
    alarm(60);
    const Ctx fresh = x;
    auto call = [&]() {
      st = "ok";
      try { f->second(x); }
      catch (const std::overflow_error&) { x.end(); st = "overflow_error"; }
      catch (const std::exception&) { x.end(); st = "other_exception"; }
      catch (...) { x.end(); st = "unknown_exception"; }
    };
    call();
    for (long times = w.size() > 11 ? std::atol(w[11]) : 1; times > 1; --times) {
      const Ctx last = x; const char* was = st;
      x = fresh; call();
      if (std::strcmp(was, st) || last.m1 != x.m1 || last.m2 != x.m2 || last.json != x.json) break;
    }
    alarm(0);
    const World after;
    std::string o = "{\"n\":" + std::to_string(step_no) + ",\"st\":\"" + st + "\",\"al\":" + std::to_string(x.allocs);
    for (Slot& s : slots) if (!frame_ok(s)) { o += ",\"frame\":1"; break; }
    if (!(before == after)) o += ",\"env\":1";
    if (a >= 0) o += ",\"pa\":" + matrix_json(ty, x.a->p, x.a->r, x.a->c);
    if (b >= 0) o += ",\"pb\":" + matrix_json(ty, x.b->p, x.b->r, x.b->c);
    if (!std::strcmp(st, "ok")) {
      if (x.has1) { o += ",\"r\":" + matrix_json(ty, x.m1.data(), x.r1, x.c1); store(slots[d], ty, x.m1.data(), x.r1, x.c1); }
      if (x.has2) { o += ",\"r2\":" + matrix_json(ty, x.m2.data(), x.r2, x.c2); store(slots[d2], ty, x.m2.data(), x.r2, x.c2); }
      if (!x.json.empty()) o += ",\"v\":" + x.json;
    }
    o += "}\n";
    std::fputs(o.c_str(), logf_);
  }
  std::fputs("{\"n\":-1,\"st\":\"end\"}\n", logf_);
  std::fflush(logf_);
  return 0;
}
