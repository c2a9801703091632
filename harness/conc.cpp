// Concurrency driver.  Executes groups of library calls that are in progress at the same time:
//   prog <id> <type> <mod> / load ...        as in main.cpp
//   group <mode> <args>                      starts a group; its "call" lines follow, then "go"
//     count                                  run each call alone, log its number of scheduling points
//     nested p1 p2 ...                       at its p1-th element operation call 0 makes call 1 on the same
//                                            stack, which at its p2-th makes call 2, ...
//     sched t:q t:q ...                      every call on its own thread; thread t runs q element operations,
//                                            then the next one in the list takes over
//     free n                                 every call on its own thread, n times, unscheduled; every
//                                            distinct outcome is logged
#include "driver.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <set>

struct Call { long n; void (*fn)(Ctx&); Ctx x; std::string st; long points; int a, b; };

static std::string run_call(Call& c, const TypeOps&)
{
  try { c.fn(c.x); return "ok"; }
  catch (const std::overflow_error&) { return "overflow_error"; }
  catch (const std::exception&) { return "other_exception"; }
  catch (...) { return "unknown_exception"; }
}
static std::string outcome(const Call& c, const TypeOps& ty)
{
  std::string o = "\"st\":\"" + c.st + "\"";
  if (c.st == "ok") {
    if (c.x.has1) o += ",\"r\":" + matrix_json(ty, c.x.m1.data(), c.x.r1, c.x.c1);
    if (c.x.has2) o += ",\"r2\":" + matrix_json(ty, c.x.m2.data(), c.x.r2, c.x.c2);
    if (!c.x.json.empty()) o += ",\"v\":" + c.x.json;
  }
  return o;
}

// ---- scheduling state of the calling thread
enum Mode { OFF, COUNT, NESTED, SCHED };
struct Tls { Mode mode = OFF; long count = 0; int id = 0; long quota = 0; };
static thread_local Tls tls;
static std::vector<Call>* g_calls;
static const TypeOps* g_ty;
static std::vector<long> g_pos;

static std::mutex mx;
static std::condition_variable cv;
static int g_turn;
static std::vector<std::pair<int, long>> g_plan; static size_t g_next;
static std::vector<bool> g_done;

static void advance()           // mx held
{
  while (g_next < g_plan.size() && g_done[size_t(g_plan[g_next].first)]) ++g_next;
  if (g_next < g_plan.size()) { g_turn = g_plan[g_next].first; return; }
  for (size_t t = 0; t < g_done.size(); ++t) if (!g_done[t]) { g_turn = int(t); return; }
  g_turn = -1;
}
static void wait_turn(std::unique_lock<std::mutex>& l)
{
  cv.wait(l, [] { return g_turn == tls.id; });
  tls.quota = g_next < g_plan.size() ? g_plan[g_next].second : -1;
  if (g_next < g_plan.size()) ++g_next;
}
static void nested_call(size_t depth);

void sched_point()
{
  switch (tls.mode) {
  case OFF: return;
  case COUNT: ++tls.count; return;
  case NESTED: {
    size_t d = size_t(tls.id);
    if (d < g_pos.size() && ++tls.count == g_pos[d]) nested_call(d + 1);
    return; }
  case SCHED:
    if (tls.quota > 0 && --tls.quota == 0) {
      std::unique_lock<std::mutex> l(mx);
      advance(); cv.notify_all(); wait_turn(l);
    }
    return;
  }
}
static void nested_call(size_t depth)
{
  Tls saved = tls;
  tls.mode = NESTED; tls.id = int(depth); tls.count = 0;
  Call& c = (*g_calls)[depth];
  c.st = run_call(c, *g_ty);
  // never reached its own point: the next call is made afterwards
  tls = saved;
}

static void emit(const Call& c, const std::string& o, long points)
{
  std::string s = "{\"n\":" + std::to_string(c.n) + "," + o;
  if (points >= 0) s += ",\"points\":" + std::to_string(points);
  s += "}\n";
  std::fputs(s.c_str(), logf_);
}

int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  FILE* in = std::fopen(argv[1], "r");
  if (!in) return 3;
  setup(argv[2]);
  auto types = all_types();
  TypeOps ty = types["i32"];
  static Slot slots[16];
  char* line = nullptr; size_t cap = 0; ssize_t len;
  std::vector<const char*> w;
  std::vector<std::string> group;
  std::vector<Call> calls;
  while ((len = getline(&line, &cap, in)) > 0) {
    w.clear();
    for (char* t = std::strtok(line, " \n"); t; t = std::strtok(nullptr, " \n")) w.push_back(t);
    if (w.empty()) continue;
    std::string cmd = w[0];
    ++step_no;
    if (cmd == "prog") { ty = types.at(w[2]); gf_mod = std::atoi(w[3]) > 0 ? std::atoi(w[3]) : 46337; continue; }
    if (cmd == "load") {
      Slot& s = slots[std::atoi(w[1])]; int r = std::atoi(w[2]), c = std::atoi(w[3]);
      if (w.size() != 4 + size_t(r) * c) return 3;
      store(s, ty, nullptr, r, c); ty.parse(s.p, w.data() + 4, size_t(r) * c);
      continue;
    }
    if (cmd == "group") { group.assign(w.begin() + 1, w.end()); calls.clear(); continue; }
    if (cmd == "call") {
      auto f = table().find(w[1]);
      if (f == table().end()) { std::fprintf(stderr, "harness: no %s\n", w[1]); return 3; }
      Call c; c.n = step_no; c.fn = f->second; c.a = std::atoi(w[2]); c.b = std::atoi(w[3]);
      if (c.a >= 0) c.x.a = &slots[c.a];
      if (c.b >= 0) c.x.b = &slots[c.b];
      c.x.i = size_t(std::atoll(w[6])); c.x.j = size_t(std::atoll(w[7])); c.x.e = std::atoll(w[8]);
      c.x.eps = std::strtof(w[9], nullptr); c.x.s = w.size() > 10 ? w[10] : "0";
      calls.push_back(c);
      continue;
    }
    if (cmd != "go") return 3;
    g_calls = &calls; g_ty = &ty; g_pos.clear();
    std::fflush(logf_);
    alarm(60);
    if (group[0] == "count") {
      for (Call& c : calls) {
        tls = Tls(); tls.mode = COUNT;
        c.st = run_call(c, ty);
        long pts = tls.count; tls = Tls();
        emit(c, outcome(c, ty), pts);
      }
    } else if (group[0] == "nested") {
      for (size_t k = 1; k < group.size(); ++k) g_pos.push_back(std::atol(group[k].c_str()));
      for (Call& c : calls) c.st = "";
      nested_call(0);
      tls = Tls();
      for (Call& c : calls) if (c.st.empty()) c.st = run_call(c, ty);
      for (Call& c : calls) emit(c, outcome(c, ty), -1);
    } else if (group[0] == "sched") {
      g_plan.clear(); g_next = 0; g_done.assign(calls.size(), false);
      for (size_t k = 1; k < group.size(); ++k) {
        size_t p = group[k].find(':');
        g_plan.push_back({ std::atoi(group[k].substr(0, p).c_str()), std::atol(group[k].substr(p + 1).c_str()) });
      }
      advance();
      std::vector<std::thread> th;
      for (size_t t = 0; t < calls.size(); ++t)
        th.emplace_back([t, &calls, &ty] {
          tls = Tls(); tls.id = int(t); tls.mode = OFF;
          { std::unique_lock<std::mutex> l(mx); wait_turn(l); }
          tls.mode = SCHED;
          calls[t].st = run_call(calls[t], ty);
          tls.mode = OFF;
          std::unique_lock<std::mutex> l(mx);
          g_done[t] = true; advance(); cv.notify_all();
        });
      for (auto& t : th) t.join();
      for (Call& c : calls) emit(c, outcome(c, ty), -1);
    } else if (group[0] == "free") {
      long iters = std::atol(group[1].c_str());
      std::vector<std::set<std::string>> seen(calls.size());
      std::vector<std::thread> th;
      volatile bool go = false;
      for (size_t t = 0; t < calls.size(); ++t)
        th.emplace_back([t, &calls, &ty, &seen, &go, iters] {
          while (!go) std::this_thread::yield();
          Call last = calls[t], c = calls[t];
          for (long k = 0; k < iters; ++k) {
            c.st = run_call(c, ty);
            if (!k || c.st != last.st || c.x.m1 != last.x.m1 || c.x.m2 != last.x.m2 || c.x.json != last.x.json) {
              seen[t].insert(outcome(c, ty)); last = c;
              if (seen[t].size() > 20) break;
            }
          }
        });
      go = true;
      for (auto& t : th) t.join();
      for (size_t t = 0; t < calls.size(); ++t) for (auto& o : seen[t]) emit(calls[t], o, -1);
    } else return 3;
    alarm(0);
  }
  std::fputs("{\"n\":-1,\"st\":\"end\"}\n", logf_);
  std::fflush(logf_);
  return 0;
}
