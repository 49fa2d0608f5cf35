// P08: warnings and aborts under histories of handler installation.
#include "hwy/base.h"
#include <sys/wait.h>
#include "trace.h"
using namespace vt;
static std::vector<std::string> g_calls;   // JSON of the handler calls
static void Rec(int h, const char* f, int l, const char* m) { g_calls.push_back("[" + J(h) + "," + J(f) + "," + J(l) + "," + J(m) + "]"); }
static void W1(const char* f, int l, const char* m) { Rec(1, f, l, m); }
static void W2(const char* f, int l, const char* m) { Rec(2, f, l, m); }
static void W3(const char* f, int l, const char* m) { Rec(3, f, l, m); }
static void A1(const char* f, int l, const char* m) { Rec(1, f, l, m); }
static void A2(const char* f, int l, const char* m) { Rec(2, f, l, m); }
static void A3(const char* f, int l, const char* m) { Rec(3, f, l, m); }
static hwy::WarnFunc WF(int i) { return i == 1 ? W1 : i == 2 ? W2 : i == 3 ? W3 : nullptr; }
static hwy::AbortFunc AF(int i) { return i == 1 ? A1 : i == 2 ? A2 : i == 3 ? A3 : nullptr; }
static int WI(hwy::WarnFunc f) { return f == W1 ? 1 : f == W2 ? 2 : f == W3 ? 3 : f == nullptr ? 0 : -1; }
static int AI(hwy::AbortFunc f) { return f == A1 ? 1 : f == A2 ? 2 : f == A3 ? 3 : f == nullptr ? 0 : -1; }
static std::string Calls() { std::string r = "["; for (size_t i = 0; i < g_calls.size(); ++i) r += (i ? "," : "") + g_calls[i]; return r + "]"; }
struct Raw { std::string s; };
static std::string J(const Raw& r) { return r.s; }
namespace vt { inline std::string J(const Raw& r) { return r.s; } }
static std::string Word(Rng& g, size_t n) { static const char* c = "abcdefghijklmnopqrstuvwxyz0123456789 %%nsd/.:-_"; std::string s; for (size_t i = 0; i < n; ++i) s += c[g.below(46)]; return s; }
static size_t PickLen(Rng& g) { switch (g.below(6)) { case 0: return 0; case 1: return 790 + g.below(20); case 2: return g.below(1200); case 3: return 798 + g.below(4); default: return g.below(40); } }
// The message and its formatted call.  Returns the full expected text.
struct Msg { int form; std::string text; int i; unsigned long long u; std::string full; };
static Msg Make(Rng& g) {
  Msg m; m.form = static_cast<int>(g.below(4)); m.text = Word(g, PickLen(g)); m.i = static_cast<int>(g.next()) >> g.below(31); m.u = g.next() >> g.below(60);
  switch (m.form) {
    case 0: m.full = m.text; break;
    case 1: m.full = "value " + std::to_string(m.i) + " of " + m.text; break;
    case 2: m.full = m.text + std::to_string(m.u) + "%" + m.text; break;
    default: m.full = "plain"; break;
  }
  return m;
}
template <class F> void Emit(const Msg& m, F f) {
  switch (m.form) {
    case 0: f("%s", m.text.c_str()); break;
    case 1: f("value %d of %s", m.i, m.text.c_str()); break;
    case 2: f("%s%llu%%%s", m.text.c_str(), m.u, m.text.c_str()); break;
    default: f("plain"); break;
  }
}
static std::string Slurp(FILE* t) { rewind(t); std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, t)) > 0) s.append(b, n); return s; }
static const char* kFiles[] = {"x.cc", "/a/b/c.cc", "dir/sub/y.h", "C:\\dir\\z.cc", "/", "noext"};
static const char* kBase[] = {"x.cc", "c.cc", "y.h", "z.cc", "", "noext"};
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  Rng g(a.seed);
  for (int e = 0; e < (a.thorough ? 2500 : 220); ++e) {
    hwy::SetWarnFunc(nullptr); hwy::SetAbortFunc(nullptr);
    Begin("");
    const int ops = 4 + static_cast<int>(g.below(10));
    for (int k = 0; k < ops; ++k) {
      switch (g.below(9)) {
        case 0: case 1: { const int i = static_cast<int>(g.below(4)); Ev("install", "warn", i, WI(hwy::SetWarnFunc(WF(i)))); break; }
        case 2: case 3: { const int i = static_cast<int>(g.below(4)); Ev("install", "abort", i, AI(hwy::SetAbortFunc(AF(i)))); break; }
        case 4: Ev("get", "warn", WI(hwy::GetWarnFunc())); Ev("get", "abort", AI(hwy::GetAbortFunc())); if (g.below(3) == 0) hwy::GetWarnFunc() = W3; if (g.below(3) == 0) hwy::GetAbortFunc() = nullptr; break;
        case 5: case 6: {
          const Msg m = Make(g); const uint32_t fi = g.below(6); int line = g.below(2) ? static_cast<int>(g.below(100000)) : 1;
          g_calls.clear(); std::string file = kFiles[fi], base = kBase[fi];
          fflush(stderr); const int save = dup(2); FILE* t = tmpfile(); dup2(fileno(t), 2);
          bool macro = g.below(4) == 0;
          if (macro) { file = __FILE__; base = "abort.cc"; line = __LINE__; HWY_WARN("%s", m.full.c_str()); }
          else Emit(m, [&](auto... x) { hwy::Warn(kFiles[fi], line, x...); });
          fflush(stderr); dup2(save, 2); close(save); const std::string out = Slurp(t); fclose(t);
          Ev("warn", file, base, line, m.full, Raw{Calls()}, out, true);
          break;
        }
        default: {
          const Msg m = Make(g); const uint32_t fi = g.below(6); int line = static_cast<int>(g.below(100000));
          const int how = static_cast<int>(g.below(4)); std::string full = m.full, file = kFiles[fi], base = kBase[fi];
          if (how == 3) { HWY_ASSERT(line >= 0); HWY_ASSERT_M(line >= 0, "never"); }   // no effect
          if (how == 1) { file = __FILE__; base = "abort.cc"; }
          if (how == 2) { file = __FILE__; base = "abort.cc"; full = "Assert line == -1: " + m.text; }
          FILE* t = tmpfile(); FILE* r = tmpfile(); g_calls.clear(); fflush(O().f); fflush(stdout); fflush(stderr);
          const int l1 = __LINE__ + 7, l2 = __LINE__ + 8;
          const pid_t p = fork();
          if (p == 0) {
            for (int s : {SIGABRT, SIGTRAP, SIGILL}) signal(s, SIG_DFL);
            dup2(fileno(t), 2);
            atexit([] { });
            static FILE* rr; rr = r; static auto note = [](int sig) { const std::string c = Calls(); fwrite(c.data(), 1, c.size(), rr); fflush(rr); signal(sig, SIG_DFL); raise(sig); }; signal(SIGABRT, note); signal(SIGILL, note); signal(SIGTRAP, note);
            if (how == 1) { HWY_ABORT("%s", m.full.c_str()); }
            else if (how == 2) { HWY_ASSERT_M(line == -1, m.text.c_str()); }
            else Emit(m, [&](auto... x) { hwy::Abort(kFiles[fi], line, x...); });
            _exit(77);   // execution continued past the abort
          }
          if (how == 1) line = l1; if (how == 2) line = l2;
          int st = 0; waitpid(p, &st, 0);
          const std::string out = Slurp(t), calls = Slurp(r); fclose(t); fclose(r);
          Ev("abort", file, base, line, full, Raw{calls.empty() ? "[]" : calls}, out, WIFSIGNALED(st) != 0 || (WIFEXITED(st) && WEXITSTATUS(st) == 1));
        }
      }
    }
    End();
  }
  return Done();
}
