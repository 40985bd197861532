// C30: every short history of installing handlers and raising warnings/aborts.
#include <fcntl.h>
#include <algorithm>
#include <sys/wait.h>
#include "ex.h"
#include "hwy/base.h"

namespace {
struct Rec { int n; int which; std::string file, msg; int line; };
Rec rw, ra;
template <int I> void W(const char* f, int l, const char* m) { rw = Rec{rw.n + 1, I, f, m, l}; }
template <int I> void A(const char* f, int l, const char* m) { ra = Rec{ra.n + 1, I, f, m, l}; }
const hwy::WarnFunc kW[3] = {nullptr, &W<1>, &W<2>};
const hwy::AbortFunc kA[3] = {nullptr, &A<1>, &A<2>};

int errfd;  // stderr goes to this unlinked file
void err_reset() {
  fflush(stderr);
  if (ftruncate(2, 0)) {}
  lseek(2, 0, SEEK_SET);
}
std::string err_text() {
  fflush(stderr);
  char b[8192];
  ssize_t n = pread(2, b, sizeof b, 0);
  return std::string(b, n > 0 ? n : 0);
}
struct Saved {  // redirects stderr while alive
  int old;
  Saved() {
    fflush(stderr);
    old = dup(2);
    char t[] = "/tmp/vf_err_XXXXXX";
    int f = mkstemp(t);
    unlink(t);
    dup2(f, 2);
    close(f);
  }
  ~Saved() { fflush(stderr); dup2(old, 2); close(old); }
};
struct State { int w = 0, a = 0; };
const char* kOps[] = {"SetWarn(null)", "SetWarn(1)", "SetWarn(2)", "SetAbort(null)", "SetAbort(1)", "SetAbort(2)", "Warn", "Get"};

void apply(int op, State* s, int i) {
  if (op < 3) {
    hwy::WarnFunc old = hwy::SetWarnFunc(kW[op]);
    EX_CHECK(old == kW[s->w], "SetWarnFunc did not return the previous handler");
    s->w = op;
  } else if (op < 6) {
    hwy::AbortFunc old = hwy::SetAbortFunc(kA[op - 3]);
    EX_CHECK(old == kA[s->a], "SetAbortFunc did not return the previous handler");
    s->a = op - 3;
  } else if (op == 6) {
    rw = ra = Rec{};
    err_reset();
    const int line = 1000 + i;
    hwy::Warn("/some/dir/file.cc", line, "step %d of %s", i, "history");
    const std::string msg = "step " + std::to_string(i) + " of history";
    const std::string err = err_text();
    EX_CHECK(ra.n == 0, "a warning reached the abort handler");
    if (s->w) {
      EX_CHECK(rw.n == 1 && rw.which == s->w, "warning reached %d handlers, last %d instead of %d", rw.n, rw.which, s->w);
      EX_CHECK(rw.file == "/some/dir/file.cc" && rw.line == line && rw.msg == msg, "handler got %s:%d: %s", rw.file.c_str(), rw.line, rw.msg.c_str());
      EX_CHECK(err.empty(), "printed although a handler is installed: %s", err.c_str());
    } else {
      EX_CHECK(rw.n == 0, "a removed handler was called");
      EX_CHECK(err.find(msg) != std::string::npos && err.find("file.cc:" + std::to_string(line)) != std::string::npos && err.find(msg) == err.rfind(msg), "stderr: %s", err.c_str());
    }
  } else {
    EX_CHECK(hwy::GetWarnFunc() == kW[s->w] && hwy::GetAbortFunc() == kA[s->a], "Get*Func returns another handler");
  }
  ex::add();
}
// Aborts in a child process; the parent compares what happened.
void do_abort(const State& s, int kind, const char* fmt_arg, const std::string& want, int min_len = -1) {
  int p[2];
  if (pipe(p)) return;
  fflush(stdout);
  fflush(stderr);
  fflush(ex::st().out);
  err_reset();
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    for (int sg : {SIGABRT, SIGILL, SIGTRAP}) signal(sg, SIG_DFL);
    static int fd;
    fd = p[1];
    hwy::SetAbortFunc(nullptr);
    auto h1 = [](const char* f, int l, const char* m) { dprintf(fd, "1|%s|%d|%s\n", f, l, m); };
    auto h2 = [](const char* f, int l, const char* m) { dprintf(fd, "2|%s|%d|%s\n", f, l, m); };
    hwy::SetWarnFunc(kW[s.w]);
    hwy::SetAbortFunc(s.a == 1 ? +h1 : s.a == 2 ? +h2 : nullptr);
    alarm(20);
    if (kind == 0) hwy::Abort("/a/b/src.cc", 77, "%s", fmt_arg);
    if (kind == 1) HWY_ABORT("%s", fmt_arg);
    if (kind == 2) { HWY_ASSERT(fmt_arg == nullptr); }
    if (kind == 3) { HWY_ASSERT_M(fmt_arg == nullptr, "note"); }
    dprintf(p[1], "RETURNED\n");
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  const std::string err = err_text();
  EX_CHECK(got.find("RETURNED") == std::string::npos, "a fatal error returned to the caller");
  EX_CHECK((WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGSEGV) || (WIFEXITED(st) && WEXITSTATUS(st) != 0), "process ended with status %x after a fatal error", st);
  const std::string file = kind == 0 ? "/a/b/src.cc" : __FILE__;
  if (s.a) {
    const std::string head = std::string(s.a == 1 ? "1|" : "2|") + file + "|";
    EX_CHECK(got.compare(0, head.size(), head) == 0, "handler output: %s", got.substr(0, 200).c_str());
    EX_CHECK(std::count(got.begin(), got.end(), '\n') == 1, "handler called %d times", (int)std::count(got.begin(), got.end(), '\n'));
    if (kind == 0) EX_CHECK(got.compare(head.size(), 3, "77|") == 0, "line: %s", got.substr(0, 200).c_str());
    if (kind == 0) {
      const std::string m = got.substr(head.size() + 3, got.size() - head.size() - 4);
      if (min_len < 0) EX_CHECK(m == want, "message %s", m.substr(0, 200).c_str());
      else EX_CHECK(m.size() >= (size_t)min_len && want.compare(0, m.size(), m) == 0, "message of %zu characters", m.size());
    } else EX_CHECK(got.find(want) != std::string::npos, "message: %s", got.substr(0, 200).c_str());
    EX_CHECK(err.find("Abort at") == std::string::npos, "printed although a handler is installed");
  } else {
    EX_CHECK(got.empty(), "a removed handler was called: %s", got.c_str());
    const std::string base = file.substr(file.rfind('/') + 1);
    EX_CHECK(err.find(want.substr(0, 700)) != std::string::npos && err.find(base + ":") != std::string::npos, "stderr: %s", err.substr(0, 300).c_str());
  }
  ex::add();
}
}  // namespace

GROUP(histories) {
  Saved sv;
  const int depth = ex::thorough() ? 6 : 5;
  std::vector<int> h(depth, 0);
  for (;;) {
    std::string name;
    for (int o : h) name += std::string(kOps[o]) + " ";
    ex::at("%s", name.c_str());
    hwy::SetWarnFunc(nullptr);
    hwy::SetAbortFunc(nullptr);
    State s;
    for (int i = 0; i < depth; i++) apply(h[i], &s, i);
    apply(6, &s, depth);
    apply(7, &s, depth);
    int k = depth - 1;
    while (k >= 0 && ++h[k] == 8) h[k--] = 0;
    if (k < 0 || ex::many()) break;
  }
  ex::sample("all histories of %d operations out of %s, %s, ..", depth, kOps[0], kOps[1]);
}
GROUP(aborts) {
  Saved sv;
  for (int w = 0; w < 3; w++)
    for (int a = 0; a < 3; a++)
      for (int kind = 0; kind < 4; kind++) {
        ex::at("abort kind %d with warn handler %d and abort handler %d", kind, w, a);
        State s;
        s.w = w;
        s.a = a;
        do_abort(s, kind, "boom", kind < 2 ? "boom" : kind == 2 ? "fmt_arg == nullptr" : "note");
      }
}
GROUP(chained) {
  Saved sv;
  // a new handler that calls the previous one
  static hwy::WarnFunc prev;
  static int outer;
  for (int p = 1; p < 3; p++) {
    ex::at("chained to %d", p);
    hwy::SetWarnFunc(kW[p]);
    outer = 0;
    prev = hwy::SetWarnFunc([](const char* f, int l, const char* m) { outer++; if (prev) prev(f, l, m); });
    rw = Rec{};
    hwy::Warn("f", 3, "x%d", 5);
    EX_CHECK(outer == 1 && rw.n == 1 && rw.which == p && rw.msg == "x5" && rw.line == 3 && rw.file == "f", "chained handler");
    hwy::SetWarnFunc(nullptr);
    ex::add();
  }
}
GROUP(message_lengths) {
  Saved sv;
  hwy::SetWarnFunc(kW[1]);
  for (int len = 0; len <= 2400; len++)
    for (int form = 0; form < 4; form++) {
      ex::at("message of %d characters, form %d", len, form);
      std::string t;
      for (int i = 0; i < len; i++) t += (char)('a' + i % 26);
      if (len > 5) t[len / 2] = '%';
      rw = Rec{};
      std::string want = t;
      if (form == 0) hwy::Warn("f.cc", len, "%s", t.c_str());
      if (form == 1) { hwy::Warn("f.cc", len, "%d %s", len, t.c_str()); want = std::to_string(len) + " " + t; }
      if (form == 2) { hwy::Warn("f.cc", len, "%*d", len, 7); want = std::string(len > 1 ? len - 1 : 0, ' ') + "7"; }
      if (form == 3) { hwy::Warn("f.cc", len, "%s|%zu|%.3f|%s", t.c_str(), (size_t)-1, 1.5, "end"); want = t + "|18446744073709551615|1.500|end"; }
      EX_CHECK(rw.n == 1 && rw.line == len && rw.file == "f.cc", "handler calls %d", rw.n);
      if (want.size() <= 799) EX_CHECK(rw.msg == want, "got %zu of %zu characters", rw.msg.size(), want.size());
      else EX_CHECK(rw.msg.size() >= 799 && rw.msg.size() <= want.size() && want.compare(0, rw.msg.size(), rw.msg) == 0, "got %zu of %zu characters", rw.msg.size(), want.size());
      ex::add();
      if (ex::many()) return;
    }
  hwy::SetWarnFunc(nullptr);
}
GROUP(abort_lengths) {
  Saved sv;
  for (int a = 0; a < 2; a++)
    for (int len : {0, 1, 100, 798, 799, 800, 801, 2000}) {
      ex::at("abort message of %d characters, handler %d", len, a);
      std::string t;
      for (int i = 0; i < len; i++) t += (char)('a' + i % 26);
      State s;
      s.a = a;
      do_abort(s, 0, t.c_str(), t, len > 799 ? 799 : -1);
    }
}
GROUP(asserts_pass) {
  hwy::SetWarnFunc(kW[1]);
  rw = Rec{};
  int evals = 0;
  HWY_ASSERT(++evals == 1);
  HWY_ASSERT_M(++evals == 2, "m");
  EX_CHECK(evals == 2 && rw.n == 0, "assertion evaluated %d times", evals);
  HWY_WARN("w %d", 3);
  EX_CHECK(rw.n == 1 && rw.msg == "w 3" && rw.line == __LINE__ - 1 && rw.file == __FILE__, "HWY_WARN");
  hwy::SetWarnFunc(nullptr);
  ex::add(3);
}
int main(int argc, char** argv) { return ex::main(argc, argv); }
