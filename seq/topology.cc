// C29: topology, cache and affinity detection on systems described by an
// in-memory sysfs, with faults injected at every call. The executable defines
// open, read, close, sysconf and sched_*affinity itself; the library calls them.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>

#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <stdexcept>
#include <unordered_map>
#include "ex.h"
#include <hwy/base.h>
#include <hwy/contrib/thread_pool/topology.h>
using hwy::Topology;
typedef std::unordered_map<std::string, std::string> Files;
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigbus=0:handle_sigfpe=0:allocator_may_return_null=0"; }

// ---- the operating system ---------------------------------------------------
namespace fake {
enum Kind { OPEN, READ, CLOSE };
enum Fault { NONE, INTR, IO, SHORT };
struct Call { Kind kind; std::string path; };
bool active = false;
const Files* files = nullptr;
long nproc = 1;
size_t chunk = ~size_t{0};  // most bytes per read
std::map<uint64_t, Fault> faults;
uint64_t ncalls = 0;
std::vector<Call>* trace = nullptr;
struct Fd { bool open; std::string path; std::string data; size_t pos; };
constexpr int kBase = 100000;
std::vector<Fd> fds;
const char* error = nullptr;  // misuse of descriptors
bool use_zero = false;        // descriptor 0 is free
cpu_set_t affinity;
int affinity_err = 0;
std::vector<std::string> set_calls;
bool is_fake(const char* p) { return active && !strncmp(p, "/sys/devices/system/", 20); }
Fault next(Kind k, const std::string& path) {
  if (trace) trace->push_back({k, path});
  const uint64_t i = ncalls++;
  if (ncalls > 3000000) throw std::runtime_error("endless file accesses");
  if (faults.empty()) return NONE;
  auto it = faults.find(i);
  return it == faults.end() ? NONE : it->second;
}
Fd* get(int fd) {
  if (use_zero && fd == 0) fd = kBase;
  if (fd < kBase || size_t(fd - kBase) >= fds.size()) return nullptr;
  return &fds[fd - kBase];
}
int do_open(const char* p) {
  const Fault f = next(OPEN, p);
  if (f == INTR) { errno = EINTR; return -1; }
  if (f == IO) { errno = EIO; return -1; }
  auto it = files->find(p);
  if (it == files->end()) { errno = ENOENT; return -1; }
  size_t i = 0;
  while (i < fds.size() && fds[i].open) i++;
  if (i == fds.size()) fds.emplace_back();
  fds[i] = {true, p, it->second, 0};
  return use_zero && i == 0 ? 0 : kBase + int(i);
}
ssize_t do_read(Fd* d, void* buf, size_t n, bool at, size_t off) {
  if (!d->open) { error = "read from a closed descriptor"; errno = EBADF; return -1; }
  const Fault f = next(READ, d->path);
  if (f == INTR) { errno = EINTR; return -1; }
  if (f == IO) { errno = EIO; return -1; }
  size_t& pos = at ? off : d->pos;
  size_t m = std::min(n, d->data.size() - std::min(pos, d->data.size()));
  m = std::min(m, chunk);
  if (f == SHORT) m = std::min<size_t>(m, 1);
  memcpy(buf, d->data.data() + pos, m);
  pos += m;
  return (ssize_t)m;
}
int do_close(Fd* d) {
  if (!d->open) { error = "closed a descriptor twice"; errno = EBADF; return -1; }
  const Fault f = next(CLOSE, d->path);
  d->open = false;  // also after EINTR: that is what Linux does
  if (f == INTR) { errno = EINTR; return -1; }
  if (f == IO) { errno = EIO; return -1; }
  return 0;
}
int memfile(const char* p) {
  auto it = files->find(p);
  if (it == files->end()) { errno = ENOENT; return -1; }
  const int fd = memfd_create("f", 0);
  if (fd < 0 || write(fd, it->second.data(), it->second.size()) < 0) abort();
  syscall(SYS_lseek, fd, 0, SEEK_SET);
  return fd;
}
}  // namespace fake
extern "C" {
long __sysconf(int);
#define OPENFN(name)                                                                    \
  int name(const char* p, int fl, ...) {                                                \
    va_list a; va_start(a, fl); const int mode = va_arg(a, int); va_end(a);             \
    if (fake::is_fake(p)) return fake::do_open(p);                                      \
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);                             \
  }
OPENFN(open)
OPENFN(open64)
int openat(int dir, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); const int mode = va_arg(a, int); va_end(a);
  if (fake::is_fake(p)) return fake::do_open(p);
  return (int)syscall(SYS_openat, dir, p, fl, mode);
}
ssize_t read(int fd, void* b, size_t n) {
  if (fake::active) if (auto* d = fake::get(fd)) return fake::do_read(d, b, n, false, 0);
  return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (fake::active) if (auto* d = fake::get(fd)) return fake::do_read(d, b, n, true, (size_t)o);
  return syscall(SYS_pread64, fd, b, n, o);
}
int close(int fd) {
  if (fake::active) if (auto* d = fake::get(fd)) return fake::do_close(d);
  return (int)syscall(SYS_close, fd);
}
FILE* fopen(const char* p, const char* m) {
  const int fd = fake::is_fake(p) ? fake::memfile(p) : (int)syscall(SYS_openat, AT_FDCWD, p, m[0] == 'r' ? O_RDONLY : O_RDWR | O_CREAT | O_TRUNC, 0666);
  return fd < 0 ? nullptr : fdopen(fd, m[0] == 'r' ? "r" : "w");
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int access(const char* p, int m) {
  if (fake::is_fake(p)) { if (fake::files->count(p)) return 0; errno = ENOENT; return -1; }
  return (int)syscall(SYS_access, p, m);
}
long sysconf(int n) noexcept {
  if (fake::active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return fake::nproc;
  return __sysconf(n);
}
int get_nprocs() noexcept { return (int)fake::nproc; }
int get_nprocs_conf() noexcept { return (int)fake::nproc; }
int sched_getaffinity(pid_t, size_t n, cpu_set_t* s) noexcept {
  if (fake::affinity_err) { errno = fake::affinity_err; return -1; }
  memcpy(s, &fake::affinity, std::min(n, sizeof *s));
  return 0;
}
int sched_setaffinity(pid_t, size_t n, const cpu_set_t* s) noexcept {
  cpu_set_t c; CPU_ZERO(&c);
  memcpy(&c, s, std::min(n, sizeof c));
  std::string r;
  for (int i = 0; i < CPU_SETSIZE; i++) r += CPU_ISSET(i, &c) ? '1' : '0';
  fake::set_calls.push_back(r);
  if (fake::affinity_err) { errno = fake::affinity_err; return -1; }
  return 0;
}
}

// ---- the description ----------------------------------------------------------
namespace {
const char *CPU = "/sys/devices/system/cpu/cpu", *NODE = "/sys/devices/system/node/node";
std::string cpu(size_t lp, const char* rest) { return CPU + std::to_string(lp) + rest; }
const char *PKG = "/topology/physical_package_id", *CORE = "/topology/core_id", *L3ID = "/cache/index3/id", *L2KB = "/cache/index2/size", *L3KB = "/cache/index3/size";
std::string node_path(size_t n) { return NODE + std::to_string(n) + "/cpulist"; }
enum Parsed { MISSING, BAD, HUGE, OK };
struct Num { Parsed p; uint64_t v; };
Num number(const Files& f, const std::string& path, bool suffix) {
  auto it = f.find(path);
  if (it == f.end()) return {MISSING, 0};
  const std::string& s = it->second;
  size_t i = 0;
  unsigned __int128 v = 0;
  bool huge = false;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); if (v >> 64) huge = true, v = 1; }
  if (i == 0) return {BAD, 0};
  if (suffix && i < s.size() && (s[i] == 'K' || s[i] == 'M')) v <<= s[i++] == 'K' ? 10 : 20;
  if (i < s.size() && s[i] == '\n') i++;
  if (i != s.size()) return {BAD, 0};
  if (huge || (v >> 64)) return {HUGE, 0};
  return {OK, (uint64_t)v};
}
// false if malformed
bool parse_list(const std::string& s, std::vector<std::pair<uint64_t, uint64_t>>& out) {
  size_t i = 0;
  const size_t n = s.size() && s.back() == '\n' ? s.size() - 1 : s.size();
  if (n == 0) return true;
  auto num = [&](uint64_t& v) { size_t b = i; v = 0; while (i < n && s[i] >= '0' && s[i] <= '9') { if (i - b > 17) return false; v = v * 10 + (s[i++] - '0'); } return i != b; };
  for (;;) {
    uint64_t a, b;
    if (!num(a)) return false;
    b = a;
    if (i < n && s[i] == '-') { i++; if (!num(b) || b < a) return false; }
    out.push_back({a, b});
    if (i == n) return true;
    if (s[i++] != ',') return false;
  }
}
struct Nodes { std::map<size_t, std::set<size_t>> of; bool bad = false; };  // per LP
Nodes nodes(const Files& f, size_t nlp) {
  Nodes r;
  const size_t pre = strlen(NODE);
  for (auto& [path, text] : f) {
    if (path.compare(0, pre, NODE)) continue;
    const size_t node = strtoull(path.c_str() + pre, nullptr, 10);
    std::vector<std::pair<uint64_t, uint64_t>> l;
    if (!parse_list(text, l)) { r.bad = true; continue; }
    for (auto& [a, b] : l) for (uint64_t lp = a; lp <= b && lp < nlp; lp++) r.of[lp].insert(node);
  }
  return r;
}
// "" if `t` is a correct description of `f`
std::string wrong(const Files& f, long nproc, const Topology& t) {
  char m[300];
#define BADNESS(...) do { snprintf(m, sizeof m, __VA_ARGS__); return m; } while (0)
  const size_t n = nproc <= 0 ? 1 : (size_t)std::min<long>(nproc, 1024);
  if (t.lps.size() != n) BADNESS("%zu logical processors, expected %zu", t.lps.size(), n);
  bool must_fail = false, may_fail = false;
  std::vector<Num> pk(n), co(n), l3(n);
  std::set<uint64_t> npk;
  std::map<std::pair<uint64_t, uint64_t>, std::vector<size_t>> cores, clusters;
  for (size_t i = 0; i < n; i++) {
    pk[i] = number(f, cpu(i, PKG), true), co[i] = number(f, cpu(i, CORE), true), l3[i] = number(f, cpu(i, L3ID), true);
    if (pk[i].p == MISSING || co[i].p == MISSING) must_fail = true;
    if (pk[i].p != OK || co[i].p != OK) { may_fail = true; continue; }
    npk.insert(pk[i].v);
    auto& c = cores[{pk[i].v, co[i].v}];
    c.push_back(i);
    if (c.size() > 128) may_fail = true;
    if (l3[i].p == OK) clusters[{pk[i].v, l3[i].v}].push_back(i);
  }
  if (npk.size() > 256) may_fail = true;
  if (t.packages.empty()) { if (must_fail || may_fail) return ""; BADNESS("detection failed"); }
  if (must_fail) BADNESS("detection did not fail though package or core ids are missing");
  // consistency with itself
  std::vector<size_t> cnt;
  for (size_t p = 0; p < t.packages.size(); p++) {
    if (t.packages[p].cores.empty() || t.packages[p].clusters.empty()) BADNESS("package %zu has no cores or clusters", p);
    for (int what = 0; what < 2; what++) {
      const size_t num = what ? t.packages[p].cores.size() : t.packages[p].clusters.size();
      std::vector<std::vector<size_t>> want(num);
      for (size_t i = 0; i < n; i++) if (t.lps[i].package == p) {
        const size_t x = what ? t.lps[i].core : t.lps[i].cluster;
        if (x >= num) BADNESS("LP %zu: %s %zu of %zu", i, what ? "core" : "cluster", x, num);
        want[x].push_back(i);
      }
      for (size_t x = 0; x < num; x++) {
        const hwy::LogicalProcessorSet& s = what ? t.packages[p].cores[x].lps : t.packages[p].clusters[x].lps;
        std::vector<size_t> got;
        s.Foreach([&](size_t lp) { got.push_back(lp); });
        if (got != want[x]) BADNESS("package %zu %s %zu has %zu members, expected %zu, or different ones", p, what ? "core" : "cluster", x, got.size(), want[x].size());
        if (what && got.empty()) BADNESS("package %zu core %zu has no members", p, x);
        if (what) {
          std::set<int> smt;
          for (size_t lp : got) smt.insert(t.lps[lp].smt);
          if (smt.size() != got.size() || (size_t)*smt.rbegin() != got.size() - 1) BADNESS("SMT positions in package %zu core %zu are not 0..%zu", p, x, got.size() - 1);
        }
      }
    }
  }
  for (size_t i = 0; i < n; i++) if (t.lps[i].package >= t.packages.size()) BADNESS("LP %zu: package %d of %zu", i, t.lps[i].package, t.packages.size());
  // nodes
  const Nodes nd = nodes(f, n);
  if (!nd.bad) for (size_t i = 0; i < n; i++) {
    auto it = nd.of.find(i);
    if (it == nd.of.end() ? t.lps[i].node != 0 : !it->second.count(t.lps[i].node) && *it->second.begin() < 256) BADNESS("LP %zu: node %d, expected %zu", i, t.lps[i].node, it == nd.of.end() ? 0 : *it->second.begin());
  }
  if (may_fail) for (size_t i = 0; i < n; i++) if (pk[i].p != OK || co[i].p != OK) return "";  // ill-formed ids
  // agreement with the description
  if (t.packages.size() != npk.size()) BADNESS("%zu packages, expected %zu", t.packages.size(), npk.size());
  std::map<uint64_t, size_t> idx;
  for (size_t i = 0; i < n; i++) {
    auto [it, ins] = idx.insert({pk[i].v, t.lps[i].package});
    if (it->second != t.lps[i].package) BADNESS("LP %zu: package %d, but %zu for another with the same id", i, t.lps[i].package, it->second);
  }
  std::map<uint64_t, size_t> ncore, nclus;
  for (auto& [k, v] : cores) {
    ncore[k.first]++;
    for (size_t lp : v) if (t.lps[lp].core != t.lps[v[0]].core) BADNESS("LP %zu and %zu of one core are in cores %d and %d", v[0], lp, t.lps[v[0]].core, t.lps[lp].core);
  }
  bool l3bad = false;
  for (auto& x : l3) l3bad |= x.p == BAD || x.p == HUGE;
  for (auto& [k, v] : clusters) {
    nclus[k.first]++;
    for (size_t lp : v) if (t.lps[lp].cluster != t.lps[v[0]].cluster) BADNESS("LP %zu and %zu of one cluster are in clusters %d and %d", v[0], lp, t.lps[v[0]].cluster, t.lps[lp].cluster);
  }
  for (auto& [id, p] : idx) {
    if (t.packages[p].cores.size() != ncore[id]) BADNESS("package %zu has %zu cores, expected %zu", p, t.packages[p].cores.size(), ncore[id]);
    if (!l3bad && t.packages[p].clusters.size() != std::max<size_t>(1, nclus[id])) BADNESS("package %zu has %zu clusters, expected %zu", p, t.packages[p].clusters.size(), nclus[id]);
  }
  // distinct ids, distinct indices: counted above, as every core is non-empty; clusters:
  for (auto& [k, v] : clusters) for (auto& [k2, v2] : clusters) if (k < k2 && k.first == k2.first && t.lps[v[0]].cluster == t.lps[v2[0]].cluster) BADNESS("LP %zu and %zu are in one cluster, but have different L3", v[0], v2[0]);
  // cache sizes
  for (auto& pkg : t.packages) for (auto& c : pkg.clusters) for (int l = 0; l < 2; l++) {
    if (!c.lps.Any()) continue;
    bool ok = false, any = false;
    uint64_t exp = 0;
    c.lps.Foreach([&](size_t lp) {
      const Num s = number(f, cpu(lp, l ? L3KB : L2KB), true);
      exp = s.p == OK ? s.v >> 10 : 0;
      any |= s.p == BAD || s.p == HUGE;
      ok |= (l ? c.shared_kib : c.private_kib) == exp;
    });
    if (!ok && !any) BADNESS("%s is %llu KiB, expected %llu", l ? "shared_kib" : "private_kib", (unsigned long long)(l ? c.shared_kib : c.private_kib), (unsigned long long)exp);
  }
  return "";
}
struct Aborted { std::string what; };
std::string g_warn;
void on_abort(const char*, int line, const char* msg) { throw Aborted{std::to_string(line) + ": " + msg}; }
void on_warn(const char*, int, const char*) {}
struct Run {
  Run(const Files& f, long nproc) {
    fake::files = &f, fake::nproc = nproc, fake::ncalls = 0, fake::error = nullptr;
    fake::fds.clear();
    errno = 0;
    fake::active = true;
  }
  ~Run() { fake::active = false; }
};
std::string text(const Files& f, long nproc) {
  std::string r = "n=" + std::to_string(nproc);
  std::vector<std::string> k;
  for (auto& [p, v] : f) k.push_back(p.substr(20) + "=" + v.substr(0, 24));
  std::sort(k.begin(), k.end());
  for (auto& s : k) { r += " " + s; if (r.size() > 400) break; }
  return r;
}
// Runs detection; "" if the outcome matches one of `models`.
std::string detect(const Files& f, long nproc, const std::vector<const Files*>& models) {
  alarm(60);
  std::string bad;
  try {
    Run r(f, nproc);
    Topology t;
    fake::active = false;
    for (auto* m : models) { bad = wrong(*m, nproc, t); if (bad.empty()) break; }
  } catch (const Aborted& a) {
    bad = "aborted: " + a.what;
  } catch (const std::exception& e) {
    bad = std::string("exception: ") + e.what();
  }
  fake::active = false;
  if (bad.empty() && fake::error) bad = fake::error;
  if (bad.empty()) for (auto& d : fake::fds) if (d.open) bad = "left open " + d.path;
  return bad;
}
void check(const Files& f, long nproc) {
  if (ex::many()) return;
  ex::add();
  const std::string bad = detect(f, nproc, {&f});
  if (!bad.empty()) { ex::at("%s", text(f, nproc).c_str()); EX_FAIL("%s", bad.c_str()); }
}
// ---- building descriptions
uint64_t label(int style, size_t i) {
  switch (style) {
    case 0: return i;
    case 1: return 1000 - 7 * i;
    case 2: return 4294967295ull - i;
    case 3: return 12345678901ull + i * 10;
    case 4: return ~0ull - i;
    default: return i * 4096 + 9;
  }
}
std::string list(const std::vector<size_t>& v, int fmt) {  // v ascending
  std::string s;
  auto sep = [&] { if (!s.empty()) s += ','; };
  if (fmt == 1) { for (size_t x : v) { sep(); s += std::to_string(x); } }
  else if (fmt == 2) { for (size_t x : v) { sep(); s += std::to_string(x) + "-" + std::to_string(x); } }
  else if (fmt == 3) { for (size_t i = v.size(); i--;) { sep(); s += std::to_string(v[i]); } }
  else for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j + 1 < v.size() && v[j + 1] == v[j] + 1) j++;
    sep();
    s += std::to_string(v[i]);
    if (j > i) s += "-" + std::to_string(v[j]);
    i = j + 1;
  }
  return fmt == 4 ? s : s + "\n";
}
std::string num(uint64_t v) { return std::to_string(v) + "\n"; }
// all restricted growth strings of length n (set partitions)
std::vector<std::vector<int>> partitions(size_t n, bool with_missing) {
  std::vector<std::vector<int>> r;
  std::vector<int> a(n);
  auto rec = [&](auto&& self, size_t i, int mx) -> void {
    if (i == n) { r.push_back(a); return; }
    for (int v = with_missing ? -1 : 0; v <= mx; v++) { a[i] = v; self(self, i + 1, v == mx ? mx + 1 : mx); }
  };
  rec(rec, 0, 0);
  return r;
}
void set_nodes(Files& f, const std::vector<int>& nd, int fmt, size_t mul = 1, size_t add = 0) {
  std::map<size_t, std::vector<size_t>> m;
  for (size_t i = 0; i < nd.size(); i++) if (nd[i] >= 0) m[nd[i] * mul + add].push_back(i);
  for (auto& [k, v] : m) f[node_path(k)] = list(v, fmt);
}
// One description of a regular machine.
struct Shape { size_t pkg, clus, core, smt; };
size_t total(const Shape& s) { return s.pkg * s.clus * s.core * s.smt; }
// numbering 0: in order; 1: siblings last (x86); 2: packages interleaved; 3: reversed
void coords(const Shape& s, int numbering, size_t i, size_t& p, size_t& cl, size_t& c, size_t& t) {
  const size_t n = total(s);
  if (numbering == 3) i = n - 1 - i;
  if (numbering == 1) { t = i / (n / s.smt); i %= n / s.smt; c = i % s.core; i /= s.core; cl = i % s.clus; p = i / s.clus; return; }
  if (numbering == 2) { p = i % s.pkg; i /= s.pkg; cl = i % s.clus; i /= s.clus; c = i % s.core; t = i / s.core; return; }
  t = i % s.smt; i /= s.smt; c = i % s.core; i /= s.core; cl = i % s.clus; p = i / s.clus;
}
struct Opt { int numbering = 0, fmt = 0, style = 0, node = 0; bool l3 = true, sizes = true; };
Files machine(const Shape& s, const Opt& o) {
  Files f;
  std::map<size_t, std::vector<size_t>> nd;
  const size_t n = total(s);
  for (size_t i = 0; i < n; i++) {
    size_t p, cl, c, t;
    coords(s, o.numbering, i, p, cl, c, t);
    f[cpu(i, PKG)] = num(label(o.style, p));
    f[cpu(i, CORE)] = num(label(o.style, cl * s.core + c));
    if (o.l3) f[cpu(i, L3ID)] = num(label(o.style, p * s.clus + cl));
    if (o.sizes) f[cpu(i, L2KB)] = std::to_string(256 * (1 + (p + cl) % 3)) + "K\n";
    if (o.sizes && o.l3) f[cpu(i, L3KB)] = (p + cl) % 2 ? "32M\n" : "4608K\n";
    // nodes: 0 none, 1 per package, 2 per cluster, 3 gap and memory-only nodes, 4 high numbers, 5 all in node 0
    if (o.node) nd[o.node == 1 ? p : o.node == 2 ? p * s.clus + cl : o.node == 3 ? 2 * p + 1 : o.node == 4 ? 255 - p : 0].push_back(i);
  }
  for (auto& [k, v] : nd) if (k < 4096) f[node_path(k)] = list(v, o.fmt);
  if (o.node == 3) { f[node_path(0)] = "\n"; f[node_path(2 * s.pkg)] = "\n"; f[node_path(2 * s.pkg + 2)] = ""; }
  return f;
}
}  // namespace

#if PART < 6  // ---- every assignment of a few processors
static void assignments(size_t n, int nstyles, bool all_nodes, int part, int nparts) {
  const auto P = partitions(n, false), C = P, D = partitions(n, true), N = partitions(n, true);
  std::vector<std::string> pp(n), cp(n), lp(n), np;
  for (size_t i = 0; i < n; i++) pp[i] = cpu(i, PKG), cp[i] = cpu(i, CORE), lp[i] = cpu(i, L3ID);
  int k = 0;
  for (int st = 0; st < nstyles; st++)
  for (auto& p : P) for (auto& c : C) {
    if (k++ % nparts != part) continue;
    for (auto& d : D) for (size_t x = 0; x < (all_nodes ? N.size() : 1); x++) {
      const auto& nd = all_nodes ? N[x] : p;
      Files f;
      for (size_t i = 0; i < n; i++) {
        f[pp[i]] = num(label(st, p[i]));
        f[cp[i]] = num(label((st * 2) % 6, c[i]));
        if (d[i] >= 0) f[lp[i]] = num(label((st * 3 + 1) % 6, d[i]));
      }
      set_nodes(f, nd, (k + (int)x) % 5, 1 + (k + x) % 3, (k / 3) % 2);
      check(f, (long)n);
      if (ex::many()) return;
    }
  }
}
GROUP(assign) {
  for (size_t n = 1; n <= 3; n++) assignments(n, 6, true, PART, 6);
  assignments(4, ex::thorough() ? 6 : 1, true, PART, 6);
  ex::sample("package ids 0 0 1 1, core ids 0 1 0 1, L3 ids 0 - 1 1, nodes 0 1 1 -");
}
GROUP(assign5) { assignments(5, ex::thorough() ? 6 : 1, false, PART, 6); }
#elif PART == 6  // ---- regular machines
GROUP(regular) {
  const size_t mx = ex::thorough() ? 4 : 3;
  for (size_t p = 1; p <= mx; p++) for (size_t cl = 1; cl <= mx; cl++) for (size_t c = 1; c <= mx; c++) for (size_t t = 1; t <= mx; t++)
    for (int nu = 0; nu < 4; nu++) for (int fmt = 0; fmt < 5; fmt++) for (int st = 0; st < 6; st++) for (int nd = 0; nd < 6; nd++) {
      if (!ex::thorough() && (fmt + st + nd) % 3) continue;
      Opt o;
      o.numbering = nu, o.fmt = fmt, o.style = st, o.node = nd, o.l3 = (fmt + st) % 4 != 0, o.sizes = (st + nd) % 5 != 0;
      check(machine({p, cl, c, t}, o), (long)(p * cl * c * t));
      if (ex::many()) return;
    }
  ex::sample("2 packages x 2 clusters x 3 cores x 2 threads, siblings last, nodes 1 and 3 and memory-only nodes 0, 4, 6");
}
GROUP(large) {
  const Shape S[] = {{1, 1, 16, 1}, {1, 2, 16, 2}, {2, 8, 8, 2}, {1, 1, 63, 1}, {1, 1, 64, 1}, {1, 1, 65, 1}, {1, 13, 5, 2}, {2, 16, 8, 4}, {1, 1, 255, 1}, {1, 1, 256, 1}, {1, 1, 257, 1}, {8, 4, 16, 2}, {1, 1, 1023, 1}, {1, 1, 1, 8}, {1, 1, 2, 15}, {1, 1, 2, 16}, {1, 1, 2, 17}, {1, 1, 2, 32}, {1, 1, 1, 128}, {1, 1, 1, 255}, {1, 1, 1, 256}, {1, 1, 1, 300}, {1, 1, 1, 1024}, {16, 1, 1, 1}, {127, 1, 1, 2}, {128, 1, 1, 2}, {254, 1, 1, 1}, {255, 1, 1, 1}, {256, 1, 1, 1}, {257, 1, 1, 1}, {300, 1, 1, 2}, {512, 1, 1, 1}, {513, 1, 1, 1}, {1024, 1, 1, 1}, {1, 256, 1, 1}, {1, 257, 2, 1}, {1, 1024, 1, 1}, {4, 8, 16, 2}, {1, 1, 1025, 1}, {2, 1, 1024, 1}, {4, 8, 32, 2}, {16, 4, 32, 2}, {5000, 1, 1, 1}};
  for (auto& s : S) for (int nu = 0; nu < 4; nu++) for (int fmt = 0; fmt < 5; fmt++) for (int nd = 0; nd < 6; nd++) {
    if (total(s) > 600 && (nu + fmt + nd) % (ex::thorough() ? 2 : 12)) continue;
    Opt o;
    o.numbering = nu, o.fmt = fmt, o.node = nd, o.style = (nu + fmt + nd) % 6;
    check(machine(s, o), (long)total(s));
    if (ex::many()) return;
  }
  ex::sample("16 packages x 4 clusters x 32 cores x 2 threads, clamped to 1024 processors");
}
// The reported count differs from what sysfs lists (containers, offline CPUs).
GROUP(counts) {
  for (long n : {-1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 7L, 8L, 9L, 16L, 1023L, 1024L, 1025L, 1L << 20, 1L << 40})
    for (int nd = 0; nd < 6; nd++) for (int fmt = 0; fmt < 5; fmt++) for (int nu = 0; nu < 4; nu++) {
      Opt o;
      o.node = nd, o.fmt = fmt, o.numbering = nu;
      Files f = machine({2, 1, 2, 2}, o);
      check(f, n);
      for (size_t off = 0; off < 8; off++) {  // one processor is offline
        Files g = f;
        for (const char* r : {PKG, CORE, L3ID, L2KB, L3KB}) g.erase(cpu(off, r));
        check(g, n);
      }
      if (ex::many()) return;
    }
  {
    for (long n : {-1L, 0L, 1L, 2L, 1023L, 1024L, 1025L, 1L << 33}) {
      ex::add();
      ex::at("sysconf returns %ld", n);
      Files f;
      Run r(f, n);
      const size_t want = n <= 0 ? 1 : n > 1024 ? 1024 : (size_t)n, got = hwy::TotalLogicalProcessors();
      fake::active = false;
      if (got != want) EX_FAIL("TotalLogicalProcessors is %zu, expected %zu", got, want);
    }
  }
  ex::sample("sysconf reports 3 processors but node0/cpulist is 0-7");
}
#elif PART == 7 || PART == 10 || PART == 11  // ---- faults
namespace {
std::vector<std::pair<Shape, Opt>> bases() {
  std::vector<std::pair<Shape, Opt>> r;
  for (Shape s : {Shape{1, 1, 1, 1}, Shape{1, 1, 1, 2}, Shape{2, 1, 1, 1}, Shape{1, 2, 1, 1}, Shape{1, 1, 2, 2}, Shape{2, 1, 1, 2}, Shape{2, 2, 1, 2}})
    for (int nd : {1, 2, 3, 5}) { Opt o; o.node = nd; o.numbering = (int)(s.smt + nd) % 3; r.push_back({s, o}); }
  Opt o; o.node = 3; o.fmt = 1;
  r.push_back({{1, 1, 64, 2}, o});  // lists longer than any buffer
  return r;
}
}  // namespace
#if PART == 7
GROUP(one_fault) {
  for (auto& [s, o] : bases()) {
    const Files f = machine(s, o);
    const long n = (long)total(s);
    std::vector<fake::Call> tr;
    fake::trace = &tr;
    check(f, n);
    fake::trace = nullptr;
    for (size_t k = 0; k < tr.size(); k++) for (fake::Fault ft : {fake::INTR, fake::IO, fake::SHORT}) {
      if (ft == fake::SHORT && tr[k].kind != fake::READ) continue;
      fake::faults = {{k, ft}};
      Files g = f;
      if (ft == fake::IO && tr[k].kind != fake::CLOSE) g.erase(tr[k].path);
      ex::add();
      std::vector<const Files*> ok{&g};
      if (ft == fake::IO && tr[k].kind == fake::READ) ok.push_back(&f);
      const std::string bad = detect(f, n, ok);
      ex::at("%s: %s at call %zu (%s %s)", text(f, n).substr(0, 120).c_str(), ft == fake::INTR ? "EINTR" : ft == fake::IO ? "EIO" : "short read", k, tr[k].kind == fake::OPEN ? "open" : tr[k].kind == fake::READ ? "read" : "close", tr[k].path.c_str());
      ex::sample("%s", ex::st().cur);
      if (!bad.empty()) EX_FAIL("%s", bad.c_str());
      if (ex::many()) return;
    }
    fake::faults.clear();
  }
}
#elif PART == 10
GROUP(two_faults) {
  size_t nb = 0;
  for (auto& [s, o] : bases()) {
    if (nb++ >= (ex::thorough() ? 28 : 12) || total(s) > 8) break;
    const Files f = machine(s, o);
    const long n = (long)total(s);
    std::vector<fake::Call> tr;
    fake::trace = &tr;
    check(f, n);
    fake::trace = nullptr;
    // only calls on files that exist: a fault of the others is the same as their absence
    std::vector<size_t> at;
    for (size_t k = 0; k < tr.size(); k++) if (f.count(tr[k].path)) at.push_back(k);
    for (size_t a : at) for (size_t b : at) if (a < b)
      for (fake::Fault fa : {fake::INTR, fake::IO, fake::SHORT}) for (fake::Fault fb : {fake::INTR, fake::IO, fake::SHORT}) {
        // the second applies to the run as changed by the first
        fake::faults = {{a, fa}, {b, fb}};
        std::vector<fake::Call> tr2;
        fake::trace = &tr2;
        Files m[4] = {f, f, f, f};  // which of the two files counts as unreadable
        ex::add();
        const std::string bad0 = detect(f, n, {&f});
        fake::trace = nullptr;
        if (bad0.empty()) continue;
        const bool ia = fa == fake::IO && tr2[a].kind != fake::CLOSE, ib = fb == fake::IO && b < tr2.size() && tr2[b].kind != fake::CLOSE;
        std::vector<const Files*> ok;
        for (int x = 0; x < 4; x++) {
          if (((x & 1) && !ia) || ((x & 2) && !ib)) continue;
          if (!(x & 1) && ia && tr2[a].kind == fake::OPEN) continue;
          if (!(x & 2) && ib && tr2[b].kind == fake::OPEN) continue;
          if (x & 1) m[x].erase(tr2[a].path);
          if (x & 2) m[x].erase(tr2[b].path);
          ok.push_back(&m[x]);
        }
        if (ok.empty()) ok.push_back(&f);
        const std::string bad = detect(f, n, ok);
        if (!bad.empty()) { ex::at("%s: faults %d at %zu, %d at %zu", text(f, n).substr(0, 200).c_str(), fa, a, fb, b); EX_FAIL("%s", bad.c_str()); }
        if (ex::many()) { fake::faults.clear(); return; }
      }
    fake::faults.clear();
  }
  ex::sample("EINTR at call 3 and EIO at call 11");
}
#else
GROUP(small_reads) {
  for (size_t chunk : {1, 2, 3, 7, 64, 199, 200, 201}) for (auto& [s, o] : bases()) {
    fake::chunk = chunk;
    check(machine(s, o), (long)total(s));
  }
  fake::chunk = ~size_t{0};
  for (auto& [s, o] : bases()) { fake::use_zero = true; check(machine(s, o), (long)total(s)); fake::use_zero = false; }
  ex::sample("one byte per read");
}
GROUP(missing) {
  for (auto& [s, o] : bases()) {
    const Files f = machine(s, o);
    std::vector<std::string> names;
    for (auto& [k, v] : f) names.push_back(k);
    std::sort(names.begin(), names.end());
    for (size_t i = 0; i < names.size(); i++) for (size_t j = i; j < names.size(); j++) {
      if (names.size() > 100 && i != j) continue;
      Files g = f;
      g.erase(names[i]);
      g.erase(names[j]);
      check(g, (long)total(s));
      if (ex::many()) return;
    }
  }
  ex::sample("cpu1/topology/core_id and node1/cpulist missing");
}
GROUP(malformed) {
  size_t nb = 0;
  for (auto& [s, o] : bases()) {
    if (total(s) > 8 || (!ex::thorough() && nb++ % 3)) continue;
    const Files f = machine(s, o);
    for (auto& [k, v] : f) {
      auto put = [&](const std::string& t) { Files g = f; g[k] = t; check(g, (long)total(s)); };
      for (size_t i = 0; i <= v.size(); i++) {
        put(v.substr(0, i));
        for (char ch : std::string("-,09 \nKMx+\0\x80", 12)) {
          if (i < v.size()) { std::string t = v; t[i] = ch; put(t); }
          std::string t = v; t.insert(i, 1, ch); put(t);
        }
      }
      for (const char* t : {"-1\n", "-\n", ",\n", "5-\n", "-5\n", "3-1\n", "0-0-0\n", "0,,1\n", "0,\n", ",0\n", "1K\n", "1M\n", "1KM\n", "99999999999999999999999\n", "18446744073709551615\n", "18446744073709551616\n", "18014398509481984K\n", "17592186044416M\n", "999999999\n", "1000000000\n", "0-99999999999\n", "0-18446744073709551615\n", "0-4294967295,7\n", "0x10\n", "unknown\n", "\n\n", " 0\n", "0 \n", "0\r\n", "0-1,0-1,0-1,0-1,0-1\n"}) put(t);
      put(std::string(199, '0'));
      put(std::string(200, '0'));
      put(std::string(201, '1'));
      put(std::string(100000, '1') + "\n");
      { std::string t; while (t.size() < 5000) t += "0-1,"; put(t + "1\n"); put(t); }
      if (ex::many()) return;
    }
  }
  // all texts of up to 4 (5) characters as a node's list
  const std::string A = "017-,\n";
  const Files f = machine({2, 1, 2, 2}, Opt());
  std::string t;
  auto rec = [&](auto&& self, size_t left) -> void {
    if (ex::many()) return;
    Files g = f; g[node_path(0)] = t; check(g, 8);
    if (!left) return;
    for (char ch : A) { t += ch; self(self, left - 1); t.pop_back(); }
  };
  rec(rec, ex::thorough() ? 7 : 5);
  ex::sample("node0/cpulist is \"1-0\"");
}
#endif
#else  // ---- caches
namespace {
struct Lvl { std::string type; uint64_t level, kib, ways, line, sharing; };
Files with_caches(const Files& base, const std::vector<Lvl>& v, const std::vector<std::vector<size_t>>& shared, int fmt) {
  Files f = base;
  for (size_t i = 0; i < v.size(); i++) {
    const std::string d = "/sys/devices/system/cpu/cpu0/cache/index" + std::to_string(i) + "/";
    f[d + "type"] = v[i].type + "\n";
    f[d + "level"] = num(v[i].level);
    f[d + "size"] = std::to_string(v[i].kib) + "K\n";
    f[d + "ways_of_associativity"] = num(v[i].ways);
    f[d + "number_of_sets"] = num(v[i].kib * 1024 / (v[i].ways * v[i].line));
    f[d + "coherency_line_size"] = num(v[i].line);
    f[d + "shared_cpu_list"] = list(shared[i], fmt);
  }
  return f;
}
// Runs DataCaches() in a child (its result is computed once per process).
struct Out { int status; int null; hwy::Cache c[4]; char msg[200]; };
Out* g_out;
void data_caches(const Files& f, long n, Out& o) {
  if (!g_out) g_out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)g_out, 0, sizeof *g_out);
  g_out->status = 1;
  fflush(ex::st().out);
  const pid_t pid = fork();
  if (pid == 0) {
    alarm(30);
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) signal(s, SIG_DFL);
    try {
      Run r(f, n);
      const hwy::Cache* c = hwy::DataCaches();
      fake::active = false;
      g_out->null = c == nullptr;
      if (c) memcpy(g_out->c, c, sizeof g_out->c);
      g_out->status = 0;
      if (hwy::DataCaches() != c) { g_out->status = 2; snprintf(g_out->msg, sizeof g_out->msg, "a second call returned another pointer"); }
      if (fake::error) { g_out->status = 2; snprintf(g_out->msg, sizeof g_out->msg, "%s", fake::error); }
      for (auto& d : fake::fds) if (d.open) { g_out->status = 2; snprintf(g_out->msg, sizeof g_out->msg, "left open %s", d.path.c_str()); }
    } catch (const Aborted& a) {
      g_out->status = 2; snprintf(g_out->msg, sizeof g_out->msg, "aborted: %s", a.what.c_str());
    } catch (const std::exception& e) {
      g_out->status = 2; snprintf(g_out->msg, sizeof g_out->msg, "exception: %s", e.what());
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o = *g_out;
  if (WIFSIGNALED(st) || o.status == 1) { o.status = 2; snprintf(o.msg, sizeof o.msg, "the process died of signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : 0); }
}
struct Want { bool some = false; uint64_t kib, sets, line, ways, cores, raw_kib; };
// `complete`: every file is present and consistent
void check_caches(const Files& f, long n, const Want w[4], bool strict) {
  if (ex::many()) return;
  ex::add();
  Out o;
  ex::at("%s", text(f, n).c_str());
  data_caches(f, n, o);
  if (o.status) { EX_FAIL("%s", o.msg); return; }
  if (!strict) {
    if (o.null) return;
    for (int l = 1; l <= 3; l++) if (o.c[l].size_kib ? o.c[l].bytes_per_line == 0 || o.c[l].associativity == 0 || o.c[l].cores_sharing == 0 : l != 3) { EX_FAIL("L%d: %u KiB, %u bytes per line, %u ways, %u cores", l, o.c[l].size_kib, o.c[l].bytes_per_line, o.c[l].associativity, o.c[l].cores_sharing); return; }
    return;
  }
  if (o.null) { if (w[1].some && w[1].kib && w[2].some && w[2].kib) EX_FAIL("DataCaches is null"); return; }
  if (!w[1].some || !w[2].some) { EX_FAIL("DataCaches is not null though L1 or L2 is unknown"); return; }
  for (int l = 1; l <= 3; l++) {
    const hwy::Cache& c = o.c[l];
    if (l == 3 && w[3].some && w[3].cores >= 16 && w[3].kib <= 512 && c.size_kib == 0) continue;  // documented heuristic
    if (!w[l].some || w[l].kib == 0) { if (c.size_kib) EX_FAIL("L%d exists", l); continue; }
    if (c.size_kib != w[l].kib || c.bytes_per_line != w[l].line || c.associativity != w[l].ways || c.cores_sharing != w[l].cores)
      EX_FAIL("L%d: %u KiB, %u bytes per line, %u ways, %u cores; expected %llu, %llu, %llu, %llu", l, c.size_kib, c.bytes_per_line, c.associativity, c.cores_sharing, (unsigned long long)w[l].kib, (unsigned long long)w[l].line, (unsigned long long)w[l].ways, (unsigned long long)w[l].cores);
    const uint64_t hi = w[l].sets / w[l].cores, lo = w[l].kib * 1024 / w[l].line / w[l].ways;
    if (c.sets < lo || c.sets > hi) EX_FAIL("L%d: %u sets, expected %llu to %llu", l, c.sets, (unsigned long long)lo, (unsigned long long)hi);
  }
}
Want want(const Lvl& l, uint64_t cores) {
  Want w;
  w.some = true, w.kib = l.kib / cores, w.sets = l.kib * 1024 / (l.ways * l.line), w.line = l.line, w.ways = l.ways, w.cores = cores;
  return w;
}
}  // namespace
#if PART == 8
GROUP(geometry) {
  // sizes, ways, line sizes, sharing: all combinations that have whole sets
  for (uint64_t kib : {1, 16, 32, 48, 80, 256, 512, 1024, 1280, 2048, 4096, 4608, 16384, 36864, 98304, 1048576})
    for (uint64_t ways : {1, 2, 3, 4, 5, 8, 10, 12, 16, 20, 24, 64, 128, 1024})
      for (uint64_t line : {32, 64, 128, 256})
        for (size_t cores : {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24}) for (size_t smt : {1, 2}) {
          if (kib * 1024 % (ways * line)) continue;
          if (!ex::thorough() && (kib + ways + line / 32 + cores + smt) % 4) continue;
          Opt o;
          o.numbering = (int)(cores % 3);
          const Files base = machine({1, 1, cores, smt}, o);
          std::vector<size_t> all, core0;
          for (size_t i = 0; i < cores * smt; i++) {
            all.push_back(i);
            if (base.at(cpu(i, CORE)) == base.at(cpu(0, CORE))) core0.push_back(i);
          }
          const int which = (int)((kib + cores) % 3) + 1;  // the level with this geometry
          std::vector<Lvl> v{{"Data", 1, 32, 8, 64, 1}, {"Instruction", 1, 64, 4, 64, 1}, {"Unified", 2, 512, 8, 64, 1}, {"Unified", 3, 16384, 16, 64, 1}};
          std::vector<std::vector<size_t>> sh{core0, core0, core0, core0};
          const int slot = which == 1 ? 0 : which;
          v[slot].kib = kib, v[slot].ways = ways, v[slot].line = line;
          sh[slot] = all;
          Want w[4];
          w[1] = want(v[0], which == 1 ? cores : 1), w[2] = want(v[2], which == 2 ? cores : 1), w[3] = want(v[3], which == 3 ? cores : 1);
          check_caches(with_caches(base, v, sh, (int)(cores % 5)), (long)(cores * smt), w, true);
        }
  ex::sample("L2 of 256 KiB, 4 ways, 64-byte lines, shared by 3 cores of 2 threads");
}
GROUP(order) {  // order, number and kinds of entries
  const Lvl E[] = {{"Data", 1, 32, 8, 64, 1}, {"Instruction", 1, 64, 4, 64, 1}, {"Unified", 2, 512, 8, 64, 1}, {"Unified", 3, 16384, 16, 64, 1}, {"Unified", 4, 65536, 16, 64, 1}, {"Data", 2, 256, 8, 64, 1}, {"Unified", 1, 16, 2, 64, 1}, {"Unified", 0, 16, 2, 64, 1}};
  Opt o;
  const Files base = machine({1, 1, 4, 2}, o);
  std::vector<int> q;
  auto rec = [&](auto&& self, size_t left) -> void {
    std::vector<Lvl> v;
    std::vector<std::vector<size_t>> sh;
    Want w[4];
    for (int i : q) {
      v.push_back(E[i]);
      sh.push_back(E[i].level == 3 ? std::vector<size_t>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<size_t>{0, 1});
      if (E[i].type != "Instruction" && E[i].level >= 1 && E[i].level <= 3 && !w[E[i].level].some) w[E[i].level] = want(E[i], E[i].level == 3 ? 4 : 1);
    }
    check_caches(with_caches(base, v, sh, (int)(q.size() % 5)), 8, w, true);
    if (!left || ex::many()) return;
    for (int i = 0; i < 8; i++) { q.push_back(i); self(self, left - 1); q.pop_back(); }
  };
  rec(rec, ex::thorough() ? 5 : 4);
  ex::sample("entries: L2, L1 instruction, L1 data, another L2");
}
GROUP(sharing) {  // every set of whole cores, processors beyond the reported count
  for (size_t smt : {1, 2}) for (int nu = 0; nu < 4; nu++) for (size_t set = 1; set < 64; set++) for (int fmt = 0; fmt < 5; fmt++) for (long fewer : {0, 1, 3}) {
    if (!ex::thorough() && (set + fmt + nu) % 3) continue;
    Opt o;
    o.numbering = nu;
    const size_t n = 6 * smt;
    const Files base = machine({1, 1, 6, smt}, o);
    std::vector<size_t> l;
    std::set<size_t> seen;
    bool whole = true;
    for (size_t i = 0; i < n; i++) {
      size_t p, cl, c, t;
      coords({1, 1, 6, smt}, nu, i, p, cl, c, t);
      if (!(set >> c & 1)) continue;
      l.push_back(i);
      if (i < n - fewer) seen.insert(c); else whole = whole && smt == 1;
    }
    if (fewer && smt > 1 && nu != 1) whole = false;
    std::vector<Lvl> v{{"Data", 1, 32, 8, 64, 1}, {"Unified", 2, 512, 8, 64, 1}, {"Unified", 3, 16384, 16, 64, 1}};
    Want w[4];
    w[1] = want(v[0], 1), w[2] = want(v[1], 1), w[3] = want(v[2], std::max<size_t>(1, seen.size()));
    check_caches(with_caches(base, v, {{0}, {0}, l}, fmt), (long)(n - fewer), w, whole && !(smt > 1 && fewer));
  }
  ex::sample("L3 shared by cores 0, 2, 5 of 6; the last processor is not reported");
}
GROUP(hybrid) {  // cores with different numbers of threads, in any order of processors
  const size_t mx = ex::thorough() ? 7 : 6;
  for (size_t n = 1; n <= mx; n++) for (auto& core : partitions(n, false)) {
    const size_t nc = 1 + *std::max_element(core.begin(), core.end());
    for (size_t set = 1; set < size_t{1} << nc; set++) {
      if (!(set & 1) && !ex::thorough()) continue;
      Files base;
      std::vector<size_t> l, own;
      for (size_t i = 0; i < n; i++) {
        base[cpu(i, PKG)] = "0\n";
        base[cpu(i, CORE)] = num(label((int)(set % 6), core[i]));
        if (set >> core[i] & 1) l.push_back(i);
        if (core[i] == core[0]) own.push_back(i);
      }
      std::vector<Lvl> v{{"Data", 1, 48, 12, 64, 1}, {"Unified", 2, 2048, 16, 64, 1}, {"Unified", 3, 36864, 12, 64, 1}};
      Want w[4];
      const size_t k = (size_t)__builtin_popcountll(set);
      w[1] = want(v[0], 1), w[2] = want(v[1], set % 2 ? k : 1), w[3] = want(v[2], k);
      check_caches(with_caches(base, v, {own, set % 2 ? l : own, l}, (int)(set % 5)), (long)n, w, true);
      if (ex::many()) return;
    }
  }
  ex::sample("cores {0 1} {2 3} {4} {5} share L3");
}
#else  // PART 9
GROUP(faulty) {
  Opt o;
  const Files base = machine({1, 1, 2, 2}, o);
  std::vector<Lvl> v{{"Data", 1, 32, 8, 64, 1}, {"Instruction", 1, 64, 4, 64, 1}, {"Unified", 2, 512, 8, 64, 1}, {"Unified", 3, 16384, 16, 64, 1}};
  const Files f = with_caches(base, v, {{0, 1}, {0, 1}, {0, 1}, {0, 1, 2, 3}}, 0);
  Want none[4];
  for (auto& [k, t] : f) {
    if (k.find("cpu0/cache") == std::string::npos && k.find("cpu1/") == std::string::npos) continue;
    { Files g = f; g.erase(k); check_caches(g, 4, none, false); }
    auto put = [&](const std::string& s) { Files g = f; g[k] = s; check_caches(g, 4, none, false); };
    for (size_t i = 0; i < t.size(); i++) { put(t.substr(0, i)); for (char ch : std::string("-09,x\n\0", 7)) { std::string s = t; s[i] = ch; put(s); } }
    for (const char* s : {"0\n", "0K\n", "1\n", "3\n", "65535\n", "65536\n", "65537\n", "131072\n", "4294967295\n", "4294967296\n", "4294967295K\n", "18446744073709551615\n", "99999999999999999999999999\n", "-1\n", "3-1\n", "0-\n", "0,,3\n", "7\n", "0-99999\n", "\n", "Unified\n"}) put(s);
    put(std::string(300, '1'));
  }
  for (int what = 0; what < 3; what++) {  // a fault at every call
    fake::faults.clear();
    std::vector<fake::Call> tr;
    for (size_t k = 0; k < 140; k++) {
      fake::faults = {{k, what == 0 ? fake::INTR : what == 1 ? fake::SHORT : fake::IO}};
      Want w[4];
      w[1] = want(v[0], 1), w[2] = want(v[2], 1), w[3] = want(v[3], 2);
      check_caches(f, 4, w, what < 2);
    }
  }
  fake::faults.clear();
  ex::sample("number_of_sets of index2 is 0");
}
#endif
#if PART == 8
GROUP(affinity) {
  std::vector<std::vector<int>> sets{{}};
  for (int i = 0; i < 1024; i++) sets.push_back({i});
  for (int i : {0, 1, 62, 63, 64, 65, 127, 128, 511, 512, 1022, 1023}) for (int j : {0, 1, 63, 64, 128, 1023}) if (i < j) sets.push_back({i, j});
  for (int len : {2, 63, 64, 65, 256, 1023, 1024}) { std::vector<int> v; for (int i = 0; i < len; i++) v.push_back(i); sets.push_back(v); }
  for (auto& s : sets) for (int prior = 0; prior < 3; prior++) for (int err : {0, EINVAL, EPERM}) {
    ex::add();
    ex::at("%zu processors, first %d, prior contents %d, error %d", s.size(), s.empty() ? -1 : s[0], prior, err);
    CPU_ZERO(&fake::affinity);
    for (int i : s) CPU_SET(i, &fake::affinity);
    fake::affinity_err = err;
    hwy::LogicalProcessorSet set;
    if (prior) for (size_t i = 0; i < 1024; i += prior == 1 ? 1 : 37) set.Set(i);
    const bool ok = hwy::GetThreadAffinity(set);
    if (ok != (err == 0)) { EX_FAIL("GetThreadAffinity returned %d", ok); continue; }
    if (ok) {
      std::vector<int> got;
      set.Foreach([&](size_t i) { got.push_back((int)i); });
      if (got != s) EX_FAIL("GetThreadAffinity has %zu members, expected %zu, or different ones", got.size(), s.size());
    }
    hwy::LogicalProcessorSet in;
    for (int i : s) in.Set(i);
    for (int pin = 0; pin < 2; pin++) {
      if (pin && s.size() != 1) continue;
      fake::set_calls.clear();
      const bool ok2 = pin ? hwy::PinThreadToLogicalProcessor(s[0]) : hwy::SetThreadAffinity(in);
      if (ok2 != (err == 0)) EX_FAIL("SetThreadAffinity returned %d", ok2);
      std::string w(1024, '0');
      for (int i : s) w[i] = '1';
      if (fake::set_calls.empty() || fake::set_calls.back() != w) EX_FAIL("SetThreadAffinity passed another set");
    }
    fake::affinity_err = 0;
    if (ex::many()) return;
  }
  ex::sample("processors 63 and 64");
}
#endif
#endif
int main(int argc, char** argv) {
  hwy::SetAbortFunc(on_abort);
  hwy::SetWarnFunc(on_warn);
  CPU_ZERO(&fake::affinity);
  return ex::main(argc, argv);
}
