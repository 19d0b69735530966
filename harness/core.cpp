#include <valgrind/memcheck.h>
#include "core.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vm { extern long allocFail, allocLive; }
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__wrap_malloc(size_t n)
{
  if (vm::allocFail == 0) { vm::allocFail = -1; return nullptr; }
  if (vm::allocFail > 0) vm::allocFail--;
  vm::allocLive++;
  return __real_malloc(n);
}
extern "C" void __wrap_free(void *p)
{
  if (p) vm::allocLive--;
  __real_free(p);
}

namespace vm {

Case *C = nullptr;

namespace {
const int MAXCOUNTERS = 512;
const size_t TRACE_MAX = 192 * 1024;
const size_t MAXSTATES = 1 << 14;
struct Shared
{
  uint64_t hash, observed;
  int trivial;
  int ncounters;
  struct { char name[64]; uint64_t v; } counters[MAXCOUNTERS];
  uint32_t nstates, stateOverflow;
  uint64_t states[MAXSTATES];
  char key[256];
  char msg[8192];
  uint32_t traceLen;
  char trace[TRACE_MAX];
};
Shared *sh = nullptr;
std::vector<Check> &checks() { static std::vector<Check> c; return c; }
std::string traceBuf;
bool inProcess = false;

void appendTrace(const char *s, size_t n)
{
  if (!sh) return;
  if (sh->traceLen + n > TRACE_MAX)
  {
    // keep the tail
    size_t keep = TRACE_MAX / 2;
    memmove(sh->trace, sh->trace + sh->traceLen - keep, keep);
    sh->traceLen = keep;
    if (n > TRACE_MAX / 4) n = TRACE_MAX / 4;
  }
  memcpy(sh->trace + sh->traceLen, s, n);
  sh->traceLen += n;
}

std::string jsonEsc(const std::string &s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

void onAlarm(int) { static const char m[] = "VM-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
}

Register::Register(const Check &c) { checks().push_back(c); }

void logf(const char *fmt, ...)
{
  char b[1024];
  va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, a); va_end(a);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  appendTrace(b, n);
}

void count(const std::string &name, uint64_t n)
{
  for (int i = 0; i < sh->ncounters; i++)
    if (!strncmp(sh->counters[i].name, name.c_str(), 63)) { sh->counters[i].v += n; return; }
  if (sh->ncounters >= MAXCOUNTERS) return;
  strncpy(sh->counters[sh->ncounters].name, name.c_str(), 63);
  sh->counters[sh->ncounters].v = n;
  sh->ncounters++;
}

void state(uint64_t h)
{
  if (sh->nstates < MAXSTATES) sh->states[sh->nstates++] = h; else sh->stateOverflow++;
}

void finish(int rc)
{
  sh->hash = C->hash; sh->observed = C->observed; sh->trivial = C->trivial;
  fflush(stdout); fflush(stderr);
  _exit(rc);
}

void violation(const std::string &key, const char *fmt, ...)
{
  va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
  strncpy(sh->key, key.c_str(), sizeof sh->key - 1);
  finish(3);
  __builtin_unreachable();
}

void harnessError(const char *fmt, ...)
{
  va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
  finish(4);
  __builtin_unreachable();
}

long allocFail = -1, allocLive = 0;
void mustBeDefined(const void *p, size_t n) { (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n); }
void makeUndefined(void *p, size_t n) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }

std::string hex(const uint8_t *d, size_t n)
{
  std::string s; char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02X", d[i]); if (i) s += ' '; s += b; }
  return s;
}

void runCase(const Check &ck, uint64_t seed, uint64_t index, bool thorough)
{
  static Case c;
  c = Case();
  c.seed = seed; c.index = index; c.thorough = thorough;
  c.rng = Rng(mix(mix(seed, hashStr(ck.id)), index));
  C = &c;
  ck.fn();
}
}

using namespace vm;

// usage: vmon PROP SEED TIER SHARD NSHARDS NCASES OUTDIR [cpuLimit]       (forked cases)
//        vmon PROP SEED TIER case INDEX OUTDIR                            (one case, forked, trace printed)
//        vmon PROP SEED TIER inproc FROM TO                               (in-process, for valgrind)
//        vmon list
int main(int argc, char **argv)
{
  if (argc >= 2 && !strcmp(argv[1], "list"))
  {
    for (auto &c : checks()) printf("{\"id\":\"%s\",\"quick\":%llu,\"thorough\":%llu,\"rule\":\"%s\"}\n", c.id, (unsigned long long)c.quickCases, (unsigned long long)c.thoroughCases, jsonEsc(c.rule).c_str());
    return 0;
  }
  if (argc < 7) { fprintf(stderr, "usage\n"); return 2; }
  const Check *ck = nullptr;
  for (auto &c : checks()) if (!strcmp(c.id, argv[1])) ck = &c;
  if (!ck) { fprintf(stderr, "no such check %s\n", argv[1]); return 2; }
  uint64_t seed = strtoull(argv[2], 0, 10);
  bool thorough = !strcmp(argv[3], "thorough");

  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }

  if (!strcmp(argv[4], "inproc"))
  {
    uint64_t from = strtoull(argv[5], 0, 10), to = strtoull(argv[6], 0, 10);
    // A violation exits 3 with its text in the shared block, which we print from an atexit-free path:
    for (uint64_t i = from; i < to; i++)
    {
      fprintf(stderr, "VM-CASE %llu\n", (unsigned long long)i);
      sh->traceLen = 0;
      runCase(*ck, seed, i, thorough);
    }
    uint64_t total = 0;
    for (int i = 0; i < sh->ncounters; i++) total += sh->counters[i].v;
    fprintf(stderr, "VM-DONE counters=%llu\n", (unsigned long long)total);
    return 0;
  }

  bool single = !strcmp(argv[4], "case");
  uint64_t shard = 0, nshards = 1, ncases = 0, first = 0;
  std::string out;
  int cpuLimit = 30;
  if (single) { first = strtoull(argv[5], 0, 10); ncases = first + 1; out = argv[6]; if (argc > 7) cpuLimit = atoi(argv[7]); }
  else
  {
    if (argc < 8) { fprintf(stderr, "usage\n"); return 2; }
    shard = strtoull(argv[4], 0, 10); nshards = strtoull(argv[5], 0, 10); ncases = strtoull(argv[6], 0, 10); out = argv[7];
    first = shard;
    if (argc > 8) cpuLimit = atoi(argv[8]);
  }

  char path[4096];
  snprintf(path, sizeof path, "%s/stderr.%llu", out.c_str(), (unsigned long long)shard);
  int errfd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
  int nullfd = open("/dev/null", O_RDWR);
  std::string resPath = out + "/res." + std::to_string(shard);
  FILE *res = fopen(resPath.c_str(), "w");
  if (errfd < 0 || !res) { perror("open"); return 2; }

  std::map<std::string, uint64_t> totals;
  std::unordered_set<uint64_t> traces, states;
  uint64_t evaluations = 0, nontrivial = 0, observed = 0, nviol = 0, nhangs = 0, overflow = 0, samples = 0;
  for (uint64_t i = first; i < ncases; i += nshards)
  {
    memset(sh, 0, offsetof(Shared, states));
    sh->key[0] = sh->msg[0] = 0; sh->traceLen = 0; memset(sh->msg, 0, 64);
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0)
    {
      dup2(errfd, 2); dup2(nullfd, 1);
      signal(SIGPROF, onAlarm);
      struct itimerval tv = {{0, 0}, {cpuLimit, 0}};
      setitimer(ITIMER_PROF, &tv, nullptr);
      runCase(*ck, seed, i, thorough);
      finish(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    evaluations++;
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    for (int k = 0; k < sh->ncounters; k++) totals[sh->counters[k].name] += sh->counters[k].v;
    for (uint32_t k = 0; k < sh->nstates; k++) states.insert(sh->states[k]);
    overflow += sh->stateOverflow;
    observed += sh->observed;
    if (sh->observed > 0 && !sh->trivial && traces.insert(sh->hash).second) nontrivial++;
    std::string trace(sh->trace, sh->traceLen);
    if (rc == 0)
    {
      if (samples < 2 && sh->observed > 0)
      {
        samples++;
        std::string t = trace.substr(0, 1500);
        fprintf(res, "{\"type\":\"sample\",\"case\":%llu,\"trace\":\"%s\"}\n", (unsigned long long)i, jsonEsc(t).c_str());
      }
      if (single) printf("%s\nOK\n", trace.c_str());
      continue;
    }
    std::string err;
    {
      char b[65536]; lseek(errfd, 0, SEEK_SET); ssize_t n;
      while ((n = read(errfd, b, sizeof b)) > 0 && err.size() < 400000) err.append(b, n);
    }
    const char *kind = rc == 3 ? "violation" : rc == 4 ? "harness" : rc == 77 ? "hang" : "crash";
    if (trace.size() > 24000) trace = "...\n" + trace.substr(trace.size() - 24000);
    fprintf(res, "{\"type\":\"bad\",\"kind\":\"%s\",\"rc\":%d,\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\",\"stderr\":\"%s\"}\n",
            kind, rc, (unsigned long long)i, jsonEsc(sh->key).c_str(), jsonEsc(std::string(sh->msg)).c_str(), jsonEsc(trace).c_str(), jsonEsc(err.substr(0, 20000)).c_str());
    fflush(res);
    if (single) printf("%s\n%s rc=%d key=%s\n%s\n%s\n", trace.c_str(), kind, rc, sh->key, sh->msg, err.c_str());
    if (++nviol >= 25 || (rc == 77 && ++nhangs >= 2)) break;
  }
  fprintf(res, "{\"type\":\"sum\",\"evaluations\":%llu,\"nontrivial\":%llu,\"observed\":%llu,\"overflow\":%llu,\"counters\":{",
          (unsigned long long)evaluations, (unsigned long long)nontrivial, (unsigned long long)observed, (unsigned long long)overflow);
  bool firstc = true;
  for (auto &t : totals) { fprintf(res, "%s\"%s\":%llu", firstc ? "" : ",", jsonEsc(t.first).c_str(), (unsigned long long)t.second); firstc = false; }
  fprintf(res, "}}\n");
  fclose(res);
  std::string bp = out + "/hash." + std::to_string(shard);
  FILE *hb = fopen(bp.c_str(), "wb");
  for (uint64_t h : traces) fwrite(&h, 8, 1, hb);
  fclose(hb);
  bp = out + "/states." + std::to_string(shard);
  hb = fopen(bp.c_str(), "wb");
  for (uint64_t h : states) fwrite(&h, 8, 1, hb);
  fclose(hb);
  return 0;
}
