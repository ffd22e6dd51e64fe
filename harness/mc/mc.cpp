#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __asan_default_options()
{
  return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:abort_on_error=1"; }

namespace mc
{
struct Finding
{
  char key[256];
  char msg[3000];
  char desc[2000];
  char path[600];
  int64_t idx;
};
struct Shared
{
  volatile int64_t cur;          // item being executed
  volatile uint64_t beats;
  volatile uint64_t items, transitions, traces;
  volatile int done;
  volatile int nfind;
  volatile int pathlen;
  unsigned char path[600];
  char desc[2000];               // only filled while replaying
  Finding find[40];
};

static void cpy(char* d, size_t n, const std::string& s)
{
  size_t k = std::min(n - 1, s.size());
  std::memcpy(d, s.data(), k);
  d[k] = 0;
}
static std::string pathStr(const Shared* s)
{
  std::string o;
  for (int i = 0; i < s->pathlen && i < 600; ++i)
    o += (i ? "," : "") + std::to_string(int(s->path[i]));
  return o;
}
static std::string safeDesc(Ctx& c)
{
  try
  {
    return c.curdesc ? c.curdesc() : std::string();
  }
  catch (...)
  {
    return "(description failed)";
  }
}

static void record(Ctx& c, const std::string& key, const std::string& msg)
{
  Shared* s = c.sh;
  for (int i = 0; i < s->nfind; ++i)
    if (key == s->find[i].key)
      return;
  if (s->nfind >= 40)
    return;
  Finding& f = s->find[s->nfind];
  cpy(f.key, sizeof f.key, key);
  cpy(f.msg, sizeof f.msg, msg);
  cpy(f.desc, sizeof f.desc, safeDesc(c));
  cpy(f.path, sizeof f.path, pathStr(s));
  f.idx = c.cur;
  s->nfind = s->nfind + 1;
}

void Ctx::fail(const std::string& key, const std::string& msg)
{
  record(*this, key, msg);
  throw CaseFailed{};
}
void Ctx::beat() { sh->beats = sh->beats + 1; }
void Ctx::transitions(uint64_t n)
{
  sh->transitions = sh->transitions + n;
  sh->beats = sh->beats + 1;
}
void Ctx::traces(uint64_t n)
{
  sh->traces = sh->traces + n;
  sh->beats = sh->beats + 1;
}
bool Ctx::state(uint64_t h) { return states.insert(h).second; }
void Ctx::outcome(uint64_t h) { outcomes.insert(h); }
void Ctx::note(const std::string& s) { curnote = s; }
void Ctx::count(const std::string& name, uint64_t n)
{
  for (auto& p : counters)
    if (p.first == name)
    {
      p.second += n;
      return;
    }
  counters.emplace_back(name, n);
}

void Ctx::item(const std::function<std::string()>& desc, const std::function<void()>& body)
{
  const int64_t idx = next++;
  if (only >= 0 ? idx != only : (int64_t((uint64_t(idx) * 0x9e3779b97f4a7c15ull >> 40) % uint64_t(nshards)) != shard || idx < start))
    return;
  cur = idx;
  curdesc = desc;
  curnote.clear();
  sh->cur = idx;
  sh->pathlen = 0;
  sh->beats = sh->beats + 1;
  if (replaying)
    cpy(sh->desc, sizeof sh->desc, safeDesc(*this));
  try
  {
    body();
  }
  catch (const CaseFailed&)
  {
  }
  catch (const std::exception& e)
  {
    record(*this, "exception", std::string("unexpected exception: ") + e.what());
  }
  catch (const char* e)
  {
    record(*this, "exception", std::string("unexpected exception: ") + e);
  }
  sh->items = sh->items + 1;
  const int64_t done = idx;
  if (done >= next_sample && samples.size() < 8)
  {
    samples.push_back("#" + std::to_string(idx) + " " + safeDesc(*this) + (curnote.empty() ? "" : "  => " + curnote));
    next_sample = done * 4 + 3;
  }
  curdesc = nullptr;
  cur = -1;
}

std::string Dfs::pathText() const
{
  std::string o;
  for (size_t i = 0; i < pos_ && i < path_.size(); ++i)
    o += (i ? "," : "") + std::to_string(path_[i]);
  return o;
}
int Dfs::choose(int n)
{
  if (n <= 0)
    throw std::logic_error("Dfs::choose: no alternatives");
  if (max_dev_ >= 0 && dev_ >= max_dev_)
    n = 1;
  int v = 0;
  if (pos_ < path_.size())
  {
    if (width_[pos_] != n)
    {
      // the replayed prefix does not offer the same alternatives: the harness does not own all nondeterminism
      std::fprintf(stderr, "MC-DIVERGENCE at choice %zu: %d alternatives before, %d now\n", pos_, width_[pos_], n);
      _exit(77);
    }
    v = path_[pos_];
  }
  else
  {
    path_.push_back(0);
    width_.push_back(n);
  }
  if (pos_ < sizeof(c_.sh->path))
    c_.sh->path[pos_] = static_cast<unsigned char>(v);
  ++pos_;
  c_.sh->pathlen = static_cast<int>(pos_);
  if (v != 0)
    ++dev_;
  return v;
}
void Dfs::run(const std::function<void()>& body)
{
  path_.clear();
  width_.clear();
  for (;;)
  {
    pos_ = 0;
    dev_ = 0;
    c_.sh->pathlen = 0;
    body();
    ++executions;
    c_.beat();
    path_.resize(pos_);
    width_.resize(pos_);
    while (!path_.empty() && path_.back() + 1 >= width_.back())
    {
      path_.pop_back();
      width_.pop_back();
    }
    if (path_.empty())
      break;
    ++path_.back();
  }
  c_.sh->pathlen = 0;
}

// ---------------------------------------------------------------------------------------------------- supervisor
static double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
static std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\')
      (o += '\\') += char(ch);
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126)
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    }
    else
      o += char(ch);
  }
  return o + "\"";
}

struct Child
{
  pid_t pid = -1;
  int err = -1, data = -1;
  Shared* sh = nullptr;
  std::string errtail, databuf;
  uint64_t lastbeat = 0;
  double lastt = 0;
  bool alive = false, killed = false;
  int status = 0;
};

static Shared* newShared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
  {
    std::perror("mmap");
    _exit(2);
  }
  std::memset(p, 0, sizeof(Shared));
  return static_cast<Shared*>(p);
}
static bool g_verbose = false;

static void spawn(Child& ch, Ctx proto)
{
  int pe[2], pd[2];
  if (pipe2(pe, O_CLOEXEC) || pipe2(pd, O_CLOEXEC))
  {
    std::perror("pipe");
    _exit(2);
  }
  std::fflush(stdout);
  std::fflush(stderr);
  ch.sh->done = 0;
  ch.sh->cur = -1;
  ch.sh->pathlen = 0;
  pid_t p = fork();
  if (p < 0)
  {
    std::perror("fork");
    _exit(2);
  }
  if (p == 0)
  {
    setpgid(0, 0);
    if (!g_verbose)
    {
      int dn = open("/dev/null", O_RDWR);
      dup2(dn, 0);
      dup2(dn, 1);
      dup2(pe[1], 2);
    }
    close(pe[0]);
    close(pd[0]);
    signal(SIGPIPE, SIG_IGN);
    proto.sh = ch.sh;
    try
    {
      explore(proto);
    }
    catch (const std::exception& e)
    {
      std::fprintf(stderr, "MC-HARNESS exception outside an item: %s\n", e.what());
      _exit(78);
    }
    catch (const CaseFailed&)
    {
      std::fprintf(stderr, "MC-HARNESS failure outside an item\n");
      _exit(78);
    }
    std::string out;
    auto put = [&](const void* q, size_t n) { out.append(static_cast<const char*>(q), n); };
    auto put64 = [&](uint64_t v) { put(&v, 8); };
    put64(proto.states.size());
    for (auto h : proto.states)
      put64(h);
    put64(proto.outcomes.size());
    for (auto h : proto.outcomes)
      put64(h);
    put64(proto.counters.size());
    for (auto& kv : proto.counters)
    {
      put64(kv.first.size());
      put(kv.first.data(), kv.first.size());
      put64(kv.second);
    }
    put64(proto.samples.size());
    for (auto& s : proto.samples)
    {
      put64(s.size());
      put(s.data(), s.size());
    }
    put64(uint64_t(proto.next));
    size_t off = 0;
    while (off < out.size())
    {
      ssize_t w = write(pd[1], out.data() + off, out.size() - off);
      if (w < 0 && errno == EINTR)
        continue;
      if (w <= 0)
        _exit(79);
      off += size_t(w);
    }
    ch.sh->done = 1;
    _exit(0);
  }
  close(pe[1]);
  close(pd[1]);
  ch.pid = p;
  ch.err = pe[0];
  ch.data = pd[0];
  ch.databuf.clear();
  ch.errtail.clear();
  ch.alive = true;
  ch.killed = false;
  ch.lastbeat = ch.sh->beats;
  ch.lastt = now();
}

// drives children until one of them stops; returns its index
static int waitAny(std::vector<Child>& cs, int watchdog)
{
  for (;;)
  {
    std::vector<pollfd> pf;
    std::vector<std::pair<int, int>> who;
    bool any = false;
    for (size_t i = 0; i < cs.size(); ++i)
    {
      if (!cs[i].alive)
        continue;
      any = true;
      if (cs[i].err >= 0)
      {
        pf.push_back({ cs[i].err, POLLIN, 0 });
        who.emplace_back(i, 0);
      }
      if (cs[i].data >= 0)
      {
        pf.push_back({ cs[i].data, POLLIN, 0 });
        who.emplace_back(i, 1);
      }
    }
    if (!any)
      return -1;
    poll(pf.data(), pf.size(), 20);
    static char buf[1 << 16];
    for (size_t k = 0; k < pf.size(); ++k)
    {
      if (!(pf[k].revents & (POLLIN | POLLHUP)))
        continue;
      Child& c = cs[size_t(who[k].first)];
      ssize_t n = read(pf[k].fd, buf, sizeof buf);
      if (n <= 0)
      {
        if (n < 0 && (errno == EINTR || errno == EAGAIN))
          continue;
        close(pf[k].fd);
        (who[k].second ? c.data : c.err) = -1;
        continue;
      }
      if (who[k].second)
        c.databuf.append(buf, size_t(n));
      else
      {
        c.errtail.append(buf, size_t(n));
        if (c.errtail.size() > 40000)
          c.errtail.erase(0, c.errtail.size() - 20000);
      }
    }
    for (size_t i = 0; i < cs.size(); ++i)
    {
      Child& c = cs[i];
      if (!c.alive)
        continue;
      int st;
      pid_t r = waitpid(c.pid, &st, WNOHANG);
      if (r == c.pid)
      {
        c.status = st;
        c.alive = false;
        kill(-c.pid, SIGKILL);
        for (int* fd : { &c.err, &c.data })
          if (*fd >= 0)
          {
            // drain what is left without blocking on grandchildren
            fcntl(*fd, F_SETFL, O_NONBLOCK);
            ssize_t n;
            while ((n = read(*fd, buf, sizeof buf)) > 0)
              (fd == &c.data ? c.databuf : c.errtail).append(buf, size_t(n));
            close(*fd);
            *fd = -1;
          }
        return int(i);
      }
      if (c.sh->beats != c.lastbeat)
      {
        c.lastbeat = c.sh->beats;
        c.lastt = now();
      }
      else if (now() - c.lastt > watchdog && !c.killed)
      {
        c.killed = true;
        kill(-c.pid, SIGKILL);
        kill(c.pid, SIGKILL);
      }
    }
  }
}

static std::string crashKey(const Child& c, std::string& msg)
{
  if (c.killed)
  {
    msg = "no progress: the item does not end";
    return "hang";
  }
  const std::string& e = c.errtail;
  auto line = [&](const char* needle) -> std::string {
    size_t p = e.find(needle);
    if (p == std::string::npos)
      return {};
    size_t b = e.rfind('\n', p), n = e.find('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    return e.substr(b, (n == std::string::npos ? e.size() : n) - b);
  };
  std::string key;
  if (WIFSIGNALED(c.status))
    msg = "process ended by signal " + std::to_string(WTERMSIG(c.status));
  else
    msg = "process ended with exit code " + std::to_string(WEXITSTATUS(c.status));
  std::string l;
  if (!(l = line("ERROR: AddressSanitizer")).empty())
  {
    key = "memory-error";
    msg += ": " + l;
    // first frames
    size_t p = e.find("    #0");
    if (p != std::string::npos)
      msg += "\n" + e.substr(p, std::min<size_t>(1500, e.size() - p));
  }
  else if (!(l = line("Assertion")).empty())
  {
    key = "assertion";
    msg += ": " + l;
  }
  else if (!(l = line("runtime error")).empty())
  {
    key = "undefined-behaviour";
    msg += ": " + l;
  }
  else
  {
    key = "crash";
    msg += e.empty() ? "" : ": " + e.substr(e.size() > 600 ? e.size() - 600 : 0);
  }
  return key;
}

struct Known
{
  std::string property, key, text;
};
static std::vector<Known> loadKnown(const std::string& file)
{
  std::vector<Known> r;
  std::ifstream f(file);
  std::string l;
  while (std::getline(f, l))
  {
    // KNOWN-FINDING: property=<id> key=<key> <text>
    if (l.rfind("KNOWN-FINDING:", 0) != 0)
      continue;
    std::istringstream is(l.substr(14));
    std::string w;
    Known k;
    while (is >> w)
    {
      if (w.rfind("property=", 0) == 0)
        k.property = w.substr(9);
      else if (w.rfind("key=", 0) == 0)
      {
        k.key = w.substr(4);
        std::getline(is, k.text);
        break;
      }
    }
    r.push_back(k);
  }
  return r;
}
}  // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
  const double t0 = now();
  std::string verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  int64_t only = -1;
  int nsh = int(std::max(1L, std::min(8L, sysconf(_SC_NPROCESSORS_ONLN))));
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc)
      tier = argv[++i];
    else if (a == "--only" && i + 1 < argc)
      only = atoll(argv[++i]);
    else if (a == "--shards" && i + 1 < argc)
      nsh = atoi(argv[++i]);
    else if (a == "--verbose")
      g_verbose = true;
  }
  Ctx proto;
  proto.thorough = tier == "thorough";
  proto.seed = seed;
  const std::string P = info.property;
  auto known = loadKnown(verif + "/known_findings.txt");

  struct Found
  {
    std::string key, msg, desc, path;
    int64_t idx;
    bool confirmed = false;
  };
  std::vector<Found> found;
  auto have = [&](const std::string& k) {
    for (auto& f : found)
      if (f.key == k)
        return true;
    return false;
  };
  auto isKnown = [&](const std::string& k) -> const Known* {
    for (auto& x : known)
      if (x.property == P && x.key == k)
        return &x;
    return nullptr;
  };

  // runs one item alone; returns the failures it shows
  auto replay = [&](int64_t idx) {
    std::vector<Child> one(1);
    one[0].sh = newShared();
    Ctx c = proto;
    c.only = idx;
    c.replaying = true;
    spawn(one[0], c);
    waitAny(one, info.watchdog_s * 3);
    std::vector<Found> r;
    Shared* s = one[0].sh;
    for (int i = 0; i < s->nfind; ++i)
      r.push_back({ s->find[i].key, s->find[i].msg, s->find[i].desc, s->find[i].path, idx });
    int ec = WIFEXITED(one[0].status) ? WEXITSTATUS(one[0].status) : -1;
    if (!s->done && ec != 77 && ec != 78 && ec != 79)
    {
      std::string m;
      std::string k = crashKey(one[0], m);
      r.push_back({ k, m, s->desc, pathStr(s), idx });
    }
    munmap(s, sizeof(Shared));
    return r;
  };

  if (only >= 0)
  {
    auto r = replay(only);
    for (auto& f : r)
      std::printf("FAIL key=%s\n  item #%" PRId64 ": %s\n  path: %s\n  %s\n", f.key.c_str(), only, f.desc.c_str(), f.path.c_str(),
                  f.msg.c_str());
    if (r.empty())
      std::printf("item #%" PRId64 ": no failure\n", only);
    return r.empty() ? 0 : 1;
  }

  std::vector<Child> cs(static_cast<size_t>(nsh));
  std::vector<int> crashes(static_cast<size_t>(nsh), 0);
  for (int i = 0; i < nsh; ++i)
  {
    cs[size_t(i)].sh = newShared();
    Ctx c = proto;
    c.shard = i;
    c.nshards = nsh;
    spawn(cs[size_t(i)], c);
  }
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  uint64_t total_items = 0;
  bool complete = true, harness_error = false;
  std::string herr;
  for (;;)
  {
    int k = waitAny(cs, info.watchdog_s);
    if (k < 0)
      break;
    Child& c = cs[size_t(k)];
    if (WIFEXITED(c.status) && WEXITSTATUS(c.status) == 0 && c.sh->done)
    {
      size_t o = 0;
      const std::string& b = c.databuf;
      auto g64 = [&]() {
        uint64_t v = 0;
        if (o + 8 <= b.size())
          std::memcpy(&v, b.data() + o, 8);
        o += 8;
        return v;
      };
      for (uint64_t n = g64(); n--;)
        states.insert(g64());
      for (uint64_t n = g64(); n--;)
        outcomes.insert(g64());
      for (uint64_t n = g64(); n--;)
      {
        uint64_t l = g64();
        std::string nm = b.substr(o, l);
        o += l;
        counters[nm] += g64();
      }
      for (uint64_t n = g64(); n--;)
      {
        uint64_t l = g64();
        samples.push_back(b.substr(o, l));
        o += l;
      }
      total_items = g64();
      continue;
    }
    int ec = WIFEXITED(c.status) ? WEXITSTATUS(c.status) : -1;
    if (ec == 77 || ec == 78 || ec == 79 || c.sh->cur < 0)
    {
      harness_error = true;
      herr = c.errtail;
      complete = false;
      continue;
    }
    std::string msg;
    std::string key = crashKey(c, msg);
    if (!have(key))
      found.push_back({ key, msg, "", pathStr(c.sh), c.sh->cur });
    if (++crashes[size_t(k)] < 4)
    {
      Ctx p = proto;
      p.shard = k;
      p.nshards = nsh;
      p.start = c.sh->cur + 1;
      spawn(c, p);
    }
    else
      complete = false;
  }
  uint64_t items = 0, trans = 0, traces = 0;
  for (auto& c : cs)
  {
    items += c.sh->items;
    trans += c.sh->transitions;
    traces += c.sh->traces;
    for (int i = 0; i < c.sh->nfind; ++i)
    {
      Finding& f = c.sh->find[i];
      bool merged = false;
      for (auto& g : found)
        if (g.key == f.key)
        {
          merged = true;
          if (f.idx < g.idx)
            g = { f.key, f.msg, f.desc, f.path, f.idx };
        }
      if (!merged)
        found.push_back({ f.key, f.msg, f.desc, f.path, f.idx });
    }
  }
  // replay before report
  int violations = 0, knowncount = 0;
  bool unconfirmed = false;
  std::string rdir = verif + "/replays";
  for (auto& f : found)
  {
    auto r = replay(f.idx);
    for (auto& g : r)
      if (g.key == f.key)
      {
        f.confirmed = true;
        f.desc = g.desc;
        f.msg = g.msg;
        f.path = g.path;
      }
    if (!f.confirmed && !r.empty())
    {
      f.confirmed = true;
      f = r[0];
      f.confirmed = true;
    }
    if (!f.confirmed)
    {
      unconfirmed = true;
      std::printf("UNCONFIRMED property=%s key=%s item=%" PRId64 " (%s)\n", P.c_str(), f.key.c_str(), f.idx, f.msg.c_str());
      continue;
    }
    if (const Known* kn = isKnown(f.key))
    {
      std::printf("KNOWN-FINDING: property=%s %s%s\n", P.c_str(), f.key.c_str(), kn->text.c_str());
      ++knowncount;
      continue;
    }
    ++violations;
    mkdir(rdir.c_str(), 0755);
    std::string safe = f.key.substr(0, 60);
    for (auto& ch : safe)
      if (!isalnum(static_cast<unsigned char>(ch)) && ch != '-' && ch != '_')
        ch = '_';
    std::string rp = rdir + "/" + P + "." + safe + ".txt";
    std::ofstream o(rp);
    o << "property: " << P << "\nkey: " << f.key << "\ntier: " << tier << "\nitem: " << f.idx << "\ncase: " << f.desc
      << "\nchoice path: " << f.path << "\n\n"
      << f.msg << "\n\nreplay: bash " << verif << "/run.sh " << P << " " << tier << " --only " << f.idx << "\n";
    o.close();
    std::printf("VIOLATION property=%s replay=%s\n", P.c_str(), rp.c_str());
    std::printf("  %s: item #%" PRId64 " %s\n  %s\n", f.key.c_str(), f.idx, f.desc.substr(0, 700).c_str(), f.msg.substr(0, 1200).c_str());
  }
  // evidence
  std::ostringstream ev;
  std::string level = info.level;
  ev << "{\n  \"property\": " << jstr(P) << ",\n  \"tier\": " << jstr(tier) << ",\n  \"seed\": " << seed << ",\n  \"level\": "
     << jstr(level) << ",\n  \"coverage\": {\n";
  if (level == "model_checking")
    ev << "    \"states\": " << states.size() << ",\n    \"transitions\": " << trans
       << ",\n    \"traces_validated_against_impl\": " << traces << ",\n";
  else
    ev << "    \"evaluations\": " << (traces ? traces : items) << ",\n    \"distinct_nontrivial\": " << states.size()
       << ",\n    \"operations\": " << trans << ",\n";
  ev << "    \"rule\": " << jstr(info.rule) << ",\n";
  ev << "    \"items\": " << items << ",\n    \"distinct_outcomes\": " << outcomes.size() << ",\n";
  ev << "    \"exhaustive\": " << (complete && !harness_error ? "true" : "false") << ",\n";
  for (auto& kv : counters)
    ev << "    " << jstr(kv.first) << ": " << kv.second << ",\n";
  ev << "    \"samples\": [";
  for (size_t i = 0; i < samples.size() && i < 12; ++i)
    ev << (i ? ",\n      " : "\n      ") << jstr(samples[i].substr(0, 900));
  ev << "]\n  },\n  \"assumptions\": [";
  for (size_t i = 0; i < info.assumptions.size(); ++i)
    ev << (i ? ",\n    " : "\n    ") << jstr(info.assumptions[i]);
  ev << "],\n  \"violations\": " << violations << ",\n  \"known_findings\": " << knowncount << ",\n  \"wall_s\": " << (now() - t0)
     << "\n}\n";
  mkdir((verif + "/evidence").c_str(), 0755);
  {
    std::ofstream o(verif + "/evidence/" + P + ".json");
    o << ev.str();
  }
  std::printf("%s %s: items=%" PRIu64 "/%" PRIu64 " states=%zu transitions=%" PRIu64 " executions=%" PRIu64
              " outcomes=%zu violations=%d known=%d wall=%.1fs%s\n",
              P.c_str(), tier.c_str(), items, total_items, states.size(), trans, traces, outcomes.size(), violations, knowncount,
              now() - t0, complete ? "" : " (incomplete)");
  for (auto& kv : counters)
    std::printf("   %s=%" PRIu64 "\n", kv.first.c_str(), kv.second);
  if (violations)
    return 1;
  if (harness_error)
  {
    std::printf("HARNESS-ERROR %s\n", herr.substr(0, 2000).c_str());
    return 2;
  }
  if (unconfirmed)
    return 2;
  // A known finding may end an item early; every other item was executed.
  return 0;
}
