// simd: deterministic whole-system simulator for the mnml interpreter.
//
// The real mnml executable (and its real .so modules, the real libc on top of them) runs as one or more traced
// processes.  Every system call that touches the outside world is intercepted (PTRACE_SYSEMU), never reaches the host
// kernel and is answered by the kernel model below.  Exactly one traced process runs at a time, and only between two
// system calls; which pending system call completes next, how much it transfers, which fault it meets and when signals,
// network segments and external parties act is decided by one seeded generator.  One seed (or one explicit choice list)
// is one exactly repeatable execution.
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace std;
typedef uint64_t u64;
typedef int64_t i64;

static void
die(const char* fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "simd: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  exit(70);
}

// ---------------------------------------------------------------- job
struct FaultCfg
{
  int p = 0;       // probability per 10000
  int max = 1 << 30;
  int window = 0;  // 1: only while armed
  string only;     // substring filter on the object's name
  vector<int> nth; // if set: fire exactly at these occurrences (1-based) of this fault point
  int fired = 0, seen = 0;
};
struct ActorOp
{
  string op;
  vector<string> a;
  string data;
};
struct ActorCfg
{
  string name;
  vector<ActorOp> ops;
};
struct FileCfg
{
  string path, kind, data, host;
  int mode;
};
struct Job
{
  u64 seed = 1;
  bool replay = false;
  map<u64, u64> choices;
  map<string, i64> knob;
  map<string, FaultCfg> fault;
  vector<string> argv, env;
  vector<FileCfg> files;
  vector<ActorCfg> actors;
  map<int, vector<string>> stdfd; // fd -> kind, params
  string cwd = "/work", exe;
  bool trace = false;
  i64 k(const char* n, i64 d) const
  {
    auto i = knob.find(n);
    return i == knob.end() ? d : i->second;
  }
};

// ---------------------------------------------------------------- kernel objects
struct Inode
{
  enum T
  {
    REG,
    DIR,
    NUL,
    PROG,
    HOST
  } t = REG;
  string data, host, spec;
  int mode = 0644;
  u64 ino = 0;
  int nlink = 1;
};
typedef shared_ptr<Inode> InodeP;

struct Pipe
{
  string buf;
  size_t cap = 65536;
  int r = 0, w = 0;
  string name;
  u64 total_in = 0, total_out = 0;
};
typedef shared_ptr<Pipe> PipeP;

struct Seg
{
  int k; // 0 data 1 fin 2 rst
  string d;
};
struct Sock
{
  enum S
  {
    NEW,
    BOUND,
    LISTEN,
    CONN,
    CLOSED
  } s = NEW;
  int id = 0;
  int lport = 0, rport = 0;
  uint32_t laddr = 0, raddr = 0;
  size_t backlog = 0;
  deque<shared_ptr<Sock>> acceptq;
  weak_ptr<Sock> peer;
  deque<Seg> inflight; // towards this endpoint
  string rbuf;
  bool rd_fin = false, rst = false, wr_closed = false, rd_closed = false, gone = false;
  bool reuse = false, nonblock = false;
  u64 rx = 0, tx = 0;
  size_t inflight_bytes() const
  {
    size_t n = 0;
    for (auto& s : inflight)
      n += s.d.size();
    return n;
  }
};
typedef shared_ptr<Sock> SockP;

struct SinkSeg
{
  u64 step;
  int pid;
  string d;
};
struct Sink
{
  string name;
  vector<SinkSeg> segs;
  string all;
};

struct OFD
{
  enum K
  {
    FILE_,
    DIR_,
    PIPER,
    PIPEW,
    SOCK,
    NUL,
    SINK,
    HOST,
    TTYIN
  } k = NUL;
  InodeP ino;
  string path;
  size_t off = 0;
  int flags = 0;
  PipeP pipe;
  SockP sock;
  Sink* sink = nullptr;
  int realfd = -1;
  vector<pair<string, InodeP>> dents;
  size_t dpos = 0;
  int refs = 0;
  bool tty = false;
};

struct FdEnt
{
  OFD* o = nullptr;
  bool cloexec = false;
};

struct Disp
{
  int h = 0; // 0 default 1 ignore 2 handler
  u64 flags = 0;
};
struct Proc
{
  int rpid = 0, pid = 0, ppid = 0, idx = 0;
  map<int, FdEnt> fds;
  string cwd;
  Disp disp[65];
  u64 mask = 0;
  deque<int> pend;
  enum ST
  {
    PENDING,
    ZOMBIE,
    REAPED
  } st = PENDING;
  int status = 0;
  struct user_regs_struct r;
  size_t wr_done = 0;
  i64 deadline = -1;
  bool entered = false; // pending blocking syscall has already been tried once
  string prog, exec_spec;
  u64 born = 0, died = 0;
  int reaped_by = 0;
  string exit_fds;
  int nofile = 1024;
  u64 brk0 = 0, brk = 0; // the C heap
  i64 mapped = 0;       // anonymous memory
  int umask_ = 022;
  vector<string> argv, envp;
  bool uninterruptible_fatal = false;
};

static Job J;
static map<string, InodeP> FS;
static vector<Proc*> P;
static vector<Sink*> sinks;
static vector<OFD*> all_ofds;
static u64 step_, rng_, nchoice, hash_, now_us, wall_off_us_base;
static i64 wall_jump;
static u64 nextino;
static int nextpid, nextsock, nexteph;
static map<u64, u64> used_choices;
static map<string, u64> fired, seen;
static vector<string> faultlog, marks, siglog, actlog, tracelog, notes;
static bool armed;
static int last_proc;
static set<u64> sched_states;
static vector<SockP> conns; // endpoints (for delivery)
static map<int, vector<SockP>> listeners;
static int sim_error;
static string sim_error_msg;
static u64 maxcand, nmulti, nsched, interleave_hash;
static u64 nsyscalls;

static u64
rnd()
{
  u64 z = (rng_ += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static void
mix(u64 v)
{
  hash_ ^= v + 0x9e3779b97f4a7c15ULL + (hash_ << 6) + (hash_ >> 2);
  hash_ *= 0x100000001b3ULL;
}
static void
mixs(const string& s)
{
  u64 h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 0x100000001b3ULL;
  }
  mix(h);
  mix(s.size());
}

// ---------------------------------------------------------------- json output
static string
jstr(const string& s)
{
  string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o + "\"";
}
static string
fmt(const char* f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static string
jarr(const vector<string>& v)
{
  string o = "[";
  for (size_t i = 0; i < v.size(); i++)
    o += (i ? "," : "") + v[i];
  return o + "]";
}
static void
trace(const string& s)
{
  if (J.trace)
    tracelog.push_back(jstr(fmt("%lu ", step_) + s));
}

// ---------------------------------------------------------------- choices
// choose(): value 0 is always the benign default.  In random mode a non-zero value is drawn with probability p/10000.
static u64
choose(const char* kind, u64 n, int p)
{
  u64 idx = nchoice++;
  u64 v = 0;
  if (n <= 1)
    return 0;
  if (J.replay) {
    auto i = J.choices.find(idx);
    if (i != J.choices.end())
      v = i->second < n ? i->second : 0;
  } else if (p > 0 && (int)(rnd() % 10000) < p)
    v = 1 + rnd() % (n - 1);
  if (v) {
    used_choices[idx] = v;
    fired[kind]++;
  }
  return v;
}

static int
fault(const char* kind, const string& obj, const vector<int>& errs, Proc* p)
{
  auto i = J.fault.find(kind);
  if (i == J.fault.end())
    return 0;
  FaultCfg& c = i->second;
  if (c.window && !armed)
    return 0;
  if (!c.only.empty() && obj.find(c.only) == string::npos)
    return 0;
  c.seen++;
  int e = 0;
  if (!c.nth.empty()) {
    u64 idx = nchoice++;
    (void)idx;
    if (find(c.nth.begin(), c.nth.end(), c.seen) != c.nth.end()) {
      e = errs[(size_t)c.seen % errs.size()];
      fired[kind]++;
    }
  } else {
    if (c.fired >= c.max) {
      nchoice++;
      return 0;
    }
    u64 v = choose(kind, errs.size() + 1, c.p);
    if (v)
      e = errs[v - 1];
  }
  if (e) {
    c.fired++;
    faultlog.push_back(fmt("[%s,%lu,%d,%d,", jstr(kind).c_str(), step_, p ? p->pid : 0, e) + jstr(obj) + "]");
    trace(fmt("FAULT %s errno=%d obj=%s", kind, e, obj.c_str()));
    mix(e);
  }
  return e;
}

// ---------------------------------------------------------------- fs
static string
norm(const string& cwd, const string& path)
{
  string full = path.empty() ? cwd : path[0] == '/' ? path : cwd + "/" + path;
  vector<string> comp;
  size_t i = 0;
  while (i < full.size()) {
    size_t j = full.find('/', i);
    if (j == string::npos)
      j = full.size();
    string c = full.substr(i, j - i);
    if (c == "..") {
      if (!comp.empty())
        comp.pop_back();
    } else if (!c.empty() && c != ".")
      comp.push_back(c);
    i = j + 1;
  }
  string o;
  for (auto& c : comp)
    o += "/" + c;
  return o.empty() ? "/" : o;
}
static string
dirn(const string& p)
{
  size_t i = p.rfind('/');
  return i == 0 ? "/" : p.substr(0, i);
}
static InodeP
lookup(const string& p)
{
  auto i = FS.find(p);
  return i == FS.end() ? nullptr : i->second;
}
static InodeP
addnode(const string& p, Inode::T t, int mode)
{
  if (p != "/") {
    string d = dirn(p);
    if (!lookup(d))
      addnode(d, Inode::DIR, 0755);
  }
  InodeP n = make_shared<Inode>();
  n->t = t;
  n->mode = mode;
  n->ino = nextino++;
  FS[p] = n;
  return n;
}
static map<string, string> hostcache;
static const string*
hostread(const string& path)
{
  auto i = hostcache.find(path);
  if (i != hostcache.end())
    return &i->second;
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0)
    return nullptr;
  string s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0)
    s.append(b, n);
  close(fd);
  return &(hostcache[path] = s);
}
// System libraries are visible read-only: they are needed by the dynamic loader only.
static InodeP
lookup_sys(const string& p)
{
  InodeP n = lookup(p);
  if (n)
    return n;
  if (p.rfind("/lib/", 0) == 0 || p.rfind("/lib64/", 0) == 0 || p.rfind("/usr/lib/", 0) == 0) {
    struct stat ss;
    if (p.find("glibc-hwcaps") == string::npos && stat(p.c_str(), &ss) == 0 && S_ISREG(ss.st_mode)) {
      n = make_shared<Inode>();
      n->t = Inode::HOST;
      n->host = p;
      n->mode = 0755;
      n->ino = 1000000 + ss.st_ino;
      return n;
    }
  }
  return nullptr;
}

// ---------------------------------------------------------------- ofd / fd helpers
static OFD*
mkofd(OFD::K k)
{
  OFD* o = new OFD;
  o->k = k;
  all_ofds.push_back(o);
  return o;
}
static string
oname(OFD* o)
{
  switch (o->k) {
    case OFD::FILE_:
    case OFD::DIR_:
    case OFD::HOST:
      return o->path;
    case OFD::PIPER:
      return "pipe:r:" + o->pipe->name;
    case OFD::PIPEW:
      return "pipe:w:" + o->pipe->name;
    case OFD::SOCK:
      return fmt("sock:%d", o->sock->id);
    case OFD::NUL:
      return "null";
    case OFD::SINK:
      return "sink:" + o->sink->name;
    case OFD::TTYIN:
      return "tty";
  }
  return "?";
}
static void
sock_close(SockP s)
{
  s->gone = true;
  if (s->s == Sock::LISTEN) {
    auto& v = listeners[s->lport];
    v.erase(remove(v.begin(), v.end(), s), v.end());
    for (auto& q : s->acceptq) {
      SockP pr = q->peer.lock();
      if (pr) {
        pr->inflight.push_back({ 2, "" });
      }
      q->gone = true;
    }
    s->acceptq.clear();
  } else if (s->s == Sock::CONN) {
    SockP pr = s->peer.lock();
    if (pr) {
      bool unread = !s->rbuf.empty() || s->inflight_bytes() > 0;
      if (unread && J.k("tcp_rst_on_unread", 1))
        pr->inflight.push_back({ 2, "" });
      else if (!s->wr_closed)
        pr->inflight.push_back({ 1, "" });
    }
  } else if (s->s == Sock::BOUND) {
    auto& v = listeners[s->lport];
    v.erase(remove(v.begin(), v.end(), s), v.end());
  }
  s->s = Sock::CLOSED;
}
static void
ofd_unref(OFD* o)
{
  if (--o->refs > 0)
    return;
  if (o->k == OFD::PIPER)
    o->pipe->r--;
  if (o->k == OFD::PIPEW)
    o->pipe->w--;
  if (o->k == OFD::SOCK)
    sock_close(o->sock);
}
static int
fd_alloc(Proc* p, OFD* o, int min, bool cloexec)
{
  int fd = min;
  while (p->fds.count(fd))
    fd++;
  if (fd >= p->nofile)
    return -EMFILE;
  o->refs++;
  p->fds[fd] = { o, cloexec };
  return fd;
}
static OFD*
getfd(Proc* p, int fd)
{
  auto i = p->fds.find(fd);
  return i == p->fds.end() ? nullptr : i->second.o;
}
static string
fdsnap(Proc* p)
{
  string o = "{";
  bool f = true;
  for (auto& e : p->fds) {
    o += (f ? "" : ",") + fmt("\"%d\":", e.first) + jstr(oname(e.second.o));
    f = false;
  }
  return o + "}";
}

// ---------------------------------------------------------------- tracee memory
static bool
rdmem(Proc* p, u64 a, void* b, size_t n)
{
  if (!n)
    return true;
  struct iovec l = { b, n }, m = { (void*)a, n };
  return process_vm_readv(p->rpid, &l, 1, &m, 1, 0) == (ssize_t)n;
}
static bool
wrmem(Proc* p, u64 a, const void* b, size_t n)
{
  if (!n)
    return true;
  struct iovec l = { (void*)b, n }, m = { (void*)a, n };
  return process_vm_writev(p->rpid, &l, 1, &m, 1, 0) == (ssize_t)n;
}
static bool
rdstr(Proc* p, u64 a, string& o)
{
  o.clear();
  for (;;) {
    size_t n = 4096 - (a & 4095);
    char b[4096];
    if (!rdmem(p, a, b, n))
      return false;
    char* z = (char*)memchr(b, 0, n);
    if (z) {
      o.append(b, z - b);
      return true;
    }
    o.append(b, n);
    a += n;
    if (o.size() > 65536)
      return false;
  }
}

// the path at a: 0, or the error the system reports for it
static int
rdpath(Proc* p, u64 a, string& o)
{
  if (!rdstr(p, a, o))
    return EFAULT;
  if (o.empty())
    return ENOENT;
  if (o.size() > 4095)
    return ENAMETOOLONG;
  size_t n = 0;
  for (char c : o) {
    n = c == '/' ? 0 : n + 1;
    if (n > 255)
      return ENAMETOOLONG;
  }
  return 0;
}

// ---------------------------------------------------------------- ptrace plumbing
static volatile sig_atomic_t ticks;
static void
onalrm(int)
{
  ticks++;
}
static u64
cpu_ms(int rpid)
{
  char b[64];
  snprintf(b, 64, "/proc/%d/stat", rpid);
  FILE* f = fopen(b, "re");
  if (!f)
    return 0;
  char s[2048];
  size_t n = fread(s, 1, sizeof s - 1, f);
  s[n] = 0;
  fclose(f);
  char* q = strrchr(s, ')');
  if (!q)
    return 0;
  unsigned long ut = 0, st = 0;
  sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
  return (ut + st) * 1000 / sysconf(_SC_CLK_TCK);
}
enum WR
{
  WT_OK,
  WT_SPIN
};
static WR
waitstop(int rpid, int* st)
{
  u64 c0 = 0;
  bool have = false;
  for (;;) {
    int r = waitpid(rpid, st, __WALL);
    if (r == rpid)
      return WT_OK;
    if (r < 0 && errno == EINTR) {
      u64 c = cpu_ms(rpid);
      if (!have) {
        c0 = c;
        have = true;
      }
      if (c - c0 > (u64)J.k("spin_ms", 4000))
        return WT_SPIN;
      continue;
    }
    die("waitpid(%d): %s", rpid, strerror(errno));
  }
}
static void
hardkill(Proc* p)
{
  if (!p->rpid)
    return;
  kill(p->rpid, SIGKILL);
  int st;
  for (;;) {
    int r = waitpid(p->rpid, &st, __WALL);
    if (r < 0 && errno == EINTR)
      continue;
    if (r < 0 || WIFEXITED(st) || WIFSIGNALED(st))
      break;
  }
  p->rpid = 0;
}

static void
proc_die(Proc* p, int status)
{
  if (p->st != Proc::PENDING)
    return;
  p->exit_fds = fdsnap(p);
  p->st = Proc::ZOMBIE;
  p->status = status;
  p->died = step_;
  trace(fmt("pid %d dies status=0x%x", p->pid, status));
  mix(0xdead0000 + p->pid);
  mix(status);
  hardkill(p);
  for (auto& e : p->fds)
    ofd_unref(e.second.o);
  p->fds.clear();
  for (auto q : P)
    if (q->ppid == p->pid) {
      q->ppid = 1;
      if (q->st == Proc::ZOMBIE) {
        q->st = Proc::REAPED;
        q->reaped_by = 1;
      }
    }
  Proc* par = nullptr;
  for (auto q : P)
    if (q->pid == p->ppid && q->st == Proc::PENDING)
      par = q;
  if (!par) {
    p->st = Proc::REAPED;
    p->reaped_by = 1;
  } else {
    if (par->disp[SIGCHLD].h == 1) {
      p->st = Proc::REAPED;
      p->reaped_by = par->pid;
    } else if (par->disp[SIGCHLD].h == 2)
      par->pend.push_back(SIGCHLD);
  }
}

static bool
fatal_default(int sig)
{
  return !(sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH || sig == SIGCONT || sig == SIGSTOP || sig == SIGTSTP ||
           sig == SIGTTIN || sig == SIGTTOU);
}
static bool
core_sig(int sig)
{
  return sig == SIGQUIT || sig == SIGABRT || sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGILL;
}
// Generate a signal for p.  Fatal ones take effect when p is next on its way to user mode (see deliver()).
static void
post_signal(Proc* p, int sig, const char* from)
{
  if (p->st != Proc::PENDING || sig == 0)
    return;
  siglog.push_back(fmt("[%lu,%d,%d,%d,", step_, p->pid, sig, sig == SIGKILL ? 0 : p->disp[sig].h) + jstr(from) + "]");
  trace(fmt("signal %d posted to pid %d from %s", sig, p->pid, from));
  mix(0x516000 + sig);
  mix(p->pid);
  if (sig == SIGKILL) {
    proc_die(p, SIGKILL);
    return;
  }
  if (p->disp[sig].h == 1)
    return;
  if (p->disp[sig].h == 0 && !fatal_default(sig))
    return;
  if (p->disp[sig].h == 0 && !((p->mask >> (sig - 1)) & 1)) {
    proc_die(p, sig);
    return;
  }
  if (find(p->pend.begin(), p->pend.end(), sig) == p->pend.end())
    p->pend.push_back(sig);
}
static int
next_signal(Proc* p)
{
  for (auto i = p->pend.begin(); i != p->pend.end(); ++i)
    if (!((p->mask >> (*i - 1)) & 1)) {
      int s = *i;
      p->pend.erase(i);
      return s;
    }
  return 0;
}
static bool
has_signal(Proc* p)
{
  for (int s : p->pend)
    if (!((p->mask >> (s - 1)) & 1))
      return true;
  return false;
}

static void
setregs(Proc* p)
{
  if (ptrace(PTRACE_SETREGS, p->rpid, 0, &p->r))
    die("SETREGS %s", strerror(errno));
}
static void
getregs(Proc* p)
{
  if (ptrace(PTRACE_GETREGS, p->rpid, 0, &p->r))
    die("GETREGS %s", strerror(errno));
}

static void
unmodelled(const string& s)
{
  notes.push_back(jstr("unmodelled: " + s));
}

// Let the pending system call really execute (memory management, real file descriptors of mapped libraries, fork, exec).
// On return p->r holds the registers after it; false if the process is gone.
static bool
passthrough(Proc* p, int* newpid = nullptr)
{
  p->r.rip -= 2;
  p->r.rax = p->r.orig_rax;
  setregs(p);
  int st, phase = 0;
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, p->rpid, 0, 0))
      die("PTRACE_SYSCALL %s", strerror(errno));
  again:
    if (waitstop(p->rpid, &st) != WT_OK)
      die("spin in passthrough");
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      p->rpid = 0;
      return false;
    }
    int sg = WSTOPSIG(st);
    if (sg == (SIGTRAP | 0x80)) {
      // The exit of the skipped call is reported first, then the real entry, then the real exit.
      struct __ptrace_syscall_info si;
      memset(&si, 0, sizeof si);
      if (ptrace(PTRACE_GET_SYSCALL_INFO, p->rpid, sizeof si, &si) < 0)
        die("GET_SYSCALL_INFO: %s", strerror(errno));
      if (si.op == PTRACE_SYSCALL_INFO_ENTRY)
        phase = 1;
      else if (si.op == PTRACE_SYSCALL_INFO_EXIT && phase == 1)
        break;
      continue;
    }
    int ev = st >> 16;
    if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_VFORK) {
      unsigned long m = 0;
      ptrace(PTRACE_GETEVENTMSG, p->rpid, 0, &m);
      if (newpid)
        *newpid = (int)m;
      continue;
    }
    if (ev == PTRACE_EVENT_EXEC)
      continue;
    if (phase == 0) {
      // a stray signal before the syscall restarted: swallow
      ptrace(PTRACE_SYSCALL, p->rpid, 0, 0);
      goto again;
    }
  }
  getregs(p);
  return true;
}

static bool run_to_syscall(Proc* p, int sig);

// ---------------------------------------------------------------- clock
static void
advance(u64 us)
{
  now_us += us;
}
static i64
wall_us()
{
  return (i64)wall_off_us_base + (i64)now_us + wall_jump;
}

// ---------------------------------------------------------------- local (non scheduling) syscalls
enum LR
{
  L_NOT,   // not local
  L_VALUE, // result in ret
  L_DONE,  // registers are final
  L_GONE
};
static LR
local_syscall(Proc* p, i64& ret)
{
  auto& r = p->r;
  switch ((long)r.orig_rax) {
    case SYS_brk:
    case SYS_munmap:
    case SYS_mremap: {
      long nr = (long)r.orig_rax;
      u64 old = r.rsi, len = r.rdx;
      if (!passthrough(p))
        return L_GONE;
      if (nr == SYS_brk) {
        if (!p->brk0)
          p->brk0 = r.rax;
        p->brk = r.rax;
      } else if ((i64)r.rax >= 0 || (i64)r.rax < -4095)
        p->mapped += nr == SYS_munmap ? -(i64)old : (i64)len - (i64)old;
      return L_DONE;
    }
    case SYS_madvise:
    case SYS_arch_prctl:
    case SYS_rt_sigreturn:
    case SYS_sigaltstack:
      return passthrough(p) ? L_DONE : L_GONE;
    case SYS_futex: {
      // A single thread that waits on a lock waits for itself.
      int op = (int)r.rsi & 127;
      unsigned v = 0;
      if ((op == 0 || op == 9) && r.r10 == 0 && rdmem(p, r.rdi, &v, 4) && v == (unsigned)r.rdx)
        return L_NOT;
      return passthrough(p) ? L_DONE : L_GONE;
    }
    case SYS_mprotect: {
      if (r.rdx == 3 && r.rsi >= 65536) {
        int e = fault("mprotect", fmt("%llu", r.rsi), { ENOMEM }, p);
        if (e) {
          ret = -e;
          return L_VALUE;
        }
      }
      return passthrough(p) ? L_DONE : L_GONE;
    }
    case SYS_mmap: {
      int fd = (int)r.r8;
      if (fd < 0 || (r.r10 & 0x20)) {
        if (r.rsi >= (1 << 24)) {
          int e = fault("mmap", fmt("%llu", r.rsi), { ENOMEM }, p);
          if (e) {
            ret = -e;
            return L_VALUE;
          }
        }
        i64 len = r.rsi;
        if (!passthrough(p))
          return L_GONE;
        if ((i64)r.rax >= 0 || (i64)r.rax < -4095)
          p->mapped += len;
        return L_DONE;
      }
      OFD* o = getfd(p, fd);
      if (!o) {
        ret = -EBADF;
        return L_VALUE;
      }
      if (o->k != OFD::HOST || o->realfd < 0) {
        unmodelled("mmap of a simulated file");
        ret = -ENODEV;
        return L_VALUE;
      }
      u64 save = r.r8;
      p->r.r8 = (u64)o->realfd;
      if (!passthrough(p))
        return L_GONE;
      p->r.r8 = save;
      return L_DONE;
    }
    case SYS_rt_sigaction: {
      int sig = (int)r.rdi;
      if (r.rsi && sig > 0 && sig < 65) {
        u64 k[2];
        if (rdmem(p, r.rsi, k, 16)) {
          p->disp[sig].h = k[0] == 0 ? 0 : k[0] == 1 ? 1 : 2;
          p->disp[sig].flags = k[1];
          if (p->disp[sig].h == 1)
            p->pend.erase(remove(p->pend.begin(), p->pend.end(), sig), p->pend.end());
          trace(fmt("pid %d sigaction %d -> %d flags %lx", p->pid, sig, p->disp[sig].h, k[1]));
        }
      }
      return passthrough(p) ? L_DONE : L_GONE;
    }
    case SYS_rt_sigprocmask: {
      u64 set;
      if (r.rsi && rdmem(p, r.rsi, &set, 8)) {
        if (r.rdi == SIG_BLOCK)
          p->mask |= set;
        else if (r.rdi == SIG_UNBLOCK)
          p->mask &= ~set;
        else
          p->mask = set;
      }
      return passthrough(p) ? L_DONE : L_GONE;
    }
    case SYS_set_tid_address:
      ret = p->pid;
      return L_VALUE;
    case SYS_set_robust_list:
      ret = 0;
      return L_VALUE;
    case SYS_rseq:
    case SYS_clone3:
    case SYS_membarrier:
    case SYS_statx:
      ret = -ENOSYS;
      return L_VALUE;
    case SYS_prlimit64:
    case SYS_getrlimit: {
      u64 out = r.orig_rax == SYS_prlimit64 ? r.r10 : r.rsi;
      int res = r.orig_rax == SYS_prlimit64 ? (int)r.rsi : (int)r.rdi;
      u64 lim[2] = { 8u << 20, ~0ull };
      if (res == RLIMIT_NOFILE)
        lim[0] = lim[1] = p->nofile;
      if (out)
        wrmem(p, out, lim, 16);
      ret = 0;
      return L_VALUE;
    }
    case SYS_getrandom: {
      string b;
      u64 z = 0x1234567 + nsyscalls;
      for (u64 i = 0; i < r.rsi && i < 4096; i++)
        b += (char)((z = z * 6364136223846793005ULL + 1) >> 33);
      wrmem(p, r.rdi, b.data(), b.size());
      ret = b.size();
      return L_VALUE;
    }
    case SYS_getpid:
    case SYS_gettid:
      ret = p->pid;
      return L_VALUE;
    case SYS_getppid:
      ret = p->ppid;
      return L_VALUE;
    case SYS_getpgrp:
    case SYS_getpgid:
    case SYS_getsid:
    case SYS_setsid:
    case SYS_setpgid:
      ret = P[0]->pid;
      return L_VALUE;
    case SYS_getuid:
    case SYS_geteuid:
    case SYS_getgid:
    case SYS_getegid:
      ret = 1000;
      return L_VALUE;
    case SYS_sched_yield:
    case SYS_sched_getaffinity:
      ret = 0;
      return L_VALUE;
    case SYS_umask:
      ret = p->umask_;
      p->umask_ = r.rdi & 0777;
      return L_VALUE;
    case SYS_uname: {
      char u[390];
      memset(u, 0, sizeof u);
      strcpy(u, "Linux");
      strcpy(u + 65, "sim");
      strcpy(u + 130, "6.0.0");
      strcpy(u + 195, "#1");
      strcpy(u + 260, "x86_64");
      wrmem(p, r.rdi, u, sizeof u);
      ret = 0;
      return L_VALUE;
    }
    case SYS_clock_getres: {
      i64 t[2] = { 0, 1 };
      if (r.rsi)
        wrmem(p, r.rsi, t, 16);
      ret = 0;
      return L_VALUE;
    }
  }
  return L_NOT;
}

// Resume p in user mode until it stops at its next scheduling-relevant syscall, or is gone.
static bool
run_to_syscall(Proc* p, int sig)
{
  for (;;) {
    if (ptrace(PTRACE_SYSEMU, p->rpid, 0, sig))
      die("SYSEMU pid %d: %s", p->rpid, strerror(errno));
    sig = 0;
    int st;
    if (waitstop(p->rpid, &st) == WT_SPIN) {
      sim_error = 2;
      sim_error_msg = fmt("pid %d (%s) spins without any system call", p->pid, p->prog.c_str());
      return false;
    }
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      p->rpid = 0;
      int code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) << 8;
      proc_die(p, code);
      return false;
    }
    int sg = WSTOPSIG(st);
    if (sg == (SIGTRAP | 0x80)) {
      getregs(p);
      nsyscalls++;
      i64 ret = 0;
      LR l = local_syscall(p, ret);
      if (l == L_GONE) {
        proc_die(p, SIGKILL);
        return false;
      }
      if (l == L_NOT) {
        p->wr_done = 0;
        p->deadline = -1;
        p->entered = false;
        return true;
      }
      if (l == L_VALUE) {
        p->r.rax = ret;
      }
      setregs(p);
      continue;
    }
    if ((st >> 16) != 0)
      continue; // ptrace event
    if (sg == SIGSTOP)
      continue;
    if (sg == SIGSEGV || sg == SIGBUS || sg == SIGFPE || sg == SIGILL || sg == SIGTRAP || sg == SIGSYS) {
      if (p->disp[sg].h == 2) {
        sig = sg;
        continue;
      }
      trace(fmt("pid %d real signal %d", p->pid, sg));
      proc_die(p, sg);
      return false;
    }
    // a simulated signal on its way to a handler
    trace(fmt("pid %d runs handler for %d", p->pid, sg));
    if (p->disp[sg].flags & 0x80000000ull)
      p->disp[sg].h = 0; // SA_RESETHAND
    sig = sg;
  }
}

// ---------------------------------------------------------------- process start / exec
static void
strip_vdso(Proc* p)
{
  getregs(p);
  u64 sp = p->r.rsp, argc = 0;
  rdmem(p, sp, &argc, 8);
  u64 a = sp + 8 + (argc + 1) * 8, v = 1;
  for (;;) {
    if (!rdmem(p, a, &v, 8))
      die("auxv walk");
    a += 8;
    if (!v)
      break;
  }
  for (;;) {
    u64 kv[2];
    if (!rdmem(p, a, kv, 16))
      die("auxv walk2");
    if (kv[0] == 0)
      break;
    if (kv[0] == 33) { // AT_SYSINFO_EHDR
      u64 one = 1;
      wrmem(p, a, &one, 8);
    }
    if (kv[0] == 25) { // AT_RANDOM: fixed bytes
      char z[16];
      for (int i = 0; i < 16; i++)
        z[i] = 17 * i + 3;
      wrmem(p, kv[1], z, 16);
    }
    a += 16;
  }
}
static Proc*
spawn_root()
{
  vector<char*> av, ev;
  for (auto& s : J.argv)
    av.push_back((char*)s.c_str());
  av.push_back(nullptr);
  for (auto& s : J.env)
    ev.push_back((char*)s.c_str());
  ev.push_back(nullptr);
  int pid = fork();
  if (pid < 0)
    die("fork: %s", strerror(errno));
  if (pid == 0) {
    personality(ADDR_NO_RANDOMIZE);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    rl = { 60, 60 };
    setrlimit(RLIMIT_CPU, &rl);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    for (int i = 1; i < 65; i++)
      sigaction(i, &sa, nullptr);
    sigset_t ss;
    sigemptyset(&ss);
    sigprocmask(SIG_SETMASK, &ss, nullptr);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_REAL, &it, nullptr);
    if (chdir("/"))
      _exit(71);
    // Real descriptors are never used by the traced program; point the standard ones at nothing.
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    dup2(n, 2);
    close_range(3, ~0u, 0);
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    execve(J.exe.c_str(), av.data(), ev.data());
    _exit(72);
  }
  int st;
  if (waitstop(pid, &st) != WT_OK || !WIFSTOPPED(st))
    die("root did not stop");
  if (ptrace(PTRACE_SETOPTIONS, pid, 0,
             PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACECLONE |
               PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC))
    die("SETOPTIONS: %s", strerror(errno));
  ptrace(PTRACE_CONT, pid, 0, 0);
  if (waitstop(pid, &st) != WT_OK || !WIFSTOPPED(st) || (st >> 16) != PTRACE_EVENT_EXEC)
    die("exec of %s failed (status %x)", J.exe.c_str(), st);
  Proc* p = new Proc;
  p->rpid = pid;
  p->pid = nextpid++;
  p->ppid = 1;
  p->idx = P.size();
  p->cwd = J.cwd;
  p->prog = J.exe;
  p->nofile = (int)J.k("nofile", 1024);
  P.push_back(p);
  strip_vdso(p);
  return p;
}

// ---------------------------------------------------------------- readiness
static bool
sock_readable(SockP s)
{
  if (s->s == Sock::LISTEN)
    return !s->acceptq.empty();
  if (s->s == Sock::CONN)
    return !s->rbuf.empty() || s->rd_fin || s->rst || s->rd_closed;
  return true;
}
static size_t
sock_space(SockP s)
{
  SockP pr = s->peer.lock();
  if (!pr)
    return 1 << 20;
  size_t cap = J.k("sockbuf", 65536), used = pr->rbuf.size() + pr->inflight_bytes();
  return used < cap ? cap - used : 0;
}
static bool
ofd_readable(OFD* o)
{
  switch (o->k) {
    case OFD::PIPER:
      return !o->pipe->buf.empty() || o->pipe->w == 0;
    case OFD::SOCK:
      return sock_readable(o->sock);
    default:
      return true;
  }
}
static bool
ofd_writable(OFD* o)
{
  switch (o->k) {
    case OFD::PIPEW:
      return o->pipe->r == 0 || o->pipe->buf.size() + 4096 <= o->pipe->cap;
    case OFD::SOCK:
      return o->sock->s != Sock::CONN || o->sock->rst || sock_space(o->sock) > 0;
    default:
      return true;
  }
}

struct SelState
{
  int n;
  vector<uint8_t> r, w, e;
  bool bad = false;
};
static bool
sel_eval(Proc* p, bool commit, int& count)
{
  auto& g = p->r;
  int n = (int)g.rdi;
  size_t bytes = ((n + 63) / 64) * 8;
  vector<uint8_t> r(bytes), w(bytes), e(bytes), ro(bytes), wo(bytes), eo(bytes);
  if (n < 0 || n > 1024) {
    count = -EINVAL;
    return true;
  }
  if (g.rsi)
    rdmem(p, g.rsi, r.data(), bytes);
  if (g.rdx)
    rdmem(p, g.rdx, w.data(), bytes);
  if (g.r10)
    rdmem(p, g.r10, e.data(), bytes);
  count = 0;
  for (int i = 0; i < n; i++) {
    auto bit = [&](vector<uint8_t>& v) { return (v[i / 8] >> (i % 8)) & 1; };
    if (!bit(r) && !bit(w) && !bit(e))
      continue;
    OFD* o = getfd(p, i);
    if (!o) {
      count = -EBADF;
      return true;
    }
    if (bit(r) && ofd_readable(o)) {
      ro[i / 8] |= 1 << (i % 8);
      count++;
    }
    if (bit(w) && ofd_writable(o)) {
      wo[i / 8] |= 1 << (i % 8);
      count++;
    }
  }
  if (commit) {
    if (g.rsi)
      wrmem(p, g.rsi, ro.data(), bytes);
    if (g.rdx)
      wrmem(p, g.rdx, wo.data(), bytes);
    if (g.r10)
      wrmem(p, g.r10, eo.data(), bytes);
  }
  return count > 0;
}
static int
poll_eval(Proc* p, bool commit)
{
  auto& g = p->r;
  int n = (int)g.rsi, c = 0;
  vector<struct pollfd> v(n);
  rdmem(p, g.rdi, v.data(), n * sizeof(struct pollfd));
  for (auto& f : v) {
    f.revents = 0;
    if (f.fd < 0)
      continue;
    OFD* o = getfd(p, f.fd);
    if (!o)
      f.revents = POLLNVAL;
    else {
      if ((f.events & POLLIN) && ofd_readable(o))
        f.revents |= POLLIN;
      if ((f.events & POLLOUT) && ofd_writable(o))
        f.revents |= POLLOUT;
      if (o->k == OFD::PIPER && o->pipe->w == 0)
        f.revents |= POLLHUP;
      if (o->k == OFD::PIPEW && o->pipe->r == 0)
        f.revents |= POLLERR;
      if (o->k == OFD::SOCK && o->sock->rst)
        f.revents |= POLLERR | POLLHUP;
    }
    if (f.revents)
      c++;
  }
  if (commit)
    wrmem(p, g.rdi, v.data(), n * sizeof(struct pollfd));
  return c;
}

static vector<Proc*>
children(Proc* p, int want)
{
  vector<Proc*> v;
  for (auto q : P)
    if (q->ppid == p->pid && q->st != Proc::REAPED && (want == -1 || want == 0 || want < -1 || q->pid == want))
      v.push_back(q);
  return v;
}

// Can the pending syscall of p complete now (or fail now)?
static bool
ready(Proc* p)
{
  auto& r = p->r;
  switch ((long)r.orig_rax) {
    case SYS_read:
    case SYS_readv:
    case SYS_recvfrom:
    case SYS_recvmsg: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return true;
      if (o->flags & O_NONBLOCK)
        return true;
      if (r.orig_rax == SYS_recvfrom && (r.r10 & MSG_DONTWAIT))
        return true;
      if (r.orig_rax == SYS_read && r.rdx == 0)
        return true;
      return ofd_readable(o);
    }
    case SYS_write:
    case SYS_writev:
    case SYS_sendto:
    case SYS_sendmsg: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o || (o->flags & O_NONBLOCK))
        return true;
      size_t n = r.orig_rax == SYS_write || r.orig_rax == SYS_sendto ? r.rdx : 1;
      if (o->k == OFD::PIPEW) {
        if (o->pipe->r == 0)
          return true;
        size_t left = n - min<size_t>(p->wr_done, n), space = o->pipe->cap - min(o->pipe->cap, o->pipe->buf.size());
        if (n <= 4096)
          return space >= left;
        return space > 0;
      }
      if (o->k == OFD::SOCK)
        return o->sock->s != Sock::CONN || o->sock->rst || o->sock->wr_closed || sock_space(o->sock) > 0;
      return true;
    }
    case SYS_accept:
    case SYS_accept4: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o || o->k != OFD::SOCK || o->sock->s != Sock::LISTEN || (o->flags & O_NONBLOCK))
        return true;
      return !o->sock->acceptq.empty();
    }
    case SYS_wait4:
    case SYS_waitid: {
      int want = r.orig_rax == SYS_wait4 ? (int)r.rdi : ((int)r.rdi == 0 ? -1 : (int)r.rsi);
      u64 opt = r.orig_rax == SYS_wait4 ? r.rdx : r.r10;
      auto v = children(p, want);
      if (v.empty() || (opt & WNOHANG))
        return true;
      for (auto q : v)
        if (q->st == Proc::ZOMBIE)
          return true;
      return false;
    }
    case SYS_select:
    case SYS_pselect6: {
      int c;
      if (sel_eval(p, false, c))
        return true;
      if (p->deadline == -1) {
        p->deadline = -2;
        if (r.r8) {
          i64 t[2];
          rdmem(p, r.r8, t, 16);
          p->deadline = now_us + t[0] * 1000000 + (r.orig_rax == SYS_select ? t[1] : t[1] / 1000);
        }
      }
      return p->deadline >= 0 && (i64)now_us >= p->deadline;
    }
    case SYS_poll:
    case SYS_ppoll: {
      if (poll_eval(p, false) > 0)
        return true;
      if (p->deadline == -1) {
        p->deadline = -2;
        if (r.orig_rax == SYS_poll) {
          if ((int)r.rdx >= 0)
            p->deadline = now_us + (i64)(int)r.rdx * 1000;
        } else if (r.rdx) {
          i64 t[2];
          rdmem(p, r.rdx, t, 16);
          p->deadline = now_us + t[0] * 1000000 + t[1] / 1000;
        }
      }
      return p->deadline >= 0 && (i64)now_us >= p->deadline;
    }
    case SYS_nanosleep:
    case SYS_clock_nanosleep: {
      if (p->deadline == -1) {
        i64 t[2] = { 0, 0 };
        rdmem(p, r.orig_rax == SYS_nanosleep ? r.rdi : r.rdx, t, 16);
        i64 us = t[0] * 1000000 + t[1] / 1000;
        if (r.orig_rax == SYS_clock_nanosleep && (r.rsi & 1))
          p->deadline = (int)r.rdi == CLOCK_REALTIME ? us - wall_us() + (i64)now_us : us;
        else
          p->deadline = now_us + us;
        if (p->deadline < 0)
          p->deadline = 0;
      }
      return (i64)now_us >= p->deadline;
    }
    case SYS_pause:
      return false;
    case SYS_futex: {
      unsigned v = 0;
      return !rdmem(p, r.rdi, &v, 4) || v != (unsigned)r.rdx;
    }
  }
  return true;
}
static i64
timer_of(Proc* p)
{
  return p->deadline >= 0 ? p->deadline : -1;
}

// ---------------------------------------------------------------- data transfer
static size_t
pick_short(const char* kind, size_t n, const string& obj, Proc* p)
{
  // returns number of bytes to transfer (<= n)
  if (n <= 1)
    return n;
  auto i = J.fault.find(kind);
  if (i == J.fault.end())
    return n;
  FaultCfg& c = i->second;
  if ((c.window && !armed) || (!c.only.empty() && obj.find(c.only) == string::npos) || c.fired >= c.max) {
    return n;
  }
  u64 v = choose(kind, 10, c.p);
  if (!v)
    return n;
  size_t m;
  switch (v) {
    case 1:
      m = 1;
      break;
    case 2:
      m = n - 1;
      break;
    case 3:
      m = n / 2;
      break;
    case 4:
      m = 2;
      break;
    case 5:
      m = 3;
      break;
    case 6:
      m = n / 3;
      break;
    case 7:
      m = 7;
      break;
    case 8:
      m = n - n / 4;
      break;
    default:
      m = 13;
      break;
  }
  if (m < 1)
    m = 1;
  if (m > n)
    m = n;
  if (m < n) {
    c.fired++;
    mix(m);
  }
  return m;
}

static i64
do_read(Proc* p, OFD* o, string& out, size_t n, i64 at)
{
  out.clear();
  int e;
  switch (o->k) {
    case OFD::FILE_: {
      if ((o->flags & O_ACCMODE) == O_WRONLY)
        return -EBADF;
      if ((e = fault("read_eio", o->path, { EIO }, p)))
        return -e;
      size_t off = at >= 0 ? at : o->off;
      size_t av = off < o->ino->data.size() ? o->ino->data.size() - off : 0;
      size_t m = pick_short("short_read", min(n, av), o->path, p);
      out = o->ino->data.substr(min(off, o->ino->data.size()), m);
      if (at < 0)
        o->off += m;
      return m;
    }
    case OFD::HOST: {
      const string* hp = hostread(o->ino->host);
      if (!hp)
        return -EIO;
      const string& d = *hp;
      size_t off = at >= 0 ? at : o->off;
      size_t av = off < d.size() ? d.size() - off : 0, m = min(n, av);
      out = d.substr(min(off, d.size()), m);
      if (at < 0)
        o->off += m;
      return m;
    }
    case OFD::DIR_:
      return -EISDIR;
    case OFD::PIPER: {
      if (o->pipe->buf.empty())
        return o->pipe->w == 0 ? 0 : -EAGAIN;
      if ((e = fault("read_eio", oname(o), { EIO }, p)))
        return -e;
      size_t m = pick_short("short_read", min(n, o->pipe->buf.size()), oname(o), p);
      out = o->pipe->buf.substr(0, m);
      o->pipe->buf.erase(0, m);
      o->pipe->total_out += m;
      return m;
    }
    case OFD::PIPEW:
    case OFD::SINK:
      return -EBADF;
    case OFD::SOCK: {
      SockP s = o->sock;
      if (s->s != Sock::CONN)
        return -ENOTCONN;
      if (!s->rbuf.empty()) {
        if ((e = fault("read_eio", oname(o), { ECONNRESET, ETIMEDOUT }, p)))
          return -e;
        size_t m = pick_short("short_read", min(n, s->rbuf.size()), oname(o), p);
        out = s->rbuf.substr(0, m);
        s->rbuf.erase(0, m);
        s->rx += m;
        return m;
      }
      if (s->rst) {
        return -ECONNRESET;
      }
      if (s->rd_fin || s->rd_closed)
        return 0;
      return -EAGAIN;
    }
    default:
      return 0;
  }
}

static const i64 BLOCK = -100000;

static i64
do_write(Proc* p, OFD* o, const string& d, bool atomic_hint)
{
  int e;
  (void)atomic_hint;
  switch (o->k) {
    case OFD::FILE_: {
      if ((o->flags & O_ACCMODE) == O_RDONLY)
        return -EBADF;
      if ((e = fault("write_err", o->path, { ENOSPC, EIO }, p)))
        return -e;
      size_t m = pick_short("short_write", d.size(), o->path, p);
      size_t off = (o->flags & O_APPEND) ? o->ino->data.size() : o->off;
      if (o->ino->data.size() < off + m)
        o->ino->data.resize(off + m);
      o->ino->data.replace(off, m, d.substr(0, m));
      o->off = off + m;
      return m;
    }
    case OFD::SINK: {
      if ((e = fault("write_err", oname(o), { ENOSPC, EIO }, p)))
        return -e;
      size_t m = pick_short("short_write", d.size(), oname(o), p);
      string s = d.substr(0, m);
      o->sink->segs.push_back({ step_, p->pid, s });
      o->sink->all += s;
      return m;
    }
    case OFD::NUL:
      return d.size();
    case OFD::PIPER:
      return -EBADF;
    case OFD::PIPEW: {
      Pipe& q = *o->pipe;
      if (q.r == 0) {
        post_signal(p, SIGPIPE, "epipe");
        return -EPIPE;
      }
      size_t space = q.cap - min(q.cap, q.buf.size());
      size_t n = d.size();
      if (o->flags & O_NONBLOCK) {
        if (n <= 4096 && space < n)
          return -EAGAIN;
        if (!space)
          return -EAGAIN;
        size_t m = min(n, space);
        q.buf += d.substr(0, m);
        q.total_in += m;
        return m;
      }
      size_t left = n - p->wr_done;
      size_t m = min(left, space);
      if (n <= 4096 && m < left)
        return BLOCK;
      q.buf += d.substr(p->wr_done, m);
      q.total_in += m;
      p->wr_done += m;
      if (p->wr_done < n)
        return BLOCK;
      return n;
    }
    case OFD::SOCK: {
      SockP s = o->sock;
      if (s->s != Sock::CONN)
        return s->s == Sock::LISTEN || s->s == Sock::NEW || s->s == Sock::BOUND ? -ENOTCONN : -EPIPE;
      if (s->rst || s->wr_closed) {
        post_signal(p, SIGPIPE, "epipe");
        return -EPIPE;
      }
      if ((e = fault("write_err", oname(o), { EPIPE, ECONNRESET, ETIMEDOUT }, p))) {
        if (e == EPIPE)
          post_signal(p, SIGPIPE, "epipe");
        return -e;
      }
      SockP pr = s->peer.lock();
      if (!pr) {
        post_signal(p, SIGPIPE, "epipe");
        return -EPIPE;
      }
      size_t m = min(d.size() - p->wr_done, sock_space(s));
      if (p->wr_done == 0) {
        size_t k = pick_short("short_write", d.size(), oname(o), p);
        if (k < d.size()) {
          k = min(k, m);
          if (k) {
            if (!pr->gone)
              pr->inflight.push_back({ 0, d.substr(0, k) });
            else
              s->inflight.push_back({ 2, "" });
            s->tx += k;
            return k;
          }
        }
      }
      if (m) {
        if (!pr->gone)
          pr->inflight.push_back({ 0, d.substr(p->wr_done, m) });
        else
          s->inflight.push_back({ 2, "" });
        s->tx += m;
      }
      p->wr_done += m;
      if (p->wr_done < d.size())
        return (o->flags & O_NONBLOCK) ? (p->wr_done ? (i64)p->wr_done : -EAGAIN) : BLOCK;
      return d.size();
    }
    default:
      return -EBADF;
  }
}

static void
fill_stat(InodeP n, OFD* o, struct stat& s)
{
  memset(&s, 0, sizeof s);
  s.st_dev = 7;
  s.st_nlink = 1;
  s.st_uid = s.st_gid = 1000;
  s.st_blksize = J.k("blksize", 4096);
  if (n) {
    s.st_ino = n->ino;
    switch (n->t) {
      case Inode::DIR:
        s.st_mode = S_IFDIR | n->mode;
        break;
      case Inode::NUL:
        s.st_mode = S_IFCHR | 0666;
        s.st_rdev = 0x103;
        break;
      case Inode::HOST: {
        const string* d = hostread(n->host);
        s.st_mode = S_IFREG | n->mode;
        s.st_size = d ? d->size() : 0;
        s.st_dev = 8;
        break;
      }
      default:
        s.st_mode = S_IFREG | n->mode;
        s.st_size = n->data.size();
    }
    s.st_blocks = (s.st_size + 511) / 512;
    return;
  }
  if (o->k == OFD::PIPER || o->k == OFD::PIPEW)
    s.st_mode = S_IFIFO | 0600;
  else if (o->k == OFD::SOCK)
    s.st_mode = S_IFSOCK | 0777;
  else if (o->tty) {
    s.st_mode = S_IFCHR | 0620;
    s.st_rdev = 0x8801;
  } else if (o->k == OFD::NUL) {
    s.st_mode = S_IFCHR | 0666;
    s.st_rdev = 0x103;
  } else if (o->k == OFD::SINK)
    s.st_mode = J.k("sink_regular", 0) ? (S_IFREG | 0644) : (S_IFIFO | 0600);
  s.st_ino = 99;
}

static SockP
newsock()
{
  SockP s = make_shared<Sock>();
  s->id = nextsock++;
  return s;
}
// connect cs to a listening socket at port; returns 0 or -errno
static int
tcp_connect(SockP cs, uint32_t addr, int port, uint32_t src = 0x7f000001, int sport = 0)
{
  SockP l;
  for (auto& s : listeners[port])
    if (s->s == Sock::LISTEN && (s->laddr == 0 || s->laddr == addr))
      l = s;
  if (!l)
    return -ECONNREFUSED;
  if (l->acceptq.size() > l->backlog)
    return -ETIMEDOUT;
  SockP ss = newsock();
  ss->s = Sock::CONN;
  cs->s = Sock::CONN;
  cs->lport = sport ? sport : nexteph++;
  cs->rport = port;
  cs->raddr = addr;
  ss->lport = port;
  ss->rport = cs->lport;
  ss->raddr = src;
  cs->peer = ss;
  ss->peer = cs;
  conns.push_back(cs);
  conns.push_back(ss);
  l->acceptq.push_back(ss);
  return 0;
}
static int
tcp_bind(SockP s, int port, uint32_t addr = 0)
{
  if (s->s != Sock::NEW)
    return -EINVAL;
  if (port == 0)
    port = nexteph++;
  for (auto& o : listeners[port])
    if (!(o->reuse && s->reuse))
      return -EADDRINUSE;
  s->lport = port;
  s->laddr = addr;
  s->s = Sock::BOUND;
  listeners[port].push_back(s);
  return 0;
}
static void
deliver_seg(SockP s)
{
  Seg g = s->inflight.front();
  s->inflight.pop_front();
  if (g.k == 0) {
    size_t m = pick_short("net_split", g.d.size(), fmt("sock:%d", s->id), nullptr);
    if (s->gone) {
      // data for a closed endpoint: reset the sender
      SockP pr = s->peer.lock();
      if (pr && !pr->rst)
        pr->inflight.push_back({ 2, "" });
      s->inflight.clear();
      return;
    }
    s->rbuf += g.d.substr(0, m);
    if (m < g.d.size())
      s->inflight.push_front({ 0, g.d.substr(m) });
  } else if (g.k == 1)
    s->rd_fin = true;
  else {
    s->rst = true;
    s->rbuf.clear();
    s->inflight.clear();
  }
  mix(0x5e6 + g.k);
  mix(s->id);
  mixs(g.d);
}

// ---------------------------------------------------------------- fork
static int
do_fork(Proc* p)
{
  int e = fault("fork", "fork", { EAGAIN, ENOMEM }, p);
  if (e)
    return -e;
  if (P.size() > 64)
    return -EAGAIN;
  u64 flags = p->r.rdi, ctid = p->r.r10;
  bool isfork = p->r.orig_rax == SYS_fork;
  if (p->r.orig_rax == SYS_vfork || (flags & CLONE_VM && !isfork)) {
    unmodelled("vfork or thread clone");
    return -ENOSYS;
  }
  u64 save_rdi = p->r.rdi, save_rax = p->r.orig_rax, save_rsi = p->r.rsi, save_rdx = p->r.rdx;
  if (isfork) {
    p->r.orig_rax = SYS_clone;
    flags = SIGCHLD;
    p->r.rsi = p->r.rdx = 0;
  }
  p->r.rdi = flags | CLONE_PARENT;
  int np = 0;
  if (!passthrough(p, &np)) {
    proc_die(p, SIGKILL);
    return 0;
  }
  if (np == 0)
    die("fork passthrough failed: %lld", (long long)p->r.rax);
  p->r.rdi = save_rdi;
  p->r.rsi = save_rsi;
  p->r.rdx = save_rdx;
  p->r.orig_rax = save_rax;
  int st;
  if (waitstop(np, &st) != WT_OK || !WIFSTOPPED(st))
    die("child did not stop");
  Proc* c = new Proc;
  c->rpid = np;
  c->pid = nextpid++;
  c->ppid = p->pid;
  c->idx = P.size();
  c->cwd = p->cwd;
  c->prog = p->prog;
  c->nofile = p->nofile;
  c->mask = p->mask;
  c->umask_ = p->umask_;
  c->argv = p->argv;
  c->envp = p->envp;
  c->born = step_;
  memcpy(c->disp, p->disp, sizeof p->disp);
  c->fds = p->fds;
  for (auto& f : c->fds)
    f.second.o->refs++;
  P.push_back(c);
  getregs(c);
  c->r.rdi = save_rdi;
  c->r.rsi = save_rsi;
  c->r.rdx = save_rdx;
  c->r.rax = 0;
  setregs(c);
  if (!isfork && (flags & CLONE_CHILD_SETTID) && ctid) {
    int t = c->pid;
    wrmem(c, ctid, &t, 4);
  }
  trace(fmt("pid %d forks %d", p->pid, c->pid));
  run_to_syscall(c, 0);
  return c->pid;
}

static string STUB;
static bool
do_exec(Proc* p, i64& ret)
{
  string path;
  int pe = rdpath(p, p->r.rdi, path);
  if (pe) {
    ret = -pe;
    return true;
  }
  string full = norm(p->cwd, path);
  auto rdv = [&](u64 a, vector<string>& v) {
    while (a) {
      u64 q = 0;
      if (!rdmem(p, a, &q, 8) || !q)
        break;
      string s;
      rdstr(p, q, s);
      v.push_back(s);
      a += 8;
    }
  };
  vector<string> av, ev;
  rdv(p->r.rsi, av);
  rdv(p->r.rdx, ev);
  int e = fault("exec", full, { ENOENT, EACCES, ENOMEM, E2BIG }, p);
  InodeP n = lookup(full);
  if (!e && !n)
    e = ENOENT;
  if (!e && (n->t == Inode::DIR || !(n->mode & 0111)))
    e = EACCES;
  if (!e && n->t != Inode::PROG)
    e = ENOEXEC;
  trace(fmt("pid %d exec %s -> %d", p->pid, full.c_str(), e));
  mixs(full);
  for (auto& s : av)
    mixs(s);
  if (e) {
    ret = -e;
    return true;
  }
  string host = n->host.empty() ? STUB : n->host;
  // place the host path in the tracee below its stack pointer
  u64 a = (p->r.rsp - 8192) & ~15ull;
  wrmem(p, a, host.c_str(), host.size() + 1);
  p->r.rdi = a;
  if (n->host.empty()) {
    // The stub takes its script through a private syscall: no argument or environment needed.
    p->r.rsi = 0;
    p->r.rdx = 0;
  }
  if (!passthrough(p)) {
    proc_die(p, SIGKILL);
    return false;
  }
  if ((i64)p->r.rax < 0)
    die("exec passthrough of %s: %lld", host.c_str(), (long long)p->r.rax);
  for (auto i = p->fds.begin(); i != p->fds.end();) {
    if (i->second.cloexec) {
      ofd_unref(i->second.o);
      i = p->fds.erase(i);
    } else
      ++i;
  }
  for (int i = 0; i < 65; i++)
    if (p->disp[i].h == 2)
      p->disp[i].h = 0;
  p->prog = full;
  p->exec_spec = n->spec;
  p->argv = av;
  p->envp = ev;
  strip_vdso(p);
  setregs(p);
  run_to_syscall(p, 0);
  return false;
}

// ---------------------------------------------------------------- system calls
static void
mark(Proc* p, const string& name)
{
  marks.push_back(fmt("{\"step\":%lu,\"pid\":%d,\"t\":%lu,\"name\":", step_, p->pid, now_us) + jstr(name) +
                  fmt(",\"heap\":%lld", (long long)(p->brk - p->brk0) + p->mapped) + ",\"fds\":" + fdsnap(p) + "}");
  if (name == "arm")
    armed = true;
  if (name == "disarm")
    armed = false;
  if (name == "exhaust")
    p->nofile = (int)J.k("nofile2", p->nofile);
  if (name == "relax")
    p->nofile = (int)J.k("nofile", 1024);
  trace(fmt("pid %d MARK %s", p->pid, name.c_str()));
  mixs(name);
}

static bool
dir_wanted(const string& path)
{
  return !path.empty() && (path.back() == '/' || (path.size() > 1 && path.substr(path.size() - 2) == "/."));
}

static i64
do_open(Proc* p, int dfd, u64 pathaddr, int flags, int mode)
{
  string path;
  if (int pe = rdpath(p, pathaddr, path))
    return -pe;
  (void)dfd;
  string full = norm(p->cwd, path);
  InodeP n = lookup_sys(full);
  bool sys = n && n->t == Inode::HOST && !lookup(full);
  if (!sys) {
    const char* kind = (flags & O_DIRECTORY) ? "opendir" : (n && n->t == Inode::HOST) ? "open_so" : "open";
    int e = fault(kind, full, { EMFILE, ENFILE, EIO, EACCES, ENOENT }, p);
    if (e)
      return -e;
  }
  if (n && n->t != Inode::DIR && dir_wanted(path))
    return -ENOTDIR;
  if (!n) {
    if (!(flags & O_CREAT))
      return -ENOENT;
    if (dir_wanted(path))
      return -EISDIR;
    InodeP d = lookup(dirn(full));
    if (!d)
      return -ENOENT;
    if (d->t != Inode::DIR)
      return -ENOTDIR;
    if (!(d->mode & 0200))
      return -EACCES;
    n = addnode(full, Inode::REG, mode & ~p->umask_);
  } else if ((flags & O_CREAT) && (flags & O_EXCL))
    return -EEXIST;
  if (n->t == Inode::DIR) {
    if ((flags & O_ACCMODE) != O_RDONLY)
      return -EISDIR;
    if (!(n->mode & 0500))
      return -EACCES;
    OFD* o = mkofd(OFD::DIR_);
    o->path = full;
    o->ino = n;
    o->flags = flags;
    o->dents.push_back({ ".", n });
    o->dents.push_back({ "..", n });
    string pre = full == "/" ? "/" : full + "/";
    for (auto i = FS.lower_bound(pre); i != FS.end() && i->first.compare(0, pre.size(), pre) == 0; ++i)
      if (i->first.size() > pre.size() && i->first.find('/', pre.size()) == string::npos)
        o->dents.push_back({ i->first.substr(pre.size()), i->second });
    int fd = fd_alloc(p, o, 0, flags & O_CLOEXEC);
    return fd;
  }
  if (flags & O_DIRECTORY)
    return -ENOTDIR;
  int acc = flags & O_ACCMODE;
  if ((acc != O_WRONLY && !(n->mode & 0400)) || (acc != O_RDONLY && !(n->mode & 0200)))
    return -EACCES;
  if ((flags & O_TRUNC) && acc != O_RDONLY)
    n->data.clear();
  OFD* o = mkofd(n->t == Inode::NUL ? OFD::NUL : n->t == Inode::HOST ? OFD::HOST : OFD::FILE_);
  o->path = full;
  o->ino = n;
  o->flags = flags;
  if (n->t == Inode::HOST) {
    // a real descriptor is needed so that the loader can map it
    auto save = p->r;
    u64 a = (p->r.rsp - 8192) & ~15ull;
    wrmem(p, a, n->host.c_str(), n->host.size() + 1);
    p->r.orig_rax = SYS_openat;
    p->r.rdi = (u64)(i64)AT_FDCWD;
    p->r.rsi = a;
    p->r.rdx = O_RDONLY | O_CLOEXEC;
    p->r.r10 = 0;
    if (!passthrough(p))
      return -EIO;
    i64 rf = (i64)p->r.rax;
    p->r = save;
    if (rf < 0)
      return rf;
    o->realfd = (int)rf;
  }
  int fd = fd_alloc(p, o, 0, flags & O_CLOEXEC);
  return fd;
}
static void
real_close(Proc* p, OFD* o)
{
  if (o->k == OFD::HOST && o->realfd >= 0 && o->refs == 1) {
    auto save = p->r;
    p->r.orig_rax = SYS_close;
    p->r.rdi = o->realfd;
    passthrough(p);
    p->r = save;
    o->realfd = -1;
  }
}
static i64
do_close(Proc* p, int fd)
{
  auto i = p->fds.find(fd);
  if (i == p->fds.end())
    return -EBADF;
  OFD* o = i->second.o;
  real_close(p, o);
  p->fds.erase(i);
  ofd_unref(o);
  return 0;
}
static i64
do_dup2(Proc* p, int a, int b, bool cloexec)
{
  OFD* o = getfd(p, a);
  if (!o)
    return -EBADF;
  if (b < 0 || b >= p->nofile)
    return -EBADF;
  int e = fault("dup", fmt("%d->%d", a, b), { EMFILE, EBUSY }, p);
  if (e)
    return -e;
  if (a == b)
    return b;
  if (p->fds.count(b))
    do_close(p, b);
  o->refs++;
  p->fds[b] = { o, cloexec };
  return b;
}
static i64
write_sockaddr(Proc* p, u64 addr, u64 lenp, uint32_t ip, int port)
{
  if (!addr || !lenp)
    return 0;
  struct sockaddr_in sa;
  memset(&sa, 0, sizeof sa);
  sa.sin_family = AF_INET;
  sa.sin_addr.s_addr = htonl(ip);
  sa.sin_port = htons(port);
  socklen_t l = 0;
  rdmem(p, lenp, &l, 4);
  wrmem(p, addr, &sa, min<size_t>(l, sizeof sa));
  l = sizeof sa;
  wrmem(p, lenp, &l, 4);
  return 0;
}

static const char* sysname(long nr);

// Execute the pending syscall of p against the model.  Returns the result, or BLOCK.
// done=false when the process was already resumed (exec) or is gone.
static i64
do_syscall(Proc* p, bool& done)
{
  auto& r = p->r;
  done = true;
  long nr = (long)r.orig_rax;
  switch (nr) {
    case SYS_openat:
      return do_open(p, (int)r.rdi, r.rsi, (int)r.rdx, (int)r.r10);
    case SYS_open:
      return do_open(p, AT_FDCWD, r.rdi, (int)r.rsi, (int)r.rdx);
    case SYS_creat:
      return do_open(p, AT_FDCWD, r.rdi, O_CREAT | O_WRONLY | O_TRUNC, (int)r.rsi);
    case SYS_close:
      return do_close(p, (int)r.rdi);
    case SYS_close_range: {
      for (u64 f = r.rdi; f <= r.rsi && f < 1024; f++)
        do_close(p, (int)f);
      return 0;
    }
    case SYS_read:
    case SYS_pread64:
    case SYS_recvfrom: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (nr == SYS_recvfrom && o->k != OFD::SOCK)
        return -ENOTSOCK;
      if (nr == SYS_pread64 && o->k != OFD::FILE_ && o->k != OFD::HOST)
        return -ESPIPE;
      string d;
      i64 n = do_read(p, o, d, r.rdx, nr == SYS_pread64 ? (i64)r.r10 : -1);
      if (n > 0) {
        if (!wrmem(p, r.rsi, d.data(), d.size()))
          return -EFAULT;
        if (o->k != OFD::HOST)
          mixs(d);
      }
      return n;
    }
    case SYS_readv: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      i64 tot = 0;
      for (u64 i = 0; i < r.rdx; i++) {
        u64 iv[2];
        rdmem(p, r.rsi + 16 * i, iv, 16);
        if (!iv[1])
          continue;
        if (tot && !ofd_readable(o))
          break;
        string d;
        i64 n = do_read(p, o, d, iv[1], -1);
        if (n < 0)
          return tot ? tot : n;
        wrmem(p, iv[0], d.data(), d.size());
        mixs(d);
        tot += n;
        if ((u64)n < iv[1])
          break;
      }
      return tot;
    }
    case SYS_write:
    case SYS_sendto:
    case SYS_pwrite64: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (nr == SYS_sendto && o->k != OFD::SOCK)
        return -ENOTSOCK;
      if (r.rdx > (64u << 20))
        return -EFAULT;
      string d(r.rdx, 0);
      if (!rdmem(p, r.rsi, &d[0], d.size()))
        return -EFAULT;
      i64 n = do_write(p, o, d, true);
      if (p->st != Proc::PENDING) {
        done = false;
        return 0;
      }
      if (n > 0)
        mixs(d.substr(0, n));
      return n;
    }
    case SYS_writev: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      string d;
      for (u64 i = 0; i < r.rdx; i++) {
        u64 iv[2];
        rdmem(p, r.rsi + 16 * i, iv, 16);
        string s(iv[1], 0);
        rdmem(p, iv[0], &s[0], s.size());
        d += s;
      }
      i64 n = do_write(p, o, d, true);
      if (p->st != Proc::PENDING) {
        done = false;
        return 0;
      }
      if (n > 0)
        mixs(d.substr(0, n));
      return n;
    }
    case SYS_lseek: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k == OFD::NUL)
        return 0;
      if (o->k != OFD::FILE_ && o->k != OFD::HOST)
        return -ESPIPE;
      i64 base = r.rdx == 0 ? 0 : r.rdx == 1 ? (i64)o->off : (i64)o->ino->data.size();
      i64 n = base + (i64)r.rsi;
      if (n < 0)
        return -EINVAL;
      o->off = n;
      return n;
    }
    case SYS_ftruncate: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o || o->k != OFD::FILE_)
        return -EINVAL;
      o->ino->data.resize(r.rsi);
      return 0;
    }
    case SYS_fsync:
    case SYS_fdatasync:
      return getfd(p, (int)r.rdi) ? 0 : -EBADF;
    case SYS_fadvise64:
    case SYS_chmod:
    case SYS_fchmod:
      return 0;
    case SYS_fstat:
    case SYS_newfstatat:
    case SYS_stat:
    case SYS_lstat: {
      struct stat s;
      u64 out = nr == SYS_newfstatat ? r.rdx : r.rsi;
      string path;
      bool byfd = nr == SYS_fstat;
      int fd = (int)r.rdi;
      if (nr == SYS_newfstatat) {
        int pe = rdpath(p, r.rsi, path);
        if (path.empty() && (r.r10 & AT_EMPTY_PATH))
          byfd = true;
        else if (pe)
          return -pe;
      } else if (!byfd) {
        if (int pe = rdpath(p, r.rdi, path))
          return -pe;
      }
      if (byfd) {
        OFD* o = getfd(p, fd);
        if (!o)
          return -EBADF;
        fill_stat(o->ino, o, s);
      } else {
        string full = norm(p->cwd, path);
        int e = fault("stat", full, { EIO, EACCES }, p);
        if (e)
          return -e;
        InodeP n = lookup_sys(full);
        if (!n)
          return -ENOENT;
        fill_stat(n, nullptr, s);
      }
      wrmem(p, out, &s, sizeof s);
      return 0;
    }
    case SYS_access:
    case SYS_faccessat2:
    case SYS_faccessat: {
      string path;
      if (int pe = rdpath(p, nr == SYS_access ? r.rdi : r.rsi, path))
        return -pe;
      InodeP n = lookup_sys(norm(p->cwd, path));
      if (n && n->t != Inode::DIR && dir_wanted(path))
        return -ENOTDIR;
      return n ? 0 : -ENOENT;
    }
    case SYS_readlink:
    case SYS_readlinkat: {
      string path;
      if (int pe = rdpath(p, nr == SYS_readlink ? r.rdi : r.rsi, path))
        return -pe;
      string full = norm(p->cwd, path);
      if (full == "/proc/self/exe") {
        u64 b = nr == SYS_readlink ? r.rsi : r.rdx, l = nr == SYS_readlink ? r.rdx : r.r10;
        size_t m = min<size_t>(l, p->prog.size());
        wrmem(p, b, p->prog.data(), m);
        return m;
      }
      return lookup(full) ? -EINVAL : -ENOENT;
    }
    case SYS_getcwd: {
      int e = fault("getcwd", p->cwd, { ENOENT, EACCES }, p);
      if (e)
        return -e;
      if (p->cwd.size() + 1 > r.rsi)
        return -ERANGE;
      wrmem(p, r.rdi, p->cwd.c_str(), p->cwd.size() + 1);
      return p->cwd.size() + 1;
    }
    case SYS_chdir: {
      string path;
      if (int pe = rdpath(p, r.rdi, path))
        return -pe;
      string full = norm(p->cwd, path);
      InodeP n = lookup(full);
      if (!n)
        return -ENOENT;
      if (n->t != Inode::DIR)
        return -ENOTDIR;
      p->cwd = full;
      return 0;
    }
    case SYS_mkdir:
    case SYS_mkdirat: {
      string path;
      if (int pe = rdpath(p, nr == SYS_mkdir ? r.rdi : r.rsi, path))
        return -pe;
      string full = norm(p->cwd, path);
      int e = fault("mkdir", full, { ENOSPC, EACCES }, p);
      if (e)
        return -e;
      if (lookup(full))
        return -EEXIST;
      InodeP dn = lookup(dirn(full));
      if (!dn)
        return -ENOENT;
      if (dn->t != Inode::DIR)
        return -ENOTDIR;
      if (!(dn->mode & 0200))
        return -EACCES;
      addnode(full, Inode::DIR, nr == SYS_mkdir ? r.rsi : r.rdx);
      return 0;
    }
    case SYS_rmdir:
    case SYS_unlink:
    case SYS_unlinkat: {
      string path;
      if (int pe = rdpath(p, nr != SYS_unlinkat ? r.rdi : r.rsi, path))
        return -pe;
      string full = norm(p->cwd, path);
      if (full.rfind("/sim/mark/", 0) == 0) {
        mark(p, full.substr(10));
        return 0;
      }
      int e = fault("unlink", full, { EACCES, EBUSY, EIO }, p);
      if (e)
        return -e;
      InodeP n = lookup(full);
      if (!n)
        return -ENOENT;
      if (nr == SYS_rmdir || (nr == SYS_unlinkat && (r.rdx & AT_REMOVEDIR))) {
        if (n->t != Inode::DIR)
          return -ENOTDIR;
        for (auto it = FS.lower_bound(full + "/"); it != FS.end() && it->first.rfind(full + "/", 0) == 0; ++it)
          return -ENOTEMPTY;
        FS.erase(full);
        return 0;
      }
      if (n->t == Inode::DIR)
        return -EISDIR;
      if (n->t == Inode::HOST || n->t == Inode::PROG)
        return -EACCES;
      FS.erase(full);
      return 0;
    }
    case SYS_rename: {
      string a, b;
      rdstr(p, r.rdi, a);
      rdstr(p, r.rsi, b);
      a = norm(p->cwd, a);
      b = norm(p->cwd, b);
      InodeP n = lookup(a);
      if (!n)
        return -ENOENT;
      FS[b] = n;
      FS.erase(a);
      return 0;
    }
    case SYS_getdents64: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::DIR_)
        return -ENOTDIR;
      string out;
      while (o->dpos < o->dents.size()) {
        auto& d = o->dents[o->dpos];
        size_t len = (19 + d.first.size() + 1 + 7) & ~7ull;
        if (out.size() + len > r.rdx)
          break;
        string e(len, 0);
        u64 ino = d.second->ino;
        i64 off = o->dpos + 1;
        uint16_t rl = len;
        memcpy(&e[0], &ino, 8);
        memcpy(&e[8], &off, 8);
        memcpy(&e[16], &rl, 2);
        e[18] = d.second->t == Inode::DIR ? 4 : 8;
        memcpy(&e[19], d.first.data(), d.first.size());
        out += e;
        o->dpos++;
      }
      wrmem(p, r.rsi, out.data(), out.size());
      return out.size();
    }
    case SYS_ioctl: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (r.rsi == 0x5401 && o->tty) {
        char z[60];
        memset(z, 0, sizeof z);
        wrmem(p, r.rdx, z, 36);
        return 0;
      }
      return -ENOTTY;
    }
    case SYS_fcntl: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      switch ((int)r.rsi) {
        case F_GETFL:
          return o->flags & (O_ACCMODE | O_APPEND | O_NONBLOCK);
        case F_SETFL:
          o->flags = (o->flags & ~(O_APPEND | O_NONBLOCK)) | ((int)r.rdx & (O_APPEND | O_NONBLOCK));
          return 0;
        case F_GETFD:
          return p->fds[(int)r.rdi].cloexec ? 1 : 0;
        case F_SETFD:
          p->fds[(int)r.rdi].cloexec = r.rdx & 1;
          return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC: {
          int e = fault("dup", fmt("%lld", r.rdi), { EMFILE }, p);
          if (e)
            return -e;
          return fd_alloc(p, o, (int)r.rdx, (int)r.rsi == F_DUPFD_CLOEXEC);
        }
        case F_SETPIPE_SZ:
        case F_GETPIPE_SZ:
          return o->pipe ? (i64)o->pipe->cap : -EBADF;
      }
      return -EINVAL;
    }
    case SYS_dup: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      int e = fault("dup", oname(o), { EMFILE }, p);
      if (e)
        return -e;
      return fd_alloc(p, o, 0, false);
    }
    case SYS_dup2:
      return do_dup2(p, (int)r.rdi, (int)r.rsi, false);
    case SYS_dup3:
      if (r.rdi == r.rsi)
        return -EINVAL;
      return do_dup2(p, (int)r.rdi, (int)r.rsi, r.rdx & O_CLOEXEC);
    case SYS_pipe:
    case SYS_pipe2: {
      int e = fault("pipe", "pipe", { EMFILE, ENFILE }, p);
      if (e)
        return -e;
      static int npipe = 0;
      PipeP q = make_shared<Pipe>();
      q->name = fmt("p%lu", step_);
      (void)npipe;
      q->cap = J.k("pipecap", 65536);
      q->r = q->w = 1;
      int fl = nr == SYS_pipe2 ? (int)r.rsi : 0;
      OFD *a = mkofd(OFD::PIPER), *b = mkofd(OFD::PIPEW);
      a->pipe = b->pipe = q;
      a->flags = O_RDONLY | (fl & O_NONBLOCK);
      b->flags = O_WRONLY | (fl & O_NONBLOCK);
      int f[2];
      f[0] = fd_alloc(p, a, 0, fl & O_CLOEXEC);
      if (f[0] < 0)
        return f[0];
      f[1] = fd_alloc(p, b, 0, fl & O_CLOEXEC);
      if (f[1] < 0) {
        do_close(p, f[0]);
        return f[1];
      }
      wrmem(p, r.rdi, f, 8);
      return 0;
    }
    case SYS_socket: {
      if (r.rdi != AF_INET || (r.rsi & 0xf) != SOCK_STREAM)
        return -EAFNOSUPPORT;
      int e = fault("socket", "socket", { EMFILE, ENFILE, ENOBUFS }, p);
      if (e)
        return -e;
      OFD* o = mkofd(OFD::SOCK);
      o->sock = newsock();
      o->flags = O_RDWR | ((r.rsi & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
      return fd_alloc(p, o, 0, r.rsi & SOCK_CLOEXEC);
    }
    case SYS_setsockopt: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      int e = fault("setsockopt", fmt("%lld:%lld", r.rsi, r.rdx), { ENOPROTOOPT, ENOBUFS }, p);
      if (e)
        return -e;
      if (r.rsi == SOL_SOCKET && (r.rdx == SO_REUSEPORT || r.rdx == SO_REUSEADDR)) {
        int v = 0;
        rdmem(p, r.r10, &v, 4);
        if (r.rdx == SO_REUSEPORT)
          o->sock->reuse = v;
      }
      return 0;
    }
    case SYS_getsockopt: {
      int z = 0;
      socklen_t l = 4;
      wrmem(p, r.r10, &z, 4);
      wrmem(p, r.r8, &l, 4);
      return 0;
    }
    case SYS_bind:
    case SYS_connect: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      struct sockaddr_in sa;
      memset(&sa, 0, sizeof sa);
      rdmem(p, r.rsi, &sa, min<size_t>(sizeof sa, r.rdx));
      if (sa.sin_family != AF_INET)
        return -EAFNOSUPPORT;
      int port = ntohs(sa.sin_port);
      if (nr == SYS_bind) {
        int e = fault("bind", fmt("%d", port), { EADDRINUSE, EACCES }, p);
        return e ? -e : tcp_bind(o->sock, port, ntohl(sa.sin_addr.s_addr));
      }
      if (o->sock->s == Sock::CONN)
        return -EISCONN;
      if (o->sock->s != Sock::NEW && o->sock->s != Sock::BOUND)
        return -EINVAL;
      int e = fault("connect", fmt("%d", port), { ECONNREFUSED, ETIMEDOUT, ENETUNREACH }, p);
      if (e)
        return -e;
      return tcp_connect(o->sock, ntohl(sa.sin_addr.s_addr), port);
    }
    case SYS_listen: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      int e = fault("listen", "listen", { EADDRINUSE }, p);
      if (e)
        return -e;
      if (o->sock->s == Sock::NEW)
        tcp_bind(o->sock, 0);
      if (o->sock->s != Sock::BOUND && o->sock->s != Sock::LISTEN)
        return -EINVAL;
      o->sock->s = Sock::LISTEN;
      o->sock->backlog = r.rsi;
      return 0;
    }
    case SYS_accept:
    case SYS_accept4: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      if (o->sock->s != Sock::LISTEN)
        return -EINVAL;
      if (o->sock->acceptq.empty())
        return -EAGAIN;
      int e = fault("accept", "accept", { ECONNABORTED, EMFILE, ENFILE }, p);
      if (e) {
        if (e == ECONNABORTED) {
          SockP s = o->sock->acceptq.front();
          o->sock->acceptq.pop_front();
          SockP pr = s->peer.lock();
          if (pr)
            pr->inflight.push_back({ 2, "" });
          s->gone = true;
        }
        return -e;
      }
      SockP s = o->sock->acceptq.front();
      OFD* c = mkofd(OFD::SOCK);
      c->sock = s;
      c->flags = O_RDWR | ((nr == SYS_accept4 && (r.r10 & SOCK_NONBLOCK)) ? O_NONBLOCK : 0);
      int fd = fd_alloc(p, c, 0, nr == SYS_accept4 && (r.r10 & SOCK_CLOEXEC));
      if (fd < 0)
        return fd;
      o->sock->acceptq.pop_front();
      write_sockaddr(p, r.rsi, r.rdx, s->raddr, s->rport);
      return fd;
    }
    case SYS_getsockname:
    case SYS_getpeername: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      if (nr == SYS_getpeername && o->sock->s != Sock::CONN)
        return -ENOTCONN;
      write_sockaddr(p, r.rsi, r.rdx, nr == SYS_getpeername ? o->sock->raddr : 0x7f000001,
                     nr == SYS_getpeername ? o->sock->rport : o->sock->lport);
      return 0;
    }
    case SYS_shutdown: {
      OFD* o = getfd(p, (int)r.rdi);
      if (!o)
        return -EBADF;
      if (o->k != OFD::SOCK)
        return -ENOTSOCK;
      if (o->sock->s != Sock::CONN)
        return -ENOTCONN;
      if (r.rsi != SHUT_RD && !o->sock->wr_closed) {
        o->sock->wr_closed = true;
        SockP pr = o->sock->peer.lock();
        if (pr)
          pr->inflight.push_back({ 1, "" });
      }
      if (r.rsi != SHUT_WR)
        o->sock->rd_closed = true;
      return 0;
    }
    case SYS_select:
    case SYS_pselect6: {
      int c = 0;
      int e = fault("select", "select", { ENOMEM }, p);
      if (e)
        return -e;
      sel_eval(p, false, c);
      if (c < 0)
        return c;
      sel_eval(p, true, c);
      return c;
    }
    case SYS_poll:
    case SYS_ppoll:
      return poll_eval(p, true);
    case SYS_nanosleep:
    case SYS_clock_nanosleep:
    case SYS_futex:
      return 0;
    case SYS_clock_gettime: {
      i64 us;
      switch ((int)r.rdi) {
        case CLOCK_REALTIME:
        case CLOCK_REALTIME_COARSE:
        case CLOCK_TAI:
          us = wall_us();
          break;
        case CLOCK_PROCESS_CPUTIME_ID:
        case CLOCK_THREAD_CPUTIME_ID:
          us = (i64)step_;
          break;
        default:
          us = 1000000ll * J.k("uptime", 5000) + (i64)now_us;
      }
      i64 t[2] = { us / 1000000, (us % 1000000) * 1000 + (i64)(now_us * 2654435761ull % 1000) };
      if (r.rdi == CLOCK_MONOTONIC_COARSE || r.rdi == CLOCK_REALTIME_COARSE)
        t[1] -= t[1] % 4000000;
      wrmem(p, r.rsi, t, 16);
      return 0;
    }
    case SYS_gettimeofday: {
      i64 t[2] = { wall_us() / 1000000, wall_us() % 1000000 };
      if (r.rdi)
        wrmem(p, r.rdi, t, 16);
      return 0;
    }
    case SYS_time: {
      i64 t = wall_us() / 1000000;
      if (r.rdi)
        wrmem(p, r.rdi, &t, 8);
      return t;
    }
    case SYS_times:
      return (i64)(now_us / 10000);
    case SYS_clone:
    case SYS_fork:
    case SYS_vfork:
      return do_fork(p);
    case SYS_execve: {
      i64 ret = 0;
      done = do_exec(p, ret);
      return ret;
    }
    case SYS_exit:
    case SYS_exit_group:
      proc_die(p, ((int)r.rdi & 0xff) << 8);
      done = false;
      return 0;
    case SYS_wait4:
    case SYS_waitid: {
      int want = nr == SYS_wait4 ? (int)r.rdi : ((int)r.rdi == 0 ? -1 : (int)r.rsi);
      u64 opt = nr == SYS_wait4 ? r.rdx : r.r10;
      auto v = children(p, want);
      if (v.empty())
        return -ECHILD;
      vector<Proc*> z;
      for (auto q : v)
        if (q->st == Proc::ZOMBIE)
          z.push_back(q);
      if (z.empty())
        return (opt & WNOHANG) ? 0 : BLOCK;
      Proc* q = z[choose("wait_order", z.size(), (int)J.k("p_wait_order", 3000))];
      int s = q->status;
      if (nr == SYS_wait4) {
        if (r.rsi)
          wrmem(p, r.rsi, &s, 4);
        if (r.r10) {
          char ru[144];
          memset(ru, 0, sizeof ru);
          wrmem(p, r.r10, ru, sizeof ru);
        }
      } else if (r.rdx) {
        int si[32];
        memset(si, 0, sizeof si);
        si[0] = SIGCHLD;
        si[2] = WIFEXITED(s) ? CLD_EXITED : CLD_KILLED;
        si[4] = q->pid;
        si[6] = WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s);
        wrmem(p, r.rdx, si, sizeof si);
      }
      if (nr == SYS_wait4 || !(opt & WNOWAIT)) {
        q->st = Proc::REAPED;
        q->reaped_by = p->pid;
      }
      return nr == SYS_wait4 ? q->pid : 0;
    }
    case SYS_kill:
    case SYS_tgkill:
    case SYS_tkill: {
      int tgt = nr == SYS_tgkill ? (int)r.rsi : (int)r.rdi;
      int sig = nr == SYS_tgkill ? (int)r.rdx : (int)r.rsi;
      if (sig < 0 || sig > 64)
        return -EINVAL;
      bool hit = false;
      vector<Proc*> all = P;
      for (auto q : all)
        if (q->st != Proc::REAPED && (tgt > 0 ? q->pid == tgt : (tgt != -1 || q != p))) {
          hit = true;
          if (q != p)
            post_signal(q, sig, "kill");
        }
      if (tgt > 0 ? p->pid == tgt : tgt != -1) {
        hit = true;
        post_signal(p, sig, "self");
      }
      if (p->st != Proc::PENDING) {
        done = false;
        return 0;
      }
      return hit ? 0 : -ESRCH;
    }
    case SYS_alarm:
      return 0;
    // private calls of the exec stub
    case 10000: { // fetch script
      size_t n = min<size_t>(r.rsi, p->exec_spec.size());
      wrmem(p, r.rdi, p->exec_spec.data(), n);
      return n;
    }
    case 10001: { // fetch argv / env listing
      string s;
      if (r.rdx == 0)
        for (auto& a : p->argv)
          s += a + "\n";
      else
        for (auto& a : p->envp)
          s += a + "\n";
      size_t n = min<size_t>(r.rsi, s.size());
      wrmem(p, r.rdi, s.data(), n);
      return n;
    }
  }
  unmodelled(fmt("syscall %ld (%s)", nr, p->prog.c_str()));
  return -ENOSYS;
}

static const char*
sysname(long nr)
{
  static map<long, const char*> m = {
    { SYS_read, "read" },       { SYS_write, "write" },     { SYS_openat, "openat" },   { SYS_close, "close" },
    { SYS_fstat, "fstat" },     { SYS_newfstatat, "stat" }, { SYS_lseek, "lseek" },     { SYS_dup, "dup" },
    { SYS_dup2, "dup2" },       { SYS_pipe2, "pipe2" },     { SYS_pipe, "pipe" },       { SYS_fcntl, "fcntl" },
    { SYS_select, "select" },   { SYS_pselect6, "pselect" }, { SYS_socket, "socket" },  { SYS_bind, "bind" },
    { SYS_listen, "listen" },   { SYS_accept, "accept" },   { SYS_connect, "connect" }, { SYS_setsockopt, "setsockopt" },
    { SYS_clone, "clone" },     { SYS_execve, "execve" },   { SYS_wait4, "wait4" },     { SYS_kill, "kill" },
    { SYS_tgkill, "tgkill" },   { SYS_exit_group, "exit" }, { SYS_unlink, "unlink" },   { SYS_getcwd, "getcwd" },
    { SYS_getdents64, "getdents" }, { SYS_readlink, "readlink" }, { SYS_clock_gettime, "clock_gettime" },
    { SYS_ioctl, "ioctl" },     { SYS_pread64, "pread" },   { SYS_access, "access" },   { SYS_mkdir, "mkdir" },
  };
  auto i = m.find(nr);
  static char b[32];
  if (i != m.end())
    return i->second;
  snprintf(b, 32, "sys%ld", nr);
  return b;
}

// ---------------------------------------------------------------- actors
struct Actor
{
  string name;
  vector<ActorOp> ops;
  size_t pc = 0, off = 0;
  OFD* w = nullptr; // pipe write end held
  OFD* r = nullptr; // pipe read end held
  PipeP pw, pr;
  SockP s, l;
  string got;
  i64 deadline = -1;
  bool done() const { return pc >= ops.size(); }
};
static vector<Actor*> actors;
static map<string, PipeP> named_pipes;
static map<string, string> pipe_got;

static int
count_sub(const string& h, const string& n)
{
  if (n.empty())
    return 0;
  int c = 0;
  size_t i = 0;
  while ((i = h.find(n, i)) != string::npos) {
    c++;
    i += n.size();
  }
  return c;
}
static Sink*
find_sink(const string& n)
{
  for (auto s : sinks)
    if (s->name == n)
      return s;
  return nullptr;
}
static bool
actor_ready(Actor* a)
{
  if (a->done())
    return false;
  ActorOp& o = a->ops[a->pc];
  const string& k = o.op;
  if (k == "push")
    return a->pw && (a->pw->r == 0 || a->pw->buf.size() < a->pw->cap);
  if (k == "drain")
    return a->pr && (!a->pr->buf.empty() || a->pr->w == 0);
  if (k == "drainn")
    return a->pr && (!a->pr->buf.empty() || a->pr->w == 0);
  if (k == "expect") { // sink count  pattern in data
    Sink* s = find_sink(o.a[0]);
    string hay = s ? s->all : pipe_got[o.a[0]];
    return count_sub(hay, o.data) >= atoi(o.a[1].c_str());
  }
  if (k == "mark") {
    return count_sub(jarr(marks), "\"name\":" + jstr(o.data)) >= atoi(o.a[0].c_str());
  }
  if (k == "sleep") {
    if (a->deadline < 0)
      a->deadline = now_us + atoll(o.a[0].c_str());
    return (i64)now_us >= a->deadline;
  }
  if (k == "connect") {
    int port = atoi(o.a[0].c_str());
    for (auto& l : listeners[port])
      if (l->s == Sock::LISTEN && l->acceptq.size() <= l->backlog)
        return true;
    return false;
  }
  if (k == "accept")
    return a->l && !a->l->acceptq.empty();
  if (k == "send") {
    if (!a->s || a->s->rst || a->s->gone)
      return true;
    return sock_space(a->s) > 0;
  }
  if (k == "recvn") {
    if (!a->s)
      return true;
    return a->got.size() + a->s->rbuf.size() >= (size_t)atoll(o.a[0].c_str()) || a->s->rd_fin || a->s->rst;
  }
  if (k == "recvpat") {
    if (!a->s)
      return true;
    return count_sub(a->got + a->s->rbuf, o.data) >= atoi(o.a[0].c_str()) || a->s->rd_fin || a->s->rst;
  }
  if (k == "recveof") {
    if (!a->s)
      return true;
    return a->s->rd_fin || a->s->rst || !a->s->rbuf.empty();
  }
  if (k == "sig" || k == "sigchild") {
    size_t i = atoi(o.a[0].c_str());
    return i < P.size();
  }
  if (k == "procexit") {
    size_t i = atoi(o.a[0].c_str());
    return i < P.size() && P[i]->st != Proc::PENDING;
  }
  return true; // listen, close, reset, shutw, closew, closer
}
static void
actor_step(Actor* a)
{
  ActorOp& o = a->ops[a->pc];
  const string& k = o.op;
  string res;
  bool fin = true;
  if (k == "push") {
    if (a->pw->r == 0) {
      res = "epipe";
      a->off = 0;
    } else {
      size_t left = o.data.size() - a->off;
      size_t m = min(left, a->pw->cap - a->pw->buf.size());
      size_t c = choose("chunk", 10, (int)J.k("p_chunk", 0));
      static const int sz[10] = { 0, 1, 2, 3, 7, 16, 64, 511, 1023, 1024 };
      if (c)
        m = min<size_t>(m, sz[c]);
      a->pw->buf += o.data.substr(a->off, m);
      a->pw->total_in += m;
      a->off += m;
      fin = a->off >= o.data.size();
      if (fin)
        a->off = 0;
      mix(m);
    }
  } else if (k == "closew") {
    if (a->w)
      ofd_unref(a->w);
    a->w = nullptr;
  } else if (k == "closer") {
    if (a->r)
      ofd_unref(a->r);
    a->r = nullptr;
  } else if (k == "drain" || k == "drainn") {
    if (a->pr->buf.empty() && a->pr->w == 0)
      fin = true;
    else {
      size_t m = a->pr->buf.size();
      size_t c = choose("dchunk", 6, (int)J.k("p_chunk", 0));
      static const int sz[6] = { 0, 1, 5, 100, 1000, 4096 };
      if (c)
        m = min<size_t>(m, sz[c]);
      if (k == "drainn")
        m = min<size_t>(m, atoll(o.a[0].c_str()) - a->off);
      string d = a->pr->buf.substr(0, m);
      a->pr->buf.erase(0, m);
      a->got += d;
      pipe_got[a->name] += d;
      a->off += m;
      fin = k == "drainn" && a->off >= (size_t)atoll(o.a[0].c_str());
      if (fin)
        a->off = 0;
      mix(m);
    }
  } else if (k == "connect") {
    a->s = newsock();
    a->got.clear();
    uint32_t src = o.a.size() > 1 ? (uint32_t)atoll(o.a[1].c_str()) : 0x7f000001;
    // another machine reaches this one at its address on the network
    int rc = tcp_connect(a->s, src >> 24 == 127 ? 0x7f000001 : 0x0a0000fe, atoi(o.a[0].c_str()), src,
                         o.a.size() > 2 ? atoi(o.a[2].c_str()) : 0);
    res = fmt("%d", rc);
    if (rc)
      a->s = nullptr;
  } else if (k == "listen") {
    a->l = newsock();
    a->l->reuse = o.a.size() > 2 ? atoi(o.a[2].c_str()) : true;
    res = fmt("%d", tcp_bind(a->l, atoi(o.a[0].c_str())));
    a->l->s = Sock::LISTEN;
    a->l->backlog = o.a.size() > 1 ? atoi(o.a[1].c_str()) : 16;
  } else if (k == "unlisten") {
    if (a->l)
      sock_close(a->l);
    a->l = nullptr;
  } else if (k == "accept") {
    a->s = a->l->acceptq.front();
    a->l->acceptq.pop_front();
    a->got.clear();
  } else if (k == "send") {
    if (!a->s || a->s->rst || a->s->gone)
      res = "reset";
    else {
      SockP pr = a->s->peer.lock();
      size_t left = o.data.size() - a->off, m = min(left, sock_space(a->s));
      size_t c = choose("chunk", 10, (int)J.k("p_chunk", 0));
      static const int sz[10] = { 0, 1, 2, 3, 7, 16, 64, 511, 1023, 1024 };
      if (c)
        m = min<size_t>(m, sz[c]);
      if (pr && !pr->gone)
        pr->inflight.push_back({ 0, o.data.substr(a->off, m) });
      else
        a->s->inflight.push_back({ 2, "" });
      a->off += m;
      fin = a->off >= o.data.size();
      if (fin)
        a->off = 0;
    }
  } else if (k == "recvn" || k == "recvpat" || k == "recveof") {
    if (a->s) {
      a->got += a->s->rbuf;
      a->s->rx += a->s->rbuf.size();
      a->s->rbuf.clear();
      if (k == "recveof")
        fin = a->s->rd_fin || a->s->rst;
      res = a->s->rst ? "rst" : a->s->rd_fin ? "fin" : "ok";
      if (fin)
        res += ":" + a->got;
    }
  } else if (k == "shutw") {
    if (a->s && !a->s->wr_closed) {
      a->s->wr_closed = true;
      SockP pr = a->s->peer.lock();
      if (pr)
        pr->inflight.push_back({ 1, "" });
    }
  } else if (k == "close") {
    if (a->s) {
      a->got += a->s->rbuf;
      a->s->rbuf.clear();
      res = a->got;
      sock_close(a->s);
    }
    a->s = nullptr;
  } else if (k == "reset") {
    if (a->s) {
      SockP pr = a->s->peer.lock();
      a->s->gone = true;
      a->s->s = Sock::CLOSED;
      if (pr)
        pr->inflight.push_back({ 2, "" });
    }
    a->s = nullptr;
  } else if (k == "sig") {
    Proc* q = P[atoi(o.a[0].c_str())];
    int sg = atoi(o.a[1].c_str());
    if (q->st == Proc::PENDING)
      post_signal(q, sg, a->name.c_str());
    else
      res = "dead";
    fired["signal_external"]++;
  } else if (k == "jump") {
    wall_jump += atoll(o.a[0].c_str());
    fired["clock_jump"]++;
  } else if (k == "chmod") {
    InodeP n = lookup(o.a[0]);
    if (n)
      n->mode = (int)strtol(o.a[1].c_str(), nullptr, 8);
  } else if (k == "mkfile") {
    InodeP n = lookup(o.a[0]);
    if (!n)
      n = addnode(o.a[0], Inode::REG, 0644);
    n->data = o.data;
  } else if (k == "rmfile") {
    FS.erase(o.a[0]);
  } else if (k == "arm")
    armed = true;
  else if (k == "disarm")
    armed = false;
  trace("actor " + a->name + " " + k + " " + res.substr(0, 60));
  mixs(k);
  if (fin) {
    actlog.push_back(fmt("[%lu,%s,%zu,%s,", step_, jstr(a->name).c_str(), a->pc, jstr(k).c_str()) + jstr(res) + "]");
    a->pc++;
    a->deadline = -1;
  }
}
static i64
actor_timer(Actor* a)
{
  if (a->done())
    return -1;
  return a->ops[a->pc].op == "sleep" ? a->deadline : -1;
}

// ---------------------------------------------------------------- scheduler
struct Cand
{
  int t; // 0 proc 1 net 2 actor 3 signal-interrupt of a blocked proc
  int i;
};
static string end_reason;

// p (stopped at a syscall stop, registers already set) continues to user mode: deliver a signal if one is pending.
static void
resume_user(Proc* p)
{
  setregs(p);
  int sig = next_signal(p);
  if (sig && p->disp[sig].h == 0) {
    if (fatal_default(sig)) {
      proc_die(p, sig);
      return;
    }
    sig = 0;
  }
  if (sig && p->disp[sig].h == 1)
    sig = 0;
  run_to_syscall(p, sig);
}

static void
step_proc(Proc* p)
{
  bool done = true;
  long nr = (long)p->r.orig_rax;
  u64 a0 = p->r.rdi, a2 = p->r.rdx;
  string tn = (nr == SYS_read || nr == SYS_write || nr == SYS_close) && getfd(p, (int)a0) ? oname(getfd(p, (int)a0)) : "";
  i64 ret = do_syscall(p, done);
  if (J.trace) {
    string ex;
    if (nr == SYS_openat) {
      rdstr(p, p->r.rsi, ex);
    }
    trace(fmt("pid %d %s(%lld,..,%lld) %s%s = %lld", p->pid, sysname(nr), (long long)a0, (long long)a2, tn.c_str(),
              ex.c_str(), done ? (long long)ret : 0ll));
  }
  mix(p->pid);
  mix(nr);
  mix(ret);
  if (!done)
    return;
  if (ret == BLOCK) {
    p->entered = true;
    return;
  }
  if (sim_error || p->st != Proc::PENDING)
    return;
  p->r.rax = ret;
  resume_user(p);
}

static bool
restartable(long nr)
{
  switch (nr) {
    case SYS_select:
    case SYS_pselect6:
    case SYS_poll:
    case SYS_ppoll:
    case SYS_nanosleep:
    case SYS_clock_nanosleep:
    case SYS_pause:
      return false;
  }
  return true;
}
static void
step_interrupt(Proc* p)
{
  // a blocked syscall is interrupted by a pending signal
  int sig = 0;
  for (int s : p->pend)
    if (!((p->mask >> (s - 1)) & 1)) {
      sig = s;
      break;
    }
  bool restart = restartable((long)p->r.orig_rax) && (p->disp[sig].flags & SA_RESTART);
  // The signal may also have landed just before the call was entered: the call then simply starts afterwards.
  if (!restart && choose("sig_before_entry", 2, (int)J.k("p_sigbefore", 0)))
    restart = true;
  if (p->wr_done > 0) {
    p->r.rax = p->wr_done;
  } else if (restart) {
    p->r.rip -= 2;
    p->r.rax = p->r.orig_rax;
  } else {
    p->r.rax = -EINTR;
    fired["eintr"]++;
  }
  trace(fmt("pid %d interrupted in %s sig %d restart %d", p->pid, sysname(p->r.orig_rax), sig, restart));
  mix(0x1217);
  p->deadline = -1;
  resume_user(p);
}

static void
run_job()
{
  // ---- build the world
  FS.clear();
  nextino = 10;
  nextpid = 100;
  nextsock = 1;
  nexteph = 40000;
  P.clear();
  sinks.clear();
  all_ofds.clear();
  conns.clear();
  listeners.clear();
  actors.clear();
  named_pipes.clear();
  pipe_got.clear();
  step_ = nchoice = now_us = nsyscalls = 0;
  hash_ = 0xcbf29ce484222325ULL;
  rng_ = J.seed * 0x2545F4914F6CDD1DULL + 0x1234567;
  wall_off_us_base = 1700000000000000ull;
  wall_jump = 0;
  used_choices.clear();
  fired.clear();
  seen.clear();
  faultlog.clear();
  marks.clear();
  siglog.clear();
  actlog.clear();
  tracelog.clear();
  notes.clear();
  armed = false;
  sim_error = 0;
  sim_error_msg.clear();
  end_reason.clear();
  maxcand = nmulti = nsched = 0;
  interleave_hash = 0;
  last_proc = 0;

  addnode("/", Inode::DIR, 0755);
  addnode("/dev/null", Inode::NUL, 0666);
  addnode("/work", Inode::DIR, 0755);
  addnode("/tmp", Inode::DIR, 0755);
  for (auto& f : J.files) {
    InodeP n;
    if (f.kind == "dir")
      n = addnode(f.path, Inode::DIR, f.mode);
    else if (f.kind == "absent")
      FS.erase(f.path);
    else if (f.kind == "prog") {
      n = addnode(f.path, Inode::PROG, f.mode);
      n->spec = f.data;
      n->host = f.host;
    } else if (f.kind == "host") {
      n = addnode(f.path, Inode::HOST, f.mode);
      n->host = f.host;
    } else {
      n = addnode(f.path, Inode::REG, f.mode);
      n->data = f.data;
    }
  }
  Proc* root = spawn_root();
  for (auto& a : J.actors) {
    Actor* x = new Actor;
    x->name = a.name;
    x->ops = a.ops;
    actors.push_back(x);
  }
  auto actor = [&](const string& n) -> Actor* {
    for (auto a : actors)
      if (a->name == n)
        return a;
    return nullptr;
  };
  for (auto& e : J.stdfd) {
    int fd = e.first;
    auto& v = e.second;
    OFD* o = nullptr;
    if (v[0] == "same") {
      o = root->fds[atoi(v[1].c_str())].o;
    } else if (v[0] == "null") {
      o = mkofd(OFD::NUL);
      o->flags = O_RDWR;
    } else if (v[0] == "sink") {
      o = mkofd(OFD::SINK);
      o->sink = new Sink;
      o->sink->name = v[1];
      o->flags = O_WRONLY;
      o->tty = v.size() > 2 && v[2] == "tty";
      sinks.push_back(o->sink);
    } else if (v[0] == "file") {
      o = mkofd(OFD::FILE_);
      o->path = v[1];
      o->ino = lookup(v[1]);
      if (!o->ino)
        o->ino = addnode(v[1], Inode::REG, 0644);
      o->flags = fd == 0 ? O_RDONLY : O_WRONLY | O_APPEND;
    } else if (v[0] == "pipein") { // fed by actor v[1]
      o = mkofd(OFD::PIPER);
      o->pipe = make_shared<Pipe>();
      o->pipe->cap = J.k("stdincap", 65536);
      o->pipe->name = v[1];
      o->pipe->r = o->pipe->w = 1;
      o->tty = v.size() > 2 && v[2] == "tty";
      OFD* w = mkofd(OFD::PIPEW);
      w->pipe = o->pipe;
      w->refs = 1;
      Actor* a = actor(v[1]);
      if (!a)
        die("no actor %s", v[1].c_str());
      a->pw = o->pipe;
      a->w = w;
    } else if (v[0] == "pipeout") { // drained by actor v[1]
      o = mkofd(OFD::PIPEW);
      o->flags = O_WRONLY;
      o->pipe = make_shared<Pipe>();
      o->pipe->cap = J.k("stdoutcap", 65536);
      o->pipe->name = v[1];
      o->pipe->r = o->pipe->w = 1;
      OFD* w = mkofd(OFD::PIPER);
      w->pipe = o->pipe;
      w->refs = 1;
      Actor* a = actor(v[1]);
      if (!a)
        die("no actor %s", v[1].c_str());
      a->pr = o->pipe;
      a->r = w;
    } else if (v[0] == "closed")
      continue;
    else
      die("bad stdfd %s", v[0].c_str());
    o->refs++;
    root->fds[fd] = { o, false };
  }
  run_to_syscall(root, 0);

  // ---- main loop
  int mode = (int)J.k("sched", 0);
  u64 maxsteps = J.k("maxsteps", 30000);
  int p_sched = mode == 0 ? 0 : mode == 1 ? 10000 : mode == 2 ? 2000 : 500;
  bool keep_actors = J.k("wait_actors", 0);
  while (!sim_error) {
    if (step_ >= maxsteps) {
      end_reason = "budget";
      break;
    }
    bool alive = false;
    for (auto p : P)
      if (p->st == Proc::PENDING)
        alive = true;
    if (!alive) {
      bool more = false;
      if (keep_actors)
        for (auto a : actors)
          if (actor_ready(a))
            more = true;
      for (auto& c : conns)
        if (!c->inflight.empty())
          more = true;
      if (!more) {
        end_reason = "exit";
        break;
      }
    }
    // candidates; index 0 is the default
    vector<Cand> c;
    Proc* lp = last_proc < (int)P.size() ? P[last_proc] : nullptr;
    if (lp && lp->st == Proc::PENDING && ready(lp))
      c.push_back({ 0, last_proc });
    for (size_t i = 0; i < conns.size(); i++)
      if (!conns[i]->inflight.empty())
        c.push_back({ 1, (int)i });
    for (size_t i = 0; i < P.size(); i++) {
      Proc* p = P[i];
      if (p->st != Proc::PENDING)
        continue;
      bool rd = ready(p);
      if (rd && !(lp == p))
        c.push_back({ 0, (int)i });
      if (!rd && has_signal(p))
        c.push_back({ 3, (int)i });
    }
    for (size_t i = 0; i < actors.size(); i++)
      if (actor_ready(actors[i]))
        c.push_back({ 2, (int)i });
    if (c.empty()) {
      i64 best = -1;
      for (auto p : P)
        if (p->st == Proc::PENDING && timer_of(p) >= 0 && (best < 0 || timer_of(p) < best))
          best = timer_of(p);
      for (auto a : actors)
        if (actor_timer(a) >= 0 && (best < 0 || actor_timer(a) < best))
          best = actor_timer(a);
      if (best < 0) {
        end_reason = alive ? "stuck" : "exit";
        break;
      }
      if ((u64)best > now_us)
        now_us = best;
      continue;
    }
    step_++;
    advance(1);
    // background faults: crash, clock
    auto fc = J.fault.find("kill9");
    if (fc != J.fault.end() && fc->second.fired < fc->second.max && alive && (!fc->second.window || armed)) {
      vector<Proc*> v;
      for (auto p : P)
        if (p->st == Proc::PENDING && (fc->second.only.empty() || (fc->second.only == "root") == (p == P[0])))
          v.push_back(p);
      u64 x = choose("kill9", v.size() + 1, fc->second.p);
      if (x) {
        fc->second.fired++;
        faultlog.push_back(fmt("[\"kill9\",%lu,%d,9,\"\"]", step_, v[x - 1]->pid));
        post_signal(v[x - 1], SIGKILL, "crash");
        continue;
      }
    }
    for (const char* sn : { "sigterm", "sigquit" }) {
      auto sc = J.fault.find(sn);
      if (sc != J.fault.end() && sc->second.fired < sc->second.max && alive && (!sc->second.window || armed)) {
        int sg = sn[3] == 't' ? SIGTERM : SIGQUIT;
        if (P[0]->st == Proc::PENDING && (P[0]->disp[sg].h == 2 || !J.k("sig_after_handler", 1))) {
          if (choose(sn, 2, sc->second.p)) {
            sc->second.fired++;
            faultlog.push_back(fmt("[\"%s\",%lu,%d,%d,\"\"]", sn, step_, P[0]->pid, sg));
            post_signal(P[0], sg, "external");
          }
        }
      }
    }
    auto cj = J.fault.find("clock_jump");
    if (cj != J.fault.end() && cj->second.fired < cj->second.max) {
      u64 x = choose("clock_jump", 5, cj->second.p);
      static const i64 js[5] = { 0, -3600000000ll, 3600000000ll, -1000000ll, 86400000000ll };
      if (x) {
        cj->second.fired++;
        wall_jump += js[x];
        faultlog.push_back(fmt("[\"clock_jump\",%lu,0,0,\"%ld\"]", step_, (long)js[x]));
      }
    }
    auto dl = J.fault.find("delay");
    if (dl != J.fault.end() && dl->second.fired < dl->second.max) {
      u64 x = choose("delay", 5, dl->second.p);
      static const u64 ds[5] = { 0, 10, 1000, 50000, 2000000 };
      if (x) {
        dl->second.fired++;
        advance(ds[x]);
      }
    }
    if (c.size() > maxcand)
      maxcand = c.size();
    u64 pick = 0;
    if (c.size() > 1) {
      nmulti++;
      // prefer processes and the network over actors unless the draw says otherwise
      pick = choose("sched", c.size(), p_sched);
    }
    Cand x = c[pick];
    if (x.t == 0 && P[x.i]->st != Proc::PENDING)
      continue;
    if (x.t == 0 && !ready(P[x.i]))
      continue;
    nsched++;
    interleave_hash = (interleave_hash ^ (u64)(x.t * 131 + x.i + 7)) * 0x100000001b3ULL + (c.size() > 1);
    if (x.t == 0) {
      last_proc = x.i;
      step_proc(P[x.i]);
    } else if (x.t == 1)
      deliver_seg(conns[x.i]);
    else if (x.t == 2)
      actor_step(actors[x.i]);
    else if (P[x.i]->st == Proc::PENDING && has_signal(P[x.i]))
      step_interrupt(P[x.i]);
    mix(x.t * 1000 + x.i);
  }
  if (sim_error == 2)
    end_reason = "spin";

  // ---- collect
  string out = "{";
  out += "\"end\":" + jstr(end_reason);
  out += ",\"msg\":" + jstr(sim_error_msg);
  out += fmt(",\"hash\":\"%016lx\",\"steps\":%lu,\"choices_n\":%lu,\"sim_us\":%lu,\"syscalls\":%lu,\"multi\":%lu,"
             "\"maxcand\":%lu,\"ilv\":\"%016lx\"",
             hash_, step_, nchoice, now_us, nsyscalls, nmulti, maxcand, interleave_hash);
  {
    out += ",\"choices\":[";
    bool f = true;
    for (auto& c : used_choices) {
      out += fmt("%s[%lu,%lu]", f ? "" : ",", c.first, c.second);
      f = false;
    }
    out += "],\"fired\":{";
    f = true;
    for (auto& c : fired) {
      out += (f ? "" : ",") + jstr(c.first) + fmt(":%lu", c.second);
      f = false;
    }
    out += "}";
  }
  out += ",\"faults\":" + jarr(faultlog) + ",\"marks\":" + jarr(marks) + ",\"signals\":" + jarr(siglog) +
         ",\"acts\":" + jarr(actlog) + ",\"notes\":" + jarr(notes) + ",\"trace\":" + jarr(tracelog);
  out += ",\"procs\":[";
  for (size_t i = 0; i < P.size(); i++) {
    Proc* p = P[i];
    bool run = p->st == Proc::PENDING;
    out += (i ? "," : "") +
           fmt("{\"pid\":%d,\"ppid\":%d,\"state\":\"%s\",\"code\":%d,\"sig\":%d,\"born\":%lu,\"died\":%lu,\"reaped_by\":%d,"
               "\"blocked\":",
               p->pid, p->ppid, run ? "run" : p->st == Proc::ZOMBIE ? "zombie" : "reaped",
               run ? -1 : WIFEXITED(p->status) ? WEXITSTATUS(p->status) : -1,
               run ? 0 : WIFSIGNALED(p->status) ? WTERMSIG(p->status) : 0, p->born, p->died, p->reaped_by) +
           jstr(run ? fmt("%s(%lld)", sysname(p->r.orig_rax), (long long)p->r.rdi) : "") + ",\"prog\":" + jstr(p->prog) +
           ",\"argv\":[";
    for (size_t k = 0; k < p->argv.size(); k++)
      out += (k ? "," : "") + jstr(p->argv[k]);
    out += "],\"fds\":" + (run ? fdsnap(p) : p->exit_fds) + "}";
  }
  out += "],\"sinks\":{";
  for (size_t i = 0; i < sinks.size(); i++) {
    out += (i ? "," : "") + jstr(sinks[i]->name) + ":[";
    for (size_t k = 0; k < sinks[i]->segs.size(); k++) {
      auto& s = sinks[i]->segs[k];
      out += (k ? "," : "") + fmt("[%lu,%d,", s.step, s.pid) + jstr(s.d) + "]";
    }
    out += "]";
  }
  out += "},\"pipes\":{";
  bool f = true;
  for (auto& e : pipe_got) {
    out += (f ? "" : ",") + jstr(e.first) + ":" + jstr(e.second);
    f = false;
  }
  out += "},\"actors\":{";
  for (size_t i = 0; i < actors.size(); i++)
    out += (i ? "," : "") + jstr(actors[i]->name) +
           fmt(":{\"pc\":%zu,\"n\":%zu,\"got\":", actors[i]->pc, actors[i]->ops.size()) + jstr(actors[i]->got) + "}";
  out += "},\"files\":{";
  f = true;
  for (auto& e : FS)
    if (e.second->t == Inode::REG && e.first.rfind("/work/", 0) == 0) {
      out += (f ? "" : ",") + jstr(e.first) + ":" + jstr(e.second->data);
      f = false;
    }
  out += "}}\n";
  // ---- tear down
  for (auto p : P) {
    hardkill(p);
    delete p;
  }
  P.clear();
  for (auto o : all_ofds)
    delete o;
  for (auto s : sinks)
    delete s;
  for (auto a : actors)
    delete a;
  size_t od = 0;
  while (od < out.size()) {
    ssize_t n = write(1, out.data() + od, out.size() - od);
    if (n < 0 && errno == EINTR)
      continue;
    if (n <= 0)
      exit(0);
    od += n;
  }
}

// ---------------------------------------------------------------- job input
static char inbuf[65536];
static ssize_t inpos, inlen;
static int
getbyte() // stdin, immune to the watchdog's EINTR
{
  while (inpos == inlen) {
    ssize_t n = read(0, inbuf, sizeof inbuf);
    if (n < 0 && errno == EINTR)
      continue;
    if (n <= 0)
      return EOF;
    inpos = 0;
    inlen = n;
  }
  return (unsigned char)inbuf[inpos++];
}
static bool
rdline(string& s)
{
  s.clear();
  int c;
  while ((c = getbyte()) != EOF && c != '\n')
    s += (char)c;
  return c != EOF || !s.empty();
}
static string
rdbytes(size_t n)
{
  string s(n, 0);
  for (size_t i = 0; i < n; i++) {
    int c = getbyte();
    if (c == EOF)
      die("short job");
    s[i] = (char)c;
  }
  getbyte();
  return s;
}
static vector<string>
words(const string& s)
{
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(' ', i);
    if (j == string::npos)
      j = s.size();
    if (j > i)
      v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return v;
}

int
main(int argc, char** argv)
{
  if (argc < 2)
    die("usage: simd STUB");
  STUB = argv[1];
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onalrm;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it = { { 0, 500000 }, { 0, 500000 } };
  setitimer(ITIMER_REAL, &it, nullptr);
  signal(SIGPIPE, SIG_DFL);
  map<string, FileCfg> base; // files kept across jobs
  string l;
  J = Job();
  while (rdline(l)) {
    auto w = words(l);
    if (w.empty())
      continue;
    const string& k = w[0];
    if (k == "job")
      J = Job();
    else if (k == "seed")
      J.seed = strtoull(w[1].c_str(), nullptr, 10);
    else if (k == "replay")
      J.replay = true;
    else if (k == "trace")
      J.trace = true;
    else if (k == "choice")
      J.choices[strtoull(w[1].c_str(), nullptr, 10)] = strtoull(w[2].c_str(), nullptr, 10);
    else if (k == "knob")
      J.knob[w[1]] = atoll(w[2].c_str());
    else if (k == "fault") { // fault kind p max window only|-
      FaultCfg c;
      c.p = atoi(w[2].c_str());
      c.max = atoi(w[3].c_str());
      c.window = atoi(w[4].c_str());
      if (w[5] != "-")
        c.only = w[5];
      for (size_t i = 6; i < w.size(); i++)
        c.nth.push_back(atoi(w[i].c_str()));
      J.fault[w[1]] = c;
    } else if (k == "exe")
      J.exe = rdbytes(atoi(w[1].c_str()));
    else if (k == "cwd")
      J.cwd = rdbytes(atoi(w[1].c_str()));
    else if (k == "arg")
      J.argv.push_back(rdbytes(atoi(w[1].c_str())));
    else if (k == "env")
      J.env.push_back(rdbytes(atoi(w[1].c_str())));
    else if (k == "file" || k == "base") { // file kind mode pathlen datalen hostlen
      FileCfg f;
      f.kind = w[1];
      f.mode = (int)strtol(w[2].c_str(), nullptr, 8);
      f.path = rdbytes(atoi(w[3].c_str()));
      f.data = rdbytes(atoi(w[4].c_str()));
      f.host = rdbytes(atoi(w[5].c_str()));
      if (k == "base")
        base[f.path] = f;
      else
        J.files.push_back(f);
    } else if (k == "stdfd") {
      vector<string> v(w.begin() + 2, w.end());
      J.stdfd[atoi(w[1].c_str())] = v;
    } else if (k == "actor") {
      ActorCfg a;
      a.name = w[1];
      J.actors.push_back(a);
    } else if (k == "op") { // op name datalen args...
      ActorOp o;
      o.op = w[1];
      o.a.assign(w.begin() + 3, w.end());
      o.data = rdbytes(atoi(w[2].c_str()));
      J.actors.back().ops.push_back(o);
    } else if (k == "run") {
      vector<FileCfg> v;
      for (auto& b : base)
        v.push_back(b.second);
      v.insert(v.end(), J.files.begin(), J.files.end());
      J.files = v;
      run_job();
    } else
      die("bad job line: %s", l.c_str());
  }
  return 0;
}
