// Runs plans in forked children, one simulated execution per child.
#include "plan.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

volatile int g_expect_abort = 0;
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario& s) { scenarios().push_back(s); }
static const Scenario* find_scenario(const std::string& p) {
  for (auto& s : scenarios()) if (p == s.prop) return &s;
  return nullptr;
}
static char g_scratch[256];
const char* scratch_dir() { return g_scratch; }

void gen_sched(Rng& r, Plan& p) {
  static const double mc[] = {3, 8, 25, 80, 300, 1500, 10000, 100000};
  p.sched["mean_credit"] = mc[r.range(0, 7)];
  static const double sw[] = {1, 4, 20, 60, 200};
  p.sched["sync_weight"] = sw[r.range(0, 4)];
  static const double idf[] = {0.0, 0.02, 0.2, 1.0};
  p.sched["idle_factor"] = idf[r.range(0, 3)];
  p.sched["policy"] = r.pick({5, 3, 3});
  p.sched["spurious"] = r.chance(0.3) ? 0.05 : 0.0;
  p.sched["weak_cas"] = r.chance(0.3) ? 0.1 : 0.0;
  p.sched["seed"] = (double)(r.u64() >> 12);
}

static std::string dump(const Plan& p, bool with_devs) {
  std::ostringstream o;
  o.precision(17);
  o << "prop " << p.prop << "\nseed " << p.seed << "\n";
  for (auto& k : p.cfg) o << "cfg " << k.first << " " << k.second << "\n";
  for (auto& i : p.ops) { o << "op " << i.name; for (auto v : i.a) o << " " << v; o << "\n"; }
  for (auto& i : p.faults) { o << "fault " << i.name; for (auto v : i.a) o << " " << v; o << "\n"; }
  for (auto& k : p.sched) o << "sched " << k.first << " " << k.second << "\n";
  if (with_devs || p.replay) {
    o << "replay 1\n";
    for (auto& d : p.devs) o << "dev " << d.step << " " << d.tid << "\n";
  }
  return o.str();
}
static bool parse(std::istream& in, Plan* p) {
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    if (!(s >> k) || k[0] == '#') continue;
    if (k == "prop") s >> p->prop;
    else if (k == "seed") s >> p->seed;
    else if (k == "cfg") { std::string n; int64_t v; s >> n >> v; p->cfg[n] = v; }
    else if (k == "op" || k == "fault") {
      Item i; int64_t v; s >> i.name;
      while (s >> v) i.a.push_back(v);
      (k == "op" ? p->ops : p->faults).push_back(i);
    } else if (k == "sched") { std::string n; double v; s >> n >> v; p->sched[n] = v; }
    else if (k == "replay") p->replay = true;
    else if (k == "dev") { SimDev d = {0, 0, 0}; s >> d.step >> d.tid; p->devs.push_back(d); }
    else return false;
  }
  return !p->prop.empty();
}
// (through its text form: a run from a seed and a run from the file are the same to the last step)
static Plan make_plan(const Scenario* sc, uint64_t seed) {
  Plan p;
  p.prop = sc->prop;
  p.seed = seed;
  Rng r(seed);
  gen_sched(r, p);
  sc->gen(r, p);
  Plan q;
  std::istringstream in(dump(p, false));
  parse(in, &q);
  return q;
}

static SimResult* g_result;
static int g_errfd = -1;
static const Scenario* g_sc;
static const Plan* g_plan;
static char g_sigstack[65536];

static void on_signal(int sig) {
  if (sig == SIGABRT && g_expect_abort) { sim_violation("expected-abort", "-"); }
  char buf[700];
  ssize_t n = 0;
  off_t end = lseek(g_errfd, 0, SEEK_END);
  off_t from = end > 600 ? end - 600 : 0;
  n = pread(g_errfd, buf, 600, from);
  if (n < 0) n = 0;
  buf[n] = 0;
  for (int i = 0; i < n; ++i) if (buf[i] == '\n' || buf[i] == '"') buf[i] = ' ';
  sim_violation(sig == SIGABRT ? "abort" : sig == SIGXCPU ? "hang" : "crash", "%s: %s",
                sig == SIGABRT ? "process aborted" : sig == SIGXCPU ? "no progress for 60 s of CPU time" : strsignal(sig), buf);
}
static void child_main(void*) { g_sc->run(*g_plan); }

static void rm_tree(const char* d) {
  DIR* dir = opendir(d);
  if (!dir) return;
  struct dirent* e;
  while ((e = readdir(dir))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = std::string(d) + "/" + e->d_name;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p.c_str());
    else unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d);
}
static std::string g_base;

// Runs one plan in a child; the result is in *g_result. verbose > 0 leaves stderr alone.
static void run_child(const Plan& p, int verbose) {
  const Scenario* sc = find_scenario(p.prop);
  memset(g_result, 0, offsetof(SimResult, dev));
  g_result->outcome = SIM_RUNNING;
  snprintf(g_scratch, sizeof g_scratch, "%s/run", g_base.c_str());
  rm_tree(g_scratch);
  mkdir(g_scratch, 0700);
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (!verbose) dup2(g_errfd, 2);
    close(nul);
    struct rlimit rl = {60, 70};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = g_sigstack;
    ss.ss_size = sizeof g_sigstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGXFSZ, SIG_IGN);
    static SimCfg c;
    memset(&c, 0, sizeof c);
    c.sched_seed = (uint64_t)p.s("seed", 1) * 2654435761u + 88172645463325252ull;
    c.replay = p.replay;
    c.mean_credit = p.s("mean_credit", 100);
    c.sync_weight = p.s("sync_weight", 10);
    c.idle_factor = p.s("idle_factor", 0.1);
    c.policy = (int)p.s("policy", 0);
    c.tick_ps = (uint64_t)p.s("tick_ps", 1000);
    c.step_cap = (uint64_t)p.s("step_cap", sc->step_cap);
    c.spurious = p.s("spurious", 0);
    c.weak_cas = p.s("weak_cas", 0);
    c.freeze = p.s("freeze", 0);
    c.freeze_ns = (uint64_t)p.s("freeze_ns", 0);
    c.cores = (int)p.s("cores", 8);
    c.sched_off = (int)p.s("sched_off", 0);
    c.detect_races = sc->detect_races;
    c.verbose = verbose;
    g_sc = sc;
    static Plan seen;   // what the scenario sees: the same whether the schedule is drawn or replayed
    seen = p;
    seen.devs = std::vector<SimDev>();
    seen.replay = false;
    g_plan = &seen;
    sim_run(&c, p.devs.data(), p.devs.size(), g_result, child_main, nullptr);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (g_result->outcome == SIM_RUNNING) {
    g_result->outcome = SIM_VIOLATION;
    snprintf(g_result->cls, sizeof g_result->cls, "%s", WIFSIGNALED(st) ? "crash" : "exit");
    snprintf(g_result->msg, sizeof g_result->msg, "the process died (%s %d)", WIFSIGNALED(st) ? "signal" : "exit status",
             WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) g_result->outcome = SIM_HARNESS;
  }
  if (!strcmp(g_result->cls, "expected-abort")) g_result->outcome = SIM_OK;
  rm_tree(g_scratch);
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o + "\"";
}
static std::string result_json(const Plan& p) {
  SimResult& r = *g_result;
  std::ostringstream o;
  const char* oc[] = {"ok", "violation", "harness", "running"};
  o << "{\"outcome\":\"" << oc[r.outcome] << "\",\"class\":" << jstr(r.cls) << ",\"msg\":" << jstr(r.msg)
    << ",\"hash\":\"" << r.hash << "\",\"sched_hash\":\"" << r.sched_hash << "\",\"steps\":" << r.steps << ",\"switches\":" << r.switches
    << ",\"syncops\":" << r.syncops << ",\"sim_ns\":" << r.sim_ns << ",\"threads\":" << r.nthreads << ",\"ndev\":" << r.ndev
    << ",\"seed\":\"" << p.seed << "\",\"allocs\":" << r.allocs << ",\"faults\":[";
  for (int i = 0; i < SIM_NFAULT; ++i) o << (i ? "," : "") << r.faults[i];
  o << "],\"probes\":[";
  for (int i = 0; i < SIM_NPROBE; ++i) o << (i ? "," : "") << r.probes[i];
  o << "]}";
  return o.str();
}
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static uint64_t seed_for(uint64_t base, const std::string& prop, uint64_t idx) {
  uint64_t s = base * 0x2545F4914F6CDD1Dull + 0x1234567;
  for (char ch : prop) s = (s ^ (unsigned char)ch) * 1099511628211ull;
  s ^= idx * 0x9E3779B97F4A7C15ull;
  return Rng::mix(&s);
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  g_result = (SimResult*)mmap(nullptr, sizeof(SimResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_errfd = memfd_create("stderr", 0);
  char base[] = "/tmp/altrosim.XXXXXX";
  if (!mkdtemp(base)) { perror("mkdtemp"); return 2; }
  g_base = base;
  int rc = 0;
  if (cmd == "list") {
    for (auto& s : scenarios()) std::cout << s.prop << "\n";
  } else if (cmd == "gen") {   // gen PROP SEED
    const Scenario* sc = find_scenario(argv[2]);
    if (!sc) { rc = 2; } else std::cout << dump(make_plan(sc, strtoull(argv[3], 0, 10)), false);
  } else if (cmd == "run") {   // run FILE [verbose] [devs-out]
    Plan p;
    std::ifstream f(argv[2]);
    if (!parse(f, &p) || !find_scenario(p.prop)) { std::cerr << "bad plan\n"; rc = 2; }
    else {
      int verbose = argc > 3 ? atoi(argv[3]) : 0;
      run_child(p, verbose);
      if (argc > 4) {
        Plan q = p;
        q.replay = true;
        q.devs.assign(g_result->dev, g_result->dev + std::min<uint64_t>(g_result->ndev, SIM_MAX_DEV));
        std::ofstream(argv[4]) << dump(q, true);
      }
      std::cout << result_json(p) << "\n";
    }
  } else if (cmd == "seed") {  // seed PROP SEED [verbose]
    const Scenario* sc = find_scenario(argv[2]);
    Plan p = make_plan(sc, strtoull(argv[3], 0, 10));
    run_child(p, argc > 4 ? atoi(argv[4]) : 0);
    std::cout << result_json(p) << "\n";
  } else if (cmd == "batch") { // batch PROP BASESEED START STRIDE MAXRUNS SECONDS
    std::string prop = argv[2];
    const Scenario* sc = find_scenario(prop);
    if (!sc) { std::cerr << "unknown property\n"; return 2; }
    uint64_t bseed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), maxruns = strtoull(argv[6], 0, 10);
    double secs = atof(argv[7]), t0 = now();
    int keep_going = argc > 8 ? atoi(argv[8]) : 0;
    uint64_t runs = 0, steps = 0, switches = 0, syncops = 0, faults[SIM_NFAULT] = {0}, probes[SIM_NPROBE] = {0}, rechecks = 0, mismatches = 0, concurrent = 0, thr = 0, harness = 0, viol = 0;
    double sim_s = 0;
    std::set<uint64_t> shashes, plans;
    std::vector<std::string> samples;
    uint64_t runs_with_fault = 0;
    for (uint64_t i = start; runs < maxruns && now() - t0 < secs; i += stride) {
      Plan p = make_plan(sc, seed_for(bseed, prop, i));
      run_child(p, 0);
      runs++;
      SimResult& r = *g_result;
      if (r.outcome == SIM_VIOLATION) {
        viol++;
        std::cout << "V " << result_json(p) << "\n" << std::flush;
        if (!keep_going) break;
        continue;
      }
      if (r.outcome == SIM_HARNESS) { harness++; std::cout << "H " << result_json(p) << "\n" << std::flush; continue; }
      steps += r.steps; switches += r.switches; syncops += r.syncops; sim_s += r.sim_ns / 1e9; thr += r.nthreads;
      bool anyf = false;
      for (int k = 0; k < SIM_NFAULT; ++k) { faults[k] += r.faults[k]; if (r.faults[k] && k != F_PREEMPT) anyf = true; }
      for (int k = 0; k < SIM_NPROBE; ++k) probes[k] += r.probes[k];
      if (anyf) runs_with_fault++;
      if (r.nthreads > 1) concurrent++;
      shashes.insert(r.sched_hash ^ (r.nthreads > 1 ? 0 : r.hash));
      std::string d = dump(p, false);
      uint64_t h = 1469598103934665603ull;
      for (char ch : d.substr(d.find("\n", d.find("seed")))) h = (h ^ (unsigned char)ch) * 1099511628211ull;
      plans.insert(h);
      if (samples.size() < 3 && i % 7 == 0) samples.push_back(d);
      if (i % 23 == 0) {   // determinism: the same seed must give the same execution
        uint64_t h1 = r.hash;
        uint64_t nd = std::min<uint64_t>(r.ndev, SIM_MAX_DEV);
        bool full = r.ndev <= SIM_MAX_DEV;
        Plan q = p;
        q.replay = true;
        q.devs.assign(r.dev, r.dev + nd);
        run_child(p, 0);
        rechecks++;
        if (g_result->hash != h1 || g_result->outcome != SIM_OK) { mismatches++; std::cout << "M seed " << result_json(p) << " first " << h1 << "\n" << std::flush; }
        else if (full) {   // and so must the recorded schedule alone
          run_child(q, 0);
          if (g_result->hash != h1 || g_result->outcome != SIM_OK) { mismatches++; std::cout << "M replay " << result_json(p) << " first " << h1 << "\n" << std::flush; }
        }
      }
    }
    std::ostringstream o;
    o.precision(12);
    o << "S {\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"syncops\":" << syncops << ",\"sim_seconds\":" << sim_s
      << ",\"concurrent_runs\":" << concurrent << ",\"threads\":" << thr << ",\"runs_with_fault\":" << runs_with_fault << ",\"rechecks\":" << rechecks << ",\"mismatches\":" << mismatches
      << ",\"harness\":" << harness << ",\"violations\":" << viol << ",\"wall\":" << now() - t0 << ",\"faults\":[";
    for (int k = 0; k < SIM_NFAULT; ++k) o << (k ? "," : "") << faults[k];
    o << "],\"probes\":[";
    for (int k = 0; k < SIM_NPROBE; ++k) o << (k ? "," : "") << probes[k];
    o << "],\"plans\":[";
    bool first = true;
    for (uint64_t h : plans) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    o << "],\"interleavings\":[";
    first = true;
    for (uint64_t h : shashes) { o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    o << "],\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) o << (k ? "," : "") << jstr(samples[k]);
    o << "]}";
    std::cout << o.str() << "\n" << std::flush;
  } else {
    std::cerr << "usage: driver list | gen PROP SEED | seed PROP SEED [v] | run FILE [v] [devs] | batch PROP SEED START STRIDE MAX SECS [keep]\n";
    rc = 2;
  }
  rm_tree(base);
  return rc;
}
