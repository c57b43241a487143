#include "mc.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace {

using Clock = std::chrono::steady_clock;

constexpr int MAXCH = 4096;
constexpr int TAGLEN = 512;

struct Slot { // shared with the parent
  volatile uint64_t heartbeat;
  volatile int scenario;
  volatile uint64_t caseIndex; // index of the leaf being executed
  volatile int executing;
  volatile int done;
  volatile int nch;
  int ch[MAXCH];
  char tag[TAGLEN];
  volatile uint64_t evaluations, steps, choices, maxDepth;
};

struct Worker {
  int id = 0, count = 1;
  Slot *slot = nullptr;
  uint64_t leaf = 0;   // leaves seen so far in this scenario
  uint64_t resume = 0; // first leaf to execute after a restart
  bool anyLeaf = false;
  std::vector<int> lastPre; // the decisions made before go() in the previous run
  std::unordered_set<uint64_t> *states = nullptr;
  int scenario = 0;
};

std::string scratchDir;
std::string gScratchBase;

std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

std::string chText(const std::vector<int> &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) {
    if (i) s += ",";
    s += std::to_string(v[i]);
  }
  return s;
}

struct Found {
  std::string scenario, key, message;
  std::vector<int> choices;
  bool reproduced = false;
};

class NullBuf : public std::streambuf {
public:
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

void muteStreams() {
  static NullBuf nb;
  std::cout.rdbuf(&nb);
  std::cerr.rdbuf(&nb);
  std::clog.rdbuf(&nb);
}

// Executes one case; returns true if a violation was found.
bool execute(const Scenario &sc, Run &run, Found &f) {
  try {
    sc.body(run);
    return false;
  } catch (const Violation &v) {
    f.key = v.key;
    f.message = v.what();
  } catch (const std::exception &e) {
    f.key = "exception";
    f.message = std::string("uncaught exception: ") + e.what();
  } catch (...) {
    f.key = "exception";
    f.message = "uncaught non-standard exception";
  }
  return true;
}

bool nextPrefix(std::vector<int> &made, const std::vector<int> &arity) {
  while (!made.empty()) {
    size_t i = made.size() - 1;
    if (made[i] + 1 < arity[i]) {
      made[i]++;
      return true;
    }
    made.pop_back();
  }
  return false;
}

void writeAll(int fd, const std::string &s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = write(fd, s.data() + off, s.size() - off);
    if (n <= 0) return;
    off += static_cast<size_t>(n);
  }
}

void limits() {
#if !defined(__SANITIZE_ADDRESS__)
  rlimit rl{3ULL << 30, 3ULL << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  rlimit fs{256ULL << 20, 256ULL << 20};
  setrlimit(RLIMIT_FSIZE, &fs);
}

[[noreturn]] void workerMain(Worker w, const std::vector<Scenario> &scs, bool thorough, int outFd,
                             const std::string &stateFile, int startScenario, uint64_t resume, double deadline,
                             Clock::time_point t0) {
  limits();
  muteStreams();
  scratchDir = gScratchBase + "/w" + std::to_string(w.id);
  std::filesystem::create_directories(scratchDir);
  std::unordered_set<uint64_t> states;
  w.states = &states;
  std::map<std::string, int> perKey;
  bool truncated = false;
  for (int si = startScenario; si < static_cast<int>(scs.size()); si++) {
    const auto &sc = scs[si];
    w.leaf = 0;
    w.anyLeaf = false;
    w.lastPre.clear();
    w.scenario = si;
    w.resume = si == startScenario ? resume : 0;
    w.slot->scenario = si;
    w.slot->caseIndex = 0;
    int samples = 0;
    uint64_t executed = 0;
    std::vector<int> prefix;
    for (;;) {
      Run run;
      run.prefix = prefix;
      run.worker = &w;
      run.isThorough = thorough;
      run.wantSample = w.id == 0 && (samples < 2 || (samples < 4 && executed == 5000));
      Found f;
      w.slot->executing = 0;
      w.slot->nch = 0;
      w.slot->tag[0] = 0;
      bool bad = execute(sc, run, f);
      if (run.passed || bad) {
        executed++;
        w.slot->evaluations = w.slot->evaluations + 1;
        w.slot->steps = w.slot->steps + run.steps;
        w.slot->choices = w.slot->choices + run.made.size();
        if (run.made.size() > w.slot->maxDepth) w.slot->maxDepth = run.made.size();
        if (!run.sampleText.empty()) {
          samples++;
          writeAll(outFd, "S\t" + sc.name + "\t" + chText(run.made) + "\t" + esc(run.sampleText.substr(0, 600)) + "\n");
        }
      }
      if (bad) {
        if (perKey[sc.name + "|" + f.key]++ < 3) {
          writeAll(outFd, "V\t" + sc.name + "\t" + chText(run.made) + "\t" + esc(f.key) + "\t" +
                              esc(f.message.substr(0, 2000)) + "\n");
        }
      }
      w.slot->heartbeat = w.slot->heartbeat + 1;
      w.slot->executing = 0;
      prefix = run.made;
      if (!nextPrefix(prefix, run.arity)) break;
      if ((executed & 63U) == 0 &&
          std::chrono::duration<double>(Clock::now() - t0).count() > deadline) {
        truncated = true;
        break;
      }
    }
    writeAll(outFd, "E\t" + sc.name + "\t" + std::to_string(executed) + "\n");
    if (truncated) {
      writeAll(outFd, "T\t" + sc.name + "\n");
      if (std::chrono::duration<double>(Clock::now() - t0).count() > deadline) break;
    }
  }
  std::ofstream so(stateFile, std::ios::binary | std::ios::app);
  for (uint64_t h : states) so.write(reinterpret_cast<const char *>(&h), sizeof h);
  so.close();
  w.slot->done = 1;
  _exit(0);
}

std::string tail(const std::string &path, size_t n) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  // prefer the sanitizer's summary lines
  std::string out;
  std::istringstream is(s);
  std::string line;
  int frames = 0;
  while (std::getline(is, line)) {
    if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos ||
        line.find("SUMMARY") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("terminate") != std::string::npos || line.find("what()") != std::string::npos) {
      out += line + "\n";
    } else if (line.find("/source/") != std::string::npos && frames < 6) {
      frames++;
      out += line + "\n";
    }
  }
  if (out.empty()) out = s.size() > n ? s.substr(s.size() - n) : s;
  return out.substr(0, n);
}

std::string describeStatus(int st) {
  if (WIFSIGNALED(st)) return std::string("killed by signal ") + strsignal(WTERMSIG(st));
  if (WIFEXITED(st)) return "ended with status " + std::to_string(WEXITSTATUS(st));
  return "ended abnormally";
}

// Runs one choice vector in a fresh process. Returns the violation, if any.
bool replayOnce(const Scenario &sc, const std::vector<int> &choices, bool thorough, Found &f, std::string &text,
                int timeoutSec) {
  int fds[2];
  if (pipe(fds) != 0) return false;
  std::string errFile = gScratchBase + "/replay.err";
  auto *slot = static_cast<Slot *>(
      mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    limits();
    muteStreams();
    scratchDir = gScratchBase + "/replay";
    std::filesystem::create_directories(scratchDir);
    Worker w;
    std::unordered_set<uint64_t> states;
    w.states = &states;
    w.slot = slot;
    Run run;
    run.prefix = choices;
    run.worker = &w;
    run.replay = true;
    run.wantSample = true;
    run.isThorough = thorough;
    Found g;
    bool bad = execute(sc, run, g);
    writeAll(fds[1], (bad ? "1" : "0") + std::string("\n") + esc(g.key) + "\n" + esc(g.message) + "\n" +
                         esc(run.sampleText) + "\n");
    _exit(0);
  }
  close(fds[1]);
  std::string all;
  auto t0 = Clock::now();
  int st = 0;
  bool timedOut = false;
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  for (;;) {
    char buf[4096];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      while ((n = read(fds[0], buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(n));
      break;
    }
    if (std::chrono::duration<double>(Clock::now() - t0).count() > timeoutSec) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      timedOut = true;
      break;
    }
    usleep(2000);
  }
  close(fds[0]);
  std::string tag = slot->tag;
  munmap(slot, sizeof(Slot));
  if (timedOut) {
    f.key = "hang" + (tag.empty() ? "" : ":" + tag);
    f.message = "no result within " + std::to_string(timeoutSec) + " s";
    return true;
  }
  std::istringstream is(all);
  std::string flag;
  std::getline(is, flag);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || flag.empty()) {
    f.key = "crash" + (tag.empty() ? "" : ":" + tag);
    f.message = describeStatus(st) + "\n" + tail(errFile, 1500);
    return true;
  }
  std::string k, m;
  std::getline(is, k);
  std::getline(is, m);
  std::getline(is, text);
  if (flag == "1") {
    f.key = k;
    f.message = m;
    return true;
  }
  return false;
}

} // namespace

int Run::choose(int n) {
  size_t i = made.size();
  int c = 0;
  if (i < prefix.size()) c = prefix[i];
  if (n <= 0 || c < 0 || c >= n) {
    if (replay) throw std::runtime_error("replay file does not fit this scenario");
    throw std::runtime_error("scenario error: choose(" + std::to_string(n) + ") with prefix " + std::to_string(c));
  }
  made.push_back(c);
  arity.push_back(n);
  if (passed && worker != nullptr) { // decisions after go() belong to the case being executed
    auto *w = static_cast<Worker *>(worker);
    if (w->slot->nch < MAXCH) {
      w->slot->ch[w->slot->nch] = c;
      w->slot->nch = w->slot->nch + 1;
    }
  }
  return c;
}

bool Run::go() {
  auto *w = static_cast<Worker *>(worker);
  if (replay) {
    passed = true;
    return true;
  }
  // A leaf is identified by the decisions made before go(): the ones made after it are explored by its owner only.
  if (!w->anyLeaf || w->lastPre != made) {
    if (w->anyLeaf) w->leaf++;
    w->anyLeaf = true;
    w->lastPre = made;
  }
  uint64_t leaf = w->leaf;
  caseIndex = leaf;
  if (leaf < w->resume || leaf % static_cast<uint64_t>(w->count) != static_cast<uint64_t>(w->id)) {
    if ((leaf & 1023U) == 0) w->slot->heartbeat = w->slot->heartbeat + 1;
    return false;
  }
  int n = 0;
  for (int c : made) {
    if (n < MAXCH) w->slot->ch[n++] = c;
  }
  w->slot->nch = n;
  w->slot->caseIndex = leaf;
  w->slot->heartbeat = w->slot->heartbeat + 1;
  w->slot->executing = 1;
  passed = true;
  return true;
}

void Run::tag(const std::string &t) {
  auto *w = static_cast<Worker *>(worker);
  if (w->slot == nullptr) return;
  strncpy(w->slot->tag, t.c_str(), TAGLEN - 1);
  w->slot->tag[TAGLEN - 1] = 0;
}

void Run::state(uint64_t h) { static_cast<Worker *>(worker)->states->insert(h); }
void Run::state(const std::string &s) { state(hashStr(s)); }
void Run::describe(const std::function<std::string()> &f) {
  if (wantSample) sampleText = f();
}

uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
  const auto *b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ULL;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ULL;
  h ^= h >> 32;
  return h;
}

std::string scratch() { return scratchDir; }

// usage: harness [--tier quick|thorough] [--workers N] [--deadline S] [--report FILE] [--only SCENARIO]
//        harness --replay SCENARIO CHOICES
int runMain(int argc, char **argv, const std::string &property, const std::vector<Scenario> &all) {
  bool thorough = false, list = false;
  int workers = 8;
  double deadline = 600;
  std::string report, only, replayScenario, replayChoices;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--workers") workers = std::stoi(next());
    else if (a == "--deadline") deadline = std::stod(next());
    else if (a == "--report") report = next();
    else if (a == "--only") only = next();
    else if (a == "--list") list = true;
    else if (a == "--replay") {
      replayScenario = next();
      replayChoices = next();
    }
  }
  const char *base = getenv("VERIF_SCRATCH");
  std::string tmpl = std::string(base != nullptr ? base : access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/mc-" + property + "-XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (mkdtemp(tb.data()) == nullptr) {
    perror("mkdtemp");
    return 2;
  }
  gScratchBase = tb.data();
  scratchDir = gScratchBase;
  struct Cleanup {
    pid_t owner = getpid();
    ~Cleanup() {
      if (getpid() == owner && gScratchBase.find("/mc-") != std::string::npos) {
        std::error_code ec;
        std::filesystem::remove_all(gScratchBase, ec);
      }
    }
  } cleanup;

  std::vector<Scenario> scs;
  for (const auto &s : all) {
    if (s.thoroughOnly && !thorough && replayScenario.empty()) continue;
    if (!only.empty() && s.name.find(only) == std::string::npos) continue;
    scs.push_back(s);
  }
  if (list) {
    for (const auto &s : all) std::cout << s.name << (s.thoroughOnly ? " (thorough)" : "") << "\n";
    return 0;
  }
  if (!replayScenario.empty()) {
    for (const auto &s : all) {
      if (s.name != replayScenario) continue;
      std::vector<int> ch;
      std::istringstream is(replayChoices);
      std::string tok;
      while (std::getline(is, tok, ',')) ch.push_back(std::stoi(tok));
      Found f;
      std::string text;
      bool bad = replayOnce(s, ch, thorough, f, text, s.timeoutSec * 2);
      std::cout << "case: " << text << "\n";
      if (bad) std::cout << "FAILS key=" << f.key << "\n" << f.message << "\n";
      else std::cout << "passes\n";
      return bad ? 1 : 0;
    }
    std::cerr << "no scenario " << replayScenario << "\n";
    return 2;
  }

  auto t0 = Clock::now();
  struct W {
    pid_t pid = -1;
    int fd = -1;
    Slot *slot = nullptr;
    std::string buf, err, stateFile;
    uint64_t lastBeat = 0;
    Clock::time_point lastTime;
    bool finished = false;
    std::map<int, int> crashes;
  };
  std::vector<W> ws(static_cast<size_t>(workers));
  std::vector<Found> found;
  std::map<std::string, uint64_t> perScenario;
  std::vector<std::string> samples;
  std::vector<std::string> truncated;
  std::map<std::string, uint64_t> keyCount;

  auto spawn = [&](int i, int startScenario, uint64_t resume) {
    W &w = ws[static_cast<size_t>(i)];
    int fds[2];
    if (pipe(fds) != 0) {
      perror("pipe");
      exit(2);
    }
    w.slot->done = 0;
    w.slot->executing = 0;
    pid_t pid = fork();
    if (pid == 0) {
      close(fds[0]);
      int e = open(w.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(e, 2);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      Worker wk;
      wk.id = i;
      wk.count = workers;
      wk.slot = w.slot;
      workerMain(wk, scs, thorough, fds[1], w.stateFile, startScenario, resume, deadline, t0);
    }
    close(fds[1]);
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    w.fd = fds[0];
    w.pid = pid;
    w.lastBeat = w.slot->heartbeat;
    w.lastTime = Clock::now();
  };
  auto addFound = [&](Found f) {
    keyCount[f.scenario + "|" + f.key]++;
    for (auto &g : found) {
      if (g.scenario == f.scenario && g.key == f.key) {
        if (f.choices.size() < g.choices.size() ||
            (f.choices.size() == g.choices.size() && f.choices < g.choices)) {
          g = f;
        }
        return;
      }
    }
    found.push_back(std::move(f));
  };
  auto unesc = [](const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\\' && i + 1 < s.size()) {
        i++;
        if (s[i] == 'n') o += '\n';
        else if (s[i] == 'u' && i + 4 < s.size()) {
          o += static_cast<char>(std::stoi(s.substr(i + 1, 4), nullptr, 16));
          i += 4;
        } else o += s[i];
      } else o += s[i];
    }
    return o;
  };
  auto parse = [&](W &w) {
    char buf[65536];
    ssize_t n;
    while ((n = read(w.fd, buf, sizeof buf)) > 0) w.buf.append(buf, static_cast<size_t>(n));
    size_t p;
    while ((p = w.buf.find('\n')) != std::string::npos) {
      std::string line = w.buf.substr(0, p);
      w.buf.erase(0, p + 1);
      std::vector<std::string> c;
      std::istringstream is(line);
      std::string tok;
      while (std::getline(is, tok, '\t')) c.push_back(tok);
      if (c.empty()) continue;
      if (c[0] == "V" && c.size() >= 4) {
        Found f;
        f.scenario = c[1];
        std::istringstream cs(c[2]);
        while (std::getline(cs, tok, ',')) f.choices.push_back(std::stoi(tok));
        f.key = unesc(c[3]);
        f.message = c.size() > 4 ? unesc(c[4]) : "";
        addFound(f);
      } else if (c[0] == "S" && c.size() >= 4) {
        samples.push_back("{\"scenario\":\"" + c[1] + "\",\"choices\":[" + c[2] + "],\"case\":\"" + c[3] + "\"}");
      } else if (c[0] == "E" && c.size() >= 3) {
        perScenario[c[1]] += std::stoull(c[2]);
      } else if (c[0] == "T") {
        truncated.push_back(c[1]);
      }
    }
  };

  for (int i = 0; i < workers; i++) {
    W &w = ws[static_cast<size_t>(i)];
    w.slot = static_cast<Slot *>(
        mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    w.err = gScratchBase + "/err" + std::to_string(i);
    w.stateFile = gScratchBase + "/states" + std::to_string(i);
    spawn(i, 0, 0);
  }
  int active = workers;
  while (active > 0) {
    usleep(5000);
    for (int i = 0; i < workers; i++) {
      W &w = ws[static_cast<size_t>(i)];
      if (w.finished) continue;
      parse(w);
      int st = 0;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      bool hang = false;
      auto now = Clock::now();
      if (r == 0) {
        if (w.slot->heartbeat != w.lastBeat) {
          w.lastBeat = w.slot->heartbeat;
          w.lastTime = now;
        } else {
          int si = w.slot->scenario;
          int to = si >= 0 && si < static_cast<int>(scs.size()) ? scs[static_cast<size_t>(si)].timeoutSec : 20;
          if (std::chrono::duration<double>(now - w.lastTime).count() > to) {
            kill(w.pid, SIGKILL);
            waitpid(w.pid, &st, 0);
            hang = true;
            r = w.pid;
          }
        }
      }
      if (r != w.pid) continue;
      parse(w);
      close(w.fd);
      if (!hang && w.slot->done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        w.finished = true;
        active--;
        continue;
      }
      // abnormal end: a verdict for the case that was running
      int si = w.slot->scenario;
      const auto &sc = scs[static_cast<size_t>(si)];
      Found f;
      f.scenario = sc.name;
      f.choices.assign(w.slot->ch, w.slot->ch + w.slot->nch);
      std::string tag = w.slot->tag;
      f.key = (hang ? "hang" : "crash") + (tag.empty() ? "" : ":" + tag);
      f.message = hang ? "no progress within " + std::to_string(sc.timeoutSec) + " s"
                       : describeStatus(st) + "\n" + tail(w.err, 1500);
      w.slot->evaluations = w.slot->evaluations + 1;
      perScenario[sc.name] += 0;
      addFound(f);
      if (w.slot->executing == 0) {
        // died outside a case: cannot continue soundly
        truncated.push_back(sc.name);
        w.finished = true;
        active--;
        continue;
      }
      int &cr = w.crashes[si];
      cr++;
      uint64_t resume = w.slot->caseIndex + 1;
      int startScenario = si;
      if (cr > (hang ? 2 : 40)) {
        truncated.push_back(sc.name);
        startScenario = si + 1;
        resume = 0;
      }
      if (startScenario >= static_cast<int>(scs.size())) {
        w.finished = true;
        active--;
        continue;
      }
      spawn(i, startScenario, resume);
    }
  }
  // replay every distinct finding in a fresh process
  for (auto &f : found) {
    for (const auto &s : scs) {
      if (s.name != f.scenario) continue;
      Found g;
      std::string text;
      if (replayOnce(s, f.choices, thorough, g, text, s.timeoutSec + 5)) {
        f.reproduced = true;
        if (f.message.size() < g.message.size()) f.message = g.message;
      }
      if (!text.empty()) f.message += "\ncase: " + text;
    }
  }
  uint64_t evaluations = 0, steps = 0, choices = 0, maxDepth = 0;
  std::unordered_set<uint64_t> states;
  for (auto &w : ws) {
    evaluations += w.slot->evaluations;
    steps += w.slot->steps;
    choices += w.slot->choices;
    if (w.slot->maxDepth > maxDepth) maxDepth = w.slot->maxDepth;
    std::ifstream si(w.stateFile, std::ios::binary);
    uint64_t h;
    while (si.read(reinterpret_cast<char *>(&h), sizeof h)) states.insert(h);
  }
  double wall = std::chrono::duration<double>(Clock::now() - t0).count();
  std::ostringstream o;
  o << "{\"property\":\"" << property << "\",\"evaluations\":" << evaluations << ",\"states\":" << states.size()
    << ",\"transitions\":" << steps << ",\"choices\":" << choices << ",\"max_depth\":" << maxDepth << ",\"wall\":" << wall << ",\"truncated\":[";
  for (size_t i = 0; i < truncated.size(); i++) o << (i ? "," : "") << "\"" << truncated[i] << "\"";
  o << "],\"scenarios\":{";
  bool first = true;
  for (auto &kv : perScenario) {
    o << (first ? "" : ",") << "\"" << kv.first << "\":" << kv.second;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size() && i < 24; i++) o << (i ? "," : "") << samples[i];
  o << "],\"found\":[";
  for (size_t i = 0; i < found.size(); i++) {
    const auto &f = found[i];
    o << (i ? "," : "") << "{\"scenario\":\"" << esc(f.scenario) << "\",\"key\":\"" << esc(f.key)
      << "\",\"count\":" << keyCount[f.scenario + "|" + f.key] << ",\"reproduced\":" << (f.reproduced ? "true" : "false")
      << ",\"choices\":[" << chText(f.choices) << "],\"message\":\"" << esc(f.message) << "\"}";
  }
  o << "]}";
  if (!report.empty()) {
    std::ofstream r(report);
    r << o.str() << "\n";
  } else {
    std::cout << o.str() << std::endl;
  }
  return found.empty() ? 0 : 1;
}

} // namespace mc
