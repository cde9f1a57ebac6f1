// The main program of a harness: sessions are executed by worker processes.
//
// PROG run  CMDS SAMPLE OUT [workers] [repeat]
//     executes the sessions of a command file; SAMPLE 0: records them all,
//     otherwise the suspicious ones and every SAMPLE-th
// PROG fuzz PROFILE SEED COUNT SECONDS SAMPLE OUT [workers] [repeat]
//     generates and executes COUNT sessions (fewer if SECONDS run out) and
//     records the suspicious ones and every SAMPLE-th
//
// OUT gets one JSON line per recorded session; OUT.cmds the commands of each
// (so that it can be run again); OUT.stat the counts.  A session that kills its
// process or does not end is recorded as such.
#pragma once
#include "core.hpp"

#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

struct Shared {
  volatile long current; // session being executed, -1: none
  volatile long next;    // next session to execute
  volatile long executed, recorded, suspects, commands;
  volatile long commands_len;
};

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

static vector<vector<string>> read_sessions(const string &file) {
  vector<vector<string>> s;
  std::ifstream in(file);
  string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'S') s.emplace_back();
    else if (!s.empty()) s.back().push_back(line);
  }
  return s;
}

// A session may take this much processor time, or more than twice as long if
// it only waits, before it counts as hanging.
static void limit_session(bool on) {
  const char *x = getenv("SESSION_SECONDS");
  int n = on ? x ? atoi(x) : 60 : 0;
  struct itimerval t{};
  t.it_value.tv_sec = n;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm((unsigned)(n * 5 / 2));
}

template <class Session, class Gen> int driver(int argc, char **argv) {
  if (argc < 4) return 3;
  string mode = argv[1];
  bool fuzz = mode == "fuzz", screen = true;
  vector<vector<string>> sessions;
  string profile, out;
  uint64_t seed = 0;
  long count = 0, sample = 0;
  double seconds = 1e9;
  int arg = 2;
  if (fuzz) {
    profile = argv[2];
    seed = strtoull(argv[3], nullptr, 10);
    count = atol(argv[4]);
    seconds = atof(argv[5]);
    sample = atol(argv[6]);
    arg = 7;
  } else {
    sessions = read_sessions(argv[2]);
    count = (long)sessions.size();
    sample = atol(argv[3]);
    arg = 4;
  }
  screen = fuzz || sample > 0;
  out = argv[arg++];
  int workers = arg < argc ? atoi(argv[arg++]) : 8;
  int repeat = arg < argc ? atoi(argv[arg++]) : 1;

  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  double start = now();
  auto *sh = (Shared *)mmap(nullptr, sizeof(Shared) * (size_t)workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  auto commands_of = [&](long k) {
    if (!fuzz) return sessions[(size_t)k];
    uint64_t h = 1469598103934665603ULL;
    for (char c : profile) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    Gen g(seed * 1000003ULL + h + (uint64_t)k * 7919ULL);
    return g.session(profile);
  };
  auto write_cmds = [&](FILE *f, long k, const vector<string> &cmds) {
    fprintf(f, "S %ld\n", k);
    for (auto &c : cmds) fprintf(f, "%s\n", c.c_str());
  };

  auto work = [&](int w) {
    Shared &me = sh[w];
    string base = out + "." + std::to_string(w);
    FILE *fo = fopen(base.c_str(), "a"), *fc = fopen((base + ".cmds").c_str(), "a");
    Session s;
    s.dir = base + ".d";
    fs::create_directories(s.dir);
    s.screening = screen;
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit mem{3UL << 30, 3UL << 30};
    setrlimit(RLIMIT_AS, &mem);
#endif
    while (me.next < count && now() - start < seconds) {
      long k = me.next;
      vector<string> cmds = commands_of(k);
      me.current = k;
      if (me.next == k) me.next = k + workers;
      limit_session(true);
      size_t live[8] = {0};
      // Every run is recorded: what is judged is the run that looked wrong, not
      // an attempt to repeat it.
      s.run(cmds);
      if (repeat > 1 && !s.suspect) { // the same history again and again must not need more memory
        for (int m = 0; m < 5 && !s.suspect; ++m) {
          s.clear();
          s.run(cmds);
          if (s.suspect) break;
          s.clear();
          live[m] = LIVE_BYTES();
        }
        if (!s.suspect) {
          s.run(cmds);
          long g1 = (long)live[3] - (long)live[2], g2 = (long)live[4] - (long)live[3];
          long grow = std::min(g1, g2);
          if (grow < 0) grow = 0;
          if (grow > 0) s.suspect = true;
          s.ev("\"op\":\"Heap\",\"grow\":" + std::to_string(clip((size_t)grow)));
        }
      }
      limit_session(false);
      me.executed = me.executed + 1;
      me.commands = me.commands + (long)cmds.size();
      bool suspect = s.suspect;
      if (suspect) me.suspects = me.suspects + 1;
      if ((!screen || suspect || (sample > 0 && k % sample == 0)) && (!suspect || !screen || me.suspects < 40)) {
        fprintf(fo, "{\"s\":%ld,\"x\":%d,\"ev\":[%s]}\n", k, suspect ? 1 : 0, s.out.c_str());
        write_cmds(fc, k, cmds);
        fflush(fo);
        fflush(fc);
        me.recorded = me.recorded + 1;
      }
      s.clear();
      me.current = -1;
    }
    fclose(fo);
    fclose(fc);
    _exit(0);
  };

  auto spawn = [&](int w) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      string err = out + "." + std::to_string(w) + ".err";
      if (freopen(err.c_str(), "w", stderr) == nullptr) _exit(3);
      work(w);
    }
    return p;
  };
  vector<pid_t> pid((size_t)workers);
  vector<int> deaths((size_t)workers, 0);
  for (int w = 0; w < workers; ++w) {
    sh[w] = Shared();
    sh[w].current = -1;
    sh[w].next = w;
    pid[(size_t)w] = spawn(w);
  }
  int alive = workers;
  bool hung = false; // then the others end with the session they are at
  long dead = 0;
  while (alive > 0) {
    int st = 0;
    pid_t p = wait(&st);
    if (p < 0) break;
    for (int w = 0; w < workers; ++w) {
      if (pid[(size_t)w] != p) continue;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!ok && sh[w].current >= 0) {
        ++dead;
        string base = out + "." + std::to_string(w);
        string msg;
        {
          std::ifstream e(base + ".err");
          string l;
          while (std::getline(e, l))
            if (l.find("ERROR:") != string::npos || l.find("SUMMARY:") != string::npos || l.find("Assertion") != string::npos) msg += l.substr(0, 160) + " | ";
        }
        std::erase_if(msg, [](char x) { return x < 32 || x > 126 || x == '"' || x == '\\'; });
        FILE *fo = fopen(base.c_str(), "a"), *fc = fopen((base + ".cmds").c_str(), "a");
        bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF);
        const char *what = hang ? "Hang" : "Crash";
        hung |= hang;
        fprintf(fo, "{\"s\":%ld,\"x\":1,\"ev\":[{\"op\":\"%s\",\"status\":%d,\"msg\":\"%s\"}]}\n", (long)sh[w].current, what,
                WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), msg.c_str());
        write_cmds(fc, sh[w].current, commands_of(sh[w].current));
        fclose(fo);
        fclose(fc);
        sh[w].recorded = sh[w].recorded + 1;
        sh[w].executed = sh[w].executed + 1;
        sh[w].current = -1;
        if (hang) for (int v = 0; v < workers; ++v) sh[v].next = count;
        if (++deaths[(size_t)w] < 5 && !hung) {
          pid[(size_t)w] = spawn(w);
          continue;
        }
      } else if (!ok) {
        fprintf(stderr, "worker %d failed outside a session (status %d)\n", w, st);
        return 4;
      }
      --alive;
    }
  }
  long executed = 0, recorded = 0, suspects = 0, commands = 0;
  for (int w = 0; w < workers; ++w) {
    executed += sh[w].executed;
    recorded += sh[w].recorded;
    suspects += sh[w].suspects;
    commands += sh[w].commands;
  }
  FILE *f = fopen((out + ".stat").c_str(), "w");
  fprintf(f, "{\"executed\":%ld,\"recorded\":%ld,\"suspects\":%ld,\"commands\":%ld,\"dead\":%ld}\n", executed, recorded, suspects, commands, dead);
  fclose(f);
  return 0;
}
