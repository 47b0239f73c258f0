// flprsim: worker, replayer and minimiser.
//   flprsim run PROP SEED START STRIDE COUNT TIER SECONDS OUTPREFIX
//   flprsim gen PROP SEED INDEX TIER          print the plan of one run
//   flprsim exec PLANFILE [-v]                execute a plan, print the result
//   flprsim list
#include "common.hh"
#include "rparse.hh"
#include "plan.hh"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
using namespace sim;

static std::vector<Scenario> all() {
  std::vector<Scenario> v;
  for (auto *reg : {&scenarios_io, &scenarios_read, &scenarios_tools,
                    &scenarios_edit, &scenarios_state, &scenarios_pipe, &scenarios_tree, &scenarios_cont, &scenarios_line})
    for (auto &s : (*reg)())
      v.push_back(s);
  return v;
}
static Scenario const *find(std::string const &id) {
  static auto v = all();
  for (auto &s : v)
    if (id == s.id)
      return &s;
  return nullptr;
}
static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

static Result execute(Scenario const &s, Plan const &p) {
  Result r;
  world_reset(p.salt);
  p.arm();
  s.exec(p, r);
  uint64_t h = W->hash;
  h = fnv(h, &W->obs_hash, sizeof W->obs_hash);
  if (r.viol) {
    h = fnv(h, r.vclass);
  }
  r.hash = h;
  r.events = W->nevents;
  return r;
}

static Plan make(Scenario const &s, uint64_t seed, uint64_t idx, bool th) {
  uint64_t k = hash2(seed, fnv(1469598103934665603ULL, std::string(s.id)));
  Rng r(hash2(k, idx));
  Plan p;
  p.prop = s.id;
  p.salt = r.next();
  world_reset(p.salt);
  s.gen(r, p, th);
  return p;
}

// What is dropped together: all physical lines of a statement (or of a
// continued directive), otherwise single items.
static std::vector<std::vector<size_t>> shrink_units(Plan const &p) {
  std::map<std::string, std::vector<size_t>> at; // file -> item of each line
  for (size_t i = 0; i < p.items.size(); ++i)
    if (p.items[i].kind == "L" && p.items[i].f.size() > 1)
      at[p.items[i].f[0]].push_back(i);
  std::map<size_t, size_t> head; // item -> first item of its unit
  for (auto &d : load_docs(p)) {
    auto &v = at[d.name];
    if (!d.ref.ok || v.size() != d.lines.size())
      continue;
    size_t h = 0; // compound statements stay together
    for (auto &st : d.ref.stmts) {
      if (st.line1 >= (int)v.size())
        break;
      if (st.comp == 0)
        h = v[(size_t)st.line0];
      for (int l = st.line0; l <= st.line1; ++l)
        head[v[(size_t)l]] = h;
    }
    for (size_t l = 1; l < v.size(); ++l) {
      std::string const &pr = d.lines[l - 1];
      if (!pr.empty() && pr.back() == '\\' && !head.count(v[l]))
        head[v[l]] = head.count(v[l - 1]) ? head[v[l - 1]] : v[l - 1];
    }
  }
  std::vector<std::vector<size_t>> u;
  std::map<size_t, size_t> pos;
  for (size_t i = 0; i < p.items.size(); ++i) {
    size_t h = head.count(i) ? head[i] : i;
    if (pos.count(h))
      u[pos[h]].push_back(i);
    else {
      pos[h] = u.size();
      u.push_back({i});
    }
  }
  return u;
}

// Shrink: drop chunks of items while the same class of violation persists.
static Plan minimise(Scenario const &s, Plan p, std::string const &cls,
                     double deadline, long &tried) {
  auto bad = [&](Plan const &q) {
    ++tried;
    Result r = execute(s, q);
    return r.viol && !r.inapplicable && r.vclass == cls;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    for (size_t sz = std::max<size_t>(1, p.items.size() / 2);;) {
      for (size_t i = 0; now() < deadline;) {
        auto un = shrink_units(p);
        if (i >= un.size())
          break;
        Plan q = p;
        size_t e = std::min(un.size(), i + sz);
        std::set<size_t> drop;
        for (size_t k = i; k < e; ++k)
          drop.insert(un[k].begin(), un[k].end());
        q.items.clear();
        for (size_t k = 0; k < p.items.size(); ++k)
          if (!drop.count(k))
            q.items.push_back(p.items[k]);
        if (bad(q)) {
          p = q;
          progress = true;
        } else
          i += sz;
      }
      if (sz == 1)
        break;
      sz /= 2;
    }
    // shrink numeric arguments of operations and faults
    for (size_t i = 0; i < p.items.size() && now() < deadline; ++i) {
      if (p.items[i].kind != "O" && p.items[i].kind != "F")
        continue;
      for (size_t k = 1; k < p.items[i].f.size(); ++k) {
        std::string &v = p.items[i].f[k];
        if (v.empty() || v.size() > 9 ||
            v.find_first_not_of("0123456789") != std::string::npos)
          continue;
        long x = toi(v);
        for (long c : {0L, 1L, x / 2, x - 1}) {
          if (c >= x || c < 0)
            continue;
          Plan q = p;
          q.items[i].f[k] = std::to_string(c);
          if (bad(q)) {
            p = q;
            progress = true;
            break;
          }
        }
      }
    }
  }
  return p;
}

static std::string jstr(std::string const &s) {
  std::string r = "\"";
  for (char c : s) {
    unsigned char u = (unsigned char)c;
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (u < 32 || u > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", u);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}
static std::string slurp(char const *path) {
  std::ifstream is(path, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  return ss.str();
}

int main(int argc, char **argv) {
  // one address space layout for every process of every run
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE | (unsigned)personality(0xffffffff)) != -1 &&
        !getenv("FLPRSIM_REEXEC")) {
      static char env0[] = "FLPRSIM_REEXEC=1", env1[] = "LC_ALL=C";
      char *envp[] = {env0, env1, nullptr};
      execve("/proc/self/exe", argv, envp);
    }
  }
  std::string mode = argc > 1 ? argv[1] : "";
  world_create();
  if (mode == "ref" && argc > 2) {
    std::ifstream is(argv[2]);
    std::stringstream ss;
    ss << is.rdbuf();
    Plan p;
    if (!Plan::parse(ss.str(), p))
      return 2;
    for (auto &d : load_docs(p)) {
      std::cout << "== " << d.name << " ref=" << d.ref.ok << " procs=" << d.ok << " " << d.ref.why << "\n";
      ref::Node root;
      std::string why;
      if (!ref::parse(d.ref, root, why))
        std::cout << "   " << why << "\n";
      if (argc > 3)
        std::cout << stmts_str(d.ref.stmts);
    }
    return 0;
  }
  if (mode == "list") {
    for (auto &s : all())
      puts(s.id);
    return 0;
  }
  if (mode == "gen" && argc >= 6) {
    auto *s = find(argv[2]);
    if (!s)
      return 2;
    std::cout << make(*s, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10),
                      std::string(argv[5]) == "thorough")
                     .text();
    return 0;
  }
  if (mode == "exec" && argc >= 3) {
    Plan p;
    if (!Plan::parse(slurp(argv[2]), p)) {
      std::cerr << "unreadable plan\n";
      return 2;
    }
    auto *s = find(p.prop);
    if (!s)
      return 2;
    Result r = execute(*s, p);
    printf("result viol=%d inapplicable=%d class=%s hash=%016llx events=%ld\n",
           r.viol, r.inapplicable, r.viol ? r.vclass.c_str() : "-",
           (unsigned long long)r.hash, r.events);
    if (r.viol)
      printf("%s\n", r.msg.c_str());
    if (argc > 3) {
      printf("---- events\n");
      fwrite(W->log, 1, W->loglen, stdout);
      for (auto &pb : r.probes)
        printf("probe %s %ld\n", pb.first.c_str(), pb.second);
    }
    return r.viol ? 1 : 0;
  }
  if (mode == "min" && argc >= 4) { // flprsim min PLANFILE OUT
    Plan p;
    if (!Plan::parse(slurp(argv[2]), p))
      return 2;
    auto *s = find(p.prop);
    Result r = execute(*s, p);
    if (!r.viol)
      return 0;
    long tried = 0;
    Plan m = minimise(*s, p, r.vclass, now() + 60, tried);
    std::ofstream(argv[3]) << m.text();
    return 1;
  }
  if (mode == "run" && argc >= 10) {
    auto *s = find(argv[2]);
    if (!s)
      return 2;
    uint64_t seed = strtoull(argv[3], 0, 10);
    uint64_t start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10),
             count = strtoull(argv[6], 0, 10);
    bool th = std::string(argv[7]) == "thorough";
    double t0 = now(), cap = atof(argv[8]);
    std::string prefix = argv[9];
    bool keep_going = argc > 10; // development aid: list all classes
    std::unordered_set<uint64_t> seen;
    long runs = 0, nontriv = 0, inapp = 0, dbl = 0, events = 0;
    long fired[(int)Eff::N][(int)OpClass::N] = {};
    double simtime = 0;
    std::map<std::string, long> probes, classes;
    std::string samples;
    int nsample = 0;
    int rc = 0;
    std::string viol_json;
    for (uint64_t k = 0; k < count; ++k) {
      if (now() - t0 > cap)
        break;
      uint64_t idx = start + k * stride;
      Plan p = make(*s, seed, idx, th);
      Result r = execute(*s, p);
      runs++;
      events += r.events;
      simtime += 1e-9 * (double)W->sim_ns;
      for (int i = 0; i < (int)Eff::N; ++i)
        for (int j = 0; j < (int)OpClass::N; ++j)
          fired[i][j] += W->fired[i][j];
      for (auto &pb : r.probes)
        probes[pb.first] += pb.second;
      if (r.inapplicable)
        inapp++;
      if (r.nontrivial && seen.insert(r.hash).second)
        nontriv++;
      if (nsample < 2 && r.nontrivial && p.items.size() < 60) {
        samples += (nsample ? "," : "") + jstr(p.text());
        nsample++;
      }
      // determinism: a sample of runs is executed twice
      if (!r.viol && (k % 97) == 13) {
        Plan p2;
        bool ok = Plan::parse(p.text(), p2);
        Result r2 = execute(*s, p2);
        dbl++;
        if (!ok || r2.hash != r.hash || r2.viol) {
          fprintf(stderr, "NONDETERMINISM prop=%s idx=%llu\n", s->id,
                  (unsigned long long)idx);
          std::ofstream(prefix + ".nondet.plan") << p.text();
          rc = 4;
          break;
        }
      }
      if (r.viol) {
        if (keep_going) {
          if (classes[r.vclass]++ == 0) {
            std::string f = prefix + "." + std::to_string(idx) + ".plan";
            long tried = 0;
            Plan m = minimise(*s, p, r.vclass, now() + 20, tried);
            Result rm = execute(*s, m);
            std::ofstream(f) << m.text();
            printf("CLASS %s idx=%llu plan=%s\n%s\n", r.vclass.c_str(),
                   (unsigned long long)idx, f.c_str(), rm.msg.c_str());
            fflush(stdout);
          }
          continue;
        }
        Result r2 = execute(*s, p);
        if (!r2.viol || r2.hash != r.hash) {
          fprintf(stderr, "NONDETERMINISM (violation) prop=%s idx=%llu\n",
                  s->id, (unsigned long long)idx);
          std::ofstream(prefix + ".nondet.plan") << p.text();
          rc = 4;
          break;
        }
        long tried = 0;
        Plan m = minimise(*s, p, r.vclass, now() + (th ? 60 : 25), tried);
        Result rm = execute(*s, m);
        if (!rm.viol) {
          m = p;
          rm = r;
        }
        std::ofstream(prefix + ".plan") << m.text();
        std::ofstream(prefix + ".full.plan") << p.text();
        std::ostringstream os;
        os << "{\"idx\":" << idx << ",\"class\":" << jstr(rm.vclass)
           << ",\"msg\":" << jstr(rm.msg) << ",\"hash\":\"" << std::hex
           << rm.hash << std::dec << "\",\"plan\":" << jstr(prefix + ".plan")
           << ",\"items\":" << m.items.size()
           << ",\"items_before\":" << p.items.size()
           << ",\"shrink_runs\":" << tried << "}";
        viol_json = os.str();
        rc = 1;
        break;
      }
    }
    if (keep_going)
      for (auto &c : classes)
        printf("TOTAL %s %ld\n", c.first.c_str(), c.second);
    FILE *hf = fopen((prefix + ".hashes").c_str(), "wb");
    if (hf) {
      for (uint64_t h : seen)
        fwrite(&h, 8, 1, hf);
      fclose(hf);
    }
    std::ofstream os(prefix + ".json");
    os << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv
       << ",\"inapplicable\":" << inapp << ",\"double_runs\":" << dbl
       << ",\"events\":" << events << ",\"wall\":" << (now() - t0)
       << ",\"sim_s\":" << simtime << ",\"fired\":{";
    bool first = true;
    for (int i = 0; i < (int)Eff::N; ++i)
      for (int j = 0; j < (int)OpClass::N; ++j)
        if (fired[i][j]) {
          os << (first ? "" : ",") << '"' << op_name((OpClass)j) << ':'
             << eff_name((Eff)i) << "\":" << fired[i][j];
          first = false;
        }
    os << "},\"probes\":{";
    first = true;
    for (auto &p : probes) {
      os << (first ? "" : ",") << jstr(p.first) << ":" << p.second;
      first = false;
    }
    os << "},\"samples\":[" << samples << "],\"violation\":"
       << (viol_json.empty() ? "null" : viol_json) << "}\n";
    os.close();
    return rc;
  }
  fprintf(stderr, "usage: flprsim list|gen|exec|min|run ...\n");
  return 2;
}
