// A plan is one complete simulated execution written down: documents, process
// list, operations, faults and policies.  Executing it is a pure function of
// the plan and the code under test, and any subset of its items is again a
// plan (which is what the minimiser relies on).
#ifndef PLAN_HH
#define PLAN_HH 1
#include "simrt.hh"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Item {
  std::string kind;           // "L", "F", "O", "C", "A", ...
  std::vector<std::string> f; // fields
  bool operator==(Item const &o) const { return kind == o.kind && f == o.f; }
};

struct Plan {
  std::string prop;
  uint64_t salt = 0;
  std::vector<Item> items;

  void add(std::string kind, std::vector<std::string> f) {
    items.push_back({std::move(kind), std::move(f)});
  }
  void cfg(std::string k, std::string v) { add("C", {std::move(k), std::move(v)}); }
  void cfg(std::string k, long v) { cfg(std::move(k), std::to_string(v)); }
  std::string get(std::string const &k, std::string const &dflt = "") const;
  long geti(std::string const &k, long dflt = 0) const;
  // documents: file name -> lines, in order of first appearance
  std::vector<std::pair<std::string, std::vector<std::string>>> docs() const;
  std::vector<Item const *> of(std::string const &kind) const;
  void doc(std::string const &file, std::vector<std::string> const &lines) {
    for (auto &l : lines)
      add("L", {file, l});
  }
  void fault(sim::Fault const &f);
  // install policies and faults of the plan in the world
  void arm() const;

  std::string text() const;
  static bool parse(std::string const &text, Plan &p);
};
inline long toi(std::string const &s) { return strtol(s.c_str(), nullptr, 10); }

struct Result {
  bool viol = false;
  bool inapplicable = false; // plan degenerated (only while minimising)
  bool nontrivial = false;
  std::string vclass, msg;
  uint64_t hash = 0; // of the event log and the observations
  long events = 0;
  std::map<std::string, long> probes; // rare conditions reached
  void fail(std::string cls, std::string m) {
    if (!viol) {
      viol = true;
      vclass = std::move(cls);
      msg = std::move(m);
    }
  }
};

struct Scenario {
  char const *id;
  void (*gen)(sim::Rng &, Plan &, bool thorough);
  void (*exec)(Plan const &, Result &);
};
extern std::vector<Scenario> const &scenarios_io();
extern std::vector<Scenario> const &scenarios_read();
extern std::vector<Scenario> const &scenarios_tools();
extern std::vector<Scenario> const &scenarios_edit();
extern std::vector<Scenario> const &scenarios_state();
extern std::vector<Scenario> const &scenarios_pipe();
extern std::vector<Scenario> const &scenarios_tree();
extern std::vector<Scenario> const &scenarios_cont();
extern std::vector<Scenario> const &scenarios_line();

// helpers shared by the scenarios
// Outcome of an in-process session: abnormal ends become violations.
void absorb(sim::ProcResult const &pr, Result &res, char const *what);
std::string abort_class(sim::ProcResult const &pr);
// inside a simulated process
void child_fail(char const *cls, std::string const &msg);
void probe(int i, long n = 1); // W->counters[i]
void blob_put(std::string const &s); // observation channel
std::vector<std::string> blob_get();
std::string diff_text(std::string const &a, std::string const &b);
// swarm style random I/O policies: chunked reads etc.
void random_policies(sim::Rng &r, Plan &p);
#endif
