// Scenarios around the real command line tools on the simulated file system.
#include "common.hh"
using namespace sim;

namespace {
// ------------------------------------------------------ module tool ----
struct ModRun {
  std::string module;
  std::vector<std::string> triggers;
  bool list = false; // triggers given in a list file
  std::vector<std::string> files;
};
std::vector<std::string> mod_args(ModRun const &m) {
  std::vector<std::string> a;
  if (m.list) {
    a = {"-f", "names.lst"};
  } else
    a.push_back(m.triggers.empty() ? "nothing" : m.triggers[0]);
  a.push_back(m.module);
  for (auto &f : m.files)
    a.push_back(f);
  return a;
}
std::set<std::string> trig_set(ModRun const &m) {
  std::set<std::string> s;
  for (auto &t : m.triggers) {
    s.insert(gen::lower(t));
    if (!m.list)
      break;
  }
  return s;
}
ModRun mod_cfg(Plan const &p, std::vector<FDoc> const &docs) {
  ModRun m;
  m.module = p.get("module", "newmod");
  m.list = p.geti("list", 0);
  for (auto *i : p.of("T"))
    if (!i->f.empty())
      m.triggers.push_back(i->f[0]);
  if (m.triggers.empty())
    m.triggers.push_back("nothing");
  for (auto &d : docs)
    m.files.push_back(d.name);
  return m;
}
void mod_files(ModRun const &m, std::vector<FDoc> const &docs, Plan const &p) {
  for (auto &d : docs)
    set_file(d.name, d.text);
  if (m.list) {
    std::string t;
    for (size_t i = 0; i < m.triggers.size(); ++i)
      t += m.triggers[i] + (i % 3 == 1 ? "  " : "\n");
    set_file("names.lst", t);
  }
  if (p.geti("oldbak", 0) && !docs.empty())
    set_file(docs[0].name + ".bak", "an older backup\n");
}
void gen_module_plan(Rng &r, Plan &p, int maxdocs) {
  int n = r.range(1, maxdocs);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    o.callees = {"alpha", "beta", "gamma", "delta"};
    if (n > 1)
      o.units = 1 + (int)r.below(2);
    if (r.chance(1, 5)) // the module is already used here and there
      o.used = {"newmod", "m_one"};
    p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
  }
  static char const *cal[] = {"alpha", "beta", "gamma", "delta", "Alpha"};
  p.cfg("module", r.chance(1, 4) ? "NewMod" : "newmod");
  if (r.chance(1, 2)) {
    p.cfg("list", 1);
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i)
      p.add("T", {cal[r.below(5)]});
  } else
    p.add("T", {cal[r.below(5)]});
  if (r.chance(1, 4))
    p.cfg("oldbak", 1);
}

struct Golden {
  bool ok = false;
  std::map<std::string, std::string> out; // text under the name afterwards
  ProcResult pr;
};
// one undisturbed run of the tool on the documents (process 0)
Golden golden_module(ModRun const &m, std::vector<FDoc> const &docs,
                     Plan const &p) {
  Golden g;
  int chunk = W->chunk, fill = W->heap_fill, jit = W->heap_jitter;
  W->chunk = 0;
  W->heap_fill = -1;
  W->heap_jitter = 0;
  mod_files(m, docs, p);
  g.pr = run_tool("module", mod_args(m));
  for (auto &d : docs) {
    std::string t;
    get_file(d.name, t);
    g.out[d.name] = t;
  }
  for (auto &f : list_files())
    remove_file(f);
  W->chunk = chunk;
  W->heap_fill = fill;
  W->heap_jitter = jit;
  return g;
}

// Place faults for process `proc`, given the call counts of a dry run.
void place_crash(Rng &r, Plan &p, ProcResult const &dry, int proc) {
  std::vector<std::pair<OpClass, int>> pts;
  for (OpClass c : {OpClass::OPEN, OpClass::WRITE, OpClass::CLOSE,
                    OpClass::RENAME, OpClass::READ, OpClass::OTHER})
    for (int i = 0; i < dry.calls[(int)c] && i < 40; ++i)
      pts.push_back({c, i});
  // most of the interest lies after the first rename
  std::vector<std::pair<OpClass, int>> hot;
  for (auto &x : pts)
    if (x.first == OpClass::WRITE || x.first == OpClass::RENAME ||
        x.first == OpClass::CLOSE || x.first == OpClass::OPEN)
      hot.push_back(x);
  auto &src = !hot.empty() && r.chance(4, 5) ? hot : pts;
  if (src.empty())
    return;
  auto pt = src[r.below(src.size())];
  Fault f;
  f.proc = proc;
  f.op = pt.first;
  f.nth = pt.second;
  f.eff = r.chance(1, 2) ? Eff::CRASH_BEFORE : Eff::CRASH_AFTER;
  if (f.op == OpClass::WRITE && r.chance(2, 3)) {
    f.eff = Eff::CRASH_MID;
    f.arg = r.range(0, 4000);
  }
  p.fault(f);
}
void place_error(Rng &r, Plan &p, ProcResult const &dry, int proc,
                 bool benign_ok) {
  std::vector<OpClass> cl;
  for (OpClass c : {OpClass::OPEN, OpClass::WRITE, OpClass::CLOSE,
                    OpClass::RENAME, OpClass::READ})
    if (dry.calls[(int)c])
      cl.push_back(c);
  if (cl.empty())
    return;
  Fault f;
  f.proc = proc;
  f.op = cl[r.below(cl.size())];
  f.nth = (int)r.below((uint64_t)std::min<long>(dry.calls[(int)f.op], 60));
  f.eff = Eff::ERR;
  f.arg = pick_errno(r, f.op);
  if (benign_ok && r.chance(1, 4) &&
      (f.op == OpClass::READ || f.op == OpClass::WRITE)) {
    f.eff = r.chance(1, 2) ? Eff::SHORT : Eff::EINTR_ONCE;
    f.arg = r.range(1, 60);
  } else if (f.op == OpClass::WRITE && r.chance(1, 3)) {
    f.eff = Eff::FULL;
    f.arg = r.range(0, 3000);
  }
  p.fault(f);
}
bool any_failing_fault() {
  long n = 0;
  for (int j = 0; j < (int)OpClass::N; ++j)
    n += W->fired[(int)Eff::ERR][j] + W->fired[(int)Eff::FULL][j] +
         W->fired[(int)Eff::EINTR_ONCE][j] + W->fired[(int)Eff::BADALLOC][j];
  return n > 0;
}
bool docs_ok(std::vector<FDoc> const &docs, Result &res) {
  if (docs.empty()) {
    res.inapplicable = true;
    return false;
  }
  for (auto &d : docs)
    if (!d.ok) {
      res.inapplicable = true;
      return false;
    }
  return true;
}
ProcResult dry_module(Plan const &p) {
  auto docs = load_docs(p);
  auto m = mod_cfg(p, docs);
  mod_files(m, docs, p);
  return run_tool("module", mod_args(m));
}

// ---- P03: the original text survives a crash or failure at any point ----
void p03_gen(Rng &r, Plan &p, bool) {
  gen_module_plan(r, p, 3);
  ProcResult dry = dry_module(p);
  random_policies(r, p);
  if (r.chance(3, 4)) {
    place_crash(r, p, dry, 1);
    if (r.chance(1, 2))
      p.cfg("ploss", (long)(r.next() >> 40));
    if (r.chance(1, 5))
      place_error(r, p, dry, 1, true);
  } else {
    place_error(r, p, dry, 1, false);
    if (r.chance(1, 4))
      place_error(r, p, dry, 1, false);
    if (r.chance(1, 4))
      p.cfg("ploss", (long)(r.next() >> 40));
  }
}
void p03_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty()) {
    res.inapplicable = true;
    return;
  }
  auto m = mod_cfg(p, docs);
  Golden g = golden_module(m, docs, p);
  if (!g.pr.ok()) {
    res.inapplicable = true; // not a document the tool accepts
    return;
  }
  world_reset(p.salt);
  p.arm();
  W->proc = 0;
  mod_files(m, docs, p);
  auto pr = run_tool("module", mod_args(m));
  res.nontrivial = pr.kind == ProcResult::CRASHED || any_failing_fault();
  if (pr.kind == ProcResult::CRASHED)
    res.probes["crashed"]++;
  bool loss = p.geti("ploss", -1) >= 0;
  if (loss) {
    power_loss((uint64_t)p.geti("ploss"));
    res.probes["power-loss"]++;
  }
  absorb(pr, res, "module");
  for (auto &d : docs) {
    std::string cur, bak;
    bool hc = get_file(d.name, cur), hb = get_file(d.name + ".bak", bak);
    W->obs_hash = fnv(W->obs_hash, cur + "|" + bak);
    bool orig = (hc && cur == d.text) || (hb && bak == d.text);
    bool done = hc && cur == g.out[d.name];
    if (hb && bak == d.text)
      res.probes["original-in-bak"]++;
    if (hc && !done && cur != d.text)
      res.probes["torn-new-file"]++;
    if (!orig && !done)
      res.fail("original-lost",
               "after " + pr.str() + " neither \"" + d.name + "\" nor \"" +
                   d.name + ".bak\" holds the complete original text, nor is "
                            "the new text complete\n" +
                   (hc ? diff_text(d.text, cur) : "no file under its name\n"));
    // a finished rewrite always leaves the original beside it
    if (done && !orig && g.out[d.name] != d.text && !loss)
      res.fail("no-backup", "\"" + d.name + "\" was rewritten but no backup "
                                            "with the original text exists");
    // a file that needs no change is never touched
    if (d.ok) {
      auto e = mod_expect(d.ref.stmts, d.procs, m.module, trig_set(m));
      if (!e.changed && (!hc || cur != d.text))
        res.fail("untouched-file-changed",
                 "\"" + d.name + "\" needs no change but was modified");
    }
  }
}

// ---- P04: exit status and completeness ----
void p04_gen(Rng &r, Plan &p, bool) {
  gen_module_plan(r, p, 3);
  ProcResult dry = dry_module(p);
  random_policies(r, p);
  if (r.chance(1, 12)) {
    p.cfg("nolist", 1); // the list of names does not exist
  } else if (r.chance(1, 8)) {
    p.cfg("missing", (long)r.below(3)); // a named file does not exist
  } else if (!r.chance(1, 10)) {
    place_error(r, p, dry, 1, true);
    if (r.chance(1, 4))
      place_error(r, p, dry, 1, true);
  }
}
void p04_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (!docs_ok(docs, res))
    return;
  auto m = mod_cfg(p, docs);
  Golden g = golden_module(m, docs, p);
  auto trig = trig_set(m);
  for (auto &d : docs) {
    auto e = mod_expect(d.ref.stmts, d.procs, m.module, trig);
    std::string why = mod_compare(d, e, m.module, g.out[d.name]);
    if (!g.pr.ok())
      res.fail("undisturbed-run-fails", "module " + g.pr.str() + " on valid input: " + g.pr.err.substr(0, 1000));
    else if (!why.empty())
      res.fail("wrong-rewrite", d.name + ": " + why);
  }
  if (res.viol)
    return;
  world_reset(p.salt);
  p.arm();
  W->proc = 0;
  mod_files(m, docs, p);
  bool must_fail = false;
  std::string gone;
  if (p.geti("nolist", 0) && m.list) {
    remove_file("names.lst");
    must_fail = true;
    res.probes["list-missing"]++;
  }
  long miss = p.geti("missing", -1);
  if (miss >= 0) {
    gone = docs[(size_t)miss % docs.size()].name;
    remove_file(gone);
    must_fail = true;
    res.probes["file-missing"]++;
  }
  auto pr = run_tool("module", mod_args(m));
  absorb(pr, res, "module");
  bool faulted = any_failing_fault();
  res.nontrivial = faulted || must_fail || W->fired[(int)Eff::SHORT][(int)OpClass::WRITE];
  if (pr.kind == ProcResult::EXIT && pr.code != 0)
    res.probes["reported-failure"]++;
  if (pr.ok() && must_fail)
    res.fail("failure-not-reported", gone.empty() ? "exit 0 although the list of names could not be read"
                                                  : "exit 0 although " + gone + " does not exist");
  if (!pr.ok() && !faulted && !must_fail && pr.kind == ProcResult::EXIT)
    res.fail("spurious-failure", "exit " + std::to_string(pr.code) + " without any failing call: " + pr.err.substr(0, 500));
  if (must_fail && !gone.empty() == false) {
    // nothing may have been touched
    for (auto &d : docs) {
      std::string cur;
      if (!get_file(d.name, cur) || cur != d.text)
        res.fail("modified-after-list-failure", d.name);
    }
  }
  bool broken = false; // a file failed: those after it must be untouched
  for (auto &d : docs) {
    if (d.name == gone) {
      broken = true;
      continue;
    }
    auto e = mod_expect(d.ref.stmts, d.procs, m.module, trig);
    std::string cur, bak;
    bool hc = get_file(d.name, cur), hb = get_file(d.name + ".bak", bak);
    W->obs_hash = fnv(W->obs_hash, cur + "|" + bak);
    bool complete = hc && cur == g.out[d.name] && (!e.changed || (hb && bak == d.text));
    bool pristine = hc && cur == d.text;
    if (pr.ok()) {
      if (!complete)
        res.fail("success-but-incomplete",
                 "exit 0 but \"" + d.name + "\" was not completely rewritten: " +
                     (hc ? diff_text(g.out[d.name], cur) : std::string("no such file\n")) +
                     (e.changed && !(hb && bak == d.text) ? "backup missing or wrong\n" : ""));
    } else {
      bool orig = pristine || (hb && bak == d.text);
      if (!orig)
        res.fail("original-lost-on-failure", d.name);
      // processing stops at the first failure
      if (broken && e.changed && !(pristine && !(hb && bak == d.text)) )
        res.fail("continued-after-failure", "\"" + d.name + "\" was modified although an earlier file failed");
      if (e.changed && !complete)
        broken = true;
    }
  }
}

// ---- P10: any history of runs, failures and retries inserts exactly once ----
void p10_gen(Rng &r, Plan &p, bool th) {
  gen_module_plan(r, p, 2);
  ProcResult dry = dry_module(p);
  random_policies(r, p);
  int n = r.range(2, th ? 6 : 4);
  static char const *cal[] = {"alpha", "beta", "gamma", "delta"};
  static char const *mods[] = {"newmod", "newmod", "NEWMOD", "othermod", "m_one"};
  for (int i = 0; i < n; ++i) {
    p.add("O", {"run", mods[r.below(5)], cal[r.below(4)]});
    if (r.chance(1, 2)) {
      if (r.chance(1, 2))
        place_crash(r, p, dry, i + 0);
      else
        place_error(r, p, dry, i + 0, true);
    }
  }
}
void p10_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (!docs_ok(docs, res))
    return;
  for (auto &d : docs)
    set_file(d.name, d.text);
  int nrun = 0;
  struct State {
    std::string text;
    std::vector<ref::Stmt> stmts;
    int maxsplit = 0;
  };
  std::map<std::string, State> cur;
  for (auto &d : docs)
    cur[d.name] = {d.text, d.ref.stmts, 0};
  auto ops = p.of("O");
  std::vector<std::pair<std::string, std::string>> runs;
  for (auto *o : ops)
    if (o->f.size() >= 3)
      runs.push_back({o->f[1], o->f[2]});
  // every run is finally repeated without disturbance: a retry
  size_t base = runs.size();
  for (size_t i = 0; i < base; ++i)
    runs.push_back(runs[i]);
  for (size_t ri = 0; ri < runs.size(); ++ri) {
    bool retry = ri >= base;
    if (retry)
      W->nfault = 0, W->disk_full = 0;
    ModRun m;
    m.module = runs[ri].first;
    m.triggers = {runs[ri].second};
    for (auto &d : docs)
      m.files.push_back(d.name);
    auto pr = run_tool("module", mod_args(m));
    W->disk_full = 0;
    nrun++;
    absorb(pr, res, "module");
    if (res.viol)
      return;
    bool bad = !pr.ok();
    if (bad)
      res.probes[pr.kind == ProcResult::CRASHED ? "crashed-run" : "failed-run"]++;
    if (bad && retry) {
      res.fail("retry-fails", "an undisturbed run after earlier failures ends with " + pr.str() + ": " + pr.err.substr(0, 500));
      return;
    }
    for (auto &d : docs) {
      State &st = cur[d.name];
      // what this run was to achieve
      ref::Doc sd;
      sd.stmts = st.stmts;
      std::vector<gen::Proc> pv;
      if (!gen::procs(sd, pv)) {
        res.inapplicable = true;
        return;
      }
      auto e = mod_expect(st.stmts, pv, m.module, trig_set(m));
      std::string now, bak;
      bool hc = get_file(d.name, now), hb = get_file(d.name + ".bak", bak);
      auto good = [&](std::string const &t, std::vector<ref::Stmt> const &want) {
        ref::Doc r = ref_scan(ref::split_lines(t), d.fixed);
        return r.ok && stmts_str(r.stmts) == stmts_str(want) &&
               r.comments == d.ref.comments && r.other == d.ref.other;
      };
      if (!bad) {
        if (!hc || !good(now, e.stmts)) {
          ref::Doc r = ref_scan(ref::split_lines(now), d.fixed);
          res.fail("wrong-history", "run " + std::to_string(ri) + " (use " + m.module + " for " + m.triggers[0] + ") left " + d.name + " with wrong contents:\n" +
                                        diff_text(stmts_str(e.stmts), stmts_str(r.stmts)) + diff_text(lines_str(d.ref.comments), lines_str(r.comments)));
          return;
        }
        if (!e.inserted && now != st.text) {
          res.fail("rewrite-not-idempotent", "run " + std::to_string(ri) + " had nothing to insert in " + d.name + " but changed its text\n" + diff_text(st.text, now));
          return;
        }
        st.text = now;
        st.stmts = e.stmts;
        if (e.inserted)
          res.probes["insertions"] += e.inserted;
        if (e.changed && !e.inserted)
          res.probes["already-present"]++;
        continue;
      }
      // the operator's recovery after a failed run
      if (hc && now == st.text) {
        // untouched
      } else if (hc && e.changed && good(now, e.stmts) && now.size() && now.back() == '\n') {
        st.text = now;
        st.stmts = e.stmts;
        res.probes["completed-before-failure"]++;
      } else if (hb && bak == st.text) {
        set_file(d.name, bak);
        res.probes["restored-from-backup"]++;
      } else {
        res.fail("unrecoverable", "after " + pr.str() + " " + d.name + " can be recovered neither from its name nor from its backup");
        return;
      }
    }
    res.nontrivial = true;
  }
  // exactly once, however often it was run
  for (auto &d : docs) {
    State &st = cur[d.name];
    W->obs_hash = fnv(W->obs_hash, st.text);
    ref::Doc sd = ref_scan(ref::split_lines(st.text), d.fixed);
    std::vector<gen::Proc> pv;
    if (!gen::procs(sd, pv)) {
      res.fail("structure-lost", d.name);
      return;
    }
    for (size_t i = 0; i < pv.size(); ++i) {
      std::map<std::string, int> n, n0;
      for (int k = pv[i].begin; k < pv[i].after_uses; ++k) {
        std::string c = gen::lower(sd.stmts[(size_t)k].canon);
        for (auto &rn : runs)
          if (c == "use" + gen::lower(rn.first)) {
            n[c]++;
            break;
          }
      }
      (void)n0;
      if (i < d.procs.size())
        for (int k = d.procs[i].begin; k < d.procs[i].after_uses; ++k)
          n0[gen::lower(d.ref.stmts[(size_t)k].canon)]++;
      for (auto &x : n)
        if (x.second > std::max(1, n0[x.first])) {
          res.fail("inserted-twice", d.name + ": " + x.first + " appears " + std::to_string(x.second) + " times in " + pv[i].name);
          return;
        }
    }
  }
}

std::vector<Scenario> const v{
    {"P03", p03_gen, p03_exec},
    {"P04", p04_gen, p04_exec},
    {"P10", p10_gen, p10_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_io() { return v; }
