// Pipelines of tools over one simulated disk (P17): every stage is a process
// that may fail or crash, the operator repeats it, and the text that comes out
// at the end is the composition of what the stages are documented to do.
#include "common.hh"
using namespace sim;

namespace {
std::vector<std::string> split_ws(std::string const &s) {
  std::vector<std::string> v;
  std::string c;
  for (char ch : s + " ") {
    if (ch == ' ') {
      if (!c.empty())
        v.push_back(c);
      c.clear();
    } else
      c += ch;
  }
  return v;
}
long fired_now() {
  long n = 0;
  for (Eff e : {Eff::ERR, Eff::FULL, Eff::EINTR_ONCE, Eff::BADALLOC, Eff::CRASH_BEFORE, Eff::CRASH_AFTER, Eff::CRASH_MID})
    for (int j = 0; j < (int)OpClass::N; ++j)
      n += W->fired[(int)e][j];
  return n;
}
// ---- what caliper does to a list of statements ----
// is this a return-stmt (1) or an if-stmt that holds one (2)?
int return_kind(std::string const &canon, std::string *head = nullptr) {
  std::string s = gen::lower(canon);
  if (s == "return")
    return 1;
  if (s.compare(0, 3, "if(") != 0)
    return 0;
  int depth = 0;
  char q = 0;
  for (size_t i = 2; i < s.size(); ++i) {
    char c = s[i];
    if (q) {
      if (c == q)
        q = 0;
      continue;
    }
    if (c == '\'' || c == '"')
      q = c;
    else if (c == '(')
      depth++;
    else if (c == ')' && --depth == 0) {
      if (s.substr(i + 1) != "return")
        return 0;
      if (head)
        *head = canon.substr(0, i + 1);
      return 2;
    }
  }
  return 0;
}
bool excluded(std::string const &header, std::string const &name) {
  std::string s = gen::lower(header);
  size_t k = std::min(s.find("subroutine" + name), s.find("function" + name));
  if (k == std::string::npos)
    return false;
  std::string pre = s.substr(0, k);
  if (pre.find("elemental") != std::string::npos)
    return true;
  for (size_t p = pre.find("pure"); p != std::string::npos; p = pre.find("pure", p + 1))
    if (p < 2 || pre.compare(p - 2, 2, "im") != 0)
      return true;
  return false;
}
struct Want {
  ref::Stmt s;
  int proc = -1;      // the label / branch target belongs to this procedure
  bool target = false; // carries the procedure's label
  bool branch = false; // canon is completed by the label
};
struct CalExpect {
  bool changed = false;
  std::vector<Want> v;
  std::vector<std::set<int>> used; // labels of each procedure
};
CalExpect caliper_expect(FDoc const &d) {
  CalExpect e;
  auto const &in = d.ref.stmts;
  std::vector<Want> out(in.size());
  for (size_t i = 0; i < in.size(); ++i)
    out[i].s = in[i];
  std::map<int, Want> before, after;
  e.used.resize(d.procs.size());
  for (size_t k = 0; k < d.procs.size(); ++k) {
    auto const &p = d.procs[k];
    for (int i = p.begin; i < p.end && i < (int)in.size(); ++i)
      if (in[(size_t)i].label)
        e.used[k].insert(in[(size_t)i].label);
    if (p.internal || p.interface_body || !p.has_exec)
      continue;
    if (p.header && excluded(in[(size_t)p.begin].canon, p.name))
      continue;
    e.changed = true;
    Want b, en;
    b.s.canon = "call" "caliper_begin('" + p.name + "')";
    en.s.canon = "call" "caliper_end('" + p.name + "')";
    bool conv = false;
    bool fin = return_kind(in[(size_t)p.last_exec].canon) == 1;
    for (int i = p.first_exec; i <= p.last_exec; ++i) {
      std::string head;
      int rk = return_kind(in[(size_t)i].canon, &head);
      if (!rk || (fin && i == p.last_exec))
        continue;
      conv = true;
      out[(size_t)i].branch = true;
      out[(size_t)i].proc = (int)k;
      out[(size_t)i].s.canon = head + "goto";
    }
    before[p.first_exec] = b;
    if (fin) {
      en.s.label = in[(size_t)p.last_exec].label;
      en.proc = (int)k;
      en.target = conv;
      out[(size_t)p.last_exec] = en;
    } else {
      en.proc = (int)k;
      en.target = conv;
      after[p.last_exec] = en;
    }
  }
  for (size_t i = 0; i < in.size(); ++i) {
    if (before.count((int)i))
      e.v.push_back(before[(int)i]);
    e.v.push_back(out[i]);
    if (after.count((int)i))
      e.v.push_back(after[(int)i]);
  }
  return e;
}
// resolves the free choice of the new labels from the output; "" or complaint
std::string resolve_labels(CalExpect &e, std::vector<ref::Stmt> const &got) {
  std::map<int, int> lab;
  for (size_t i = 0; i < e.v.size() && i < got.size(); ++i)
    if (e.v[i].target) {
      int l = e.v[i].s.label;
      if (!l) {
        l = got[i].label;
        if (l <= 0 || l > 99999)
          return "the end of procedure number " + std::to_string(e.v[i].proc) + " needs a label for its returns: " + got[i].canon;
        if (e.used[(size_t)e.v[i].proc].count(l))
          return "the label " + std::to_string(l) + " given to the end call is already in use in its procedure";
      }
      e.v[i].s.label = l;
      lab[e.v[i].proc] = l;
    }
  for (auto &w : e.v)
    if (w.branch)
      w.s.canon += std::to_string(lab[w.proc]);
  return "";
}
// names in the inserted calls keep the spelling of the source
std::string norm(std::vector<ref::Stmt> v) {
  for (auto &s : v) {
    std::string l = gen::lower(s.canon);
    if (l.compare(0, 19, "callcaliper_begin('") == 0 || l.compare(0, 17, "callcaliper_end('") == 0)
      s.canon = l;
  }
  return stmts_str(v);
}

std::string fmt_opts(Rng &r) {
  std::string s = "-o";
  if (r.chance(1, 2))
    s += " -i";
  if (r.chance(1, 3))
    s += " -f";
  if (r.chance(1, 10))
    s += " -e";
  return s;
}
void p17_gen(Rng &r, Plan &p, bool thorough) {
  gen::Opts o = gen::random_opts(r);
  o.p_return = r.chance(1, 3) ? 0 : r.range(5, 40);
  o.callees = {"alpha", "beta"};
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  int n = r.range(1, thorough ? 5 : 3);
  bool any = false;
  for (int i = 0; i < n; ++i) {
    int k = (i == n - 1 && !any) ? 0 : (int)r.below(4);
    if (k < 2) {
      p.add("O", {"caliper"});
      any = true;
    } else if (k == 2)
      p.add("O", {"format", fmt_opts(r)});
    else
      p.add("O", {"module", r.chance(1, 2) ? "alpha" : "beta", r.chance(1, 2) ? "newmod" : "othermod"});
  }
  int nf = r.chance(1, 3) ? 0 : r.range(1, 3);
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = r.range(1, n + 1);
    static OpClass const ops[] = {OpClass::OPEN, OpClass::READ, OpClass::WRITE, OpClass::WRITE, OpClass::CLOSE, OpClass::RENAME};
    f.op = ops[r.below(6)];
    f.nth = (int)r.below(f.op == OpClass::WRITE ? 6 : 2);
    switch (r.below(6)) {
    case 0:
      f.eff = Eff::CRASH_BEFORE;
      break;
    case 1:
      f.eff = f.op == OpClass::WRITE ? Eff::CRASH_MID : Eff::CRASH_AFTER;
      f.arg = r.range(0, 600);
      break;
    case 2:
      if (f.op == OpClass::WRITE) {
        f.eff = Eff::SHORT;
        f.arg = r.range(1, 500);
        break;
      }
      // fall through
    default:
      f.eff = Eff::ERR;
      f.arg = pick_errno(r, f.op);
    }
    p.fault(f);
  }
}
void p17_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  auto ops = p.of("O");
  if (docs.empty() || !docs[0].ok || ops.empty()) {
    res.inapplicable = true;
    return;
  }
  FDoc cur = docs[0];
  set_file(cur.name, cur.text);
  int k = 0;
  for (auto *op : ops) {
    std::string kind = op->f[0];
    std::string a1 = op->f.size() > 1 ? op->f[1] : "", a2 = op->f.size() > 2 ? op->f[2] : "";
    std::string out;
    bool done = false, nothing = false;
    CalExpect ce;
    ModExpect me;
    if (kind == "caliper")
      ce = caliper_expect(cur);
    else if (kind == "module")
      me = mod_expect(cur.ref.stmts, cur.procs, a2, {a1});
    std::string what = kind + (a1.empty() ? "" : " " + a1) + (a2.empty() ? "" : " " + a2);
    for (int attempt = 0; attempt < 6 && !done; ++attempt) {
      long f0 = fired_now();
      ProcResult pr;
      if (kind == "caliper")
        pr = run_tool("caliper", {cur.name});
      else if (kind == "format") {
        auto a = split_ws(a1);
        a.push_back(cur.name);
        pr = run_tool("flpr-format", a);
      } else
        pr = run_tool("module", {a1, a2, cur.name});
      absorb(pr, res, what.c_str());
      if (res.viol)
        return;
      bool hurt = fired_now() > f0;
      if (pr.ok()) {
        done = true;
        out = pr.out;
        break;
      }
      if (kind == "caliper" && pr.kind == ProcResult::EXIT && !ce.changed && pr.out.empty()) {
        done = nothing = true; // nothing to instrument is reported as status 2
        break;
      }
      if (!hurt) {
        res.fail("refused", what + " ends with " + pr.str() + " on a readable file without any failing call: " + pr.err.substr(0, 500));
        return;
      }
      res.probes["stage-repeated"]++;
      // the operator: nothing but the module tool touches files
      std::string t, b;
      bool ht = get_file(cur.name, t), hb = get_file(cur.name + ".bak", b);
      if (kind == "module") {
        if (!(ht && t == cur.text)) {
          bool complete = ht && mod_compare(cur, me, a2, t).empty();
          if (!complete && !(hb && b == cur.text)) {
            res.fail("original-lost", what + ": neither the file nor its backup holds the text of the stage before");
            return;
          }
          if (!complete) {
            set_file(cur.name, b);
            res.probes["restored-from-backup"]++;
          } else
            set_file(cur.name, cur.text); // run again from the start
        }
        remove_file(cur.name + ".bak");
      } else if (!ht || t != cur.text || list_files().size() != 1) {
        res.fail("input-modified", what + " failed and left its input changed or a stray file behind");
        return;
      }
    }
    if (!done) {
      res.inapplicable = true; // more faults than attempts
      return;
    }
    FDoc nx;
    bool tofree = kind == "format" && a1.find("-f") != std::string::npos && cur.fixed;
    nx.fixed = cur.fixed && !tofree;
    if (kind == "module") {
      get_file(cur.name, out);
      remove_file(cur.name + ".bak");
    }
    if (nothing || (kind == "format" && out.empty()))
      out = cur.text;
    W->obs_hash = fnv(W->obs_hash, out);
    nx.text = out;
    nx.lines = ref::split_lines(out);
    nx.ref = ref_scan(nx.lines, nx.fixed);
    if (!nx.ref.ok) {
      res.fail("unreadable-output", what + ": the output is not readable Fortran layout: " + nx.ref.why + "\n" + out.substr(0, 800));
      return;
    }
    std::vector<ref::Stmt> want;
    if (kind == "caliper" && !nothing) {
      if (!ce.changed) {
        res.fail("changed-without-reason", "caliper produced output although no program unit is to be instrumented");
        return;
      }
      std::string c = resolve_labels(ce, nx.ref.stmts);
      if (!c.empty()) {
        res.fail("branch-target", c + "\n" + out.substr(0, 1500));
        return;
      }
      for (auto &w : ce.v)
        want.push_back(w.s);
    } else if (kind == "module")
      want = me.stmts;
    else
      want = cur.ref.stmts;
    if (norm(nx.ref.stmts) != norm(want)) {
      res.fail("statements-differ", what + ": " + diff_text(norm(want), norm(nx.ref.stmts)));
      return;
    }
    if (nx.ref.comments != cur.ref.comments) {
      res.fail("comments-differ", what + ": " + diff_text(lines_str(cur.ref.comments), lines_str(nx.ref.comments)));
      return;
    }
    if (nx.ref.other != cur.ref.other) {
      res.fail("directives-differ", what + ": " + diff_text(lines_str(cur.ref.other), lines_str(nx.ref.other)));
      return;
    }
    if (!gen::procs(nx.ref, nx.procs)) {
      res.fail("structure-lost", what + ": the output is not a well-formed program any more\n" + out.substr(0, 1500));
      return;
    }
    nx.ok = true;
    nx.name = "s" + std::to_string(k++) + (nx.fixed ? ".f" : ".f90");
    for (auto &f : list_files())
      remove_file(f);
    cur = nx;
    set_file(cur.name, cur.text);
    res.probes[kind]++;
    res.nontrivial = true;
  }
}

std::vector<Scenario> const v{
    {"P17", p17_gen, p17_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_pipe() { return v; }
