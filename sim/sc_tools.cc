// Scenarios around the output-producing tools: reported output failures (P05),
// failing allocations (P11), the formatting pipeline (P12) and several files
// in one run (P15).
#include "common.hh"
#include <algorithm>
using namespace sim;

namespace {
std::vector<std::string> split_ws(std::string const &s) {
  std::vector<std::string> v;
  std::string c;
  for (char ch : s + " ") {
    if (ch == ' ') {
      if (!c.empty())
        v.push_back(c);
      c.clear();
    } else
      c += ch;
  }
  return v;
}
long fired(Eff e) {
  long n = 0;
  for (int j = 0; j < (int)OpClass::N; ++j)
    n += W->fired[(int)e][j];
  return n;
}
bool failing_fault() {
  return fired(Eff::ERR) + fired(Eff::FULL) + fired(Eff::EINTR_ONCE) + fired(Eff::BADALLOC) > 0;
}
// options of flpr-format in random combination
std::string fmt_opts(Rng &r) {
  std::string s;
  if (r.chance(1, 2))
    s += " -i";
  if (r.chance(2, 3))
    s += " -o";
  if (r.chance(1, 3))
    s += " -f";
  if (r.chance(1, 8))
    s += " -e";
  if (r.chance(1, 8))
    s += " -v";
  if (r.chance(1, 10))
    s += " -t";
  return s;
}
struct Quiet { // an undisturbed world for golden runs
  int c = W->chunk, f = W->heap_fill, j = W->heap_jitter, nf = W->nfault;
  Quiet() { W->chunk = 0, W->heap_fill = -1, W->heap_jitter = 0, W->nfault = 0; }
  ~Quiet() { W->chunk = c, W->heap_fill = f, W->heap_jitter = j, W->nfault = nf; }
};
void put_files(std::vector<FDoc> const &docs) {
  for (auto &d : docs)
    set_file(d.name, d.text);
}
std::vector<std::string> tool_args(std::string const &tool, Plan const &p, std::vector<FDoc> const &docs) {
  std::vector<std::string> a;
  if (tool == "flpr-format")
    a = split_ws(p.get("opts", "-o"));
  else if (tool == "module")
    a = {p.get("trigger", "alpha"), "newmod"};
  if (tool != "flpr_show_cst") // reads its standard input
    for (auto &d : docs)
      a.push_back(d.name);
  return a;
}
ProcResult run_on(std::string const &tool, Plan const &p, std::vector<FDoc> const &docs) {
  std::string in;
  if (tool == "flpr_show_cst")
    for (auto &l : docs[0].lines) // a blank line ends its input
      if (!l.empty())
        in += l + "\n";
  return run_tool(tool, tool_args(tool, p, docs), in);
}

// ---- P05: a tool that ends with status 0 has delivered its whole output ----
void p05_gen(Rng &r, Plan &p, bool) {
  static char const *tools[] = {"flpr-format", "flpr-format", "flpr-format", "caliper", "caliper", "caliper", "flpr_show_cst", "parse_files"};
  std::string tool = tools[r.below(8)];
  bool const show = tool == "flpr_show_cst";
  int n = tool == "caliper" || show ? 1 : r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    if (show)
      o.fixed = false, o.units = 1; // every statement meets every parser
    else if (r.chance(1, 3))
      o.units += 4; // larger than a stdio buffer
    p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
  }
  p.cfg("tool", tool);
  if (tool == "flpr-format")
    p.cfg("opts", fmt_opts(r));
  random_policies(r, p);
  auto docs = load_docs(p);
  put_files(docs);
  ProcResult dry = run_on(tool, p, docs);
  int nf = r.range(1, 2);
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = 1;
    f.op = r.chance(3, 4) ? OpClass::WRITE : (r.chance(1, 2) ? OpClass::READ : OpClass::OPEN);
    long c = dry.calls[(int)f.op];
    f.nth = c ? (int)r.below((uint64_t)std::min<long>(c, 40)) : 0;
    f.eff = Eff::ERR;
    f.arg = pick_errno(r, f.op);
    if (f.op == OpClass::WRITE && r.chance(1, 2)) {
      f.eff = r.chance(1, 3) ? Eff::FULL : (r.chance(1, 2) ? Eff::SHORT : Eff::EINTR_ONCE);
      f.arg = r.range(f.eff == Eff::SHORT ? 1 : 0, 6000);
    }
    p.fault(f);
  }
}
// the report of parse_files on files of which one could not be read
bool p05_same_but_failed(std::string const &want, std::string const &got) {
  auto split = [](std::string const &s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
      size_t j = s.find("Processing: ", i + 1);
      if (j == std::string::npos)
        j = s.find("done.", i + 1);
      j = std::min(j, s.size());
      v.push_back(s.substr(i, j - i));
      i = j;
    }
    return v;
  };
  auto a = split(want), b = split(got);
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i] && (b[i].find("read/scan FAILED\n") == std::string::npos || b[i].substr(0, b[i].find('\n')) != a[i].substr(0, a[i].find('\n'))))
      return false;
  return true;
}
void p05_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty()) {
    res.inapplicable = true;
    return;
  }
  std::string tool = p.get("tool", "flpr-format");
  ProcResult g;
  {
    Quiet q;
    put_files(docs);
    g = run_on(tool, p, docs);
  }
  if (g.kind != ProcResult::EXIT) {
    res.inapplicable = true; // decided by P12 and P13
    return;
  }
  world_reset(p.salt);
  p.arm();
  W->proc = 0;
  put_files(docs);
  auto pr = run_on(tool, p, docs);
  absorb(pr, res, tool.c_str());
  bool bad = failing_fault();
  res.nontrivial = bad || W->fired[(int)Eff::SHORT][(int)OpClass::WRITE];
  res.probes[tool]++;
  W->obs_hash = fnv(W->obs_hash, pr.out);
  bool const said = tool == "parse_files" && fired(Eff::ERR) && pr.out.find("FAILED") != std::string::npos;
  if (pr.ok() && pr.out != g.out && !(said && p05_same_but_failed(g.out, pr.out)))
    res.fail("success-but-incomplete", tool + " ends with exit 0 but its output is not complete: " + diff_text(g.out, pr.out));
  if (pr.ok() && !g.ok())
    res.fail("success-but-incomplete", tool + " ends with exit 0 where an undisturbed run reports a failure");
  if (!bad && pr.kind == ProcResult::EXIT && (pr.code != g.code || pr.out != g.out))
    res.fail("spurious-difference", tool + ": " + pr.str() + " without any failing call; undisturbed: " + g.str() + "\n" + diff_text(g.out, pr.out));
  // the tools write to their standard output only
  for (auto &d : docs) {
    std::string cur;
    if (!get_file(d.name, cur) || cur != d.text)
      res.fail("input-modified", tool + " changed its input " + d.name);
  }
  if (list_files().size() != docs.size())
    res.fail("stray-file", tool + " left another file behind");
  if (!pr.ok() && pr.kind == ProcResult::EXIT)
    res.probes["reported-failure"]++;
}

// ---- P11: a failing allocation stops the tool or is survived, never hidden ----
void p11_gen(Rng &r, Plan &p, bool) {
  static char const *tools[] = {"module", "module", "flpr-format", "caliper", "parse_files", "flpr_show_cst"};
  std::string tool = tools[r.below(6)];
  bool const show = tool == "flpr_show_cst";
  int n = tool == "caliper" || show ? 1 : r.range(1, 2);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    o.units = 1;
    if (show)
      o.fixed = false;
    o.callees = {"alpha", "beta"};
    p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
  }
  p.cfg("tool", tool);
  if (tool == "flpr-format")
    p.cfg("opts", fmt_opts(r));
  p.cfg("clock_mode", 1);
  if (r.chance(1, 2))
    p.cfg("chunk", r.range(1, 300));
  if (r.chance(1, 2))
    p.cfg("heap_fill", (long)r.below(256));
  auto docs = load_docs(p);
  put_files(docs);
  ProcResult dry = run_on(tool, p, docs);
  int nf = r.chance(1, 4) ? 2 : 1;
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = 1;
    f.op = OpClass::ALLOC;
    long c = dry.allocs;
    f.nth = c ? (int)(r.chance(1, 3) ? c - 1 - (long)r.below((uint64_t)std::min<long>(c, 60)) : (long)r.below((uint64_t)c)) : 0;
    f.eff = Eff::BADALLOC;
    p.fault(f);
  }
}
void p11_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty()) {
    res.inapplicable = true;
    return;
  }
  std::string tool = p.get("tool", "flpr-format");
  ProcResult g;
  std::map<std::string, std::string> gout;
  {
    Quiet q;
    put_files(docs);
    g = run_on(tool, p, docs);
    for (auto &d : docs)
      get_file(d.name, gout[d.name]);
  }
  if (g.kind != ProcResult::EXIT) {
    res.inapplicable = true;
    return;
  }
  world_reset(p.salt);
  p.arm();
  W->proc = 0;
  put_files(docs);
  auto pr = run_on(tool, p, docs);
  res.nontrivial = fired(Eff::BADALLOC) > 0;
  res.probes[tool]++;
  W->obs_hash = fnv(W->obs_hash, pr.out);
  if (pr.kind == ProcResult::HANG)
    res.fail("no-progress", tool + " does not end after a failed allocation");
  if (pr.kind == ProcResult::SIGNAL) {
    if (pr.code != 6)
      res.fail("signal-" + std::to_string(pr.code), tool + " dies of signal " + std::to_string(pr.code) + " after a failed allocation\n" + pr.err.substr(0, 500));
    res.probes["stopped-by-terminate"]++;
  }
  if (pr.kind == ProcResult::EXIT && pr.code)
    res.probes["reported-failure"]++;
  bool parse = tool == "parse_files";
  if (pr.ok() && (!g.ok() || (pr.out != g.out && !(parse && pr.out.find("FAILED") != std::string::npos))))
    res.fail("success-but-incomplete", tool + " ends with exit 0 after a failed allocation, but its output is wrong: " + diff_text(g.out, pr.out));
  for (auto &d : docs) {
    std::string cur, bak;
    bool hc = get_file(d.name, cur), hb = get_file(d.name + ".bak", bak);
    if (tool != "module") {
      if (!hc || cur != d.text)
        res.fail("input-modified", d.name);
      continue;
    }
    if (pr.ok() && (!hc || cur != gout[d.name]))
      res.fail("success-but-incomplete", "module ends with exit 0 but " + d.name + " is not complete: " + diff_text(gout[d.name], cur));
    if (!(hc && cur == d.text) && !(hb && bak == d.text) && !(hc && cur == gout[d.name]))
      res.fail("original-lost", "after a failed allocation " + d.name + " exists nowhere: " + pr.str());
  }
}

// ---- P12: the formatting pipeline ----
bool has_opt(std::string const &o, char const *x) {
  for (auto &s : split_ws(o))
    if (s == x)
      return true;
  return false;
}
void p12_gen(Rng &r, Plan &p, bool) {
  gen::Opts o = gen::random_opts(r);
  auto lines = gen::document(r, o);
  bool const col = o.fixed && r.chance(1, 3) && gen::sequence_field(r, lines);
  p.doc(gen_name(r, 0, o.fixed), lines);
  random_policies(r, p);
  if (col)
    p.cfg("seqcol", 72);
  int n = r.range(1, 3);
  for (int i = 0; i < n; ++i)
    p.add("O", {"stage", fmt_opts(r) + (col ? " -c" : "")});
}
void p12_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty() || !docs[0].ok) {
    res.inapplicable = true;
    return;
  }
  FDoc cur = docs[0];
  set_file(cur.name, cur.text);
  int k = 0;
  std::string prev_opts;
  auto ops = p.of("O");
  // every stage is repeated: a comment inside of a split compound line belongs
  // to the next statement when the output is read again, so the fixpoint is
  // required from the second pass on
  for (size_t s = 0; s < ops.size(); ++s) {
    std::string opts = ops[s]->f.size() > 1 ? ops[s]->f[1] : "";
    std::string first;
    for (int rep = 0; rep < 3; ++rep) {
      auto args = split_ws(opts);
      args.push_back(cur.name);
      auto pr = run_tool("flpr-format", args);
      absorb(pr, res, ("flpr-format" + opts).c_str());
      if (res.viol)
        return;
      if (!pr.ok()) {
        res.fail("format-refused", "flpr-format" + opts + " ends with " + pr.str() + " on valid input: " + pr.err.substr(0, 600));
        return;
      }
      std::string out = pr.out;
      if (out.empty()) {
        if (has_opt(opts, "-o") && !cur.text.empty()) {
          res.fail("no-output", "flpr-format" + opts + " was asked for output and gave none");
          return;
        }
        out = cur.text; // nothing changed
        res.probes["unchanged"]++;
      }
      FDoc nx;
      bool tofree = has_opt(opts, "-f") && cur.fixed;
      nx.fixed = cur.fixed && !tofree;
      nx.name = nx.fixed ? "s" + std::to_string(k) + ".f" : "s" + std::to_string(k) + ".f90";
      ++k;
      nx.text = out;
      nx.lines = ref::split_lines(out);
      nx.ref = ref_scan(nx.lines, nx.fixed, (int)p.geti("seqcol", 0));
      W->obs_hash = fnv(W->obs_hash, out);
      if (!nx.ref.ok) {
        res.fail("unreadable-output", "flpr-format" + opts + ": the output is not readable Fortran layout: " + nx.ref.why + "\n" + out.substr(0, 600));
        return;
      }
      if (stmts_str(nx.ref.stmts) != stmts_str(cur.ref.stmts)) {
        res.fail("statements-differ", "flpr-format" + opts + ": " + diff_text(stmts_str(cur.ref.stmts), stmts_str(nx.ref.stmts)));
        return;
      }
      auto kept = nx.ref.comments;
      for (auto const &c : cur.ref.soft) {
        auto it = std::find(kept.begin(), kept.end(), c);
        if (it != kept.end())
          kept.erase(it);
      }
      if (kept != cur.ref.comments) {
        res.fail("comments-differ", "flpr-format" + opts + ": " + diff_text(lines_str(cur.ref.comments), lines_str(kept)));
        return;
      }
      if (nx.ref.other != cur.ref.other) {
        res.fail("directives-differ", "flpr-format" + opts + ": " + diff_text(lines_str(cur.ref.other), lines_str(nx.ref.other)));
        return;
      }
      // text that ends in front of column 73 stays there
      if (nx.fixed && stmts_str(ref::scan_fixed(cur.lines, 72).stmts) == stmts_str(cur.ref.stmts) &&
          stmts_str(ref::scan_fixed(nx.lines, 72).stmts) != stmts_str(nx.ref.stmts)) {
        res.fail("past-column-72", "flpr-format" + opts + " moves text past column 72: " + diff_text(stmts_str(nx.ref.stmts), stmts_str(ref::scan_fixed(nx.lines, 72).stmts)));
        return;
      }
      for (auto &st : nx.ref.stmts)
        if (st.comp > 0) {
          res.fail("compound-left", "flpr-format" + opts + " leaves a compound line at \"" + st.canon + "\"");
          return;
        }
      if (rep == 2 && out != first) {
        res.fail("not-idempotent", "flpr-format" + opts + " applied to its own output changes it again: " + diff_text(first, out));
        return;
      }
      first = out;
      cur = nx;
      set_file(cur.name, cur.text);
    }
    res.nontrivial = true;
  }
}

// ---- P15: several files in one run ----
void p15_gen(Rng &r, Plan &p, bool) {
  static char const *tools[] = {"flpr-format", "flpr-format", "parse_files", "module"};
  std::string tool = tools[r.below(4)];
  int n = r.range(2, 4);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    o.units = r.range(1, 2);
    o.callees = {"alpha", "beta"};
    p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
  }
  p.cfg("tool", tool);
  if (tool == "flpr-format")
    p.cfg("opts", fmt_opts(r));
  random_policies(r, p);
  if (r.chance(1, 3))
    p.cfg("missing", (long)r.below(4));
  else if (r.chance(1, 3))
    p.cfg("garbage", (long)r.below(4));
}
void p15_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.size() < 2) {
    res.inapplicable = true;
    return;
  }
  std::string tool = p.get("tool", "flpr-format");
  long miss = p.geti("missing", -1), garb = p.geti("garbage", -1);
  std::string gone = miss >= 0 ? docs[(size_t)miss % docs.size()].name : "";
  if (garb >= 0) {
    auto &d = docs[(size_t)garb % docs.size()];
    d.text = d.fixed ? "      x = ( 1\n      end do\n      'abc\n" : "x = ( 1\nend do\nprint *, 'abc\n";
  }
  auto setup = [&](int only) {
    for (auto &f : list_files())
      remove_file(f);
    for (size_t i = 0; i < docs.size(); ++i)
      if (docs[i].name != gone && (only < 0 || (int)i == only))
        set_file(docs[i].name, docs[i].text);
  };
  // one run for each file
  std::string out, err;
  std::map<std::string, std::string> state;
  int worst = 0;
  bool stopped = false;
  for (size_t i = 0; i < docs.size(); ++i) {
    Quiet q;
    setup((int)i);
    auto pr = run_tool(tool, tool_args(tool, p, {docs[i]}));
    if (pr.kind != ProcResult::EXIT) {
      res.inapplicable = true; // P12 and P04 decide single files
      return;
    }
    std::string o = pr.out;
    if (tool == "parse_files" && o.size() >= 6)
      o.erase(o.rfind("done."));
    if (!stopped)
      out += o;
    if (pr.code)
      worst = pr.code;
    std::string t, b;
    bool hc = get_file(docs[i].name, t), hb = get_file(docs[i].name + ".bak", b);
    if (!stopped)
      state[docs[i].name] = (hc ? "T" + t : "-") + (hb ? "B" + b : "-");
    else
      state[docs[i].name] = docs[i].name == gone ? "--" : "T" + docs[i].text + "-";
    if (pr.code && tool == "module")
      stopped = true; // the module tool stops at the first failure
  }
  if (tool == "parse_files")
    out += "done.\n";
  // the same files in one run
  W->proc = 0;
  setup(-1);
  auto pr = run_on(tool, p, docs);
  absorb(pr, res, tool.c_str());
  if (res.viol)
    return;
  res.nontrivial = true;
  res.probes[tool]++;
  if (worst)
    res.probes["with-failing-file"]++;
  W->obs_hash = fnv(W->obs_hash, pr.out);
  if ((pr.code != 0) != (worst != 0))
    res.fail("status-differs", tool + ": " + pr.str() + ", single runs: worst exit " + std::to_string(worst));
  if (pr.out != out)
    res.fail("output-differs", tool + ": the output for several files is not the concatenation of the single outputs: " + diff_text(out, pr.out));
  for (auto &d : docs) {
    std::string t, b;
    bool hc = get_file(d.name, t), hb = get_file(d.name + ".bak", b);
    std::string st = (hc ? "T" + t : "-") + (hb ? "B" + b : "-");
    if (st != state[d.name])
      res.fail("result-differs", tool + ": " + d.name + " ends differently when other files are processed in the same run: " + diff_text(state[d.name], st));
  }
}

std::vector<Scenario> const v{
    {"P05", p05_gen, p05_exec},
    {"P11", p11_gen, p11_exec},
    {"P12", p12_gen, p12_exec},
    {"P15", p15_gen, p15_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_tools() { return v; }
