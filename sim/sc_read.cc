// Scenarios around reading: fidelity under adversarial delivery (P01), failed
// reads are never an end of file (P02), damaged inputs (P16).
#include "flprx.hh"
using namespace sim;

namespace {
std::string body_text(Plan const &p, FDoc const &d) {
  std::string t = d.text;
  if (p.geti("nofinal", 0) && !d.lines.empty() && !d.lines.back().empty())
    t.pop_back();
  return t;
}

// ---------------------------------------------------------------- P01 ----
void p01_gen(Rng &r, Plan &p, bool th) {
  int n = r.chance(1, 6) ? 2 : 1;
  bool seq = false;
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    if (th && r.chance(1, 3))
      o.units += 3, o.body += 6;
    else if (r.chance(1, 40)) // longer than any block of the file system
      o.units = r.range(6, 14), o.body = 24;
    auto lines = gen::document(r, o);
    if (o.fixed && r.chance(1, 6) && gen::sequence_field(r, lines))
      seq = true;
    p.doc(gen_name(r, i, o.fixed), lines);
  }
  random_policies(r, p);
  p.cfg("mode", (long)r.below(5));
  if (r.chance(1, 2))
    p.cfg("rebuild", 1);
  if (r.chance(1, 4))
    p.cfg("nofinal", 1);
  if (seq)
    p.cfg("col", 72);
  else if (r.chance(1, 5))
    p.cfg("col", r.chance(1, 2) ? 72 : (r.chance(1, 2) ? 80 : 132));
  int nf = r.range(0, 3);
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = 0;
    f.op = OpClass::READ;
    f.nth = r.range(0, 12);
    f.eff = r.chance(1, 2) ? Eff::EINTR_ONCE : Eff::SHORT;
    f.arg = r.range(1, 30);
    p.fault(f);
  }
}
bool read_doc(FLPR::Logical_File &lf, fx::File *&pf, Plan const &p, FDoc const &d,
              int mode, int col) {
  auto ft = d.fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT;
  std::string t = body_text(p, d);
  switch (mode) {
  case 0:
    return lf.read_and_scan(d.name, col);
  case 1: {
    fx::Src s(t, hash2(p.salt, 77), W->chunk, -1);
    std::istream is(&s);
    return lf.read_and_scan(is, d.name, col, p.salt & 1 ? ft : FLPR::File_Type::UNKNOWN);
  }
  case 2:
    pf = new fx::File(d.name, col);
    return bool(*pf);
  case 3: {
    fx::Src s(t, hash2(p.salt, 77), W->chunk, -1);
    std::istream is(&s);
    pf = new fx::File(is, "<stream>", col, ft);
    return bool(*pf);
  }
  default:
    return lf.scan(d.lines, d.name, col);
  }
}
std::string pieces(FLPR::Logical_Line const &ll) {
  std::string s = std::to_string(ll.label) + ":" + std::to_string(ll.has_stmts() ? ll.num_semicolons() : -1) + ":";
  if (ll.has_stmts())
    for (auto const &r : ll.stmts()) {
      for (auto const &t : r)
        s += t.text() + "/" + std::to_string(t.token) + " ";
      s += "| ";
    }
  return s + "\n";
}
// text past the last column is kept as a comment: it gets a "! " in front
bool same_but_marks(std::vector<std::string> const &want, std::string const &got, int col) {
  auto g = ref::split_lines(got);
  if (g.size() != want.size())
    return false;
  for (size_t i = 0; i < g.size(); ++i) {
    if (g[i] == want[i])
      continue;
    size_t p = g[i].find("! ", (size_t)col);
    if (p == std::string::npos || g[i].erase(p, 2) != want[i])
      return false;
  }
  return true;
}
void p01_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty()) {
    res.inapplicable = true;
    return;
  }
  int mode = (int)p.geti("mode", 0), col = (int)p.geti("col", 0);
  for (auto &d : docs) {
    if (col && d.fixed)
      d.ref = ref_scan(d.lines, true, col);
    if (!d.ref.ok) {
      res.inapplicable = true;
      return;
    }
    set_file(d.name, body_text(p, d));
  }
  auto pr = run_child([&] {
    for (auto &d : docs) {
      FLPR::Logical_File lf0;
      fx::File *pf = nullptr;
      if (!read_doc(lf0, pf, p, d, mode, col)) {
        child_fail("read-refused", d.name + ": reading failed although every byte was delivered");
        return 1;
      }
      FLPR::Logical_File &lf = pf ? pf->logical_file() : lf0;
      std::string got = fx::emit(lf.lines);
      W->obs_hash = fnv(W->obs_hash, got);
      if (got != d.text && !(col && d.fixed && same_but_marks(d.lines, got, col)))
        child_fail("text-not-preserved", d.name + ": " + diff_text(d.text, got));
      if (lf.num_input_lines != d.lines.size())
        child_fail("line-count", d.name + ": " + std::to_string(lf.num_input_lines) + " input lines reported for " + std::to_string(d.lines.size()));
      if (lf.is_fixed_format() != d.fixed)
        child_fail("file-type", d.name);
      if (pf)
        pf->statements();
      else
        lf.make_stmts();
      std::string gs = fx::stmts(lf.ll_stmts), ws = stmts_str(d.ref.stmts);
      W->obs_hash = fnv(W->obs_hash, gs);
      if (gs != ws) {
        child_fail("statements-differ", d.name + ": " + diff_text(ws, gs));
        continue;
      }
      // where a statement is reported to stand
      size_t k = 0;
      for (auto const &s : lf.ll_stmts) {
        auto const &rs = d.ref.stmts[k++];
        if (s.linenum() != rs.line0 + 1)
          child_fail("wrong-position", d.name + ": statement \"" + rs.canon + "\" of line " + std::to_string(rs.line0 + 1) + " is reported at line " + std::to_string(s.linenum()));
        if ((s.is_compound() > 0) != s.in_compound() || (s.is_compound() > 0 ? s.is_compound() - 1 : 0) != rs.comp)
          child_fail("wrong-position", d.name + ": statement \"" + rs.canon + "\" is number " + std::to_string(rs.comp + 1) + " of its line, reported as " + std::to_string(s.is_compound()));
      }
      // a document of this generator is a valid program
      if (pf && d.ok && !col) {
        if (pf->parse_tree().empty() && !d.ref.stmts.empty())
          child_fail("parse-refused", d.name);
      }
      if (pf) {
        std::string again = fx::emit(lf.lines);
        if (again != got)
          child_fail("query-changes-text", d.name + ": " + diff_text(got, again));
      }
      // every logical line can be built on its own and copied
      if (p.geti("rebuild", 0)) {
        size_t at = 0;
        for (auto const &ll : lf.lines) {
          std::vector<std::string> raw(d.lines.begin() + (long)at, d.lines.begin() + (long)(at + ll.layout().size()));
          at += ll.layout().size();
          if (raw.empty() || !ll.has_fortran())
            continue;
          FLPR::Logical_Line one = d.fixed ? (raw.size() == 1 && (p.salt & 4) ? FLPR::Logical_Line(raw[0], col) : FLPR::Logical_Line(raw, col))
                                           : (raw.size() == 1 && (p.salt & 4) ? FLPR::Logical_Line(raw[0]) : FLPR::Logical_Line(raw));
          std::string w = fx::one(ll), wf = pieces(ll);
          if (fx::one(one) != w || pieces(one) != wf)
            child_fail("rebuilt-differs", d.name + ": a line built from its own text differs: " + diff_text(w + wf, fx::one(one) + pieces(one)));
          FLPR::Logical_Line copy(one), third;
          third = copy;
          copy.clear();
          one = FLPR::Logical_Line();
          if (fx::one(third) != w || pieces(third) != wf)
            child_fail("copy-differs", d.name + ": a copied line differs: " + diff_text(w + wf, fx::one(third) + pieces(third)));
          probe(10);
        }
      }
      delete pf;
    }
    return 0;
  });
  absorb(pr, res, "reading");
  long f = 0;
  for (int j = 0; j < (int)Eff::N; ++j)
    f += W->fired[j][(int)OpClass::READ];
  res.nontrivial = f > 0 || mode == 1 || mode == 3;
  static char const *mn[] = {"by-name", "by-stream", "parsed-by-name", "parsed-by-stream", "from-buffer"};
  if (mode >= 0 && mode < 5)
    res.probes[mn[mode]]++;
}

// ---------------------------------------------------------------- P02 ----
// A read (or open) of an input that fails is reported as a failure by every
// reader; it never passes for a shorter or empty file.
char const *const p02_modes[] = {"lf", "lf-stream", "pf", "pf-stream", "pf-read", "flpr-format",
                                 "caliper", "parse_files", "parse_files-list", "module", "module-list", "flpr_show_cst"};
constexpr int P02_API = 5, P02_N = 12;
std::vector<std::string> p02_args(int mode, Plan const &p, FDoc const &d) {
  switch (mode) {
  case 5:
    return p.salt & 2 ? std::vector<std::string>{"-o", d.name} : std::vector<std::string>{"-i", "-o", d.name};
  case 6:
  case 7:
    return {d.name};
  case 8:
    return {"-f", "files.lst"};
  case 9:
    return {"alpha", "newmod", d.name};
  case 11:
    return {};
  default:
    return {"-f", "names.lst", "newmod", d.name};
  }
}
char const *p02_tool(int mode) {
  return mode == 5 ? "flpr-format" : mode == 6 ? "caliper" : mode <= 8 ? "parse_files" : mode == 11 ? "flpr_show_cst" : "module";
}
void p02_files(FDoc const &d) {
  set_file(d.name, d.text);
  set_file("files.lst", d.name + "\n");
  set_file("names.lst", "alpha\nbeta\n");
}
ProcResult p02_run(int mode, Plan const &p, FDoc const &d) {
  std::string in;
  if (mode == 11)
    for (auto &l : d.lines) // a blank line ends its input
      if (!l.empty())
        in += l + "\n";
  return run_tool(p02_tool(mode), p02_args(mode, p, d), in);
}
int p02_api(Plan const &p, FDoc const &d, int mode) {
  auto ft = d.fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT;
  FLPR::Logical_File lf0;
  fx::File pf0;
  fx::File *pf = &pf0;
  std::unique_ptr<fx::File> own;
  long fail_at = p.geti("fail_at", -1);
  if (fail_at > (long)d.text.size())
    fail_at = (long)d.text.size();
  bool ok = false;
  for (int attempt = 0; attempt < 3; ++attempt) {
    long before = W->fired[(int)Eff::ERR][(int)OpClass::READ] + W->fired[(int)Eff::ERR][(int)OpClass::OPEN];
    fx::Src s(d.text, hash2(p.salt, 78), W->chunk, attempt == 0 ? fail_at : -1);
    std::istream is(&s);
    switch (mode) {
    case 0:
      ok = lf0.read_and_scan(d.name, 0);
      break;
    case 1:
      ok = lf0.read_and_scan(is, d.name, 0, ft);
      break;
    case 2:
      own.reset(new fx::File(d.name, 0));
      pf = own.get();
      ok = bool(*pf);
      break;
    case 3:
      own.reset(new fx::File(is, d.name, 0, ft));
      pf = own.get();
      ok = bool(*pf);
      break;
    default:
      ok = pf0.read_file(d.name, 0);
      if (ok != bool(pf0))
        child_fail("inconsistent-status", "read_file and the object's state disagree");
    }
    bool fired = W->fired[(int)Eff::ERR][(int)OpClass::READ] + W->fired[(int)Eff::ERR][(int)OpClass::OPEN] > before;
    if (fired && ok) {
      auto &l = mode < 2 ? lf0.lines : pf->logical_lines();
      child_fail("failed-read-accepted", std::string(p02_modes[mode]) + ": a call on the input failed, but reading reported success with " +
                                             std::to_string(fx::emit(l).size()) + " of " + std::to_string(d.text.size()) + " bytes");
      return 1;
    }
    if (!fired && !ok) {
      child_fail("spurious-failure", std::string(p02_modes[mode]) + ": attempt " + std::to_string(attempt) + " failed although all data was delivered");
      return 1;
    }
    if (!ok && mode >= 2) {
      if (pf->prefetch_parse_tree() || pf->prefetch_statements() || !pf->statements().empty() || !pf->parse_tree().empty())
        child_fail("failed-file-usable", "a file whose reading failed offers statements or a tree");
    }
    if (ok)
      break;
  }
  if (!ok)
    return 0; // every attempt met its fault
  // what a reader gets after a failure is what a fresh one would get
  FLPR::Logical_File &lf = mode < 2 ? lf0 : pf->logical_file();
  std::string got = fx::emit(lf.lines);
  if (mode < 2)
    lf.make_stmts();
  else
    pf->statements();
  if (got != d.text)
    child_fail("retry-differs", "after a failed attempt the text differs: " + diff_text(d.text, got));
  else if (fx::stmts(lf.ll_stmts) != stmts_str(d.ref.stmts))
    child_fail("retry-differs", "after a failed attempt the statements differ: " + diff_text(stmts_str(d.ref.stmts), fx::stmts(lf.ll_stmts)));
  return 0;
}
void p02_gen(Rng &r, Plan &p, bool) {
  gen::Opts o = gen::random_opts(r);
  o.callees = {"alpha", "beta", "gamma"};
  int mode = (int)r.below(P02_N);
  if (mode == 11)
    o.fixed = false, o.units = 1;
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  p.cfg("mode", mode);
  random_policies(r, p);
  auto docs = load_docs(p);
  if (docs.empty())
    return;
  p02_files(docs[0]);
  W->chunk = (int)p.geti("chunk", 0);
  ProcResult dry = mode < P02_API ? run_child([&] { return p02_api(p, docs[0], mode); })
                                  : p02_run(mode, p, docs[0]);
  if (mode == 1 || mode == 3) {
    p.cfg("fail_at", r.chance(1, 5) ? (r.chance(1, 2) ? 0 : (long)docs[0].text.size())
                                    : (long)r.below(docs[0].text.size() + 1));
    return;
  }
  int nf = r.chance(1, 4) ? 2 : 1;
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = 0;
    bool open = r.chance(1, 5);
    f.op = open ? OpClass::OPEN : OpClass::READ;
    long n = dry.calls[(int)f.op];
    if (!n)
      continue;
    if (mode == 9 && open)
      n = 1;
    if (mode == 10 && open)
      n = 2;
    f.nth = r.chance(1, 4) ? (int)n - 1 : (int)r.below((uint64_t)n);
    f.eff = Eff::ERR;
    f.arg = pick_errno(r, f.op);
    p.fault(f);
  }
}
void p02_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty() || !docs[0].ok) {
    res.inapplicable = true;
    return;
  }
  auto &d = docs[0];
  int mode = (int)p.geti("mode", 0);
  p02_files(d);
  if (mode < P02_API) {
    auto pr = run_child([&] { return p02_api(p, d, mode); });
    absorb(pr, res, p02_modes[mode]);
  } else {
    auto pr = p02_run(mode, p, d);
    absorb(pr, res, p02_modes[mode]);
    bool fired = W->fired[(int)Eff::ERR][(int)OpClass::READ] + W->fired[(int)Eff::ERR][(int)OpClass::OPEN] > 0;
    std::string cur, bak;
    bool hb = get_file(d.name + ".bak", bak);
    get_file(d.name, cur);
    if (fired && pr.kind == ProcResult::EXIT) {
      bool said = pr.code != 0;
      if (mode == 7 || mode == 8)
        said = said || pr.out.find("FAILED") != std::string::npos;
      if (!said)
        res.fail("failed-read-accepted", std::string(p02_modes[mode]) + ": a call on the input failed, but the tool reports success\n" + pr.out.substr(0, 500));
      if ((mode == 5 || mode == 6 || mode == 11) && !pr.out.empty())
        res.fail("partial-output", std::string(p02_modes[mode]) + ": output made from an input that could not be read\n" + pr.out.substr(0, 500));
      if ((mode == 9 || mode == 10) && (cur != d.text || hb))
        res.fail("modified-after-failed-read", "the input could not be read but was rewritten");
    }
    if (!fired && pr.kind == ProcResult::EXIT && pr.code == 1 && mode != 6)
      res.fail("spurious-failure", std::string(p02_modes[mode]) + " fails without a fault: " + pr.err.substr(0, 500));
    if (!fired && (mode == 7 || mode == 8) && pr.out.find("FAILED") != std::string::npos)
      res.fail("spurious-failure", std::string(p02_modes[mode]) + " reports a failure without a fault: " + pr.out.substr(0, 500));
  }
  res.nontrivial = W->fired[(int)Eff::ERR][(int)OpClass::READ] + W->fired[(int)Eff::ERR][(int)OpClass::OPEN] > 0;
  res.probes[p02_modes[mode]]++;
}

// ---------------------------------------------------------------- P16 ----
// Damaged input: what a torn write, a lost block or a bad sector leaves.
std::string damaged(Plan const &p, std::string t) {
  for (auto *o : p.of("O")) {
    auto const &f = o->f;
    if (f.size() < 4 || f[0] != "dmg" || t.empty())
      continue;
    size_t a = (size_t)toi(f[2]) % t.size(), n = 1 + (size_t)toi(f[3]) % 700;
    n = std::min(n, t.size() - a);
    Rng r(hash2(a, n));
    std::string const &k = f[1];
    if (k == "cut")
      t.erase(a);
    else if (k == "zero")
      t.replace(a, n, std::string(n, '\0'));
    else if (k == "lose")
      t.erase(a, n);
    else if (k == "double")
      t.insert(a, t.substr(a, n));
    else if (k == "flip")
      t[a] = (char)(t[a] ^ (1 << (n % 8)));
    else if (k == "noise") {
      for (size_t i = 0; i < n && i < 40; ++i)
        t[a + i] = (char)r.below(256);
    } else if (k == "char") {
      static char const c[] = "&'\"!;()#\t\r \n1C*%,";
      t[a] = c[n % (sizeof c - 1)];
    } else if (k == "insert") {
      static char const c[] = "&'\"!;()#\t\r \n1C*%,";
      t.insert(a, 1, c[n % (sizeof c - 1)]);
    } else if (k == "hash") {
      size_t b = t.rfind('\n', a);
      t.insert(b == std::string::npos ? 0 : b + 1, n % 3 ? "#if 1\n" : "#endif\n");
    } else if (k == "swap") {
      size_t b = t.find('\n', a);
      if (b != std::string::npos && b + 1 < t.size()) {
        size_t c = t.find('\n', b + 1);
        if (c != std::string::npos)
          t = t.substr(0, a) + t.substr(b + 1, c - b) + t.substr(a, b + 1 - a) + t.substr(c + 1);
      }
    }
    if (t.size() > 60000)
      t.resize(60000);
  }
  return t;
}
char const *const p16_modes[] = {"lf", "lf-stream", "pf", "flpr-format", "caliper", "parse_files", "module"};
void p16_gen(Rng &r, Plan &p, bool th) {
  gen::Opts o = gen::random_opts(r);
  o.callees = {"alpha", "beta"};
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  p.cfg("mode", r.chance(1, 2) ? (long)r.below(3) : (long)r.below(7));
  p.cfg("opts", r.chance(1, 2) ? "-o" : "-i -o");
  if (r.chance(1, 5))
    p.cfg("col", 72);
  static char const *k[] = {"cut", "zero", "lose", "double", "flip", "noise", "char", "insert", "swap", "cut", "char", "char", "flip", "hash"};
  int n = r.range(1, th ? 6 : 3);
  for (int i = 0; i < n; ++i)
    p.add("O", {"dmg", k[r.below(14)], std::to_string(r.below(100000)), std::to_string(r.below(100000))});
}
// the characters that no tool may lose or invent (comments may move past text)
std::string marrow(std::string const &t, bool order = false) {
  std::string o;
  for (unsigned char c : t)
    if (c > ' ' && c != '&' && c != ';')
      o += (char)c;
  if (!order)
    std::sort(o.begin(), o.end());
  return o;
}
// A label in front of an empty statement goes with it: there is no such
// statement in the language.
bool labelled_nothing(std::string const &t) {
  for (auto &l : ref::split_lines(t)) {
    size_t i = l.find_first_of("0123456789");
    if (i == std::string::npos || l.find_first_not_of(" \t") != i)
      continue;
    while (i < l.size() && isdigit((unsigned char)l[i]))
      ++i;
    i = l.find_first_not_of(" \t", i);
    if (i != std::string::npos && (l[i] == ';' || l[i] == '&'))
      return true;
  }
  return false;
}
// Fixed form: control columns are normalised when a file is read (tabs are
// expanded, text in front of column seven moves there) and text behind the
// column limit is marked as a comment.
std::string fixed_marrow(std::string const &t, int col) {
  std::string o;
  for (auto &l : ref::split_lines(t)) {
    for (unsigned char c : l)
      if (c > ' ' && (c != '!' || !col))
        o += (char)c;
    o += '\n';
  }
  return o;
}
void p16_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty()) {
    res.inapplicable = true;
    return;
  }
  auto d = docs[0];
  int mode = (int)p.geti("mode", 0);
  std::string t = damaged(p, d.text);
  set_file(d.name, t);
  std::string norm = t; // what a line oriented reader can give back
  if (!norm.empty() && norm.back() != '\n')
    norm += '\n';
  res.probes[p16_modes[mode]]++;
  res.nontrivial = t != d.text;
  auto ends = [&](ProcResult const &pr, bool may_abort) {
    if (pr.kind == ProcResult::HANG)
      res.fail("no-progress", std::string(p16_modes[mode]) + " does not end on a damaged input");
    if (pr.kind == ProcResult::SIGNAL && (pr.code != 6 || !may_abort))
      res.fail(abort_class(pr), std::string(p16_modes[mode]) + " ends with " + pr.str() + " on a damaged input\n" + pr.err.substr(0, 800) + "\n" + t.substr(0, 2000));
    if (pr.kind == ProcResult::SIGNAL)
      res.probes["stopped"]++;
    else if (pr.code)
      res.probes["reported"]++;
  };
  if (mode < 3) {
    auto pr = run_child([&] {
      bool ok;
      FLPR::Logical_File lf0;
      FLPR::Logical_File *lf = &lf0;
      std::unique_ptr<fx::File> pf;
      int col = (int)p.geti("col", 0);
      if (mode == 0)
        ok = lf0.read_and_scan(d.name, col);
      else if (mode == 1) {
        fx::Src s(t, hash2(p.salt, 77), W->chunk, -1);
        std::istream is(&s);
        ok = lf0.read_and_scan(is, d.name, col, d.fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT);
      } else {
        pf.reset(new fx::File(d.name, col));
        ok = bool(*pf);
        lf = &pf->logical_file();
      }
      probe(ok ? 40 : 41);
      if (!ok) {
        if (pf && (!pf->statements().empty() || !pf->parse_tree().empty()))
          child_fail("failed-file-usable", "a refused file offers statements or a tree");
        // the object can be used again
        std::vector<std::string> two{"      x = 1", "      end"};
        FLPR::Logical_File again;
        if (!again.scan(two, "again.f90", 0) || fx::emit(again.lines) != lines_str(two))
          child_fail("refusal-has-effects", "after a refused file the next one is not read properly");
        return 0;
      }
      std::string got = fx::emit(lf->lines);
      W->obs_hash = fnv(W->obs_hash, got);
      if (d.fixed ? fixed_marrow(got, col) != fixed_marrow(norm, col) : got != norm)
        child_fail("text-not-preserved", "a damaged file was accepted but its text is not kept: " + diff_text(norm, got));
      return 0;
    });
    ends(pr, false);
    absorb(pr, res, p16_modes[mode]);
    return;
  }
  std::vector<std::string> a;
  if (mode == 3) {
    std::string o = p.get("opts");
    if (o == "-i -o")
      a = {"-i", "-o", d.name};
    else
      a = {"-o", d.name};
  } else if (mode == 6)
    a = {"alpha", "newmod", d.name};
  else
    a = {d.name};
  auto pr = run_tool(mode == 3 ? "flpr-format" : mode == 4 ? "caliper" : mode == 5 ? "parse_files" : "module", a);
  W->obs_hash = fnv(W->obs_hash, pr.out);
  ends(pr, true);
  std::string cur, bak;
  bool hc = get_file(d.name, cur), hb = get_file(d.name + ".bak", bak);
  if (mode != 6) {
    if (!hc || cur != t || list_files().size() != 1)
      res.fail("input-modified", std::string(p16_modes[mode]) + " changed a damaged input");
    if (mode == 3 && pr.ok() && !d.fixed && !pr.out.empty() && !labelled_nothing(t) && marrow(pr.out) != marrow(t))
      res.fail("text-lost", "flpr-format reports success but its output lacks or adds text: " + diff_text(t, pr.out) + "\n" + diff_text(marrow(t), marrow(pr.out)));
    return;
  }
  if (hb && bak != t)
    res.fail("backup-differs", "the backup does not hold the damaged input: " + diff_text(t, bak));
  if (cur != t && !hb)
    res.fail("original-lost", "module changed a damaged input without a backup");
  if (pr.kind == ProcResult::EXIT && pr.code && (cur != t || hb))
    res.fail("modified-after-failure", "module reports a failure but changed the damaged input");
  if (pr.kind == ProcResult::SIGNAL && (cur != t || hb))
    res.fail("modified-after-failure", "module stopped in the middle of rewriting a damaged input");
  if (pr.ok() && hb) {
    res.probes["rewritten"]++;
    std::string rest;
    auto body = [&](std::string l) { // continuation marks are no text
      if (d.fixed && l.size() > 5 && l.find_first_not_of(' ') == 5)
        l[5] = ' ';
      return l + "\n";
    };
    for (auto &l : ref::split_lines(cur))
      if (trimmed(l) != "use newmod")
        rest += body(l);
    std::string rest0;
    for (auto &l : ref::split_lines(t))
      if (trimmed(l) != "use newmod")
        rest0 += body(l);
    if (marrow(rest) != marrow(rest0))
      res.fail("text-lost", "module reports success but the damaged file lost or gained text: " + diff_text(t, cur));
  }
}

std::vector<Scenario> const v{
    {"P16", p16_gen, p16_exec},
    {"P02", p02_gen, p02_exec},
    {"P01", p01_gen, p01_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_read() { return v; }
