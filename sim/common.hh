// Helpers shared by the scenario files: documents of a plan and the module /
// format oracles on top of the reference scanner.
#ifndef COMMON_HH
#define COMMON_HH 1
#include "gen.hh"
#include "plan.hh"
#include "ref.hh"
#include <algorithm>
#include <cerrno>

struct FDoc {
  std::string name;
  std::vector<std::string> lines;
  std::string text;
  bool fixed = false;
  ref::Doc ref;
  std::vector<gen::Proc> procs;
  bool ok = false; // reference scanner and structural reading succeeded
};
inline bool is_fixed_name(std::string const &n) {
  return n.size() > 2 && n.compare(n.size() - 2, 2, ".f") == 0;
}
inline ref::Doc ref_scan(std::vector<std::string> const &l, bool fixed,
                         int col = 0) {
  return fixed ? ref::scan_fixed(l, col) : ref::scan_free(l);
}
inline std::vector<FDoc> load_docs(Plan const &p) {
  std::vector<FDoc> v;
  for (auto &d : p.docs()) {
    FDoc f;
    f.name = d.first;
    f.lines = d.second;
    f.text = ref::join_lines(d.second);
    f.fixed = is_fixed_name(f.name);
    f.ref = ref_scan(f.lines, f.fixed, (int)p.geti("seqcol", 0));
    f.ok = f.ref.ok && gen::procs(f.ref, f.procs);
    v.push_back(std::move(f));
  }
  return v;
}
inline std::string stmts_str(std::vector<ref::Stmt> const &v) {
  std::string s;
  for (auto &x : v)
    s += (x.label ? std::to_string(x.label) + " " : std::string()) + x.canon +
         "\n";
  return s;
}
inline std::string lines_str(std::vector<std::string> const &v) {
  std::string s;
  for (auto &x : v)
    s += x + "\n";
  return s;
}
inline std::string gen_name(sim::Rng &r, int i, bool fixed) {
  static char const *b[] = {"alpha", "beta_file", "src/gamma", "d"};
  (void)r;
  return std::string(b[i % 4]) + (fixed ? ".f" : ".f90");
}
inline int pick_errno(sim::Rng &r, sim::OpClass op) {
  using sim::OpClass;
  switch (op) {
  case OpClass::OPEN: {
    static int e[] = {EACCES, EMFILE, ENFILE, EIO, ENOSPC, EROFS};
    return e[r.below(6)];
  }
  case OpClass::READ: {
    static int e[] = {EIO, EISDIR, ESTALE};
    return e[r.below(3)];
  }
  case OpClass::WRITE: {
    static int e[] = {EIO, ENOSPC, EDQUOT, EPIPE, EFBIG};
    return e[r.below(5)];
  }
  case OpClass::RENAME: {
    static int e[] = {EACCES, EBUSY, EROFS, EIO, ENOSPC};
    return e[r.below(5)];
  }
  default: {
    static int e[] = {EIO, ENOSPC, EDQUOT};
    return e[r.below(3)];
  }
  }
}

// ---- what the module tool is expected to do to a document ----
struct ModExpect {
  bool changed = false;  // some procedure calls a trigger
  int inserted = 0;      // use-stmts to be inserted
  bool splits = false;   // an insertion point lies inside a compound line
  std::vector<ref::Stmt> stmts;
};
inline ModExpect mod_expect(std::vector<ref::Stmt> const &in,
                            std::vector<gen::Proc> const &procs,
                            std::string const &module,
                            std::set<std::string> const &triggers) {
  ModExpect e;
  std::set<int> at;
  for (auto &p : procs) {
    if (p.internal || p.interface_body || !p.has_exec)
      continue;
    bool hit = false;
    for (auto &c : p.calls)
      if (triggers.count(c))
        hit = true;
    if (!hit)
      continue;
    e.changed = true;
    if (p.uses.count(gen::lower(module)))
      continue;
    at.insert(p.after_uses);
    e.inserted++;
    if (p.after_uses < (int)in.size() && in[(size_t)p.after_uses].comp > 0)
      e.splits = true;
  }
  for (size_t i = 0; i <= in.size(); ++i) {
    if (at.count((int)i)) {
      ref::Stmt s;
      s.canon = "use" + module;
      e.stmts.push_back(s);
    }
    if (i < in.size())
      e.stmts.push_back(in[i]);
  }
  return e;
}
inline std::string trimmed(std::string const &s) {
  size_t a = s.find_first_not_of(" \t");
  return a == std::string::npos ? std::string() : ref::rtrim(s.substr(a));
}
// Compare a produced text with the expectation.  Empty string: fine.
inline std::string mod_compare(FDoc const &d, ModExpect const &e,
                               std::string const &module,
                               std::string const &got) {
  auto gl = ref::split_lines(got);
  ref::Doc r = ref_scan(gl, d.fixed);
  if (!r.ok)
    return "result is not readable Fortran layout: " + r.why;
  if (stmts_str(r.stmts) != stmts_str(e.stmts))
    return "statements differ: " + diff_text(stmts_str(e.stmts), stmts_str(r.stmts));
  if (r.other != d.ref.other)
    return "preprocessor/include lines differ: " +
           diff_text(lines_str(d.ref.other), lines_str(r.other));
  if (r.comments != d.ref.comments)
    return "comments differ: " + diff_text(lines_str(d.ref.comments), lines_str(r.comments));
  if (!e.splits) {
    size_t j = 0;
    int extra = 0;
    for (auto &l : gl) {
      // (comment lines in front of an inserted statement are indented with it)
      if (j < d.lines.size() &&
          (l == d.lines[j] || (trimmed(l)[0] == '!' && trimmed(l) == trimmed(d.lines[j])))) {
        ++j;
        continue;
      }
      std::string t = l;
      t.erase(0, t.find_first_not_of(' ') == std::string::npos ? t.size() : t.find_first_not_of(' '));
      if (ref::rtrim(t) == "use " + module) {
        ++extra;
        continue;
      }
      return "a line that was not to be touched changed: got \"" + l + "\" for \"" +
             (j < d.lines.size() ? d.lines[j] : std::string("<end>")) + "\"";
    }
    if (j != d.lines.size())
      return "the end of the file is missing";
    if (extra != e.inserted)
      return "number of inserted lines is wrong";
  }
  return "";
}
#endif
