// Scenarios around the text of a line (P21): several clients hold lines of one
// file and change their tokens in turn; each line is followed by a plain list
// of tokens.
#include "flprx.hh"
#include <list>
using namespace sim;

namespace {
using FLPR::Syntax_Tags;
using LL = FLPR::Logical_Line;

struct Line {
  LL *ll;
  std::vector<std::string> t; // tokens
  int label = 0;
  std::vector<std::string> comments, other;
};
bool word(char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.' || c == '\'' || c == '"'; }

struct Lines {
  Plan const &p;
  bool fixed;
  FLPR::Logical_File lf;
  std::vector<Line> v;
  std::list<LL> own; // copies and second halves
  std::string where = "open";
  std::vector<std::string> rest; // the text of all lines, by position

  Lines(Plan const &p, bool fixed) : p(p), fixed(fixed) {}
  bool bad(char const *cls, std::string const &msg) {
    child_fail(cls, where + ": " + msg);
    return false;
  }
  static std::vector<std::string> toks(LL const &ll) {
    std::vector<std::string> r;
    for (auto const &f : ll.fragments())
      r.push_back(f.text());
    return r;
  }
  static std::string show(std::vector<std::string> const &t) {
    std::string s;
    for (auto &x : t)
      s += (s.empty() ? "" : " ") + x;
    return s;
  }
  ref::Doc scan(std::string const &text) { return ref_scan(ref::split_lines(text), fixed); }
  bool open(FDoc const &d) {
    if (!lf.read_and_scan(d.name, 0))
      return bad("read-refused", d.name);
    for (auto &ll : lf.lines) {
      rest.push_back(fx::one(ll));
      if (!ll.has_fortran())
        continue;
      ref::Doc r = scan(rest.back());
      if (!r.ok)
        continue; // split by a directive
      Line x;
      x.ll = &ll;
      x.t = toks(ll);
      x.label = ll.label;
      if (!plain(x.t))
        continue;
      x.comments = r.comments;
      x.other = r.other;
      v.push_back(std::move(x));
    }
    return true;
  }
  // the statements that the tokens of a line make
  static std::vector<std::vector<std::string>> parts(std::vector<std::string> const &t) {
    std::vector<std::vector<std::string>> r(1);
    for (auto &x : t)
      if (x == ";")
        r.emplace_back();
      else
        r.back().push_back(x);
    r.erase(std::remove_if(r.begin(), r.end(), [](auto &q) { return q.empty(); }), r.end());
    return r;
  }
  bool check(Line &x) {
    LL &ll = *x.ll;
    auto got = toks(ll);
    W->obs_hash = fnv(W->obs_hash, show(got));
    if (got != x.t)
      return bad("tokens-differ", diff_text(show(x.t), show(got)));
    for (auto const &f : ll.fragments())
      if (f.lower() != gen::lower(f.text()))
        return bad("stale-token", "the lower-case form of \"" + f.text() + "\" is \"" + f.lower() + "\"");
    auto want = parts(x.t);
    // the statements of the line
    if (ll.stmts().size() != want.size())
      return bad("statements-differ", std::to_string(ll.stmts().size()) + " statements, the tokens make " + std::to_string(want.size()));
    for (size_t k = 0; k < want.size(); ++k) {
      std::vector<std::string> g;
      size_t guard = x.t.size() + 1;
      for (auto i = ll.stmts()[k].cbegin(); i != ll.stmts()[k].cend() && guard; ++i, --guard)
        g.push_back(i->text());
      if (g != want[k])
        return bad("statements-differ", diff_text(show(want[k]), show(g)));
    }
    if (ll.label != x.label)
      return bad("label-differs", std::to_string(ll.label) + " for " + std::to_string(x.label));
    // the text
    std::string text = fx::one(ll);
    W->obs_hash = fnv(W->obs_hash, text);
    ref::Doc r = scan(text);
    if (!r.ok)
      return bad("text-unreadable", r.why + "\n" + text);
    std::string a, b;
    for (size_t k = 0; k < want.size(); ++k) {
      for (auto &y : want[k])
        a += y;
      a += "\n";
    }
    if (!want.empty() && x.label)
      a = std::to_string(x.label) + " " + a;
    b = stmts_str(r.stmts);
    if (a != b)
      return bad("text-differs", diff_text(a, b) + "\n" + text);
    if (r.comments != x.comments)
      return bad("comments-differ", diff_text(lines_str(x.comments), lines_str(r.comments)) + "\n" + text);
    if (r.other != x.other)
      return bad("directives-differ", diff_text(lines_str(x.other), lines_str(r.other)));
    // read afresh, the text has the same tokens
    if (!want.empty()) {
      FLPR::Logical_File again;
      auto raw = ref::split_lines(text);
      if (!(fixed ? again.scan_fixed(raw, 0) : again.scan_free(raw)))
        return bad("reread-refused", text);
      std::vector<std::string> t2;
      int label = 0;
      for (auto const &l2 : again.lines)
        if (l2.has_fortran()) {
          for (auto const &f : l2.fragments())
            t2.push_back(f.text());
          label = l2.label;
        }
      if (t2 != x.t)
        return bad("reread-differs", diff_text(show(x.t), show(t2)) + "\n" + text);
      if (label != x.label)
        return bad("reread-differs", "label\n" + text);
    }
    return true;
  }
  bool others() {
    size_t k = 0;
    for (auto const &ll : lf.lines) {
      bool mine = false;
      for (auto &x : v)
        mine |= x.ll == &ll;
      if (k == rest.size())
        return bad("line-lost", "there are more lines");
      if (!mine && fx::one(ll) != rest[k])
        return bad("line-touched", diff_text(rest[k], fx::one(ll)));
      ++k;
    }
    if (k != rest.size())
      return bad("line-lost", "there are fewer lines");
    return true;
  }
  // whether tokens can be told apart in any text: a statement that starts with
  // a number has a label there, and what a sign is depends on what is around it
  static bool plain(std::vector<std::string> const &t) {
    for (size_t i = 0; i < t.size(); ++i) {
      if ((i == 0 || t[i - 1] == ";") && std::isdigit((unsigned char)t[i][0]))
        return false;
      if (i + 1 < t.size() && t[i].size() == 1 && std::strchr("dDeE", t[i][0]) && std::isdigit((unsigned char)t[i + 1][0]))
        return false; // an exponent
      if (t[i].size() > 1 && (t[i][0] == '+' || t[i][0] == '-') && std::isdigit((unsigned char)t[i][1]))
        return false;
    }
    return true;
  }
  static bool split(FLPR::Token_Text const &f) { return f.main_txt_line() != f.main_txt_eline(); }
  void probe(int i) { W->counters[i]++; }
  bool op(Item const &o) {
    auto arg = [&](size_t i) { return i < o.f.size() ? toi(o.f[i]) : 0; };
    std::string k = o.f[0];
    if (v.empty())
      return true;
    Line &x = v[(size_t)arg(1) % v.size()];
    LL &ll = *x.ll;
    size_t n = x.t.size();
    if (!n)
      return true;
    size_t a = (size_t)arg(2) % n;
    auto f = std::next(ll.fragments().begin(), (long)a);
    where = k + " \"" + x.t[a] + "\" of \"" + show(x.t).substr(0, 80) + "\"";
    log_event("op %s %s", k.c_str(), x.t[a].c_str());
    static std::vector<std::pair<std::string, std::vector<std::string>>> const ins{
        {" q9 ", {"q9"}},
        {" , q9 ( 1 , 'a; b' ) ", {",", "q9", "(", "1", ",", "'a; b'", ")"}},
        {" ; q9 = 1 ; ", {";", "q9", "=", "1", ";"}},
        {" + 25 ", {"+", "25"}},
        {" ; ", {";"}},
        {" **q_1// \"it's ! &\" ", {"**", "q_1", "//", "\"it's ! &\""}},
        {" ;; ", {";", ";"}}};
    if (k == "before" || k == "after") {
      auto &c = ins[(size_t)arg(3) % ins.size()];
      bool end = k == "before" && arg(2) % 7 == 6;
      auto t = x.t;
      t.insert(t.begin() + (long)(end ? n : k == "after" ? a + 1 : a), c.second.begin(), c.second.end());
      if (!plain(t))
        return true;
      if (k == "after")
        ll.insert_text_after(f, c.first);
      else
        ll.insert_text_before(end ? ll.fragments().end() : f, c.first);
      x.t = std::move(t);
      probe(0);
    } else if (k == "name") {
      if (f->token != Syntax_Tags::TK_NAME || split(*f))
        return true;
      std::string nt = "q";
      size_t len = arg(3) % 2 ? x.t[a].size() : 1 + (size_t)arg(3) % 15;
      while (nt.size() < len)
        nt += "7Xx_w"[(nt.size() + (size_t)arg(2)) % 5];
      ll.replace_fragment(f, Syntax_Tags::TK_NAME, nt);
      x.t[a] = nt;
      probe(1);
    } else if (k == "remove") {
      if (split(*f) || n < 2)
        return true;
      // what is on the two sides must not run together
      auto prev = a ? std::prev(f) : f, next = std::next(f);
      bool l = a && prev->main_txt_eline() == f->main_txt_line() && prev->main_txt_ecol() == f->main_txt_col();
      bool r = next != ll.fragments().end() && next->main_txt_line() == f->main_txt_line() && next->main_txt_col() == f->main_txt_ecol();
      // (a token may also run on from the line before or into the next one)
      bool edge = f->main_txt_col() == 0 || next == ll.fragments().end() || next->main_txt_line() != f->main_txt_line();
      auto t = x.t;
      t.erase(t.begin() + (long)a);
      if ((l && r) || edge || !plain(t))
        return true;
      ll.remove_fragment(f);
      x.t = std::move(t);
      probe(2);
    } else if (k == "subst") {
      // a part of one statement
      size_t e = a;
      if (x.t[a] == ";")
        return true;
      while (e + 1 < n && x.t[e + 1] != ";" && (long)(e - a) < arg(3) % 6)
        ++e;
      static char const *const nt[] = {" q7 ", " q7 + q8 ", " 'text; &' ", " ; "};
      static std::vector<std::string> const nv[] = {{"q7"}, {"q7", "+", "q8"}, {"'text; &'"}, {";"}};
      size_t w = (size_t)arg(4) % 4;
      auto t = x.t;
      t.erase(t.begin() + (long)a, t.begin() + (long)e + 1);
      t.insert(t.begin() + (long)a, nv[w].begin(), nv[w].end());
      if (!plain(t))
        return true;
      FLPR::TT_Range range(f, std::next(f, (long)(e - a) + 1));
      ll.replace_stmt_substr(range, nt[w]);
      x.t = std::move(t);
      probe(3);
    } else if (k == "tidy") {
      auto want = parts(x.t);
      std::vector<std::string> t;
      for (auto &s : want) {
        if (!t.empty())
          t.push_back(";");
        t.insert(t.end(), s.begin(), s.end());
      }
      bool change = t != x.t;
      bool got = ll.remove_empty_statements();
      if (got != change)
        return bad("wrong-answer", "removing empty statements reports the opposite of a change");
      x.t = t;
      probe(4, got);
    } else if (k == "whole") {
      if (parts(x.t).size() > 1)
        return true;
      std::vector<std::string> txt;
      std::vector<std::string> t;
      size_t lines = 1 + (size_t)arg(3) % 4;
      for (size_t j = 0; j < lines; ++j) {
        txt.push_back("q" + std::to_string(j) + (j ? " + 1" : " = 'it''s; &'") + (j + 1 < lines ? " +" : ""));
        t.push_back("q" + std::to_string(j));
        t.push_back(j ? "+" : "=");
        t.push_back(j ? "1" : "'it''s; &'");
        if (j + 1 < lines)
          t.push_back("+");
      }
      ll.replace_main_text(txt);
      x.t = t;
      probe(5);
    } else if (k == "lay") {
      ll.text_from_frags();
      probe(6);
    } else if (k == "label") {
      int l = (int)arg(3) % 10000;
      bool got = ll.set_label(l);
      if (got != (l != x.label))
        return bad("wrong-answer", "setting a label reports the opposite of a change");
      x.label = l;
      probe(7);
    } else if (k == "copy") {
      if (own.size() > 8)
        return true;
      own.emplace_back(ll);
      Line y = x;
      y.ll = &own.back();
      probe(9);
      v.push_back(std::move(y)); // (moves x)
      return check(v.back());
    } else if (k == "assign") {
      if (own.empty())
        return true;
      size_t b = (size_t)arg(3) % own.size();
      LL &dst = *std::next(own.begin(), (long)b);
      dst = ll;
      for (auto &y : v)
        if (y.ll == &dst && &y != &x) {
          Line z = x;
          z.ll = &dst;
          y = std::move(z);
          probe(9);
          if (!check(y))
            return false;
          break;
        }
    } else if (k == "split") {
      std::vector<std::string> l(x.t.begin(), x.t.begin() + (long)a + 1), r(x.t.begin() + (long)a + 1, x.t.end());
      auto bare = [](std::vector<std::string> const &t) {
        size_t i = 0;
        while (i < t.size() && t[i] == ";")
          ++i;
        return std::vector<std::string>(t.begin() + (long)i, t.end());
      };
      if (bare(l).empty() || bare(r).empty() || !plain(bare(r)))
        return true;
      own.emplace_back();
      LL &nl = own.back();
      if (!ll.split_after(f, nl))
        return bad("wrong-answer", "no split in front of \"" + bare(r)[0] + "\"");
      ll.init_stmts();
      nl.init_stmts();
      Line y;
      y.ll = &nl;
      y.t = toks(nl);
      if (bare(y.t) != bare(r))
        return bad("tokens-differ", "behind the split: " + diff_text(show(r), show(y.t)));
      x.t = l;
      // no comment is lost
      ref::Doc d1 = scan(fx::one(ll)), d2 = scan(fx::one(nl));
      auto c = d1.comments;
      c.insert(c.end(), d2.comments.begin(), d2.comments.end());
      if (c != x.comments)
        return bad("comments-differ", "of the two: " + diff_text(lines_str(x.comments), lines_str(c)));
      x.comments = d1.comments;
      y.comments = d2.comments;
      probe(10);
      if (!check(x))
        return false;
      v.push_back(std::move(y));
      return check(v.back());
    } else if (k == "indent") {
      ll.set_leading_spaces((int)(fixed ? 6 + arg(3) % 30 : arg(3) % 30), (int)arg(4) % 6);
      probe(8);
    } else
      return true;
    return check(x);
  }
  void probe(int i, bool b) { W->counters[i] += b; }
};

int run(Plan const &p, FDoc const &d) {
  Lines s(p, d.fixed);
  if (!s.open(d))
    return 1;
  for (auto &x : s.v)
    if (!s.check(x))
      return 1;
  for (auto o : p.of("O")) {
    if (!s.op(*o) || W->viol)
      return 1;
    W->counters[40]++;
  }
  s.where = "at the end";
  if (!s.others())
    return 1;
  for (auto &x : s.v)
    if (!s.check(x))
      return 1;
  return 0;
}
void exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty() || !docs[0].ok || docs[0].ref.stmts.empty()) {
    res.inapplicable = true;
    return;
  }
  auto &d = docs[0];
  set_file(d.name, d.text);
  auto pr = run_child([&] { return run(p, d); });
  absorb(pr, res, "line editing");
  res.nontrivial = W->counters[40] >= 2;
  static char const *n[] = {"insert", "name", "remove", "substitute", "tidied", "whole", "laid-out", "label", "indent", "copied", "split"};
  for (int i = 0; i < 11; ++i)
    if (W->counters[i])
      res.probes[n[i]] += W->counters[i];
}
void gen_lines(Rng &r, Plan &p, bool th) {
  gen::Opts o = gen::random_opts(r);
  o.p_compound = r.chance(1, 3) ? 70 : o.p_compound + 15;
  o.p_cont = r.chance(1, 3) ? 60 : o.p_cont;
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  int n = r.range(2, th ? 60 : 20);
  long base = (long)r.below(1000), width = r.chance(1, 2) ? 2 : 1000;
  static char const *const k[] = {"before", "after", "name", "name", "remove", "remove", "subst", "subst", "tidy", "tidy", "whole", "lay", "label", "indent", "copy", "assign", "split", "split"};
  for (int i = 0; i < n; ++i)
    p.add("O", {k[r.below(18)], std::to_string(base + (long)r.below((uint64_t)width)), std::to_string(r.below(60)), std::to_string(r.below(10000)), std::to_string(r.below(60))});
}
std::vector<Scenario> const v{{"P21", gen_lines, exec}};
} // namespace
std::vector<Scenario> const &scenarios_line() { return v; }
