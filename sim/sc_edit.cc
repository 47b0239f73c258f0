// Scenarios around editing: several editing clients hold handles into one file
// and are interleaved by the plan (P07 refinement of a statement list, P08
// stability of handles, P13 procedure regions).
#include "flprx.hh"
#include <memory>
using namespace sim;

namespace {
using FLPR::LL_STMT_SEQ;
using FLPR::Syntax_Tags;
using Iter = LL_STMT_SEQ::iterator;
using Proc = FLPR::Procedure<fx::File>;
using Cursor = fx::File::Prgm_Cursor;

int tag_of(std::string const &t) {
  static std::map<std::string, int> const m{
      {"call", Syntax_Tags::SG_CALL_STMT},         {"asg", Syntax_Tags::SG_ASSIGNMENT_STMT},
      {"cont", Syntax_Tags::SG_CONTINUE_STMT},     {"print", Syntax_Tags::SG_PRINT_STMT},
      {"goto", Syntax_Tags::SG_GOTO_STMT},         {"if", Syntax_Tags::SG_IF_STMT},
      {"use", Syntax_Tags::SG_USE_STMT},           {"decl", Syntax_Tags::SG_TYPE_DECLARATION_STMT},
      {"ret", Syntax_Tags::SG_RETURN_STMT},        {"write", Syntax_Tags::SG_WRITE_STMT},
      {"stop", Syntax_Tags::SG_STOP_STMT},         {"import", Syntax_Tags::SG_IMPORT_STMT},
      {"parameter", Syntax_Tags::SG_PARAMETER_STMT}};
  auto i = m.find(t);
  return i == m.end() ? (int)Syntax_Tags::UNKNOWN : i->second;
}

// The reference state: an ordered list of statements.
struct M {
  int id = 0, label = 0;
  std::string canon;
  bool known = false; // its statement kind is known to the file
  bool hooked = false;
};
struct Region {
  std::vector<int> ids[Proc::NUM_REGION_TAG];
  std::string name;
  bool headless = false;
  std::string endw; // subroutine, function, program, procedure
  size_t name_at = 0;
  std::vector<int> all;
};

struct Session {
  Plan const &p;
  FDoc const &d;
  fx::File *pf = nullptr;
  std::vector<M> m;
  std::map<int, Iter> h;             // id -> the handle taken when it appeared
  std::map<FLPR::LL_Stmt *, int> id; // and back
  int next_id = 0;
  bool tree = false;
  bool structured = true; // no edit may have broken the nesting of constructs
  std::vector<std::string> comments, other;
  // tree nodes watched by a client: node, statements it covered
  struct Watch {
    Cursor c;
    int syntag;
    std::vector<int> ids;
  };
  std::vector<Watch> watch;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<Region> regs;
  std::string where; // current operation, for messages

  Session(Plan const &p, FDoc const &d) : p(p), d(d) {}
  ~Session() {
    procs.clear();
    watch.clear();
    delete pf;
  }
  FLPR::Logical_File &lf() { return pf->logical_file(); }
  bool bad(char const *cls, std::string const &msg) {
    child_fail(cls, where + ": " + msg);
    return false;
  }
  bool open(std::string const &name, bool with_tree) {
    procs.clear();
    watch.clear();
    regs.clear();
    delete pf;
    pf = new fx::File(name, 0);
    if (!*pf)
      return bad("read-refused", name);
    tree = with_tree;
    if (tree && !pf->prefetch_parse_tree())
      return bad("parse-refused", name);
    std::vector<M> old;
    old.swap(m);
    h.clear();
    id.clear();
    size_t k = 0;
    for (auto it = pf->statements().begin(); it != pf->statements().end(); ++it, ++k) {
      M x;
      x.id = k < old.size() ? old[k].id : next_id++;
      x.label = it->label();
      x.canon = fx::canon(*it);
      x.known = x.hooked = tree;
      h[x.id] = it;
      id[&*it] = x.id;
      m.push_back(x);
    }
    return true;
  }
  int find(int i) {
    for (size_t k = 0; k < m.size(); ++k)
      if (m[k].id == i)
        return (int)k;
    return -1;
  }
  static std::string dump(std::vector<M> const &v) {
    std::string s;
    for (auto &x : v)
      s += (x.label ? std::to_string(x.label) + " " : std::string()) + x.canon + "\n";
    return s;
  }
  // ---- the text of all logical lines, by identity
  std::vector<std::pair<FLPR::Logical_Line const *, std::string>> snap() {
    std::vector<std::pair<FLPR::Logical_Line const *, std::string>> v;
    for (auto const &ll : lf().lines)
      v.push_back({&ll, fx::one(ll)});
    return v;
  }
  std::vector<std::pair<FLPR::Logical_Line const *, std::string>> before;
  std::set<FLPR::Logical_Line const *> touched; // allowed to change
  void begin_op(std::string const &w) {
    where = w;
    before = snap();
    touched.clear();
  }
  bool check() {
    // 1. identity, order, text and label of every statement
    size_t k = 0;
    auto &seq = lf().ll_stmts;
    std::string real, want;
    for (auto const &s : seq)
      real += (s.label() ? std::to_string(s.label()) + " " : std::string()) + fx::canon(s) + "\n";
    W->obs_hash = fnv(W->obs_hash, real);
    want = dump(m);
    if (real != want)
      return bad("statements-differ", diff_text(want, real));
    auto li = lf().lines.begin();
    std::vector<FLPR::Logical_Line const *> pre;
    FLPR::Logical_Line const *cur = nullptr;
    size_t nth = 0;
    for (auto it = seq.begin(); it != seq.end(); ++it, ++k) {
      auto hi = h.find(m[k].id);
      if (hi == h.end() || &*hi->second != &*it)
        return bad("handle-lost", "the handle of \"" + m[k].canon + "\" no longer refers to it");
      // 2. the statement sits where its line says
      auto &ll = it->ll();
      if (&ll == cur)
        nth++;
      else {
        if (cur && nth + 1 != cur->stmts().size())
          return bad("line-mismatch", "a line holds statements that the file does not list");
        cur = &ll;
        nth = 0;
        pre.clear();
        while (li != lf().lines.end() && &*li != cur) {
          if (!li->suppress)
            pre.push_back(&*li);
          if (!li->stmts().empty())
            return bad("line-mismatch", "line \"" + fx::one(*li) + "\" holds a statement that the file does not list");
          ++li;
        }
        if (li == lf().lines.end())
          return bad("line-mismatch", "\"" + m[k].canon + "\" is on a line that is not part of the file, or out of order");
        ++li;
        std::vector<FLPR::Logical_Line const *> got;
        for (auto x : it->prefix_lines)
          got.push_back(&*x);
        if (got != pre)
          return bad("prefix-mismatch", "the lines in front of \"" + m[k].canon + "\" are not those attached to it (" + std::to_string(pre.size()) + " / " + std::to_string(got.size()) + ")");
      }
      for (auto t = it->begin(); t != it->end(); ++t)
        if (t->lower() != gen::lower(t->text()))
          return bad("stale-token", "the lower-case form of \"" + t->text() + "\" is \"" + t->lower() + "\"");
      if (nth >= ll.stmts().size() || !(ll.stmts()[nth].cbegin() == it->cbegin()) || !(ll.stmts()[nth].cend() == it->cend()))
        return bad("line-mismatch", "\"" + m[k].canon + "\" does not cover statement " + std::to_string(nth + 1) + " of its line");
      int comp = ll.stmts().size() > 1 ? (int)nth + 1 : 0;
      if (it->is_compound() != comp)
        return bad("compound-number", "\"" + m[k].canon + "\" is numbered " + std::to_string(it->is_compound()) + " in its line, it is " + std::to_string(comp));
    }
    for (; li != lf().lines.end(); ++li)
      if (!li->stmts().empty())
        return bad("line-mismatch", "line \"" + fx::one(*li) + "\" holds a statement that the file does not list");
    // 3. other lines: same lines, same text, same order
    auto after = snap();
    size_t a = 0;
    std::set<FLPR::Logical_Line const *> was;
    for (auto &b : before)
      was.insert(b.first);
    for (auto &b : before) {
      while (a < after.size() && !was.count(after[a].first))
        ++a;
      if (a == after.size() || after[a].first != b.first)
        return bad("line-lost", "line \"" + b.second + "\" is gone or moved");
      if (!touched.count(b.first) && after[a].second != b.second)
        return bad("line-touched", "a line that was not to be touched changed: " + diff_text(b.second, after[a].second));
      ++a;
    }
    // 4. the text means the same statements to an independent reader
    std::string text;
    for (auto &x : after)
      text += x.second;
    W->obs_hash = fnv(W->obs_hash, text);
    ref::Doc r = ref_scan(ref::split_lines(text), d.fixed);
    if (!r.ok)
      return bad("text-unreadable", r.why + "\n" + text);
    if (stmts_str(r.stmts) != want)
      return bad("text-differs", diff_text(want, stmts_str(r.stmts)) + "\n" + text);
    if (r.comments != comments)
      return bad("comments-differ", diff_text(lines_str(comments), lines_str(r.comments)));
    if (r.other != other)
      return bad("directives-differ", diff_text(lines_str(other), lines_str(r.other)));
    return check_watch() && check_procs();
  }
  bool check_tree(int k) {
    Iter it = h[m[(size_t)k].id];
    if (!m[(size_t)k].known)
      return true;
    auto &t = it->stmt_tree();
    if (t.empty())
      return bad("no-statement-tree", "\"" + m[(size_t)k].canon + "\"");
    std::string c;
    for (auto i = (*t)->token_range.begin(); i != (*t)->token_range.end(); ++i)
      c += i->text();
    if (c != m[(size_t)k].canon)
      return bad("stale-statement-tree", "the tree of \"" + m[(size_t)k].canon + "\" covers \"" + c + "\"");
    // leaves, left to right
    std::string leaves;
    std::function<void(FLPR::LL_Stmt::Stmt_Tree::node &)> walk = [&](auto &n) {
      if (n.is_leaf()) {
        for (auto i = n->token_range.begin(); i != n->token_range.end(); ++i)
          leaves += i->text();
        return;
      }
      for (auto &b : n.branches())
        walk(b);
    };
    walk(*t);
    if (leaves != m[(size_t)k].canon)
      return bad("stale-statement-tree", "the leaves of the tree of \"" + m[(size_t)k].canon + "\" read \"" + leaves + "\"");
    return true;
  }
  bool check_watch() {
    for (auto &w : watch) {
      if (w.c->syntag() != w.syntag)
        return bad("tree-node-changed", "a node held by a client changed its kind");
      std::vector<int> got;
      auto b = w.c->stmt_range().begin(), e = w.c->stmt_range().end();
      long guard = (long)m.size() + 2;
      for (auto i = b; i != e; ++i) {
        if (--guard < 0 || !id.count(&*i))
          return bad("tree-node-range", "the statements of a node held by a client run past the end");
        got.push_back(id[&*i]);
      }
      size_t j = 0;
      for (int g : got)
        if (j < w.ids.size() && g == w.ids[j])
          ++j;
      if (j != w.ids.size())
        return bad("tree-node-range", "a node held by a client no longer covers the statements it covered, in order: statement " + std::to_string(j + 1) + " of " + std::to_string(w.ids.size()));
    }
    if (tree)
      for (auto &x : m)
        if (x.hooked) {
          auto c = pf->stmt_to_node_cursor(h[x.id]);
          if (!h[x.id]->has_hook())
            return bad("uplink-lost", "\"" + x.canon + "\" was not edited but lost its place in the tree");
          if (!c->is_stmt() || !c.is_leaf() || &*c->ll_stmt_iter() != &*h[x.id])
            return bad("uplink-wrong", "the place of \"" + x.canon + "\" in the tree belongs to another statement");
        }
    return true;
  }
  // ------------------------------------------------ procedures
  static char const *rname(int t) {
    static char const *n[] = {"procedure statement", "uses", "imports", "implicits", "declarations", "execution part", "contained", "end statement"};
    return n[t];
  }
  bool check_procs() {
    for (size_t q = 0; q < procs.size(); ++q) {
      Proc &P = *procs[q];
      Region &R = regs[q];
      std::string who = R.headless ? "main program" : R.name;
      for (int t = 0; t < Proc::NUM_REGION_TAG; ++t) {
        auto tag = (Proc::Region_Tag)t;
        if (!P.has_region(tag)) {
          if (!R.ids[t].empty())
            return bad("region-differs", who + ": " + rname(t) + " is reported empty");
          continue;
        }
        std::vector<int> got;
        Proc const &C = P;
        long guard = (long)m.size() + 2;
        auto e = C.cend(tag);
        for (auto i = C.cbegin(tag); i != e; ++i) {
          if (--guard < 0)
            return bad("region-differs", who + ": " + rname(t) + " does not end");
          auto f = id.find(const_cast<FLPR::LL_Stmt *>(&*i));
          if (f == id.end())
            return bad("region-differs", who + ": " + rname(t) + " contains an unknown statement");
          got.push_back(f->second);
        }
        if (t == Proc::PROC_END && !got.empty())
          got.resize(1); // what follows belongs to the next procedure
        if (got != R.ids[t]) {
          std::string a, b;
          for (int i : R.ids[t])
            a += m[(size_t)find(i)].canon + "\n";
          for (int i : got)
            b += (find(i) < 0 ? std::string("?") : m[(size_t)find(i)].canon) + "\n";
          return bad("region-differs", who + ": " + rname(t) + ": " + diff_text(a, b));
        }
      }
      if (P.headless_main_program() != R.headless)
        return bad("name-differs", who + ": has a header or not");
      if (P.name() != R.name)
        return bad("name-differs", "\"" + P.name() + "\" for \"" + R.name + "\"");
      std::vector<int> labels, want;
      P.scan_out_labels(std::back_inserter(labels));
      for (int i : R.all)
        if (m[(size_t)find(i)].label)
          want.push_back(m[(size_t)find(i)].label);
      if (labels != want)
        return bad("labels-differ", who);
    }
    return true;
  }
};

// Structure of a document, read from the statements alone.
std::vector<Region> regions(std::vector<gen::Proc> const &ps, std::vector<M> const &m, std::vector<int> &which) {
  static int const tag[8] = {Proc::PROC_BEGIN, Proc::USES, Proc::IMPORTS, Proc::IMPLICITS, Proc::DECLS, Proc::EXECUTION_PART, Proc::CONTAINED, Proc::PROC_END};
  std::vector<Region> v;
  for (size_t q = 0; q < ps.size(); ++q) {
    auto &p = ps[q];
    if (p.interface_body)
      continue;
    Region R;
    R.headless = !p.header;
    R.endw = p.kind == "moduleprocedure" ? "procedure" : p.kind;
    R.name_at = p.name_at;
    R.name = m[(size_t)p.begin].canon.substr(p.name_at, p.name.size());
    for (int t = 0; t < 8; ++t)
      for (int i : p.reg[t])
        R.ids[tag[t]].push_back(m[(size_t)i].id);
    for (size_t j = (size_t)p.begin; j < (size_t)p.end; ++j)
      R.all.push_back(m[j].id);
    which.push_back((int)q);
    v.push_back(R);
  }
  return v;
}
// all procedures of the tree in source order
void find_procs(Cursor c, std::vector<Cursor> &out) {
  auto rec = [&](auto &&self, fx::File::Parse_Tree::node &n) -> void {
    int t = n->syntag();
    if (t == Syntax_Tags::PG_FUNCTION_SUBPROGRAM || t == Syntax_Tags::PG_SUBROUTINE_SUBPROGRAM ||
        t == Syntax_Tags::PG_MAIN_PROGRAM || t == Syntax_Tags::PG_SEPARATE_MODULE_SUBPROGRAM)
      out.push_back(Cursor(n.self()));
    if (!n.is_leaf())
      for (auto &b : n.branches())
        self(self, b);
  };
  rec(rec, c.node());
}

// -------------------------------------------------- the operations ----
struct Ops {
  Session &s;
  Plan const &p;
  long nsave = 0;
  size_t sel(std::string const &f) { return s.m.empty() ? 0 : (size_t)((unsigned long)toi(f) % s.m.size()); }
  Iter it(size_t k) { return s.h[s.m[k].id]; }
  void touch(size_t k) { s.touched.insert(&it(k)->ll()); }
  void unlabeled_spaces(Iter n, Iter neighbour) { n->set_leading_spaces(neighbour->get_leading_spaces(), 2); }
  void own_prefix(Iter i) {
    for (auto x : i->prefix_lines)
      s.touched.insert(&*x);
  }
  static std::string canon_of(std::string const &t) { return ref::canon(t); }
  FLPR::Logical_Line make_ll(std::string const &text) {
    if (s.d.fixed && (p.salt & 4))
      return FLPR::Logical_Line("      " + joined(text), 72);
    size_t b = text.find('|');
    if (b == std::string::npos)
      return FLPR::Logical_Line(text);
    std::string a = text.substr(0, b), z = text.substr(b + 1);
    if (s.d.fixed)
      return FLPR::Logical_Line(a + z);
    return FLPR::Logical_Line(std::vector<std::string>{a + " &", "  " + z});
  }
  static std::string joined(std::string t) {
    size_t b = t.find('|');
    if (b != std::string::npos)
      t.erase(b, 1);
    return t;
  }
  int add(Iter n, size_t at, std::string const &text, std::string const &tag) {
    M x;
    x.id = s.next_id++;
    x.canon = canon_of(joined(text));
    x.known = tag_of(tag) != (int)Syntax_Tags::UNKNOWN;
    s.h[x.id] = n;
    s.id[&*n] = x.id;
    s.m.insert(s.m.begin() + (long)at, x);
    return x.id;
  }
  void edited(size_t k, std::string const &canon, bool known) {
    s.m[k].canon = canon;
    s.m[k].known = known;
    s.m[k].hooked = false;
  }
  static std::vector<std::string> toks(FLPR::LL_Stmt const &st) {
    std::vector<std::string> v;
    for (auto i = st.begin(); i != st.end(); ++i)
      v.push_back(i->text());
    return v;
  }
  // number of statements on the line of statement k
  size_t mates(size_t k) { return it(k)->ll().stmts().size(); }
  size_t nth(size_t k) {
    size_t n = 0;
    while (k > n && &it(k - n - 1)->ll() == &it(k)->ll())
      ++n;
    return n;
  }
  bool op(Item const &o) {
    auto const &f = o.f;
    auto arg = [&](size_t i) { return i < f.size() ? f[i] : std::string(); };
    std::string k0 = arg(0);
    if (s.m.empty())
      return true;
    size_t k = sel(arg(1));
    std::string w = k0 + " \"" + s.m[k].canon.substr(0, 60) + "\"";
    log_event("op %s %zu", k0.c_str(), k);
    s.begin_op(w);
    auto &lf = s.lf();
    touch(k);
    Iter i = it(k);
    if (k0 == "split") {
      bool want = nth(k) > 0;
      bool got = lf.split_compound_before(i);
      probe(0, got);
      if (got != want)
        return s.bad("wrong-answer", "a split was " + std::string(want ? "needed" : "not needed") + ", but the answer is the opposite");
      if (nth(k) != 0)
        return s.bad("not-split", "the statement still shares its line with earlier ones");
    } else if (k0 == "isolate") {
      bool want = mates(k) > 1;
      bool got = lf.isolate_stmt(i);
      probe(0, got);
      if (got != want)
        return s.bad("wrong-answer", "isolating reports the opposite of what was needed");
      if (mates(k) != 1)
        return s.bad("not-split", "the statement still shares its line");
    } else if (k0 == "emplace" || k0 == "emplacep") {
      bool after_prefix = k0 == "emplacep";
      auto prefix = i->prefix_lines;
      std::vector<FLPR::Logical_Line const *> pl;
      for (auto x : prefix)
        pl.push_back(&*x);
      int sp = i->get_leading_spaces();
      if (s.d.fixed && sp < 6)
        sp = 6;
      own_prefix(i);
      s.structured = false;
      Iter n = after_prefix ? lf.emplace_ll_stmt_after_prefix(i, make_ll(arg(2)), tag_of(arg(3)))
                            : lf.emplace_ll_stmt(i, make_ll(arg(2)), tag_of(arg(3)));
      n->set_leading_spaces(sp, 2);
      add(n, k, arg(2), arg(3));
      probe(1);
      // where it stands relative to the lines in front of the statement
      auto li = n->it();
      if (!after_prefix && !pl.empty()) {
        ++li;
        if (&*li != pl.front())
          return s.bad("inserted-at-wrong-place", "the new line does not precede the comments of the statement");
      } else {
        ++li;
        if (&*li != &i->ll())
          return s.bad("inserted-at-wrong-place", "the new line does not directly precede the statement");
      }
    } else if (k0 == "replace") {
      lf.isolate_stmt(i);
      std::vector<std::string> t;
      std::string text = arg(2);
      size_t b = text.find('|');
      if (b != std::string::npos && s.d.fixed == i->ll().layout()[0].is_fixed_format())
        t = {text.substr(0, b), text.substr(b + 1)};
      else
        t = {joined(text)};
      s.structured = false;
      lf.replace_stmt_text(i, t, tag_of(arg(3)));
      edited(k, canon_of(joined(text)), tag_of(arg(3)) != (int)Syntax_Tags::UNKNOWN);
      probe(2);
    } else if (k0 == "subst") {
      // replace a name, or the right hand side of an assignment
      for (auto &R : s.regs)
        if ((!R.ids[Proc::PROC_BEGIN].empty() && R.ids[Proc::PROC_BEGIN][0] == s.m[k].id) || (!R.ids[Proc::PROC_END].empty() && R.ids[Proc::PROC_END][0] == s.m[k].id))
          return true; // that is renaming
      auto t = toks(*i);
      size_t n = t.size(), a = (size_t)toi(arg(2)) % n, e = a + 1;
      std::string nt = arg(3);
      size_t eq = 0;
      while (eq < n && t[eq] != "=")
        ++eq;
      bool asg = i->syntax_tag() == Syntax_Tags::SG_ASSIGNMENT_STMT && eq + 1 < n;
      if (asg && (toi(arg(2)) & 1)) {
        a = eq + 1;
        e = n;
      } else {
        auto ti = std::next(i->begin(), (long)a);
        size_t tries = 0;
        while (ti->token != Syntax_Tags::TK_NAME && tries++ < n) {
          a = (a + 1) % n;
          ti = std::next(i->begin(), (long)a);
        }
        if (ti->token != Syntax_Tags::TK_NAME)
          return true;
        e = a + 1;
        s.structured = false;
        nt = "nm" + std::to_string(toi(arg(2)) % 90 + 10);
      }
      std::string c;
      for (size_t j = 0; j < a; ++j)
        c += t[j];
      c += canon_of(nt);
      for (size_t j = e; j < n; ++j)
        c += t[j];
      FLPR::LL_TT_Range range(i->it(), std::next(i->begin(), (long)a), std::next(i->begin(), (long)e));
      lf.replace_stmt_substr(i, range, nt);
      // some names are fixed words or single letters
      std::string low = gen::lower(c);
      bool fixed_words = low.compare(0, 8, "implicit") == 0 || low.find("bind(") != std::string::npos || low.compare(0, 13, "interfaceread") == 0;
      edited(k, c, s.m[k].known && !fixed_words);
      probe(3);
    } else if (k0 == "frag") {
      // another name in the place of one, by a client that holds the token
      auto t = toks(*i);
      size_t n = t.size(), a = (size_t)toi(arg(2)) % n, tries = 0;
      auto split = [](auto const &f) { return f->main_txt_line() != f->main_txt_eline(); };
      auto ti = std::next(i->begin(), (long)a);
      for (; tries < n && (ti->token != Syntax_Tags::TK_NAME || split(ti)); ++tries)
        ti = std::next(i->begin(), (long)(a = (a + 1) % n));
      if (tries == n)
        return true;
      for (auto &R : s.regs)
        if ((!R.ids[Proc::PROC_BEGIN].empty() && R.ids[Proc::PROC_BEGIN][0] == s.m[k].id) || (!R.ids[Proc::PROC_END].empty() && R.ids[Proc::PROC_END][0] == s.m[k].id))
          return true;
      std::string nt = "z";
      for (size_t want = toi(arg(3)) % 3 ? t[a].size() : 1 + (size_t)toi(arg(3)) % 17; nt.size() < want;)
        nt += "Qy_8k"[(nt.size() + (size_t)toi(arg(2))) % 5];
      i->ll().replace_fragment(ti, Syntax_Tags::TK_NAME, nt);
      t[a] = nt;
      std::string c;
      for (auto &x : t)
        c += x;
      std::string low = gen::lower(c);
      bool fixed_words = low.compare(0, 8, "implicit") == 0 || low.find("bind(") != std::string::npos || low.compare(0, 13, "interfaceread") == 0;
      s.m[k].canon = c;
      s.m[k].known = s.m[k].known && !fixed_words;
      s.structured = false;
      probe(14);
    } else if (k0 == "insafter") {
      // append a part of an expression after the last token of an assignment
      if (i->syntax_tag() != Syntax_Tags::SG_ASSIGNMENT_STMT)
        return true;
      auto t = toks(*i);
      auto fr = std::prev(i->end());
      lf.insert_text_after(i, fr, arg(2));
      edited(k, s.m[k].canon + canon_of(arg(2)), s.m[k].known);
      probe(4);
    } else if (k0 == "append") {
      if (i->syntax_tag() != Syntax_Tags::SG_ASSIGNMENT_STMT)
        return true;
      lf.append_stmt_text(i, arg(2));
      edited(k, s.m[k].canon + canon_of(arg(2)), s.m[k].known);
      probe(5);
    } else if (k0 == "label") {
      int l = (int)toi(arg(2)) % 100000;
      int old = s.m[k].label;
      bool got = lf.set_stmt_label(i, l);
      if (got != (l != old))
        return s.bad("wrong-answer", "setting label " + std::to_string(l) + " over " + std::to_string(old) + " reports the opposite of a change");
      s.m[k].label = l;
      s.structured = false;
      probe(6);
    } else if (k0 == "indent") {
      int sp = (int)toi(arg(2));
      if (s.d.fixed)
        sp += 6;
      own_prefix(i);
      i->set_leading_spaces(sp, (int)toi(arg(3)));
      probe(7);
    } else if (k0 == "note") {
      // a comment on the line of the statement: on the first physical line of it
      // that does not end inside a character literal, after what is there
      auto &ll = i->ll();
      std::string pre;
      for (auto const &x : lf.lines) {
        if (&x == &ll)
          break;
        pre += fx::one(x);
      }
      auto text = ref::split_lines(pre);
      auto mine = ref::split_lines(fx::one(ll));
      std::vector<size_t> at;  // comments in front of each physical line, and
      std::vector<char> may;   // whether a comment can go there
      for (size_t j = 0; j < mine.size(); ++j) {
        at.push_back(ref_scan(text, s.d.fixed).comments.size());
        text.push_back(mine[j]);
        auto more = text;
        if (!s.d.fixed) // a further line is part of the literal, if one is open
          more.push_back("& ! z");
        may.push_back(ref_scan(more, s.d.fixed).why.compare(0, 12, "unterminated") != 0);
      }
      at.push_back(ref_scan(text, s.d.fixed).comments.size());
      // a name or number may run on into the next line
      auto joins = [&](size_t j) {
        size_t k1 = j + 1; // behind comments, blank lines and directives
        auto no_text = [&](std::string const &l) {
          size_t q = l.find_first_not_of(" \t\r");
          return q == l.npos || l[0] == '#' || (l[q] == '!' && !(s.d.fixed && q == 5)) || (s.d.fixed && (l[0] == '*' || toupper((unsigned char)l[0]) == 'C'));
        };
        while (k1 < mine.size() && no_text(mine[k1]))
          ++k1;
        if (k1 >= mine.size() || no_text(mine[j]))
          return k1 < mine.size();
        std::string a = mine[j], b = mine[k1];
        if (s.d.fixed)
          return !a.empty() && b.size() > 6 && !isspace((unsigned char)a.back()) && !isspace((unsigned char)b[6]);
        size_t e = a.find_last_not_of(" \t"), f = b.find_first_not_of(" \t");
        return e != a.npos && e > 0 && a[e] == '&' && !isspace((unsigned char)a[e - 1]) && f != b.npos && b[f] == '&' && f + 1 < b.size() && !isspace((unsigned char)b[f + 1]);
      };
      ll.append_comment(arg(2));
      auto now = ref::split_lines(fx::one(ll));
      if (!arg(2).empty()) {
        if (now.size() != mine.size())
          return s.bad("comment-misplaced", "the number of lines changed");
        size_t j = 0, c = 0;
        while (j < mine.size() && mine[j] == now[j])
          ++j;
        if (j == mine.size())
          return s.bad("comment-misplaced", "no line got the comment");
        while (c < j && (!may[c] || joins(c)))
          ++c;
        if (c < j)
          return s.bad("comment-misplaced", "line \"" + mine[c] + "\" has room for the comment, it went to \"" + now[j] + "\"");
        size_t n = at[j];
        std::string add = "! " + arg(2);
        if (at[j + 1] > n)
          s.comments[n] = ref::rtrim(s.comments[n] + (mine[j].find('!') == std::string::npos ? " ! " : " : ") + arg(2));
        else
          s.comments.insert(s.comments.begin() + (long)n, ref::rtrim(add));
        if (j > 0)
          probe(13);
      }
      probe(12);
    } else if (k0 == "tree") {
      if (!s.check_tree((int)k))
        return false;
      probe(8);
    } else if (k0 == "watch") {
      if (!s.tree || !s.m[k].hooked)
        return true;
      auto c = s.pf->stmt_to_node_cursor(i);
      for (long up = toi(arg(2)) % 6; up > 0 && !c.is_root(); --up)
        c.up();
      Session::Watch w2{c, c->syntag(), {}};
      for (auto j = c->stmt_range().begin(); j != c->stmt_range().end(); ++j)
        w2.ids.push_back(s.id.count(&*j) ? s.id[&*j] : -1);
      s.watch.push_back(std::move(w2));
      probe(9);
    } else if (k0 == "save") {
      // the client writes the file; a failed attempt is repeated
      std::string name = s.d.fixed ? "saved.f" : "saved.f90", back;
      for (int a = 0; a < 12; ++a) {
        std::ofstream os(name);
        for (auto const &ll : lf.lines)
          os << ll;
        os.close();
        if (os)
          break;
        probe(11);
      }
      nsave++;
      if (!get_file(name, back) || back != fx::emit(lf.lines))
        return true; // every attempt met its fault
      if (toi(arg(2)) & 1) {
        // reading it back gives the same statements; the client goes on with it
        fx::File chk(name, 0);
        if (!chk)
          return true; // a read fault
        std::string a = fx::stmts(chk.statements()), b = fx::stmts(lf.ll_stmts);
        if (a != b)
          return s.bad("reload-differs", diff_text(b, a));
        if (fx::emit(chk.logical_lines()) != back)
          return s.bad("reload-differs", "text");
        probe(10);
        if (toi(arg(2)) & 2) {
          if (!s.open(name, s.tree && s.structured && chk.prefetch_parse_tree()))
            return false;
          s.before = s.snap();
        }
      }
    } else if (k0[0] == 'P')
      return procop(o);
    else
      return true;
    return s.check();
  }
  // ---------------------------------------------- procedure clients
  bool procop(Item const &o) {
    auto const &f = o.f;
    auto arg = [&](size_t i) { return i < f.size() ? f[i] : std::string(); };
    std::string k0 = arg(0);
    if (s.procs.empty())
      return true;
    size_t q = (size_t)toi(arg(1)) % s.procs.size();
    Proc &P = *s.procs[q];
    Region &R = s.regs[q];
    s.begin_op(k0 + " " + (R.headless ? "main program" : R.name));
    // an operation may touch the lines it works on, nothing else
    auto touch_id = [&](int i) { s.touched.insert(&s.h[i]->ll()); };
    if (k0 == "Pinsert") {
      static int const region[5] = {Proc::USES, Proc::DECLS, Proc::EXECUTION_PART, Proc::IMPORTS, Proc::IMPLICITS};
      int which = (int)(toi(arg(2)) % 5), t = region[which];
      int at = (int)toi(arg(3)) % 4; // begin, last, end, between
      auto tag = (Proc::Region_Tag)t;
      if ((at == 1 || at == 3) && R.ids[t].empty())
        at = 2;
      size_t mid = at == 3 ? (size_t)toi(arg(8)) % R.ids[t].size() : 0;
      std::string text = which == 3 ? "import" : which == 4 ? "parameter ( p" + arg(8) + " = 3 )" : arg(4 + (size_t)which);
      static char const *const kinds[5] = {"use", "decl", "call", "import", "parameter"};
      std::string kind = kinds[which];
      bool before_prefix = toi(arg(7)) & 1;
      // the statement in front of which the new one goes
      int pos;
      if (!R.ids[t].empty() && at != 2)
        pos = at == 0 ? R.ids[t].front() : at == 1 ? R.ids[t].back() : R.ids[t][mid];
      else {
        // the first statement of the next region that has any
        pos = R.ids[Proc::PROC_END][0];
        for (int u = t + 1; u < Proc::NUM_REGION_TAG; ++u)
          if (!R.ids[u].empty()) {
            pos = R.ids[u].front();
            break;
          }
      }
      touch_id(pos);
      own_prefix(s.h[pos]);
      auto where = at == 0 || at == 3 ? P.begin(tag) : at == 1 ? P.last(tag) : P.end(tag);
      for (size_t j = 0; j < mid; ++j)
        ++where;
      std::vector<FLPR::Logical_Line const *> pl;
      for (auto x : s.h[pos]->prefix_lines)
        pl.push_back(&*x);
      if (&*where != &*s.h[pos])
        return s.bad("region-differs", std::string("the insertion point of ") + Session::rname(t) + " is not the expected statement");
      int sp = s.h[pos]->get_leading_spaces();
      if (s.d.fixed && sp < 6)
        sp = 6;
      auto n = P.emplace_stmt(where, make_ll(text), tag_of(kind), before_prefix);
      n->set_leading_spaces(sp, 2);
      // where it stands relative to the lines in front of the statement
      auto li = std::next(n->it());
      if (&*li != (before_prefix && !pl.empty() ? pl.front() : &s.h[pos]->ll()))
        return s.bad("inserted-at-wrong-place", before_prefix ? "the new line does not precede the comments of the statement" : "the new line does not directly precede the statement");
      if (n.get_region() != tag)
        return s.bad("region-differs", "the new statement is reported in another region");
      int nid = add(n, (size_t)s.find(pos), text, kind);
      if (at == 0)
        R.ids[t].insert(R.ids[t].begin(), nid);
      else if (at == 1)
        R.ids[t].insert(R.ids[t].end() - 1, nid);
      else if (at == 3)
        R.ids[t].insert(R.ids[t].begin() + (long)mid, nid);
      else
        R.ids[t].push_back(nid);
      R.all.insert(std::find(R.all.begin(), R.all.end(), pos), nid);
      // hosts see it among what they contain
      for (size_t g = 0; g < s.regs.size(); ++g) {
        if (g == q)
          continue;
        auto &C = s.regs[g].ids[Proc::CONTAINED];
        auto x = std::find(C.begin(), C.end(), pos);
        if (x != C.end()) {
          C.insert(x, nid);
          auto &A = s.regs[g].all;
          A.insert(std::find(A.begin(), A.end(), pos), nid);
        }
      }
      probe(20 + t);
    } else if (k0 == "Prename") {
      std::string nn = arg(2);
      if (!nn.empty() && nn[0] == '@') // the same name with other letter cases
        for (size_t j = (nn = R.headless ? "x" : R.name, 0); j < nn.size(); ++j)
          nn[j] = (char)(arg(2) == "@U" || (arg(2) == "@C" && j == 0) ? std::toupper((unsigned char)nn[j]) : std::tolower((unsigned char)nn[j]));
      bool want = nn != R.name;
      if (R.headless) {
        // the new header goes in front of the first statement
        int pos = R.ids[Proc::PROC_END][0];
        for (int t = 0; t < Proc::NUM_REGION_TAG; ++t)
          if (!R.ids[t].empty()) {
            pos = R.ids[t].front();
            break;
          }
        touch_id(pos);
        own_prefix(s.h[pos]);
        bool got = P.rename(nn);
        if (!got)
          return s.bad("wrong-answer", "giving a main program a name reports no change");
        // the end statement keeps what it says
        Iter n = std::prev(s.h[pos]);
        int nid = add(n, (size_t)s.find(pos), "program " + nn, "program");
        s.m[(size_t)s.find(nid)].known = true;
        R.ids[Proc::PROC_BEGIN].push_back(nid);
        R.all.insert(R.all.begin(), nid);
        R.headless = false;
        R.name = nn;
        R.name_at = 7;
        probe(30);
        return s.check();
      }
      int hb = R.ids[Proc::PROC_BEGIN][0], he = R.ids[Proc::PROC_END][0];
      touch_id(hb);
      touch_id(he);
      bool got = P.rename(nn);
      if (got != want)
        return s.bad("wrong-answer", "renaming reports the opposite of a change");
      if (want) {
        M &b = s.m[(size_t)s.find(hb)], &e = s.m[(size_t)s.find(he)];
        size_t k = R.name_at;
        b.canon.replace(k, R.name.size(), nn);
        std::string el = gen::lower(e.canon), pre = "end" + R.endw;
        if (el.compare(0, pre.size(), pre) == 0 && el.size() > pre.size())
          e.canon = e.canon.substr(0, pre.size()) + nn;
        R.name = nn;
      }
      probe(30);
    } else if (k0 == "Pcomplete") {
      int he = R.ids[Proc::PROC_END][0];
      M &e = s.m[(size_t)s.find(he)];
      std::string add;
      std::string el = gen::lower(e.canon);
      if (el == "end")
        add = R.endw + R.name;
      else if (el == "end" + R.endw)
        add = R.name;
      touch_id(he);
      bool got = P.complete_end_stmt();
      if (got != !add.empty())
        return s.bad("wrong-answer", "completing the end statement reports the opposite of a change");
      if (got) {
        e.canon += add;
        e.hooked = false;
      }
      probe(31);
    } else if (k0 == "Preplace") {
      auto &X = R.ids[Proc::EXECUTION_PART];
      if (X.empty())
        return true;
      size_t mid = (size_t)toi(arg(3)) % X.size();
      if (f.size() < 4)
        mid = X.size() - 1;
      int t = X[mid];
      // only simple statements are replaced: the structure must stay
      int tg = s.h[t]->syntax_tag();
      if (tg != Syntax_Tags::SG_CALL_STMT && tg != Syntax_Tags::SG_ASSIGNMENT_STMT && tg != Syntax_Tags::SG_RETURN_STMT && tg != Syntax_Tags::SG_PRINT_STMT)
        return true;
      touch_id(t);
      s.lf().isolate_stmt(s.h[t]);
      auto where = P.begin(Proc::EXECUTION_PART);
      for (size_t j = 0; j < mid; ++j)
        ++where;
      if (&*where != &*s.h[t])
        return s.bad("region-differs", "statement " + std::to_string(mid) + " of the execution part is another one");
      size_t k = (size_t)s.find(t);
      long how = toi(arg(4)) % 3;
      if (how && tg != Syntax_Tags::SG_ASSIGNMENT_STMT)
        how = 0;
      if (how == 1) { // the right hand side
        auto tk = toks(*s.h[t]);
        size_t eq = 0;
        while (eq < tk.size() && tk[eq] != "=")
          ++eq;
        if (eq + 1 >= tk.size())
          return true;
        std::string c;
        for (size_t j = 0; j <= eq; ++j)
          c += tk[j];
        FLPR::LL_TT_Range range(s.h[t]->it(), std::next(s.h[t]->begin(), (long)eq + 1), s.h[t]->end());
        P.replace_stmt_substr(where, range, "v1 + w( 3 )");
        edited(k, c + "v1+w(3)", s.m[k].known);
      } else if (how == 2) {
        P.insert_text_after(where, std::prev(s.h[t]->end()), " + q_1");
        edited(k, s.m[k].canon + "+q_1", s.m[k].known);
      } else {
        auto r = P.replace_stmt(where, arg(2), Syntax_Tags::SG_CALL_STMT);
        if (&*r != &*s.h[t])
          return s.bad("region-differs", "the replaced statement is not the one that was given");
        edited(k, canon_of(arg(2)), true);
      }
      probe(32);
    }
    return s.check();
  }
};

int run(Plan const &p, FDoc const &d) {
  Session s(p, d);
  s.where = "open";
  s.comments = d.ref.comments;
  s.other = d.ref.other;
  if (!s.open(d.name, p.geti("tree", 1)))
    return 1;
  s.before = s.snap();
  if (p.prop == "P13") {
    std::vector<Cursor> roots;
    find_procs(s.pf->parse_tree().cursor(), roots);
    std::vector<int> which;
    s.regs = regions(d.procs, s.m, which);
    std::vector<Region> keep;
    if (roots.size() != s.regs.size()) {
      s.bad("procedures-missing", std::to_string(roots.size()) + " procedures found, the text has " + std::to_string(s.regs.size()));
      return 1;
    }
    for (size_t q = 0; q < roots.size(); ++q) {
      if (!((p.geti("live", -1) >> (q % 16)) & 1))
        continue;
      s.procs.emplace_back(new Proc(*s.pf));
      s.where = "ingest";
      if (!s.procs.back()->ingest(roots[q]) || !*s.procs.back()) {
        s.bad("procedure-refused", s.regs[q].name);
        return 1;
      }
      keep.push_back(s.regs[q]);
    }
    s.regs = keep;
  }
  if (!s.check())
    return 1;
  Ops ops{s, p};
  for (auto o : p.of("O")) {
    if (!ops.op(*o) || W->viol)
      return 1;
    W->counters[40]++;
  }
  return 0;
}
void exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty() || !docs[0].ok || docs[0].ref.stmts.empty()) {
    res.inapplicable = true;
    return;
  }
  auto &d = docs[0];
  set_file(d.name, d.text);
  auto pr = run_child([&] { return run(p, d); });
  absorb(pr, res, "editing");
  res.nontrivial = W->counters[40] >= 2;
  static char const *n[] = {"split", "insert", "replace", "substitute", "insert-after", "append", "label", "indent", "query", "watch", "reload", "save-retried", "comment", "comment-behind-token", "fragment"};
  for (int i = 0; i < 15; ++i)
    if (W->counters[i])
      res.probes[n[i]] += W->counters[i];
  if (p.prop == "P13") {
    if (W->counters[20 + Proc::USES])
      res.probes["region-uses"] += W->counters[20 + Proc::USES];
    if (W->counters[20 + Proc::DECLS])
      res.probes["region-decls"] += W->counters[20 + Proc::DECLS];
    if (W->counters[20 + Proc::EXECUTION_PART])
      res.probes["region-exec"] += W->counters[20 + Proc::EXECUTION_PART];
    for (int i = 30; i < 33; ++i)
      if (W->counters[i])
        res.probes[i == 30 ? "rename" : i == 31 ? "complete-end" : "replace-last"] += W->counters[i];
  }
}

// ------------------------------------------------------- generation ----
std::pair<std::string, std::string> new_text(Rng &r) {
  auto v = [&] { return std::string(1, "abcxyz"[r.below(6)]) + std::to_string(r.range(1, 99)); };
  switch (r.below(8)) {
  case 0:
    return {"call ins" + std::to_string(r.range(1, 99)), "call"};
  case 1:
    return {"call work(" + v() + ",| " + v() + ")", "call"};
  case 2:
    return {v() + " = " + v() + (r.chance(1, 2) ? " +| " : " * ") + v(), "asg"};
  case 3:
    return {"continue", "cont"};
  case 4:
    return {std::string("print *, ") + (r.chance(1, 2) ? "'a; b'" : "\"it's ! & here\""), "print"};
  case 5:
    return {"if (" + v() + " > 0)| call ins0(" + v() + ")", "if"};
  case 6:
    return {"go to 10", "goto"};
  default:
    return {v() + "(1) = 'x & y;'// \"!\"", "asg"};
  }
}
void gen_edit(Rng &r, Plan &p, bool th, bool p08) {
  gen::Opts o = gen::random_opts(r);
  o.p_compound = r.chance(1, 3) ? 70 : o.p_compound + 15;
  o.p_cont = r.chance(1, 3) ? 60 : o.p_cont;
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  p.cfg("tree", p08 || r.chance(2, 3) ? 1 : 0);
  int n = r.range(1, th ? 40 : 14);
  bool local = r.chance(1, 2); // clients working close together
  long base = (long)r.below(1000);
  for (int i = 0; i < n; ++i) {
    std::string sel = std::to_string(local ? base + (long)r.below(4) : (long)r.below(1000));
    if (r.chance(1, 12)) {
      p.add("O", {"frag", sel, std::to_string(r.below(60)), std::to_string(r.below(60))});
      continue;
    }
    if (r.chance(1, 14)) {
      static char const *const t[] = {"note", "it's here; &", "see ! there", "", "say \"no", "a remark that is long enough to run past the last column of a card"};
      p.add("O", {"note", sel, t[r.below(6)]});
      continue;
    }
    switch (r.below(p08 ? 15 : 13)) {
    case 0:
    case 1:
      p.add("O", {"split", sel});
      break;
    case 2:
      p.add("O", {"isolate", sel});
      break;
    case 3:
    case 4: {
      auto t = new_text(r);
      p.add("O", {r.chance(1, 2) ? "emplace" : "emplacep", sel, t.first, t.second});
    } break;
    case 5: {
      auto t = new_text(r);
      p.add("O", {"replace", sel, t.first, t.second});
    } break;
    case 6:
      p.add("O", {"subst", sel, std::to_string(r.below(60)), "v1 + w( 3 )"});
      break;
    case 7:
      p.add("O", {"insafter", sel, r.chance(1, 2) ? " + 1" : "*q2"});
      break;
    case 8:
      p.add("O", {"append", sel, r.chance(1, 2) ? " - zz" : "+f('; &')"});
      break;
    case 9:
      p.add("O", {"label", sel, std::to_string(r.chance(1, 4) ? 0 : r.chance(1, 4) ? 10000 + (long)r.below(90000) : (long)r.below(1000))});
      break;
    case 10:
      p.add("O", {"indent", sel, std::to_string(r.below(30)), std::to_string(r.below(6))});
      break;
    case 11:
      p.add("O", {"tree", sel});
      break;
    case 12:
      p.add("O", {"save", sel, std::to_string(r.below(4))});
      break;
    default:
      p.add("O", {"watch", sel, std::to_string(r.below(6))});
    }
  }
  if (r.chance(1, 3)) {
    for (int i = r.range(1, 3); i > 0; --i) {
      Fault f;
      f.proc = 0;
      f.op = r.chance(1, 4) ? OpClass::CLOSE : OpClass::WRITE;
      f.nth = r.range(0, 6);
      f.eff = f.op == OpClass::WRITE ? (r.chance(1, 3) ? Eff::SHORT : r.chance(1, 2) ? Eff::EINTR_ONCE : Eff::ERR) : Eff::ERR;
      f.arg = f.eff == Eff::SHORT ? r.range(1, 30) : pick_errno(r, f.op);
      p.fault(f);
    }
  }
}
void p07_gen(Rng &r, Plan &p, bool th) { gen_edit(r, p, th, false); }
void p08_gen(Rng &r, Plan &p, bool th) {
  // watchers first: they hold handles before the others start editing
  for (int i = r.range(1, 5); i > 0; --i)
    p.add("O", {"watch", std::to_string(r.below(1000)), std::to_string(r.below(6))});
  gen_edit(r, p, th, true);
}
void p13_gen(Rng &r, Plan &p, bool th) {
  gen::Opts o = gen::random_opts(r);
  o.p_compound += 10;
  o.split_tokens = false; // names split between lines cannot be renamed: a documented limit
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  p.cfg("live", r.chance(1, 2) ? 0xffff : 1 + (long)r.below(0xffff));
  int n = r.range(1, th ? 40 : 12);
  for (int i = 0; i < n; ++i) {
    std::string q = std::to_string(r.below(16)), sel = std::to_string(r.below(1000));
    switch (r.below(12)) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
      p.add("O", {"Pinsert", q, std::to_string(r.below(5)), std::to_string(r.below(4)),
                  "use new" + std::to_string(r.range(1, 9)) + (r.chance(1, 3) ? ", only: a" : ""),
                  "integer :: k" + std::to_string(r.range(1, 99)), "call ins" + std::to_string(r.range(1, 99)) + "(" + "1)",
                  std::to_string(r.below(2)), std::to_string(r.below(40))});
      break;
    case 5:
      if (r.chance(1, 4))
        p.add("O", {"Prename", q, r.chance(1, 2) ? "@U" : r.chance(1, 2) ? "@C" : "@L"});
      else
        p.add("O", {"Prename", q, std::string(1, "rst"[r.below(3)]) + (r.chance(1, 2) ? "e" : "ename_longer_") + std::to_string(r.range(1, 9))});
      break;
    case 6:
      p.add("O", {"Pcomplete", q});
      break;
    case 7:
      p.add("O", {"Preplace", q, "call last(" + std::to_string(r.range(1, 9)) + ")", std::to_string(r.below(40)), std::to_string(r.below(3))});
      break;
    case 8:
      p.add("O", {r.chance(1, 2) ? "split" : "isolate", sel});
      break;
    case 9:
      p.add("O", {"subst", sel, "0", "v1 + w( 3 )"});
      break;
    case 10:
      p.add("O", {"label", sel, std::to_string(1 + r.below(9999))});
      break;
    default:
      p.add("O", {"indent", sel, std::to_string(r.below(30)), std::to_string(r.below(6))});
    }
  }
}

std::vector<Scenario> const v{
    {"P07", p07_gen, exec},
    {"P08", p08_gen, exec},
    {"P13", p13_gen, exec},
};
} // namespace
std::vector<Scenario> const &scenarios_edit() { return v; }
