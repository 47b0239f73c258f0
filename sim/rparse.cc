#include "rparse.hh"
#include <cctype>
#include <cstring>
#include <stdexcept>

namespace ref {
bool starts(std::string const &s, char const *p) { return s.compare(0, strlen(p), p) == 0; }
std::string ident(std::string const &s, size_t p) {
  std::string r;
  if (p < s.size() && std::isdigit((unsigned char)s[p]))
    return r;
  while (p < s.size() && (std::isalnum((unsigned char)s[p]) || s[p] == '_'))
    r += s[p++];
  return r;
}
// position after the group opening at s[p], npos if unbalanced
size_t skip_paren(std::string const &s, size_t p) {
  int depth = 0;
  char q = 0;
  for (; p < s.size(); ++p) {
    char c = s[p];
    if (q) {
      if (c == q)
        q = 0;
    } else if (c == '\'' || c == '"')
      q = c;
    else if (c == '(' || c == '[')
      depth++;
    else if ((c == ')' || c == ']') && --depth == 0)
      return p + 1;
  }
  return std::string::npos;
}
namespace {
bool all_ident(std::string const &s, size_t p) {
  return p < s.size() && ident(s, p).size() == s.size() - p;
}
// position of text outside of parentheses and character context
size_t top(std::string const &s, char const *what, size_t p = 0) {
  int depth = 0;
  char q = 0;
  size_t n = strlen(what);
  for (; p < s.size(); ++p) {
    char c = s[p];
    if (q) {
      if (c == q)
        q = 0;
      continue;
    }
    if (depth == 0 && s.compare(p, n, what) == 0)
      return p;
    if (c == '\'' || c == '"')
      q = c;
    else if (c == '(' || c == '[')
      depth++;
    else if (c == ')' || c == ']')
      depth--;
  }
  return std::string::npos;
}
size_t const none = std::string::npos;
// a type specification at the beginning of s: its length or 0
size_t type_spec(std::string const &s) {
  static char const *t[] = {"integer", "real", "logical", "complex", "character", "doubleprecision"};
  for (auto p : t)
    if (starts(s, p)) {
      size_t n = strlen(p);
      if (n < s.size() && s[n] == '(') {
        n = skip_paren(s, n);
        return n == none ? 0 : n;
      }
      if (n < s.size() && s[n] == '*' && n + 1 < s.size()) {
        ++n;
        if (s[n] == '(') {
          n = skip_paren(s, n);
          return n == none ? 0 : n;
        }
        while (n < s.size() && std::isdigit((unsigned char)s[n]))
          ++n;
      }
      return n;
    }
  if (starts(s, "type(") || starts(s, "class(")) {
    size_t n = skip_paren(s, s.find('('));
    return n == none ? 0 : n;
  }
  return 0;
}
} // namespace
bool subprogram_header(std::string const &s0, std::string &name, bool *function, size_t *name_at) {
  std::string s = s0;
  static char const *pre[] = {"recursive", "non_recursive", "pure", "elemental", "impure"};
  for (bool again = true; again;) {
    again = false;
    for (auto p : pre)
      if (starts(s, p)) {
        s.erase(0, strlen(p));
        again = true;
      }
    if (starts(s, "module") && !starts(s, "moduleprocedure")) {
      s.erase(0, 6);
      again = true;
    }
    if (size_t n = type_spec(s)) {
      s.erase(0, n);
      again = true;
    }
  }
  bool fn = starts(s, "function");
  if (!fn && !starts(s, "subroutine"))
    return false;
  size_t k = fn ? 8 : 10;
  name = ident(s, k);
  k += name.size();
  if (name.empty() || (fn && (k >= s.size() || s[k] != '(')))
    return false;
  if (name_at)
    *name_at = s0.size() - s.size() + k - name.size();
  if (k < s.size() && s[k] == '(') {
    k = skip_paren(s, k);
    if (k == none)
      return false;
  }
  while (k < s.size()) {
    size_t p = s.compare(k, 5, "bind(") == 0 ? k + 4 : fn && s.compare(k, 7, "result(") == 0 ? k + 6 : none;
    if (p == none || (k = skip_paren(s, p)) == none)
      return false;
  }
  if (function)
    *function = fn;
  return true;
}
namespace {
// name[(..)]{%name[(..)]}[..]: position behind it
size_t designator(std::string const &s) {
  size_t p = 0;
  for (;;) {
    std::string n = ident(s, p);
    if (n.empty())
      return none;
    p += n.size();
    while (p < s.size() && (s[p] == '(' || s[p] == '[')) {
      p = skip_paren(s, p);
      if (p == none)
        return none;
    }
    if (p >= s.size() || s[p] != '%')
      return p;
    ++p;
  }
}
bool is_assign(std::string const &s) {
  size_t p = designator(s);
  return p != none && p + 1 < s.size() && s[p] == '=' && s[p + 1] != '=' && s[p + 1] != '>' && top(s, ",", p) == none && top(s, "::") == none;
}
bool is_ptr_assign(std::string const &s) {
  size_t p = designator(s);
  return p != none && s.compare(p, 2, "=>") == 0 && top(s, ",", p) == none && top(s, "::") == none;
}
bool digits(std::string const &s, size_t p = 0) {
  if (p >= s.size())
    return false;
  for (; p < s.size(); ++p)
    if (!std::isdigit((unsigned char)s[p]))
      return false;
  return true;
}
// "kw(...)" and nothing behind it
bool closed(std::string const &s, char const *kw) {
  size_t n = strlen(kw);
  return starts(s, kw) && n < s.size() && s[n] == '(' && skip_paren(s, n) == s.size();
}
bool group(std::string const &s, char const *kw, size_t &end) {
  size_t n = strlen(kw);
  if (!starts(s, kw) || n >= s.size() || s[n] != '(')
    return false;
  end = skip_paren(s, n);
  return end != none;
}
std::string simple_action(std::string const &s) {
  size_t e;
  if (is_assign(s))
    return "assignment-stmt";
  if (is_ptr_assign(s))
    return "pointer-assignment-stmt";
  if (starts(s, "call") && !ident(s, 4).empty())
    return "call-stmt";
  if (starts(s, "goto") && digits(s, 4))
    return "goto-stmt";
  if (group(s, "goto", e) && e < s.size())
    return "computed-goto-stmt";
  if (s == "return" || (starts(s, "return") && digits(s, 6)))
    return "return-stmt";
  if (s == "continue")
    return "continue-stmt";
  if (s == "cycle" || (starts(s, "cycle") && all_ident(s, 5)))
    return "cycle-stmt";
  if (s == "exit" || (starts(s, "exit") && all_ident(s, 4)))
    return "exit-stmt";
  if (s == "stop" || (starts(s, "stop") && (digits(s, 4) || s[4] == '\'' || s[4] == '"')))
    return "stop-stmt";
  if (s == "errorstop" || (starts(s, "errorstop") && (digits(s, 9) || s[9] == '\'' || s[9] == '"')))
    return "error-stop-stmt";
  if (starts(s, "print") && s.size() > 5 && (s[5] == '*' || s[5] == '\'' || s[5] == '"' || std::isdigit((unsigned char)s[5]) || (!ident(s, 5).empty() && s.compare(5 + ident(s, 5).size(), 1, ",") == 0)))
    return "print-stmt";
  if (group(s, "write", e))
    return "write-stmt";
  if (group(s, "read", e) || starts(s, "read*,") || (starts(s, "read") && s.size() > 4 && std::isdigit((unsigned char)s[4])))
    return "read-stmt";
  if (group(s, "inquire", e))
    return "inquire-stmt";
  static char const *paren[] = {"open", "close", "wait", "allocate", "deallocate", "nullify", "lock", "unlock"};
  for (auto k : paren)
    if (closed(s, k))
      return std::string(k) + "-stmt";
  static char const *unit[] = {"rewind", "backspace", "endfile", "flush"};
  for (auto k : unit)
    if (closed(s, k) || (starts(s, k) && digits(s, strlen(k))))
      return std::string(k) + "-stmt";
  if (s == "syncall")
    return "sync-all-stmt";
  if (s == "syncmemory" || closed(s, "syncmemory"))
    return "sync-memory-stmt";
  if (closed(s, "eventpost"))
    return "event-post-stmt";
  if (closed(s, "eventwait"))
    return "event-wait-stmt";
  if (s == "failimage")
    return "fail-image-stmt";
  return "";
}
std::string action(std::string const &s) {
  std::string k = simple_action(s);
  if (!k.empty())
    return k;
  size_t e;
  if (group(s, "if", e) && e < s.size()) {
    std::string r = s.substr(e);
    if (std::isdigit((unsigned char)r[0])) {
      size_t a = r.find(','), b = a == none ? none : r.find(',', a + 1);
      if (b != none && digits(r.substr(0, a)) && digits(r.substr(a + 1, b - a - 1)) && digits(r.substr(b + 1)))
        return "arithmetic-if-stmt";
      return "";
    }
    std::string in = simple_action(r);
    if (!in.empty())
      return "if-stmt:" + in;
    return "";
  }
  if (group(s, "where", e) && e < s.size() && is_assign(s.substr(e)))
    return "where-stmt";
  if (group(s, "forall", e) && e < s.size() && is_assign(s.substr(e)))
    return "forall-stmt";
  return "";
}
bool is_use(std::string const &s) {
  if (!starts(s, "use") || is_assign(s))
    return false;
  size_t k = 3;
  if (starts(s, "use,")) {
    k = s.find("::");
    if (k == none || (s.substr(0, k) != "use,intrinsic" && s.substr(0, k) != "use,non_intrinsic"))
      return false;
    k += 2;
  } else if (s.compare(3, 2, "::") == 0)
    k = 5;
  std::string n = ident(s, k);
  k += n.size();
  return !n.empty() && (k == s.size() || s[k] == ',');
}
bool is_type_stmt(std::string const &s, std::string &name) {
  if (!starts(s, "type") || is_assign(s))
    return false;
  size_t k = 4;
  if (s.size() > 4 && (s[4] == ',' || s[4] == ':')) {
    k = top(s, "::");
    if (k == none)
      return false;
    k += 2;
  }
  name = ident(s, k);
  if (name.empty() || starts(s, "typeis("))
    return false;
  k += name.size();
  return k == s.size();
}
std::string other_spec(std::string const &s) {
  if (is_assign(s))
    return "";
  size_t e;
  for (auto a : {"public", "private"})
    if (starts(s, a)) {
      std::string r = s.substr(strlen(a));
      if (r.empty() || r[0] == ':' || !ident(r, 0).empty())
        return "access-stmt";
    }
  static char const *kw[] = {"allocatable", "asynchronous", "codimension", "dimension", "external", "intrinsic", "optional", "pointer", "protected", "target", "volatile", "value"};
  for (auto k : kw)
    if (starts(s, k)) {
      std::string r = s.substr(strlen(k));
      if (starts(r, "::") || !ident(r, 0).empty())
        return std::string(k) + "-stmt";
    }
  if (group(s, "bind", e) && e < s.size())
    return "bind-stmt";
  if (group(s, "intent", e) && e < s.size())
    return "intent-stmt";
  if (starts(s, "common") && s.size() > 6 && (s[6] == '/' || !ident(s, 6).empty()))
    return "common-stmt";
  if (starts(s, "namelist/"))
    return "namelist-stmt";
  if (starts(s, "equivalence("))
    return "equivalence-stmt";
  if (s == "save" || starts(s, "save/") || (starts(s, "save") && (starts(s, "save::") || !ident(s, 4).empty())))
    return "save-stmt";
  return "";
}
bool is_entry(std::string const &s) {
  if (!starts(s, "entry") || is_assign(s))
    return false;
  std::string n = ident(s, 5);
  size_t k = 5 + n.size();
  if (n.empty())
    return false;
  if (k < s.size() && s[k] == '(' && (k = skip_paren(s, k)) == none)
    return false;
  if (k < s.size() && s.compare(k, 7, "result(") == 0)
    k = skip_paren(s, k + 6);
  return k == s.size();
}
bool type_decl(std::string const &s) {
  size_t n = type_spec(s);
  if (!n || is_assign(s))
    return false;
  std::string nm;
  if (subprogram_header(s, nm))
    return false;
  if (top(s, "::") != none)
    return n < s.size() && (s[n] == ',' || s[n] == ':');
  return !ident(s, n).empty();
}

struct Fail {
  std::string why;
};
struct Reader {
  std::vector<std::string> s;
  std::vector<int> label;
  size_t i = 0;
  bool headless_ok = true;
  bool done() const { return i >= s.size(); }
  std::string const &cur() const {
    static std::string const e;
    return done() ? e : s[i];
  }
  [[noreturn]] void fail(std::string const &w) const { throw Fail{w + " at statement " + std::to_string(i) + ": " + cur()}; }
  void leaf(Node &n, std::string const &kind) { n.k.push_back({kind, (int)i++, {}}); }
  static void attach(Node &n, Node &&c) {
    if (!c.k.empty())
      n.k.push_back(std::move(c));
  }
  bool end_of(char const *w, std::string const &name, bool bare) const {
    std::string e = std::string("end") + w;
    return cur() == e || (!name.empty() && cur() == e + name) || (bare && cur() == "end");
  }

  void spec_part(Node &host, bool block) {
    Node sp{block ? "block-specification-part" : "specification-part", -1, {}};
    while (is_use(cur()))
      leaf(sp, "use-stmt");
    while (!is_assign(cur()) && (cur() == "import" || starts(cur(), "import::") || starts(cur(), "import,only:")))
      leaf(sp, "import-stmt");
    if (!block) {
      Node ip{"implicit-part", -1, {}};
      for (;;) {
        if (cur() == "implicitnone" || (starts(cur(), "implicit") && type_spec(cur().substr(8)) && cur().back() == ')'))
          leaf(ip, "implicit-stmt");
        else if (closed(cur(), "parameter"))
          leaf(ip, "parameter-stmt");
        else if (closed(cur(), "format"))
          leaf(ip, "format-stmt");
        else if (is_entry(cur()))
          leaf(ip, "entry-stmt");
        else
          break;
      }
      attach(sp, std::move(ip));
    }
    while (!done() && decl(sp))
      ;
    attach(host, std::move(sp));
  }
  bool decl(Node &sp) {
    std::string const c = cur();
    std::string nm, k;
    if (is_type_stmt(c, nm)) {
      derived(sp, nm);
      return true;
    }
    if (type_decl(c)) {
      leaf(sp, "type-declaration-stmt");
      return true;
    }
    if (c == "enum,bind(c)") {
      Node e{"enum-def", -1, {}};
      leaf(e, "enum-def-stmt");
      if (!starts(cur(), "enumerator"))
        fail("empty enum");
      while (starts(cur(), "enumerator") && (top(cur(), "::") != none || all_ident(cur(), 10)))
        leaf(e, "enumerator-def-stmt");
      if (cur() != "endenum")
        fail("enum not closed");
      leaf(e, "end-enum-stmt");
      attach(sp, std::move(e));
      return true;
    }
    if (interface(sp))
      return true;
    if ((starts(c, "generic::") || starts(c, "generic,")) && top(c, "=>") != none)
      k = "generic-stmt";
    else if (closed(c, "parameter"))
      k = "parameter-stmt";
    else if (starts(c, "procedure(") && top(c, "::") != none)
      k = "procedure-declaration-stmt";
    else if (starts(c, "data") && !is_assign(c) && c.back() == '/')
      k = "data-stmt";
    else if (closed(c, "format"))
      k = "format-stmt";
    else if (is_entry(c))
      k = "entry-stmt";
    else
      k = other_spec(c);
    if (k.empty())
      return false;
    leaf(sp, k);
    return true;
  }
  void derived(Node &sp, std::string const &nm) {
    Node t{"derived-type-def", -1, {}};
    leaf(t, "derived-type-stmt");
    if (cur() == "private")
      leaf(t, "private-components-stmt");
    else if (cur() == "sequence")
      leaf(t, "sequence-stmt");
    Node c{"component-part", -1, {}};
    for (;;) {
      if (type_decl(cur()))
        leaf(c, "data-component-def-stmt");
      else if (starts(cur(), "procedure(") && top(cur(), "::") != none)
        leaf(c, "proc-component-def-stmt");
      else
        break;
    }
    attach(t, std::move(c));
    if (cur() == "contains") {
      Node b{"type-bound-procedure-part", -1, {}};
      leaf(b, "contains-stmt");
      if (cur() == "private")
        leaf(b, "binding-private-stmt");
      for (;;) {
        if (starts(cur(), "procedure") && (top(cur(), "::") != none || all_ident(cur(), 9)))
          leaf(b, "type-bound-procedure-stmt");
        else if (starts(cur(), "generic") && top(cur(), "=>") != none)
          leaf(b, "type-bound-generic-stmt");
        else if (starts(cur(), "final") && (starts(cur(), "final::") || all_ident(cur(), 5)))
          leaf(b, "final-procedure-stmt");
        else
          break;
      }
      attach(t, std::move(b));
    }
    if (!end_of("type", nm, false))
      fail("type not closed");
    leaf(t, "end-type-stmt");
    attach(sp, std::move(t));
  }
  bool interface(Node &sp) {
    std::string const c = cur();
    std::string g;
    if (c == "interface" || c == "abstractinterface")
      ;
    else if (starts(c, "interface") && (all_ident(c, 9) || closed(c, "interfaceoperator") || c == "interfaceassignment(=)" || closed(c, "interfaceread") || closed(c, "interfacewrite")))
      g = c.substr(9);
    else
      return false;
    Node n{"interface-block", -1, {}};
    leaf(n, "interface-stmt");
    for (;;) {
      std::string nm;
      bool fn;
      if (subprogram_header(cur(), nm, &fn)) {
        Node b{"interface-body", -1, {}};
        leaf(b, fn ? "function-stmt" : "subroutine-stmt");
        spec_part(b, false);
        if (!end_of(fn ? "function" : "subroutine", nm, true))
          fail("interface body not closed");
        leaf(b, fn ? "end-function-stmt" : "end-subroutine-stmt");
        attach(n, std::move(b));
      } else if (starts(cur(), "moduleprocedure") || starts(cur(), "procedure::") || (starts(cur(), "procedure") && all_ident(cur(), 9)))
        leaf(n, "procedure-stmt");
      else
        break;
    }
    if (!(cur() == "endinterface" || (!g.empty() && cur() == "endinterface" + g)))
      fail("interface not closed");
    leaf(n, "end-interface-stmt");
    attach(sp, std::move(n));
    return true;
  }

  std::vector<int> open; // labels of open labelled loops
  bool is_open(int l) const {
    for (int o : open)
      if (o == l)
        return true;
    return false;
  }
  void block(Node &host, char const *tag) {
    Node b{tag, -1, {}};
    while (exec(b, false))
      ;
    attach(host, std::move(b));
  }
  // one executable construct (or format, data, entry when not first)
  bool exec(Node &host, bool first) {
    if (done())
      return false;
    int lab = label[i];
    if (lab && !open.empty() && open.back() == lab)
      return false; // ends a loop
    if (lab && is_open(lab))
      fail("loops overlap");
    std::string const c0 = cur();
    std::string nm, c = c0;
    size_t col = c.find(':');
    if (col != none && col + 1 < c.size() && c[col + 1] != ':' && all_ident(c.substr(0, col), 0)) {
      nm = c.substr(0, col);
      c = c.substr(col + 1);
    }
    size_t e;
    if (nm.empty()) {
      std::string k = action(c);
      if (!k.empty()) {
        leaf(host, k);
        return true;
      }
      if (!first) {
        if (closed(c, "format")) {
          leaf(host, "format-stmt");
          return true;
        }
        if (starts(c, "data") && c.back() == '/') {
          leaf(host, "data-stmt");
          return true;
        }
        if (is_entry(c)) {
          leaf(host, "entry-stmt");
          return true;
        }
      }
    }
    auto finish = [&](Node &n, char const *w, char const *kind) {
      if (!(cur() == std::string("end") + w + nm))
        fail(std::string(w) + " not closed");
      leaf(n, kind);
      attach(host, std::move(n));
      return true;
    };
    if (group(c, "if", e) && c.substr(e) == "then") {
      Node n{"if-construct", -1, {}};
      leaf(n, "if-then-stmt");
      block(n, "block");
      while (group(cur(), "elseif", e) && (cur().substr(e) == "then" || (!nm.empty() && cur().substr(e) == "then" + nm))) {
        leaf(n, "else-if-stmt");
        block(n, "block");
      }
      if (cur() == "else" || (!nm.empty() && cur() == "else" + nm)) {
        leaf(n, "else-stmt");
        block(n, "block");
      }
      return finish(n, "if", "end-if-stmt");
    }
    if (group(c, "selectcase", e) && e == c.size()) {
      Node n{"case-construct", -1, {}};
      leaf(n, "select-case-stmt");
      while (starts(cur(), "casedefault") || starts(cur(), "case(")) {
        std::string r = starts(cur(), "casedefault") ? cur().substr(11) : group(cur(), "case", e) ? cur().substr(e) : "?";
        if (!(r.empty() || (!nm.empty() && r == nm)))
          fail("bad case");
        leaf(n, "case-stmt");
        block(n, "block");
      }
      return finish(n, "select", "end-select-stmt");
    }
    if (group(c, "selecttype", e) && e == c.size()) {
      Node n{"select-type-construct", -1, {}};
      leaf(n, "select-type-stmt");
      while (starts(cur(), "classdefault") || starts(cur(), "typeis(") || starts(cur(), "classis(")) {
        std::string r = starts(cur(), "classdefault") ? cur().substr(12) : cur().substr(skip_paren(cur(), cur().find('(')));
        if (!(r.empty() || (!nm.empty() && r == nm)))
          fail("bad type guard");
        leaf(n, "type-guard-stmt");
        block(n, "block");
      }
      return finish(n, "select", "end-select-type-stmt");
    }
    if (group(c, "selectrank", e) && e == c.size()) {
      Node n{"select-rank-construct", -1, {}};
      leaf(n, "select-rank-stmt");
      while (cur() == "rankdefault" || closed(cur(), "rank")) {
        leaf(n, "select-rank-case-stmt");
        block(n, "block");
      }
      return finish(n, "select", "end-select-rank-stmt");
    }
    if (group(c, "associate", e) && e == c.size()) {
      Node n{"associate-construct", -1, {}};
      leaf(n, "associate-stmt");
      block(n, "block");
      return finish(n, "associate", "end-associate-stmt");
    }
    if (c == "block") {
      Node n{"block-construct", -1, {}};
      leaf(n, "block-stmt");
      spec_part(n, true);
      block(n, "block");
      return finish(n, "block", "end-block-stmt");
    }
    if (group(c, "where", e) && e == c.size()) {
      where(host, nm);
      return true;
    }
    if (group(c, "forall", e) && e == c.size()) {
      forall(host, nm);
      return true;
    }
    if (loop_head(c)) {
      Node n{"do-construct", -1, {}};
      size_t d = 2;
      while (d < c.size() && std::isdigit((unsigned char)c[d]))
        ++d;
      if (d == 2 || starts(c, "doconcurrent")) {
        leaf(n, "nonlabel-do-stmt");
        block(n, "block");
        return finish(n, "do", "end-do-stmt");
      }
      int l = std::stoi(c.substr(2, d - 2));
      if (!open.empty() && open.back() != l && is_open(l))
        fail("loops overlap");
      bool shared = !open.empty() && open.back() == l;
      leaf(n, "label-do-stmt");
      open.push_back(l);
      Node b{"block", -1, {}};
      size_t before = open.size();
      bool inner_shared = false;
      std::vector<Node> parts;
      for (;;) {
        size_t at = i;
        if (!exec(b, false))
          break;
        // did the construct just read share our end?
        if (shared_end_) {
          inner_shared = true;
          (void)at;
          break;
        }
      }
      (void)before;
      if (done() || label[i] != l)
        fail("labelled loop not closed");
      std::string const t = cur();
      if (shared || inner_shared) {
        std::string k = action(t);
        if (k.empty())
          fail("shared loop end");
        n.tag = "nonblock-do-construct";
        Node in{shared ? "inner-shared-do-construct" : "outer-shared-do-construct", -1, {}};
        in.k = std::move(n.k);
        n.k.clear();
        b.tag = "do-body";
        attach(in, std::move(b));
        Node term{"do-term-shared-stmt", -1, {}};
        term.k.push_back({k, (int)i, {}});
        attach(in, std::move(term));
        n.k.push_back(std::move(in));
        open.pop_back();
        if (shared)
          shared_end_ = true; // stays for the outer loop
        else {
          shared_end_ = false;
          ++i;
        }
      } else {
        open.pop_back();
        if (t == "continue" || t == "enddo") {
          attach(n, std::move(b));
          leaf(n, t == "continue" ? "continue-stmt" : "end-do-stmt");
        } else {
          std::string k = action(t);
          if (k.empty())
            fail("loop end");
          n.tag = "nonblock-do-construct";
          Node in{"action-term-do-construct", -1, {}};
          in.k = std::move(n.k);
          n.k.clear();
          b.tag = "do-body";
          attach(in, std::move(b));
          Node term{"do-term-action-stmt", -1, {}};
          leaf(term, k);
          attach(in, std::move(term));
          n.k.push_back(std::move(in));
        }
      }
      attach(host, std::move(n));
      return true;
    }
    return false;
  }
  bool shared_end_ = false;
  static bool loop_head(std::string const &c) {
    if (!starts(c, "do"))
      return false;
    size_t p = 2;
    while (p < c.size() && std::isdigit((unsigned char)c[p]))
      ++p;
    std::string r = c.substr(p);
    if (r.empty())
      return true;
    if (starts(r, ",") )
      r.erase(0, 1);
    if (closed(r, "while") || (p == 2 && closed(r, "concurrent")))
      return true;
    std::string v = ident(r, 0);
    return !v.empty() && r.compare(v.size(), 1, "=") == 0 && top(r, ",", v.size()) != none;
  }
  void where(Node &host, std::string const &nm) {
    Node n{"where-construct", -1, {}};
    leaf(n, "where-construct-stmt");
    size_t e;
    auto body = [&] {
      for (;;) {
        if (done() || label[i])
          if (done() || is_open(label[i]))
            return;
        if (is_assign(cur()))
          leaf(n, "assignment-stmt");
        else if (group(cur(), "where", e) && e < cur().size() && is_assign(cur().substr(e)))
          leaf(n, "where-stmt");
        else if (group(cur(), "where", e) && e == cur().size())
          where(n, "");
        else
          return;
      }
    };
    body();
    while (group(cur(), "elsewhere", e) && e == cur().size()) {
      leaf(n, "masked-elsewhere-stmt");
      body();
    }
    if (cur() == "elsewhere") {
      leaf(n, "elsewhere-stmt");
      body();
    }
    if (cur() != "endwhere" + nm)
      fail("where not closed");
    leaf(n, "end-where-stmt");
    attach(host, std::move(n));
  }
  void forall(Node &host, std::string const &nm) {
    Node n{"forall-construct", -1, {}};
    leaf(n, "forall-construct-stmt");
    size_t e;
    for (;;) {
      std::string const c = cur();
      if (is_assign(c))
        leaf(n, "assignment-stmt");
      else if (is_ptr_assign(c))
        leaf(n, "pointer-assignment-stmt");
      else if (group(c, "where", e) && e < c.size() && is_assign(c.substr(e)))
        leaf(n, "where-stmt");
      else if (group(c, "where", e) && e == c.size())
        where(n, "");
      else if (group(c, "forall", e) && e == c.size())
        forall(n, "");
      else if (group(c, "forall", e) && e < c.size() && is_assign(c.substr(e)))
        leaf(n, "forall-stmt");
      else
        break;
    }
    if (cur() != "endforall" + nm)
      fail("forall not closed");
    leaf(n, "end-forall-stmt");
    attach(host, std::move(n));
  }
  void exec_part(Node &host) {
    Node ep{"execution-part", -1, {}};
    for (bool first = true; exec(ep, first); first = false)
      ;
    attach(host, std::move(ep));
  }
  void subprogram(Node &host) {
    std::string nm;
    bool fn;
    Node n;
    char const *endw;
    if (starts(cur(), "moduleprocedure") && all_ident(cur(), 15)) {
      n.tag = "separate-module-subprogram";
      nm = cur().substr(15);
      leaf(n, "mp-subprogram-stmt");
      endw = "procedure";
    } else if (subprogram_header(cur(), nm, &fn)) {
      n.tag = fn ? "function-subprogram" : "subroutine-subprogram";
      leaf(n, fn ? "function-stmt" : "subroutine-stmt");
      endw = fn ? "function" : "subroutine";
    } else
      fail("no subprogram");
    body(n, endw, nm);
    host.k.push_back(std::move(n));
  }
  void body(Node &n, char const *endw, std::string const &nm) {
    spec_part(n, false);
    exec_part(n);
    if (!open.empty() || shared_end_)
      fail("loop open");
    if (cur() == "contains") {
      Node c{"internal-subprogram-part", -1, {}};
      leaf(c, "contains-stmt");
      while (!done() && !starts(cur(), "end"))
        subprogram(c);
      n.k.push_back(std::move(c));
    }
    if (!end_of(endw, nm, true))
      fail(std::string(endw) + " not closed");
    leaf(n, std::string(endw) == "procedure" ? "end-mp-subprogram-stmt" : std::string("end-") + endw + "-stmt");
  }
  void unit(Node &root) {
    std::string nm;
    std::string const c = cur();
    if (subprogram_header(c, nm)) {
      subprogram(root);
      return;
    }
    if (starts(c, "module") && all_ident(c, 6)) {
      Node n{"module", -1, {}};
      nm = c.substr(6);
      leaf(n, "module-stmt");
      spec_part(n, false);
      if (cur() == "contains") {
        Node p{"module-subprogram-part", -1, {}};
        leaf(p, "contains-stmt");
        while (!done() && !starts(cur(), "end"))
          subprogram(p);
        n.k.push_back(std::move(p));
      }
      if (!end_of("module", nm, true))
        fail("module not closed");
      leaf(n, "end-module-stmt");
      root.k.push_back(std::move(n));
      return;
    }
    Node n{"main-program", -1, {}};
    if (mains_++)
      fail("two main programs");
    if (starts(c, "program") && all_ident(c, 7)) {
      nm = c.substr(7);
      leaf(n, "program-stmt");
    }
    if (starts(cur(), "end") && nm.empty() && (cur() == "end" || cur() == "endprogram") && i == 0)
      fail("empty program");
    body(n, "program", nm);
    root.k.push_back(std::move(n));
  }
  int mains_ = 0;
};
void show(Node const &n, int d, std::string &o) {
  o += std::string((size_t)d, ' ') + n.tag;
  if (n.stmt >= 0)
    o += " #" + std::to_string(n.stmt);
  o += "\n";
  for (auto &c : n.k)
    show(c, d + 1, o);
}
} // namespace
std::string show(Node const &n) {
  std::string o;
  show(n, 0, o);
  return o;
}
std::string lower_code(std::string t) {
  char q = 0;
  for (auto &c : t) {
    if (q) {
      if (c == q)
        q = 0;
    } else if (c == '\'' || c == '"')
      q = c;
    else
      c = (char)std::tolower((unsigned char)c);
  }
  return t;
}
bool parse(Doc const &d, Node &root, std::string &why) {
  Reader r;
  for (auto &s : d.stmts) {
    r.s.push_back(lower_code(s.canon));
    r.label.push_back(s.label);
  }
  root = Node{"program", -1, {}};
  try {
    if (r.done())
      r.fail("no statements");
    while (!r.done())
      r.unit(root);
  } catch (Fail const &f) {
    why = f.why;
    return false;
  } catch (std::out_of_range const &) { // a parenthesis that does not close
    why = "unbalanced";
    return false;
  }
  return true;
}
} // namespace ref
