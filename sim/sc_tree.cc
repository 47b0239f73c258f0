// Scenarios around the parse tree: it is the structure of the text at hand, for
// programs that are written, edited and transformed over a disturbed disk (P18).
#include "flprx.hh"
#include "rparse.hh"
#include <memory>
using namespace sim;

namespace {
using FLPR::Syntax_Tags;
using Tree = fx::File::Parse_Tree;
using Cursor = fx::File::Prgm_Cursor;

bool keep(int t) {
  static std::set<std::string> const k{
      "main-program", "function-subprogram", "subroutine-subprogram", "separate-module-subprogram", "module",
      "specification-part", "block-specification-part", "implicit-part", "execution-part", "internal-subprogram-part",
      "module-subprogram-part", "if-construct", "case-construct", "select-type-construct", "select-rank-construct",
      "associate-construct", "block-construct", "where-construct", "forall-construct", "do-construct",
      "nonblock-do-construct", "outer-shared-do-construct", "inner-shared-do-construct", "action-term-do-construct",
      "do-body", "do-term-shared-stmt", "do-term-action-stmt", "block", "interface-block", "interface-body",
      "derived-type-def", "component-part", "type-bound-procedure-part", "enum-def"};
  return k.count(Syntax_Tags::label(t)) != 0;
}
bool wrapper(std::string const &t) {
  static std::set<std::string> const k{"action-stmt", "other-specification-stmt", "component-def-stmt", "private-or-sequence",
                                       "do-stmt", "end-do", "forall-assignment-stmt", "type-bound-proc-binding"};
  return k.count(t) != 0;
}
template <class N> std::string kind_of(N const &n) {
  std::string t = Syntax_Tags::label(n->syntag);
  if (wrapper(t) && !n.is_leaf())
    return kind_of(*n.branches().begin());
  if (t == "if-stmt")
    for (auto const &b : n.branches())
      if (Syntax_Tags::label(b->syntag) == "action-stmt")
        return t + ":" + kind_of(b);
  return t;
}
std::string toks(FLPR::LL_TT_Range const &r) {
  std::string s;
  for (auto i = r.cbegin(); i != r.cend(); ++i)
    s += i->text();
  return s;
}
template <class N> void leaves(N const &n, std::string &o) {
  if (n.is_leaf()) {
    o += toks(n->token_range);
    return;
  }
  for (auto const &b : n.branches())
    leaves(b, o);
}
struct Proj {
  std::map<FLPR::LL_Stmt const *, int> at;
  std::vector<FLPR::LL_Stmt const *> list;
  std::string bad;
  std::set<int> seen;
  int last = 0;
  // returns the projected text; lo/hi: statements covered
  std::string walk(Tree::reference n, int depth, int &lo, int &hi) {
    lo = 1 << 30;
    hi = -1;
    if (n.is_leaf()) {
      if (!n->is_stmt())
        return "";
      auto i = at.find(&*n->ll_stmt_iter());
      if (i == at.end()) {
        bad = "a leaf belongs to no statement of the file";
        return "";
      }
      lo = hi = i->second;
      if (hi < last)
        bad = "the leaves are not in the order of the statements";
      seen.insert(last = hi);
      auto &st = n->stmt_tree();
      if (st.empty()) {
        bad = "no statement tree for \"" + fx::canon(n->ll_stmt()) + "\"";
        return "";
      }
      std::string l, c = fx::canon(n->ll_stmt());
      leaves(*st, l);
      if (l != c)
        bad = "the leaves of the statement tree of \"" + c + "\" read \"" + l + "\"";
      if (toks((*st)->token_range) != c)
        bad = "the statement tree of \"" + c + "\" covers \"" + toks((*st)->token_range) + "\"";
      return std::string((size_t)depth, ' ') + kind_of(*st) + " #" + std::to_string(lo) + "\n";
    }
    bool k = depth > 0 && keep(n->syntag());
    std::string s;
    for (auto &b : n.branches()) {
      int a, z;
      s += walk(b, depth + (k || depth == 0 ? 1 : 0), a, z);
      lo = std::min(lo, a);
      hi = std::max(hi, z);
    }
    if (hi >= 0) {
      auto &r = n->stmt_range();
      if (r.size() == 0 || at.count(&*r.begin()) == 0 || at[&*r.begin()] != lo || !ends_at(r, hi))
        bad = "a node \"" + std::string(Syntax_Tags::label(n->syntag())) + "\" of the statements " + std::to_string(lo) + ".." + std::to_string(hi) + " says it covers others";
    }
    if (k && hi >= 0)
      s = std::string((size_t)depth, ' ') + Syntax_Tags::label(n->syntag()) + "\n" + s;
    return s;
  }
  template <class R> bool ends_at(R &r, int hi) {
    auto e = r.end();
    --e;
    return &*e == list[(size_t)hi];
  }
};

// Compare the tree of a file with the structure of its text.
bool damaged; // the documents need not be well formed
bool check_tree(fx::File &pf, std::string const &text, bool fixed, std::string const &what) {
  ref::Doc d = ref_scan(ref::split_lines(text), fixed);
  ref::Node root;
  std::string why;
  bool known = d.ok && ref::parse(d, root, why);
  if (!known) {
    probe(11);
    // outside of the language both readers speak: refused, or nothing dropped
    if (pf.parse_tree().empty())
      return true;
  } else if (pf.parse_tree().empty()) {
    if (damaged) // (the oracle does not look into expressions)
      return true;
    child_fail("parse-refused", what + ": a well-formed program has no parse tree\n" + text.substr(0, 3000));
    return false;
  }
  Proj pr;
  int k = 0;
  for (auto it = pf.statements().begin(); it != pf.statements().end(); ++it) {
    pr.at[&*it] = k++;
    pr.list.push_back(&*it);
  }
  int lo, hi;
  std::string got = "program\n" + pr.walk(*pf.parse_tree(), 0, lo, hi), want = ref::show(root);
  W->obs_hash = fnv(W->obs_hash, got);
  if (!pr.bad.empty()) {
    child_fail("tree-inconsistent", what + ": " + pr.bad);
    return false;
  }
  for (int i = 0; i < k; ++i)
    if (!pr.seen.count(i)) {
      child_fail("statement-dropped", what + ": statement " + std::to_string(i + 1) + " \"" + fx::canon(*pr.list[(size_t)i]) + "\" is in no node of the tree\n" + text.substr(0, 3000));
      return false;
    }
  if (!known || damaged)
    return true;
  if (got != want) {
    child_fail("structure-differs", what + ": " + diff_text(want, got) + "\n" + text.substr(0, 3000));
    return false;
  }
  k = 0;
  for (auto it = pf.statements().begin(); it != pf.statements().end(); ++it, ++k) {
    if (!it->has_hook()) {
      child_fail("no-place", what + ": \"" + fx::canon(*it) + "\" does not know its place in the tree");
      return false;
    }
    auto c = pf.stmt_to_node_cursor(it);
    if (!c.is_leaf() || !c->is_stmt() || &*c->ll_stmt_iter() != &*it) {
      child_fail("wrong-place", what + ": the place of \"" + fx::canon(*it) + "\" in the tree is another statement's");
      return false;
    }
  }
  probe(12);
  return true;
}

void p18_gen(Rng &r, Plan &p, bool th) {
  int n = r.chance(1, 3) ? r.range(2, 3) : 1;
  bool hurt = r.chance(1, 6);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    if (r.chance(2, 3))
      o.rich = true;
    o.callees = {"alpha", "beta"};
    auto l = gen::document(r, o);
    if (hurt && l.size() > 2) { // programs that are not well formed
      p.cfg("damaged", 1);
      for (int j = r.range(1, 3); j > 0; --j) {
        size_t a = r.below(l.size()), b = r.below(l.size());
        switch (r.below(3)) {
        case 0:
          l.erase(l.begin() + (long)a);
          break;
        case 1:
          l.insert(l.begin() + (long)b, std::string(l[a]));
          break;
        default:
          std::swap(l[a], l[b]);
        }
        if (l.size() < 3)
          break;
      }
    }
    p.doc(gen_name(r, i, o.fixed), l);
  }
  random_policies(r, p);
  int steps = r.range(1, th ? 8 : 4);
  for (int i = 0; i < steps; ++i) {
    std::string doc = std::to_string(r.below((uint64_t)n));
    switch (r.below(5)) {
    case 0:
    case 1:
      p.add("O", {"load", doc, std::to_string(r.below(3))});
      break;
    case 2:
    case 3: {
      std::string ops;
      for (int j = r.range(1, 6); j > 0; --j) {
        static char const *k[] = {"emplace", "split", "isolate", "label", "lead", "tofree", "tofree"};
        ops += std::string(ops.empty() ? "" : ",") + k[r.below(7)] + ":" + std::to_string(r.below(1000));
      }
      p.add("O", {"edit", doc, std::to_string(r.below(2)), ops});
    } break;
    default:
      p.add("O", {"tool", doc, r.chance(1, 2) ? "caliper" : r.chance(1, 2) ? "flpr-format -o -i" : "flpr-format -o -f"});
    }
  }
  int nf = r.chance(1, 3) ? 0 : r.range(1, 3);
  for (int i = 0; i < nf; ++i) {
    Fault f;
    f.proc = r.range(0, steps);
    static OpClass const ops[] = {OpClass::OPEN, OpClass::READ, OpClass::READ, OpClass::WRITE, OpClass::CLOSE};
    f.op = ops[r.below(5)];
    f.nth = r.range(0, 4);
    switch (r.below(4)) {
    case 0:
      f.eff = f.op == OpClass::READ || f.op == OpClass::WRITE ? Eff::SHORT : Eff::ERR;
      f.arg = f.eff == Eff::ERR ? pick_errno(r, f.op) : r.range(1, 60);
      break;
    case 1:
      f.eff = Eff::EINTR_ONCE;
      break;
    case 2:
      f.eff = Eff::CRASH_BEFORE;
      break;
    default:
      f.eff = Eff::ERR;
      f.arg = pick_errno(r, f.op);
    }
    p.fault(f);
  }
}
long hurts() {
  long f = 0;
  for (int e = 0; e < (int)Eff::N; ++e)
    for (int o = 0; o < (int)OpClass::N; ++o)
        f += W->fired[e][o];
  return f;
}
std::vector<std::string> words(std::string const &s, char sep) {
  std::vector<std::string> v;
  std::string c;
  for (char x : s + sep)
    if (x == sep) {
      if (!c.empty())
        v.push_back(c);
      c.clear();
    } else
      c += x;
  return v;
}
struct Doc {
  std::string name, text;
  bool fixed = false;
};
std::unique_ptr<fx::File> load(Doc const &d, int mode, uint64_t salt) {
  if (mode == 1) {
    fx::Src s(d.text, salt, W->chunk, -1);
    std::istream is(&s);
    return std::make_unique<fx::File>(is, "<stream>", 0, d.fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT);
  }
  auto f = std::make_unique<fx::File>();
  if (mode == 2) {
    f->read_file(d.name, 0);
    return f;
  }
  return std::make_unique<fx::File>(d.name, 0);
}
void p18_exec(Plan const &p, Result &res) {
  damaged = p.geti("damaged", 0);
  auto fd = load_docs(p);
  auto ops = p.of("O");
  if (fd.empty()) {
    res.inapplicable = true;
    return;
  }
  std::vector<Doc> docs;
  for (auto &d : fd) {
    ref::Node root;
    std::string why;
    if (!d.ref.ok || (!p.geti("damaged", 0) && !ref::parse(d.ref, root, why))) {
      res.inapplicable = true;
      res.msg = why;
      return;
    }
    docs.push_back({d.name, d.text, d.fixed});
    set_file(d.name, d.text);
  }
  int stage = 0;
  // one process that loads the given documents one after the other
  auto session = [&](std::vector<int> const &which, int mode, std::string const &edits, std::string const &what) {
    for (int attempt = 0; attempt < 6; ++attempt) {
      long h0 = hurts();
      std::string out = "out" + std::to_string(stage);
      auto pr = run_child([&] {
        for (int w : which) {
          Doc &d = docs[(size_t)w];
          auto pf = load(d, mode, hash2(p.salt, (uint64_t)stage));
          if (!*pf && damaged && hurts() == h0)
            continue;
          if (!*pf) {
            if (hurts() == h0)
              child_fail("read-refused", what + ": " + d.name);
            return 1;
          }
          auto lf = [&]() -> FLPR::Logical_File & { return pf->logical_file(); };
          bool fixed = d.fixed;
          auto es = words(edits, ',');
          if (!es.empty() && es[0].compare(0, 6, "tofree") == 0 && fixed) {
            if (!lf().convert_fixed_to_free()) {
              child_fail("not-converted", what);
              return 1;
            }
            fixed = false;
            std::string t = fx::emit(pf->logical_lines());
            pf->statements();
            if (!check_tree(*pf, t, fixed, what + ", converted"))
              return 1;
          } else if (!check_tree(*pf, d.text, fixed, what))
            return 1;
          if (es.empty())
            continue;
          for (auto &e : es) {
            auto a = words(e, ':');
            auto &q = pf->statements();
            if (q.empty())
              break;
            auto it = std::next(q.begin(), (long)((size_t)toi(a[1]) % q.size()));
            if (a[0] == "split")
              lf().split_compound_before(it);
            else if (a[0] == "isolate")
              lf().isolate_stmt(it);
            else if (a[0] == "label")
              lf().set_stmt_label(it, 5000 + (int)(toi(a[1]) % 900));
            else if (a[0] == "lead")
              it->set_leading_spaces((fixed ? 6 : 0) + (int)(toi(a[1]) % 20), 2);
            else if (a[0] == "emplace" && !pf->parse_tree().empty())
              lf().emplace_ll_stmt(it, FLPR::Logical_Line(std::vector<std::string>{fixed ? "      call new1(2)" : "call new1(2)"}), Syntax_Tags::SG_CALL_STMT);
          }
          std::ofstream os(out);
          for (auto const &ll : pf->logical_lines())
            os << ll;
          os.close();
          if (!os) {
            if (hurts() == h0)
              child_fail("write-refused", what);
            return 1;
          }
          blob_put(fixed ? "fixed" : "free");
        }
        return 0;
      });
      absorb(pr, res, what.c_str());
      if (res.viol)
        return false;
      if (!pr.ok()) {
        if (hurts() == h0) {
          res.fail("refused", what + " ends with " + pr.str() + " without a failing call");
          return false;
        }
        remove_file(out);
        res.probes["repeated"]++;
        continue;
      }
      if (!edits.empty()) {
        Doc &d = docs[(size_t)which[0]];
        auto b = blob_get();
        d.fixed = b.empty() ? d.fixed : b.back() == "fixed";
        get_file(out, d.text);
        remove_file(out);
        remove_file(d.name);
        d.name = "w" + std::to_string(which[0]) + "s" + std::to_string(stage) + (d.fixed ? ".f" : ".f90");
        set_file(d.name, d.text);
      }
      return true;
    }
    res.probes["given-up"]++;
    return true;
  };
  std::vector<int> all;
  for (size_t i = 0; i < docs.size(); ++i)
    all.push_back((int)i);
  if (!session(all, (int)(p.salt % 3), "", "as written"))
    return;
  for (auto *o : ops) {
    ++stage;
    std::string k = o->f.size() > 2 ? o->f[0] : "";
    int w = (int)((size_t)toi(o->f.size() > 1 ? o->f[1] : "0") % docs.size());
    std::string what = k + " (step " + std::to_string(stage) + ")";
    if (k == "load") {
      if (!session({w}, (int)toi(o->f[2]), "", what))
        return;
    } else if (k == "edit" && o->f.size() > 3) {
      if (!session({w}, (int)toi(o->f[2]), o->f[3], what + " " + o->f[3]))
        return;
    } else if (k == "tool") {
      auto a = words(o->f[2], ' ');
      std::string tool = a[0];
      what += " " + o->f[2];
      Doc &d = docs[(size_t)w];
      a.erase(a.begin());
      a.push_back(d.name);
      for (int attempt = 0; attempt < 6; ++attempt) {
        long h0 = hurts();
        auto pr = run_tool(tool, a);
        if (pr.kind == ProcResult::EXIT && pr.ok() && hurts() == h0) {
          bool tofree = std::find(a.begin(), a.end(), "-f") != a.end();
          if (!pr.out.empty()) {
            d.text = pr.out;
            if (tofree)
              d.fixed = false;
            remove_file(d.name);
            d.name = "w" + std::to_string(w) + "s" + std::to_string(stage) + (d.fixed ? ".f" : ".f90");
            set_file(d.name, d.text);
          }
          break;
        }
        if (hurts() == h0)
          break; // nothing to do (the other checks judge that)
      }
    } else
      continue;
    if (!session(all, (int)((p.salt >> 3) % 3), "", "after " + what))
      return;
    res.nontrivial = true;
    if (!k.empty())
      res.probes[k]++;
  }
  if (W->counters[12] > 0)
    res.nontrivial = true;
}

std::vector<Scenario> const v{
    {"P18", p18_gen, p18_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_tree() { return v; }
