// Scenarios around state that outlives one call: sessions interleaved in one
// process (P06), lazily evaluated queries in any order (P09) and the registry
// of statement extensions (P14).
#include "flprx.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/parse_stmt.hh"
#include <memory>
using namespace sim;

namespace {
using FLPR::Syntax_Tags;
using Tree = fx::File::Parse_Tree;
using Cursor = fx::File::Prgm_Cursor;
using STree = FLPR::LL_Stmt::Stmt_Tree;

std::string tagname(int t) {
  std::ostringstream os;
  Syntax_Tags::print(os, t);
  return os.str();
}
std::string range_text(FLPR::LL_TT_Range const &r) {
  std::string s;
  for (auto i = r.cbegin(); i != r.cend(); ++i)
    s += i->text() + " ";
  return s;
}
void dump_stree(STree::const_reference n, std::string &out, int depth) {
  out.append((size_t)depth, ' ');
  out += tagname(n->syntag);
  if (n.is_leaf()) {
    out += ": " + range_text(n->token_range) + "\n";
    return;
  }
  out += "\n";
  for (auto const &b : n.branches())
    dump_stree(b, out, depth + 1);
}
std::string dump_stree(STree const &t) {
  std::string s;
  if (!t || t.empty())
    return "<empty>";
  dump_stree(*t, s, 0);
  return s;
}
struct Index {
  std::map<FLPR::LL_Stmt const *, int> at;
  explicit Index(FLPR::LL_STMT_SEQ const &q) {
    int k = 0;
    for (auto i = q.begin(); i != q.end(); ++i)
      at[&*i] = k++;
    at[&*q.end()] = k;
  }
  int operator()(FLPR::LL_Stmt const *p) const {
    auto i = at.find(p);
    return i == at.end() ? -1 : i->second;
  }
};
std::string span(Tree::reference n, Index const &ix) {
  auto &r = n->stmt_range();
  if (r.size() == 0) // its iterators may be unset
    return "empty";
  return std::to_string(ix(&*r.begin())) + ".." + std::to_string(ix(&*r.end()));
}
void dump_tree(Tree::reference n, Index const &ix, std::string &out, int depth) {
  out.append((size_t)depth, ' ');
  out += tagname(n->syntag()) + " " + span(n, ix);
  if (n.is_leaf()) {
    if (n->is_stmt())
      out += " = " + std::to_string(ix(&*n->ll_stmt_iter())) + " " + fx::canon(n->ll_stmt());
    out += "\n";
    return;
  }
  out += "\n";
  for (auto &b : n.branches())
    dump_tree(b, ix, out, depth + 1);
}
std::string path_of(Cursor c) {
  std::string s;
  for (long guard = 0; guard < 200; ++guard) {
    s = tagname(c->syntag()) + "/" + s;
    if (!c.has_up())
      break;
    c.up();
  }
  return s;
}

// ---- one client: a sequence of calls on one file, each with an observation
struct Client {
  FDoc const &d;
  std::string name;
  std::unique_ptr<fx::File> pf;
  bool built = false; // statements exist
  bool free_now;
  Client(FDoc const &d, std::string name) : d(d), name(std::move(name)), free_now(!d.fixed) {}

  FLPR::LL_STMT_SEQ::iterator at(long sel) {
    auto &q = pf->statements();
    return std::next(q.begin(), (long)(q.empty() ? 0 : (size_t)sel % q.size()));
  }
  std::string text() { return fx::emit(pf->logical_lines()); }
  // the calls that change the file
  static bool mutates(std::string const &k) {
    static std::set<std::string> const s{"indent", "tofree", "emplace", "replace", "label", "split", "isolate", "lead", "open"};
    return s.count(k) != 0;
  }
  std::string step(std::vector<std::string> const &f) {
    auto arg = [&](size_t i) { return i < f.size() ? f[i] : std::string(); };
    std::string k = arg(0);
    long sel = toi(arg(1));
    if (k == "open" || !pf) {
      built = false;
      free_now = !d.fixed;
      if (k == "openstream") {
        fx::Src src(d.text, (uint64_t)sel, sel % 3 ? (int)(sel % 40) : 0, -1);
        std::istream is(&src);
        pf = std::make_unique<fx::File>(is, d.name, 0);
      } else
        pf = std::make_unique<fx::File>(d.name, 0);
      std::string r = *pf ? "read" : "not read";
      if (k == "open" || k == "openstream")
        return r;
    }
    if (k == "openstream")
      return step({"text"});
    if (!*pf)
      return "bad";
    if (k == "text")
      return text();
    if (k == "count")
      return std::to_string(pf->logical_file().num_input_lines) + " " + std::to_string(pf->logical_lines().size());
    if (k == "tofree") {
      if (free_now || built)
        return "no";
      free_now = true;
      return pf->logical_file().convert_fixed_to_free() ? "free\n" + text() : "unchanged";
    }
    built = true;
    if (k == "prefetch")
      return pf->prefetch_statements() ? "ok" : "no";
    if (k == "prefetch-tree")
      return pf->prefetch_parse_tree() ? "ok" : "no";
    if (k == "stmts")
      return fx::stmts(pf->statements());
    if (pf->statements().empty())
      return "empty";
    auto it = at(sel);
    if (k == "stmt") {
      std::string s = fx::canon(*it) + "|" + std::to_string(it->label()) + "|" + std::to_string(it->is_compound()) + "|" +
                      std::to_string(it->get_leading_spaces()) + "|" + std::to_string(it->prefix_size()) + "|" + std::to_string(it->linenum());
      for (auto p : it->prefix_lines)
        s += fx::one(*p);
      return s + fx::one(it->ll());
    }
    if (k == "print") {
      std::ostringstream os;
      os << *it;
      return os.str();
    }
    if (k == "move") {
      auto n = std::make_unique<fx::File>(std::move(*pf));
      pf = std::move(n);
      return "moved";
    }
    if (k == "split")
      return pf->logical_file().split_compound_before(it) ? "split" : "no";
    if (k == "isolate")
      return pf->logical_file().isolate_stmt(it) ? "isolated" : "no";
    if (k == "label" && !pf->prefetch_parse_tree())
      return "no tree";
    if (k == "label")
      return pf->logical_file().set_stmt_label(it, 1 + (int)(toi(arg(2)) % 999)) ? "changed" : "same";
    if (k == "lead")
      return it->set_leading_spaces((free_now ? 0 : 6) + (int)(toi(arg(2)) % 20), 2) ? "changed" : "same";
    if (k == "emplace") {
      if (!pf->prefetch_parse_tree())
        return "no tree";
      auto n = pf->logical_file().emplace_ll_stmt(it, FLPR::Logical_Line(std::vector<std::string>{free_now ? "call new1(2)" : "      call new1(2)"}), Syntax_Tags::SG_CALL_STMT);
      return fx::canon(*n) + tagname(n->syntax_tag());
    }
    // from here on: the tree
    if (!pf->prefetch_parse_tree())
      return "no tree";
    if (k == "stree") {
      auto const &ci = *it;
      return tagname(it->syntax_tag()) + "\n" + dump_stree(sel & 1 ? ci.stmt_tree() : it->stmt_tree());
    }
    if (k == "tag") {
      int const in = it->stmt_tag(true), out = it->stmt_tag(false);
      if (!(sel & 1) && gen::lower(fx::canon(*it)).compare(0, 3, "if(") == 0) {
        // the tree of a statement is built on demand: dropping it is no change
        it->drop_stmt_tree();
        int const again = it->stmt_tag(true);
        if (again != in)
          child_fail("tag-depends-on-history", "stmt_tag of \"" + fx::canon(*it) + "\" is " + std::to_string(in) + ", and " + std::to_string(again) + " once its tree was dropped");
      }
      return tagname(it->syntax_tag()) + " " + std::to_string(in) + " " + std::to_string(out);
    }
    if (k == "tree") {
      std::string s;
      Index ix(pf->statements());
      dump_tree(*pf->parse_tree(), ix, s, 0);
      return s;
    }
    if (k == "node") {
      if (!it->has_hook())
        return "unhooked";
      return path_of(pf->stmt_to_node_cursor(it));
    }
    if (k == "walk") {
      // a client moves through the tree; what it sees must fit together
      auto c = pf->parse_tree().cursor();
      FLPR::LL_STMT_SEQ::iterator dummy;
      Index ix(pf->statements());
      Rng r((uint64_t)sel);
      std::string s;
      for (int i = 0; i < 25; ++i) {
        auto o = c;
        std::string mv;
        bool can = true;
        switch (r.below(7)) {
        case 0:
          mv = "up";
          if ((can = c.has_up()))
            c.up();
          break;
        case 1:
          mv = "prev";
          if ((can = c.has_prev())) {
            c.prev();
            auto b = c;
            if (!b.has_next() || !(b.next().self() == o.self()))
              return s + "prev then next does not return";
          }
          break;
        case 2:
        case 3:
          mv = "next";
          can = c.try_next();
          if (can && (!c.has_prev() || !c.has_up()))
            return s + "next without prev or up";
          break;
        default:
          mv = "down";
          can = c.try_down();
          if (can) {
            auto b = c;
            if (c.has_prev() || !b.has_up() || !(b.up().self() == o.self()))
              return s + "down then up does not return";
          } else if (!c.is_leaf())
            return s + "a node with branches has no way down";
        }
        s += mv + (can ? " " : "- ") + tagname(c->syntag()) + " " + span(c.node(), ix) + " " +
             std::to_string(c.num_branches()) + (c.is_root() ? " root\n" : "\n");
      }
      return s;
    }
    if (k == "procs") {
      std::string s;
      auto act = [&](fx::File &f, Cursor c, bool internal, bool module) {
        FLPR::Procedure<fx::File> P(f);
        s += tagname(c->syntag()) + (internal ? " internal" : "") + (module ? " module" : "");
        if (P.ingest(c) && P) {
          s += " " + P.name();
          for (int t = 0; t < FLPR::Procedure<fx::File>::NUM_REGION_TAG; ++t) {
            auto tag = (FLPR::Procedure<fx::File>::Region_Tag)t;
            s += " " + (P.has_region(tag) ? std::to_string(std::distance(P.crange(tag).cbegin(), P.crange(tag).cend())) : std::string("-"));
          }
          std::vector<int> l;
          P.scan_out_labels(std::back_inserter(l));
          for (int x : l)
            s += " L" + std::to_string(x);
        }
        s += "\n";
        return false;
      };
      FLPR::Procedure_Visitor<fx::File, decltype(act)> v(*pf, act);
      v.visit();
      return s;
    }
    if (k == "indent") {
      FLPR::Indent_Table t;
      switch (sel % 3) {
      case 0:
        !free_now ? t.apply_constant_fixed_indent((int)(sel % 5)) : t.apply_constant_indent((int)(sel % 5));
        break;
      case 1:
        !free_now ? t.apply_constant_fixed_indent(3) : t.apply_emacs_indent();
        break;
      default:
        !free_now ? t.apply_constant_fixed_indent(2) : t.apply_constant_indent(2);
        t.set_continued_offset((int)(sel % 7));
      }
      bool c = pf->indent(t);
      return (c ? "changed\n" : "same\n") + text();
    }
    if (k == "replace") {
      int tg = it->syntax_tag();
      if (tg != Syntax_Tags::SG_CALL_STMT && tg != Syntax_Tags::SG_ASSIGNMENT_STMT && tg != Syntax_Tags::SG_PRINT_STMT)
        return "no";
      pf->logical_file().isolate_stmt(it);
      for (auto const &fl : it->ll().layout())
        if (!fl.is_fortran())
          return "no";
      pf->logical_file().replace_stmt_text(it, {"call repl(" + arg(2) + ")"}, Syntax_Tags::SG_CALL_STMT);
      return fx::canon(*it) + dump_stree(it->stmt_tree());
    }
    return "?";
  }
};

// ------------------------------------------------ P09: query order ------
int p09_run(Plan const &p, FDoc const &d) {
  auto ops = p.of("O");
  std::vector<std::string> seen;
  {
    Client c(d, d.name);
    for (auto o : ops) {
      seen.push_back(c.step(o->f));
      W->obs_hash = fnv(W->obs_hash, seen.back());
      if (seen.back() == "bad" || seen.back() == "not read" || seen.back() == "no tree") {
        child_fail("refused", d.name + " " + o->f[0] + ": " + seen.back());
        return 1;
      }
    }
  }
  // each answer again, from a file that was only asked this question
  for (size_t i = 0; i < ops.size(); ++i) {
    std::string const &k = ops[i]->f[0];
    if (k == "move" || k == "open" || k == "openstream")
      continue;
    Client c(d, d.name);
    for (size_t j = 0; j < i; ++j)
      if (Client::mutates(ops[j]->f[0]))
        c.step(ops[j]->f);
    std::string s = c.step(ops[i]->f);
    if (s != seen[i]) {
      std::string h;
      for (size_t j = 0; j < i; ++j)
        h += ops[j]->f[0] + " ";
      child_fail(("answer-" + k).c_str(), "the answer to \"" + k + "\" depends on what was asked before (" + h + "): " + diff_text(s, seen[i]));
      return 1;
    }
    W->counters[0]++;
  }
  // and the whole history again answers the same
  Client c(d, d.name);
  for (size_t i = 0; i < ops.size(); ++i)
    if (c.step(ops[i]->f) != seen[i]) {
      child_fail("not-repeatable", "the answer to \"" + ops[i]->f[0] + "\" is not the same in a repetition of the history");
      return 1;
    }
  return 0;
}
void p09_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  if (docs.empty() || !docs[0].ok || docs[0].ref.stmts.empty()) {
    res.inapplicable = true;
    return;
  }
  set_file(docs[0].name, docs[0].text);
  auto pr = run_child([&] { return p09_run(p, docs[0]); });
  absorb(pr, res, "queries");
  res.nontrivial = W->counters[0] >= 2;
  for (auto o : p.of("O"))
    res.probes[o->f[0]]++;
}
void p09_gen(Rng &r, Plan &p, bool th) {
  gen::Opts o = gen::random_opts(r);
  p.doc(gen_name(r, 0, o.fixed), gen::document(r, o));
  random_policies(r, p);
  static std::vector<std::string> const q{"text", "count", "prefetch", "prefetch-tree", "stmts", "stmt", "stmt", "print", "move", "stree", "stree",
                                          "stree", "tag", "tag", "tree", "tree", "node", "node", "walk", "walk", "procs", "procs", "indent", "indent"};
  for (int n = r.range(2, th ? 16 : 8); n > 0; --n)
    p.add("O", {r.chance(1, 14) ? "openstream" : r.pick(q), std::to_string(r.below(10000))});
}

// ------------------------------------------------ P06: isolation ---------
// A session that is abandoned half way: its input breaks off, it runs out of
// memory, or its text is not Fortran.
std::string abandoned(std::vector<std::string> const &f, FDoc const &d) {
  auto arg = [&](size_t i) { return i < f.size() ? f[i] : std::string(); };
  std::string k = f[0];
  long n = toi(arg(1));
  if (k == "breakoff") {
    fx::Src src(d.text, (uint64_t)n, (int)(n % 50), d.text.empty() ? 0 : n % (long)d.text.size());
    std::istream is(&src);
    fx::File x(is, d.name, 0);
    W->counters[2]++;
    return x ? "accepted" : "refused";
  }
  if (k == "halfparse") { // a version of the text that lacks a line: begins without ends, ends without begins
    std::istringstream all(d.text);
    std::string l, t;
    long lines = std::count(d.text.begin(), d.text.end(), '\n'), drop = lines ? n % lines : 0, at = 0;
    while (std::getline(all, l))
      if (at++ != drop)
        t += l + "\n";
    std::istringstream is(t);
    fx::File x(is, d.name, 0);
    W->counters[5]++;
    if (!x)
      return "refused";
    std::string r = x.parse_tree().empty() ? "no tree" : "tree";
    return r + std::to_string(x.statements().size());
  }
  if (k == "nofile") {
    fx::File x("no/such/file.f90", 0);
    return x ? "accepted" : "refused";
  }
  if (k == "nomem") {
    long const left = 1 + n % 900;
    Fault ft;
    ft.proc = W->proc;
    ft.op = OpClass::ALLOC;
    ft.nth = (int)(W->calls[(int)OpClass::ALLOC] + left);
    ft.eff = Eff::BADALLOC;
    if (W->nfault < MAX_FAULT)
      add_fault(ft);
    std::string r;
    {
      AllocArm arm;
      try {
        FLPR::Logical_File lf;
        std::istringstream is(d.text);
        r = lf.read_and_scan(is, d.name, 0) ? "read" : "refused";
        lf.make_stmts();
      } catch (std::bad_alloc const &) {
        r = "out of memory";
        W->counters[3]++;
      }
    }
    // unless it fired, the fault is void
    for (int i = 0; i < W->nfault; ++i)
      W->fault[i].fired = true;
    return ""; // how far it gets is its own business
  }
  if (k == "junk") {
    static std::vector<std::vector<std::string>> const junk{{"subroutine s", "  x = (1 + ", "  call y('abc", "end"},
                                                            {"zork = = )("},
                                                            {"integer :: &", "  real ::", "end do"},
                                                            {"1.e+", "2.5d", "write(*,*) \"open", "if ("},
                                                            {"a = 1.0e5_", "b = 'x'_", "c = 1_", ";;;", "&", "& &"}};
    FLPR::Logical_File lf;
    lf.scan_free(junk[(size_t)n % junk.size()]);
    lf.make_stmts();
    std::string s = fx::stmts(lf.ll_stmts);
    W->counters[4]++;
    return s;
  }
  return "?";
}
void session(std::vector<Item const *> const &ops, std::vector<FDoc> const &docs, long only, std::vector<std::string> &seen) {
  std::vector<std::unique_ptr<Client>> cl;
  for (auto &d : docs)
    cl.push_back(std::make_unique<Client>(d, d.name));
  for (size_t i = 0; i < ops.size(); ++i) {
    auto const &f = ops[i]->f;
    if (f.size() < 2)
      continue;
    size_t who = (size_t)toi(f[0]) % docs.size();
    if (only >= 0 && (long)who != only)
      continue;
    std::vector<std::string> g(f.begin() + 1, f.end());
    std::string s;
    static std::set<std::string> const ab{"breakoff", "nofile", "nomem", "junk", "halfparse"};
    if (ab.count(g[0])) {
      if (only >= 0 && g[0] == "nomem")
        continue;
      s = abandoned(g, docs[who]);
    } else if (g[0] == "close")
      cl[who] = std::make_unique<Client>(docs[who], docs[who].name);
    else
      s = cl[who]->step(g);
    if (seen.size() < ops.size())
      seen.resize(ops.size());
    seen[i] = s;
  }
}
void p06_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  for (auto &d : docs)
    if (!d.ok || d.ref.stmts.empty()) {
      res.inapplicable = true;
      return;
    }
  if (docs.size() < 1) {
    res.inapplicable = true;
    return;
  }
  for (auto &d : docs)
    set_file(d.name, d.text);
  auto ops = p.of("O");
  auto pr = run_child([&] {
    std::vector<std::string> seen;
    session(ops, docs, -1, seen);
    for (size_t i = 0; i < seen.size(); ++i)
      W->obs_hash = fnv(W->obs_hash, seen[i]);
    for (auto &s : seen)
      blob_put(s);
    return 0;
  });
  if (pr.kind == ProcResult::SIGNAL && W->fired[(int)Eff::BADALLOC][(int)OpClass::ALLOC])
    return; // giving up when memory runs out is allowed
  absorb(pr, res, "sessions");
  if (res.viol)
    return;
  auto all = blob_get();
  // each session alone, in a process of its own with other memory contents
  for (size_t q = 0; q < docs.size(); ++q) {
    W->heap_fill = W->heap_fill < 0 ? 0xa5 : W->heap_fill ^ 0x3c;
    W->blob_len = 0;
    auto ps = run_child([&] {
      std::vector<std::string> seen;
      session(ops, docs, (long)q, seen);
      for (auto &s : seen)
        blob_put(s);
      return 0;
    });
    absorb(ps, res, "a session alone");
    if (res.viol)
      return;
    auto solo = blob_get();
    for (size_t i = 0; i < ops.size() && i < all.size(); ++i) {
      if (ops[i]->f.size() < 2 || (size_t)toi(ops[i]->f[0]) % docs.size() != q || ops[i]->f[1] == "nomem")
        continue;
      std::string a = i < solo.size() ? solo[i] : "";
      W->counters[0]++;
      if (a != all[i]) {
        std::string h;
        for (size_t j = 0; j < i; ++j)
          h += ops[j]->f[0] + ":" + (ops[j]->f.size() > 1 ? ops[j]->f[1] : "") + " ";
        res.fail("session-differs", "session " + std::to_string(q) + " (" + docs[q].name + "), call \"" + ops[i]->f[1] +
                                        "\" answers differently among other sessions (" + h + "): " + diff_text(a, all[i]));
        return;
      }
    }
  }
  res.nontrivial = W->counters[0] >= 2;
  static char const *n[] = {"answers", "", "input-broke-off", "out-of-memory", "junk", "malformed"};
  for (int i = 2; i < 6; ++i)
    if (W->counters[i])
      res.probes[n[i]] += W->counters[i];
}
void p06_gen(Rng &r, Plan &p, bool th) {
  int n = r.range(2, 4);
  for (int i = 0; i < n; ++i) {
    gen::Opts o = gen::random_opts(r);
    o.units = std::min(o.units, 2);
    p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
  }
  random_policies(r, p);
  static std::vector<std::string> const q{"open", "openstream", "text", "stmts", "stmt", "print", "stree", "stree", "tag", "tree", "node", "walk", "procs", "indent",
                                          "split", "isolate", "label", "lead", "emplace", "replace", "tofree", "close", "breakoff", "breakoff", "nofile", "nomem", "nomem", "junk", "junk", "halfparse", "halfparse", "halfparse"};
  for (int k = r.range(4, th ? 30 : 14); k > 0; --k)
    p.add("O", {std::to_string(r.below((uint64_t)n)), r.pick(q), std::to_string(r.below(10000)), std::to_string(r.below(1000))});
}

// ------------------------------------------------ P14: extensions --------
using FLPR::TT_Stream;
enum { MY = Syntax_Tags::CLIENT_EXTENSION };
using namespace FLPR::Stmt;
bool starts(TT_Stream &ts, char const *w) { return gen::lower(ts.peek_tt(1).text()) == w; }
Stmt_Tree write_comma(TT_Stream &ts, int tag) {
  auto p = seq(std::move(tag), tok(Syntax_Tags::KW_WRITE), tag_if(Syntax_Tags::SG_IO_CONTROL_SPEC_LIST, rule(consume_parens)), tok(Syntax_Tags::TK_COMMA),
               opt(list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, rule(output_item))), eol());
  return p(ts);
}
Stmt_Tree ax0(TT_Stream &ts) { return write_comma(ts, Syntax_Tags::SG_WRITE_STMT); }
Stmt_Tree ax1(TT_Stream &ts) { return write_comma(ts, MY + 1); }
template <int T> Stmt_Tree launch1(TT_Stream &ts) {
  if (!starts(ts, "launch"))
    return Stmt_Tree{};
  auto p = seq(MY + T, name(), name(), eol());
  return p(ts);
}
Stmt_Tree ax4(TT_Stream &ts) {
  if (!starts(ts, "launch"))
    return Stmt_Tree{};
  auto p = seq(MY + 4, name(), name(), name(), eol());
  return p(ts);
}
// finds out late that the statement is not its own
Stmt_Tree sloppy(TT_Stream &ts) {
  ts.consume();
  if (!ts.is_eol())
    ts.consume();
  return Stmt_Tree{};
}
Stmt_Tree ax6(TT_Stream &ts) {
  if (!starts(ts, "launch"))
    return Stmt_Tree{};
  auto p = seq(MY + 6, name(), name(), opt(name()), eol());
  return p(ts);
}
template <int T> Stmt_Tree statics(TT_Stream &ts) {
  if (!starts(ts, "static"))
    return Stmt_Tree{};
  auto p = seq(MY + T, name(), tok(Syntax_Tags::TK_DBL_COLON), list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, name()), eol());
  return p(ts);
}
Stmt_Tree sx2(TT_Stream &ts) {
  if (!starts(ts, "saveall"))
    return Stmt_Tree{};
  auto p = seq(MY + 12, name(), tok(Syntax_Tags::TK_SLASHF), name(), tok(Syntax_Tags::TK_SLASHF), eol());
  return p(ts);
}
struct Ext {
  Parser_Exts::stmt_parser f;
  int tag;
  char const *accepts; // statement classes
};
Ext const AX[] = {{ax0, Syntax_Tags::SG_WRITE_STMT, "0"}, {ax1, MY + 1, "0"}, {launch1<2>, MY + 2, "1"}, {launch1<3>, MY + 3, "1"}, {ax4, MY + 4, "2"}, {sloppy, -1, ""}, {ax6, MY + 6, "12"}};
Ext const SX[] = {{statics<10>, MY + 10, "5"}, {statics<11>, MY + 11, "5"}, {sx2, MY + 12, "6"}, {sloppy, -1, ""}};
// which class of extension statement a text is; 0 if it is standard
char ext_class(std::string c) {
  c = gen::lower(c);
  if (c.compare(0, 2, "if") == 0) {
    size_t k = c.find(")", 0);
    c = k == std::string::npos ? c : c.substr(k + 1);
  }
  if (c.compare(0, 11, "write(*,*),") == 0)
    return '0';
  if (c.compare(0, 8, "launchk_") == 0)
    return c.find("_x") != std::string::npos ? '2' : '1';
  if (c.compare(0, 8, "static::") == 0)
    return '5';
  if (c.compare(0, 8, "saveall/") == 0)
    return '6';
  return 0;
}
struct Registry {
  std::vector<int> a, s;
  int find(char cls) const {
    bool spec = cls == '5' || cls == '6';
    for (int i : spec ? s : a)
      if (strchr((spec ? SX : AX)[i].accepts, cls))
        return (spec ? SX : AX)[i].tag;
    return -1;
  }
};
struct Held {
  std::unique_ptr<fx::File> pf;
  std::vector<int> tag; // expected, per statement; -1: standard
};
std::string check_ext(FLPR::LL_Stmt &s, int tag, char cls) {
  auto const &t = s.stmt_tree();
  if (t.empty())
    return "has no statement tree";
  auto c = t.ccursor();
  bool spec = cls == '5' || cls == '6';
  if (c->syntag != (spec ? Syntax_Tags::SG_OTHER_SPECIFICATION_STMT : Syntax_Tags::SG_ACTION_STMT))
    return "is taken for " + tagname(c->syntag);
  c.down();
  if (c->syntag == Syntax_Tags::SG_IF_STMT) {
    c.down();
    while (c.try_next())
      ;
    if (c->syntag != Syntax_Tags::SG_ACTION_STMT)
      return "has no action";
    c.down();
  }
  if (c->syntag != tag)
    return "is recognised as " + tagname(c->syntag) + ", the first registered parser that accepts it says " + tagname(tag);
  std::string leaves;
  std::function<void(STree::const_reference)> walk = [&](auto const &n) {
    if (n.is_leaf()) {
      for (auto i = n->token_range.cbegin(); i != n->token_range.cend(); ++i)
        leaves += i->text();
      return;
    }
    for (auto const &b : n.branches())
      walk(b);
  };
  walk(*t);
  if (leaves != fx::canon(s))
    return "the tree reads " + leaves;
  return "";
}
int p14_run(Plan const &p, std::vector<FDoc> const &docs) {
  auto &ex = get_parser_exts();
  Registry m;
  std::map<int, std::pair<std::string, int>> labels;
  std::vector<std::string> golden(docs.size());
  std::vector<std::vector<char>> cls(docs.size());
  for (size_t i = 0; i < docs.size(); ++i) {
    bool any = false;
    for (auto &s : docs[i].ref.stmts) {
      cls[i].push_back(ext_class(s.canon));
      any |= cls[i].back() != 0;
    }
    for (int t = 0; !any && t < 4 && (t == 0 || golden[i] == "bad"); ++t)
      golden[i] = Client(docs[i], docs[i].name).step({"tree"});
  }
  std::vector<Held> held(docs.size());
  auto ops = p.of("O");
  for (size_t o = 0; o < ops.size(); ++o) {
    auto arg = [&](size_t i) { return i < ops[o]->f.size() ? ops[o]->f[i] : std::string(); };
    std::string k = arg(0);
    size_t n = (size_t)toi(arg(1));
    std::string hist;
    for (size_t j = 0; j <= o; ++j)
      hist += ops[j]->f[0] + ":" + (ops[j]->f.size() > 1 ? ops[j]->f[1] : "") + " ";
    auto bad = [&](char const *c, std::string const &msg) {
      child_fail(c, msg + " (history: " + hist + ")");
      return 1;
    };
    if (k == "action") {
      m.a.push_back((int)(n % 7));
      ex.register_action_stmt(AX[n % 7].f);
    } else if (k == "spec") {
      m.s.push_back((int)(n % 4));
      ex.register_other_specification_stmt(SX[n % 4].f);
    } else if (k == "clear") {
      m = Registry{};
      ex.clear();
    } else if (k == "label") {
      int t = MY + (int)(n % 13);
      if (!labels.count(t)) {
        std::string l = "my-" + std::to_string(n);
        labels[t] = {l, 5};
        if (!Syntax_Tags::register_ext(t, l.c_str(), 5))
          return bad("label", "a label is refused");
      }
      for (int i = 0; i < 14; ++i) {
        auto f = labels.find(MY + i);
        std::string want = f == labels.end() ? "<client-extension+" + std::to_string(i) + ">" : f->second.first;
        if (Syntax_Tags::label(MY + i) != want || tagname(MY + i) != want || Syntax_Tags::type(MY + i) != (f == labels.end() ? 4 : 5))
          return bad("label", "the label of extension " + std::to_string(i) + " is " + Syntax_Tags::label(MY + i) + " instead of " + want);
      }
    } else if (k == "parse") {
      size_t q = n % docs.size();
      Held h;
      h.pf = std::make_unique<fx::File>(docs[q].name, 0);
      if (!*h.pf)
        continue; // an injected read failure
      bool want = true;
      for (char c : cls[q]) {
        int t = c ? m.find(c) : -1;
        if (c && t < 0)
          want = false;
        h.tag.push_back(t);
      }
      bool got = h.pf->prefetch_parse_tree();
      W->obs_hash = fnv(W->obs_hash, got ? "1" : "0");
      if (got != want)
        return bad("acceptance", docs[q].name + (got ? " is accepted although no registered parser knows one of its statements" : " is refused"));
      W->counters[0]++;
      if (!got) {
        W->counters[1]++;
        continue;
      }
      if (!golden[q].empty() && golden[q] != "bad") {
        Index ix(h.pf->statements());
        std::string s;
        dump_tree(*h.pf->parse_tree(), ix, s, 0);
        if (s != golden[q])
          return bad("standard-affected", "the tree of a file without extensions changed: " + diff_text(golden[q], s));
      }
      size_t i = 0;
      for (auto &s : h.pf->statements()) {
        if (i < cls[q].size() && cls[q][i]) {
          std::string e = check_ext(s, h.tag[i], cls[q][i]);
          if (!e.empty())
            return bad("recognition", "\"" + fx::canon(s) + "\" " + e);
          W->counters[2]++;
        }
        ++i;
      }
      held[q] = std::move(h);
    } else if (k == "query" || k == "again" || k == "retext") {
      size_t q = n % docs.size();
      if (!held[q].pf || cls[q].empty())
        continue;
      size_t i = (size_t)toi(arg(2)) % cls[q].size();
      // the next extension statement
      for (size_t t = 0; t < cls[q].size() && !cls[q][i]; ++t)
        i = (i + 1) % cls[q].size();
      if (!cls[q][i])
        continue;
      auto it = std::next(held[q].pf->statements().begin(), (long)i);
      if (k != "query") {
        int t = m.find(cls[q][i]);
        if (t < 0)
          continue;
        bool in_if = gen::lower(fx::canon(*it)).compare(0, 2, "if") == 0;
        if (k == "retext") {
          bool plain = !in_if && it->is_compound() == 0 && cls[q][i] == '1';
          for (auto const &fl : it->ll().layout())
            plain &= fl.is_fortran();
          if (!plain)
            continue;
          held[q].pf->logical_file().replace_stmt_text(it, {"launch k_9"}, it->syntax_tag());
        } else
          it->drop_stmt_tree();
        held[q].tag[i] = t;
        W->counters[3]++;
      }
      std::string e = check_ext(*it, held[q].tag[i], cls[q][i]);
      if (!e.empty())
        return bad(k == "query" ? "held-changed" : "reparse", "\"" + fx::canon(*it) + "\" " + e);
    }
  }
  return 0;
}
void p14_exec(Plan const &p, Result &res) {
  auto docs = load_docs(p);
  for (auto &d : docs)
    if (!d.ref.ok || d.ref.stmts.empty())
      res.inapplicable = true;
  if (docs.empty())
    res.inapplicable = true;
  // deleting lines (while minimising) must leave a program with extensions in their places
  for (auto &d : docs) {
    bool ext = false;
    for (auto &s : d.ref.stmts)
      ext |= ext_class(s.canon) != 0;
    if (!ext && !d.ok)
      res.inapplicable = true;
    if (!ext)
      continue;
    auto std_lines = d.ref; // the same program in standard Fortran
    bool exec = false;
    for (auto &s : std_lines.stmts) {
      char c = ext_class(s.canon);
      if (s.canon.compare(0, 3, "end") == 0)
        exec = false;
      if (c == '5' || c == '6') {
        if (exec)
          res.inapplicable = true;
        s.canon = "integer::q";
      } else if (c)
        s.canon = gen::lower(s.canon).compare(0, 2, "if") == 0 ? "if(x>0)callp" : "callp";
      if (s.canon.compare(0, 4, "call") == 0 || s.canon.compare(0, 2, "if") == 0 || s.canon.find('=') != std::string::npos)
        exec = true;
    }
    std::vector<gen::Proc> ps;
    if (!gen::procs(std_lines, ps))
      res.inapplicable = true;
  }
  if (res.inapplicable)
    return;
  for (auto &d : docs)
    set_file(d.name, d.text);
  auto pr = run_child([&] { return p14_run(p, docs); });
  absorb(pr, res, "extensions");
  res.nontrivial = W->counters[0] >= 1;
  static char const *n[] = {"parsed", "refused", "recognised", "parsed-again"};
  for (int i = 0; i < 4; ++i)
    if (W->counters[i])
      res.probes[n[i]] += W->counters[i];
}
std::vector<std::string> ext_doc(Rng &r) {
  std::vector<std::string> v;
  auto num = [&] { return std::to_string(r.range(1, 9)); };
  auto ind = [&] { return std::string((size_t)r.below(8), ' '); };
  auto brk = [&](std::string a, std::string b) { // a statement, perhaps continued
    if (!r.chance(1, 4)) {
      v.push_back(ind() + a + " " + b);
      return;
    }
    v.push_back(ind() + a + " &");
    if (r.chance(1, 3))
      v.push_back("! between");
    v.push_back(ind() + (r.chance(1, 2) ? "& " : "") + b);
  };
  for (int u = r.range(1, 2); u > 0; --u) {
    v.push_back("subroutine s" + std::to_string(u));
    for (int i = r.range(0, 3); i > 0; --i)
      switch (r.below(4)) {
      case 0:
        v.push_back(ind() + "integer :: i" + num());
        break;
      case 1:
        brk("static", ":: q" + num() + (r.chance(1, 2) ? ", w2" : ""));
        break;
      case 2:
        brk("saveall / c" + num(), "/");
        break;
      default:
        v.push_back("! remark");
      }
    bool any = false;
    for (int i = r.range(1, 5); i > 0; --i) {
      std::string pre = r.chance(1, 4) ? "if (x > 0) " : "";
      if (pre.empty() && r.chance(1, 6))
        pre = std::to_string(10 * i) + " ";
      any = true;
      switch (r.below(6)) {
      case 0:
        brk(pre + "write(*,*),", "a" + num() + (r.chance(1, 2) ? ", b" : ""));
        break;
      case 1:
        brk(pre + "launch", "k_" + num());
        break;
      case 2:
        brk(pre + "Launch k_" + num(), "z_x" + num());
        break;
      case 3:
        v.push_back(ind() + pre + "launch k_" + num() + (r.chance(1, 2) ? "; call std" : "; y = 2"));
        break;
      case 4:
        v.push_back(ind() + "x = x + " + num());
        break;
      default:
        v.push_back(ind() + "call std(" + num() + ")");
      }
    }
    (void)any;
    v.push_back("end subroutine s" + std::to_string(u));
  }
  return v;
}
void p14_gen(Rng &r, Plan &p, bool th) {
  int n = r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (i == 1) {
      gen::Opts o = gen::random_opts(r);
      p.doc(gen_name(r, i, o.fixed), gen::document(r, o));
    } else
      p.doc(gen_name(r, i, false), ext_doc(r));
  }
  random_policies(r, p);
  bool warm = r.chance(2, 3); // most statements known from the start
  if (warm)
    for (int i : {0, 2, 4})
      p.add("O", {"action", std::to_string(i + (i < 4 ? (int)r.below(2) : 0))});
  if (warm) {
    p.add("O", {"spec", std::to_string(r.below(2))});
    p.add("O", {"spec", "2"});
  }
  for (int k = r.range(3, th ? 40 : 16); k > 0; --k) {
    std::string x = std::to_string(r.below(1000));
    switch (r.below(warm ? 12 : 9)) {
    case 0:
    case 1:
      p.add("O", {"action", x});
      break;
    case 2:
      p.add("O", {"spec", x});
      break;
    case 3:
      if (r.chance(1, 2))
        p.add("O", {"clear", ""});
      break;
    case 4:
      p.add("O", {"label", x});
      break;
    case 5:
    case 6:
    case 7:
      p.add("O", {"parse", x});
      break;
    default:
      p.add("O", {r.chance(1, 3) ? "query" : r.chance(1, 2) ? "again" : "retext", x, std::to_string(r.below(1000))});
    }
  }
  if (r.chance(1, 4)) {
    Fault f;
    f.proc = 0;
    f.op = OpClass::READ;
    f.nth = r.range(0, 8);
    f.eff = Eff::ERR;
    f.arg = EIO;
    p.fault(f);
  }
}

std::vector<Scenario> const v{
    {"P06", p06_gen, p06_exec},
    {"P09", p09_gen, p09_exec},
    {"P14", p14_gen, p14_exec},
};
} // namespace
std::vector<Scenario> const &scenarios_state() { return v; }
