// Scenario on the containers everything else is built from (P19): lists with a
// concrete end, ranges and trees, edited by several holders of positions while
// allocations fail; checked against plain models after every step.
#include "common.hh"
#include "flpr/Safe_List.hh"
#include "flpr/Tree.hh"
#include <functional>
#include <memory>
#include <sstream>
using namespace sim;

namespace {
struct V { // copying allocates
  int id = -1;
  std::string pad;
  V() = default;
  explicit V(int i) : id(i), pad("the text of element " + std::to_string(i) + " is longer than a small string") {}
  bool operator==(V const &o) const { return id == o.id && pad == o.pad; }
  bool intact() const { return *this == V(id); }
};
std::ostream &operator<<(std::ostream &os, V const &v) { return os << v.id; }

using L = FLPR::Safe_List<V>;
using R = FLPR::SL_Range<V>;
using T = FLPR::Tree<V>;
using N = T::node;

struct LHold { // somebody's position in a list
  L::iterator it;
  size_t list;
  int id; // -1: the end
};
struct RHold { // somebody's part of a list
  R r;
  size_t list;
  std::vector<int> ids;
};
struct MList {
  std::unique_ptr<L> l;
  std::vector<int> m;
};
// model of a tree: places (which positions denote) and what is in them
struct MNode {
  int val = 0;
  MNode *up = nullptr;
  std::vector<std::unique_ptr<MNode>> kids;
  size_t index() const {
    for (size_t i = 0; i < up->kids.size(); ++i)
      if (up->kids[i].get() == this)
        return i;
    return 9999;
  }
  size_t size() const {
    size_t n = 1;
    for (auto &k : kids)
      n += k->size();
    return n;
  }
  void own() {
    for (auto &k : kids)
      k->up = this;
  }
  std::string str() const {
    std::string s = std::to_string(val);
    if (!kids.empty()) {
      s += " <";
      for (auto &k : kids)
        s += k->str() + " ";
      s += ">";
    }
    return s;
  }
};
struct THold {
  T::cursor_t c;
  MNode *at;
};
struct MTree {
  T t;
  std::unique_ptr<MNode> m;
};

class Run {
  std::vector<MList> ls;
  std::vector<LHold> lh;
  std::vector<RHold> rh;
  std::vector<MTree> ts;
  std::vector<THold> th;
  std::string hist;
  int next_id = 1;

  bool bad(char const *cls, std::string const &msg) {
    child_fail(cls, msg + " (history: " + hist + ")");
    return false;
  }
  // true: done, false: out of memory
  template <class F> bool attempt(F f) {
    try {
      AllocArm arm;
      f();
      return true;
    } catch (std::bad_alloc const &) {
      W->counters[1]++;
      return false;
    }
  }
  static std::string ids(std::vector<int> const &v) {
    std::string s;
    for (int i : v)
      s += std::to_string(i) + " ";
    return s;
  }
  L::iterator pos(size_t i, size_t k) { return std::next(ls[i].l->begin(), (long)k); }
  template <class P> void drop_l(P p) { lh.erase(std::remove_if(lh.begin(), lh.end(), p), lh.end()); }
  template <class P> void drop_r(P p) { rh.erase(std::remove_if(rh.begin(), rh.end(), p), rh.end()); }
  void drop_r_of(size_t i) {
    drop_r([&](RHold const &h) { return h.list == i; });
  }
  void drop_r_ending(size_t i, int last) {
    drop_r([&](RHold const &h) { return h.list == i && h.ids.back() == last; });
  }
  void drop_r_with(int id) {
    drop_r([&](RHold const &h) { return std::find(h.ids.begin(), h.ids.end(), id) != h.ids.end(); });
  }
  // elements came in at index x; done before the model knows of them
  void inserted(size_t i, size_t x, std::vector<int> const &add, bool join) {
    auto &m = ls[i].m;
    size_t const n = add.size();
    if (!n)
      return;
    drop_r([&](RHold &h) {
      if (h.list != i)
        return false;
      size_t const p = (size_t)(std::find(m.begin(), m.end(), h.ids.front()) - m.begin()), q = p + h.ids.size();
      if (x == p && join) {
        R adj = n == 1 ? R(pos(i, x)) : R(pos(i, x), pos(i, x + n));
        h.r.push_front(adj);
        h.ids.insert(h.ids.begin(), add.begin(), add.end());
      }
      return x > p && x <= q;
    });
  }
  template <class P> void drop_t(P p) { th.erase(std::remove_if(th.begin(), th.end(), p), th.end()); }
  void drop_tree(MNode const *n) {
    drop_t([&](THold const &h) { return h.at == n; });
    for (auto &k : n->kids)
      drop_tree(k.get());
  }
  static MNode *nth(MNode *n, size_t &k) {
    if (k-- == 0)
      return n;
    for (auto &c : n->kids)
      if (MNode *r = nth(c.get(), k))
        return r;
    return nullptr;
  }
  static MNode *pick(MNode *n, size_t k) {
    k %= n->size();
    return nth(n, k);
  }
  static bool within(MNode const *x, MNode const *top) {
    for (; x; x = x->up)
      if (x == top)
        return true;
    return false;
  }
  static MNode const *root_of(MNode const *x) {
    while (x->up)
      x = x->up;
    return x;
  }
  T::cursor_t walk_to(MTree &t, MNode const *n) {
    std::vector<size_t> path;
    for (; n->up; n = n->up)
      path.push_back(n->index());
    auto c = t.t.cursor();
    for (; !path.empty(); path.pop_back()) {
      c.down();
      c.next((int)path.back());
    }
    return c;
  }

  // ---- checks ----
  bool check_list(size_t i) {
    L &l = *ls[i].l;
    auto &m = ls[i].m;
    std::vector<int> got;
    size_t guard = m.size() + 3;
    for (auto it = l.begin(); it != l.end() && guard--; ++it) {
      got.push_back(it->id);
      if (!it->intact())
        return bad("list-element", "an element of list " + std::to_string(i) + " is damaged");
    }
    if (got != m)
      return bad("list-contents", "list " + std::to_string(i) + " holds " + ids(got) + "instead of " + ids(m));
    L const &c = l;
    if (l.size() != m.size() || l.empty() != m.empty())
      return bad("list-size", "list " + std::to_string(i) + " reports size " + std::to_string(l.size()) + " with " + std::to_string(m.size()) + " elements");
    if (!m.empty() && (l.front().id != m.front() || l.back().id != m.back() || c.front().id != m.front() || c.back().id != m.back()))
      return bad("list-ends", "front or back of list " + std::to_string(i));
    if (c.begin() != l.cbegin() || c.end() != l.cend() || (size_t)std::distance(c.begin(), c.end()) != m.size())
      return bad("list-contents", "const view of list " + std::to_string(i));
    return true;
  }
  bool check_lh() {
    for (auto &h : lh) {
      auto &m = ls[h.list].m;
      L &l = *ls[h.list].l;
      if (h.id < 0) {
        if (h.it != l.end())
          return bad("end-lost", "a stored end of list " + std::to_string(h.list) + " is no longer its end");
        continue;
      }
      if (h.it->id != h.id || !h.it->intact())
        return bad("position-lost", "a stored position of element " + std::to_string(h.id) + " denotes " + std::to_string(h.it->id));
      size_t k = (size_t)(std::find(m.begin(), m.end(), h.id) - m.begin()), n = 0;
      for (auto it = h.it; it != l.end() && n <= m.size(); ++it)
        ++n;
      if (k + n != m.size())
        return bad("position-lost", "a stored position of element " + std::to_string(h.id) + " is not in its list");
    }
    return true;
  }
  bool check_rh() {
    for (auto &h : rh) {
      R const &c = h.r;
      size_t n = 0;
      bool ok = c.size() == h.ids.size() && !c.empty() && c.front().id == h.ids.front() && c.back().id == h.ids.back();
      for (auto it = h.r.begin(); ok && it != h.r.end(); ++it, ++n)
        ok = n < h.ids.size() && it->id == h.ids[n];
      if (!ok || n != h.ids.size() || c.end() != std::next(c.last()))
        return bad("range-lost", "a held range over " + ids(h.ids) + "shows something else");
    }
    return true;
  }
  bool at(T::cursor_t c, MNode const *m, bool deep) {
    if (!c)
      return bad("cursor", "a position is not associated");
    if (c->id != m->val || !c->intact())
      return bad("tree-contents", "place of " + std::to_string(m->val) + " holds " + std::to_string(c->id));
    if (c.num_branches() != m->kids.size() || c.is_leaf() != m->kids.empty() || c.is_fork() == m->kids.empty() || c.has_down() == m->kids.empty())
      return bad("tree-shape", "number of branches at " + std::to_string(m->val));
    if (c.is_root() != !m->up || c.has_up() != (m->up != nullptr))
      return bad("tree-shape", "root or not at " + std::to_string(m->val));
    size_t const i = m->up ? m->index() : 0, n = m->up ? m->up->kids.size() : 1;
    if (c.has_prev() != (i > 0) || c.has_next() != (i + 1 < n))
      return bad("tree-shape", "neighbours of " + std::to_string(m->val));
    T::const_cursor_t k(c);
    if (k->id != m->val || k.has_prev() != (i > 0) || k.has_next() != (i + 1 < n) || k.num_branches() != m->kids.size() || k.is_root() != !m->up || k.has_down() == m->kids.empty())
      return bad("tree-shape", "const position of " + std::to_string(m->val));
    auto step = c;
    bool const far = step.try_next((int)(n - i));
    if (far || step->id != (m->up ? m->up->kids.back()->val : m->val))
      return bad("tree-walk", "walking past the last branch behind " + std::to_string(m->val));
    if (i) {
      step = c;
      step.prev((int)i);
      if (step->id != m->up->kids.front()->val || step.has_prev())
        return bad("tree-walk", "walking back from " + std::to_string(m->val));
    }
    size_t depth = 0;
    for (MNode const *q = m; !q->kids.empty(); q = q->kids.front().get())
      ++depth;
    step = c;
    if (step.try_down((int)depth + 1))
      return bad("tree-walk", "below the leaves of " + std::to_string(m->val));
    step = c;
    if (!step.try_down((int)depth) || step.is_fork())
      return bad("tree-walk", "down from " + std::to_string(m->val));
    auto kk = k;
    if (!kk.try_down((int)depth) || kk.is_fork())
      return bad("tree-walk", "down from " + std::to_string(m->val));
    size_t height = 0;
    MNode const *q = m;
    for (; q->up; q = q->up)
      ++height;
    step = c;
    step.up((int)height);
    if (step->id != q->val || !step.is_root())
      return bad("tree-walk", "up from " + std::to_string(m->val));
    if (deep) {
      if (c.node().size() != m->size())
        return bad("tree-size", "size below " + std::to_string(m->val));
      for (size_t j = 0; j < m->kids.size(); ++j) {
        auto d = c;
        d.down();
        d.next((int)j);
        if (!at(d, m->kids[j].get(), true))
          return false;
      }
    }
    return true;
  }
  bool check_trees() {
    for (size_t i = 0; i < ts.size(); ++i) {
      auto &t = ts[i];
      T const &ct = t.t;
      if (!t.m) {
        if (t.t || !t.t.empty() || t.t.size() != 0)
          return bad("tree-empty", "tree " + std::to_string(i) + " should be empty");
        continue;
      }
      if (!t.t || t.t.empty() || t.t.size() != t.m->size())
        return bad("tree-size", "size of tree " + std::to_string(i));
      if (!at(t.t.cursor(), t.m.get(), true))
        return false;
      if (ct.ccursor()->id != t.m->val || (**t.t).id != t.m->val || ct.root()->self() != ct.croot())
        return bad("tree-root", "root of tree " + std::to_string(i));
      std::ostringstream os;
      os << ct;
      if (os.str() != t.m->str())
        return bad("tree-text", "tree " + std::to_string(i) + " prints " + os.str() + " instead of " + t.m->str());
      W->obs_hash = fnv(W->obs_hash, os.str());
    }
    for (auto &h : th)
      if (!at(h.c, h.at, false))
        return false;
    return true;
  }

  // ---- steps on lists ----
  bool list_step(std::string const &k, size_t a, size_t b, size_t c) {
    size_t const i = a % ls.size(), j = (i + 1 + b % 7) % ls.size();
    L &l = *ls[i].l;
    auto &m = ls[i].m;
    size_t const n = m.size();
    if (k == "hold") {
      size_t x = b % (n + 1);
      if (x == n)
        lh.push_back({l.end(), i, -1});
      else
        lh.push_back({pos(i, x), i, m[x]});
    } else if (k == "add") {
      V v(next_id++);
      int const id = v.id;
      size_t x = b % (n + 1);
      L::iterator r = l.end();
      bool at_pos = false, done = false;
      switch (c % 8) {
      case 0:
        done = attempt([&] { l.push_back(v); });
        x = n;
        break;
      case 1:
        done = attempt([&] { l.push_back(std::move(v)); });
        x = n;
        break;
      case 2:
        done = attempt([&] { if (l.emplace_back(id).id != id) bad("list-add", "emplace_back returns another element"); });
        x = n;
        break;
      case 3:
        done = attempt([&] { if (l.emplace_front(id).id != id) bad("list-add", "emplace_front returns another element"); });
        x = 0;
        break;
      case 4:
        done = attempt([&] { r = l.insert(pos(i, x), v); });
        at_pos = true;
        break;
      case 5:
        done = attempt([&] { r = l.insert(pos(i, x), std::move(v)); });
        at_pos = true;
        break;
      case 6:
        done = attempt([&] { r = l.emplace(pos(i, x), id); });
        at_pos = true;
        break;
      default: {
        // in front of a held position of this list
        for (auto &h : lh)
          if (h.list == i && b % 3 == 0) {
            x = h.id < 0 ? n : (size_t)(std::find(m.begin(), m.end(), h.id) - m.begin());
            L::iterator w = h.it;
            done = attempt([&] { r = l.insert(w, v); });
            at_pos = true;
            break;
          }
        if (!at_pos) {
          done = attempt([&] { r = l.insert(l.end(), v); });
          x = n, at_pos = true;
        }
      }
      }
      if (done) {
        inserted(i, x, {id}, c / 8 % 2);
        m.insert(m.begin() + (long)x, id);
        if (at_pos && r->id != id)
          return bad("list-add", "the position given back is not that of the new element");
      }
    } else if (k == "range") { // a few elements of another list
      if (i == j)
        return true;
      auto &s = ls[j].m;
      size_t from = s.empty() ? 0 : b % s.size(), len = s.empty() ? 0 : c % (s.size() - from + 1), x = (b / 7) % (n + 1);
      std::vector<V> src;
      for (size_t q = 0; q < len; ++q)
        src.emplace_back(next_id++);
      if (attempt([&] { l.insert(pos(i, x), src.begin(), src.end()); })) {
        std::vector<int> add;
        for (auto &v : src)
          add.push_back(v.id);
        inserted(i, x, add, c % 2);
        m.insert(m.begin() + (long)x, add.begin(), add.end());
      }
    } else if (k == "del") {
      if (!n)
        return true;
      size_t x = b % n, y = x + 1;
      if (c % 5 == 0)
        x = n - 1, y = n;
      else if (c % 5 == 1)
        y = x + (b / 3) % (n - x + 1);
      for (size_t q = x; q < y; ++q) {
        drop_l([&](LHold const &h) { return h.id == m[q]; });
        drop_r_with(m[q]);
      }
      // (the element a range ends in front of is held by it, too)
      if (y > x && x > 0)
        drop_r_ending(i, m[x - 1]);
      if (c % 5 == 0)
        l.pop_back();
      else if (c % 5 == 1) {
        auto r = l.erase(pos(i, x), pos(i, y));
        if (y == n ? r != l.end() : r->id != m[y])
          return bad("list-del", "erase gives back another position");
      } else {
        auto r = l.erase(pos(i, x));
        if (y == n ? r != l.end() : r->id != m[y])
          return bad("list-del", "erase gives back another position");
      }
      m.erase(m.begin() + (long)x, m.begin() + (long)y);
    } else if (k == "filter") {
      int const mod = 1 + (int)(b % 4), rest = (int)(c % 5) - 1;
      auto gone = [&](int id) { return mod == 1 || id % mod == rest; };
      bool foreign = false;
      drop_l([&](LHold const &h) { return h.list == i && h.id >= 0 && gone(h.id); });
      for (size_t q = 0; q < n; ++q)
        if (gone(m[q])) {
          drop_r_with(m[q]);
          if (q)
            drop_r_ending(i, m[q - 1]);
        }
      if (!attempt([&] {
            l.remove_if([&](V const &v) {
              foreign |= std::find(m.begin(), m.end(), v.id) == m.end();
              return gone(v.id);
            });
          }))
        return bad("list-filter", "removing elements runs out of memory");
      if (foreign)
        return bad("list-filter", "the condition was asked about something that is not an element");
      m.erase(std::remove_if(m.begin(), m.end(), gone), m.end());
    } else if (k == "clear") {
      drop_l([&](LHold const &h) { return h.list == i && h.id >= 0; });
      drop_r_of(i);
      if (!attempt([&] { l.clear(); }))
        return bad("list-clear", "clear runs out of memory");
      m.clear();
    } else if (k == "copy") {
      std::vector<int> old = m;
      drop_r_of(i);
      if (c % 2) {
        std::unique_ptr<L> x;
        if (attempt([&] { x = std::make_unique<L>(*ls[j].l); })) {
          drop_l([&](LHold const &h) { return h.list == i; });
          ls[i].l = std::move(x);
          m = ls[j].m;
        } else
          return true;
      } else {
        drop_l([&](LHold const &h) { return h.list == i; });
        L &src = *ls[b % 5 ? j : i].l;
        auto want = ls[b % 5 ? j : i].m;
        if (attempt([&] { l = src; }))
          m = want;
        else { // some mixture, but a list
          size_t guard = n + want.size() + 2;
          m.clear();
          for (auto it = l.begin(); it != l.end() && guard; ++it, --guard)
            m.push_back(it->id);
          if (!guard)
            return bad("list-copy", "a failed copy leaves a list without end");
          for (int x : m)
            if (std::find(old.begin(), old.end(), x) == old.end() && std::find(want.begin(), want.end(), x) == want.end())
              return bad("list-copy", "a failed copy leaves element " + std::to_string(x));
          // the elements of two lists have the same names now; give them up
          l.clear();
          m.clear();
        }
      }
      L &now = *ls[i].l;
      std::vector<int> got;
      for (auto it = now.begin(); it != now.end() && got.size() <= m.size(); ++it)
        got.push_back(it->id);
      if (got != m || now.size() != m.size())
        return bad("list-copy", "the copy has other elements");
      if (!(now == *ls[j].l) && m == ls[j].m)
        return bad("list-equal", "a list is not equal to its copy");
      // elements are told apart by their names
      for (auto it = now.begin(); it != now.end(); ++it)
        *it = V(next_id++);
      m.clear();
      for (auto &v : now)
        m.push_back(v.id);
      if (now == *ls[j].l && i != j && m != ls[j].m)
        return bad("list-equal", "different lists compare equal");
    } else if (k == "move") {
      if (i == j)
        return true;
      drop_l([&](LHold const &h) { return h.list == i; });
      drop_r_of(i);
      bool done;
      if (c % 2) {
        std::unique_ptr<L> x;
        done = attempt([&] { x = std::make_unique<L>(std::move(*ls[j].l)); });
        if (done)
          ls[i].l = std::move(x);
      } else
        done = attempt([&] { l = std::move(*ls[j].l); });
      if (done) {
        m = std::move(ls[j].m);
        ls[j].m.clear();
        for (auto &h : lh)
          if (h.list == j)
            h.list = i;
        for (auto &h : rh)
          if (h.list == j)
            h.list = i;
      } else {
        // as before, or moved
        if (c % 2 == 0) { // what becomes of the old contents is open
          l.clear();
          m.clear();
        }
      }
    } else if (k == "view") {
      size_t x = b % (n + 1), y = x + (b / 5) % (n - x + 1), z = y + c % (n - y + 1);
      R r1(pos(i, x), pos(i, y)), r2(pos(i, y), pos(i, z)), all(pos(i, x), pos(i, z));
      auto is = [&](R &r, size_t p, size_t q) {
        if (r.size() != q - p || r.empty() != (p == q) || std::distance(r.begin(), r.end()) != (long)(q - p))
          return false;
        for (auto it = r.begin(); it != r.end(); ++it, ++p)
          if (it->id != m[p])
            return false;
        return r.empty() || (r.front().id == m[q - r.size()] && r.back().id == m[q - 1] && r.last()->id == m[q - 1]);
      };
      if (!is(r1, x, y) || !is(r2, y, z) || !is(all, x, z))
        return bad("range", "a range does not show its part of the list");
      R j1 = r1, j2 = r2;
      j1.push_back(r2);
      j2.push_front(r1);
      if (!is(j1, x, z) || !is(j2, x, z))
        return bad("range", "joined ranges");
      if (x != y && y != z && (!j1.equal(all) || !j2.equal(all) || j1.equal(r1)))
        return bad("range", "equality of ranges");
      L copy(l);
      R moved = FLPR::rebase(l.cbegin(), all, copy.begin());
      if (!is(moved, x, z) || (x != z && &moved.front() == &all.front()))
        return bad("range", "range in a copy of the list");
      R whole(l);
      if (!is(whole, 0, n))
        return bad("range", "range over the whole list");
      if (x != z)
        rh.push_back({all, i, std::vector<int>(m.begin() + (long)x, m.begin() + (long)z)});
      FLPR::SL_Range_Iterator<V> it(all);
      size_t seen = 0;
      for (; it; it.advance(), ++seen)
        if (it->id != m[x + seen])
          return bad("range", "iteration over a range");
      if (seen != z - x || it.advance())
        return bad("range", "iteration over a range ends early or late");
      FLPR::SL_Const_Range<V> cr(l);
      if (cr.size() != n || cr.empty() != (n == 0) || (n && (cr.front().id != m.front() || cr.back().id != m.back())))
        return bad("range", "const range");
      R no;
      if (!no.empty() || no.size())
        return bad("range", "a default range is not empty");
      no.push_back(all);
      if (!is(no, x, z))
        return bad("range", "assigned range");
      no.clear(pos(i, y));
      if (!no.empty() || no.begin() != pos(i, y) || no.end() != pos(i, y))
        return bad("range", "cleared range");
    }
    return true;
  }

  // ---- steps on trees ----
  bool tree_step(std::string const &k, size_t a, size_t b, size_t c) {
    size_t const i = a % ts.size(), j = (i + 1 + b % 7) % ts.size();
    MTree &t = ts[i];
    if (k == "thold") {
      if (t.m) {
        MNode *n = pick(t.m.get(), b);
        th.push_back({walk_to(t, n), n});
      }
    } else if (k == "plant") {
      V v(next_id++);
      V const cv(v);
      int const id = v.id;
      T x;
      if (attempt([&] {
            switch (c % 3) {
            case 0:
              x = T(std::move(v));
              break;
            case 1:
              x = T(cv);
              break;
            default:
              x = T(id);
            }
          })) {
        if (t.m)
          drop_tree(t.m.get());
        t.t = std::move(x);
        t.m = std::make_unique<MNode>();
        t.m->val = id;
      }
    } else if (k == "leaf") {
      if (!t.m)
        return true;
      MNode *n = pick(t.m.get(), b);
      auto cur = walk_to(t, n);
      V v(next_id++);
      int const id = v.id;
      size_t x = (b / 11) % (n->kids.size() + 1);
      N::iterator r;
      bool done = attempt([&] {
        if (c % 3 == 0)
          x = n->kids.size(), r = cur.node().emplace_back(N(std::move(v)));
        else if (c % 3 == 1)
          x = 0, r = cur.node().emplace_front(N(std::move(v)));
        else
          r = cur.node().emplace(std::next(cur.node().branches().begin(), (long)x), N(std::move(v)));
      });
      if (done) {
        auto kid = std::make_unique<MNode>();
        kid->val = id;
        kid->up = n;
        if ((*r)->id != id || r->is_root() || r->trunk() != cur.self() || r->self() != r)
          return bad("tree-add", "the position given back is not that of the new branch");
        th.push_back({T::cursor_t(r), kid.get()});
        n->kids.insert(n->kids.begin() + (long)x, std::move(kid));
      }
    } else if (k == "graft") {
      MTree &d = ts[j];
      if (i == j || !t.m || !d.m)
        return true;
      size_t x = (b / 11) % (t.m->kids.size() + 1);
      T::iterator r;
      bool const steal = c % 2;
      bool done = attempt([&] {
        auto w = [&] { return std::next(t.t->branches().begin(), (long)x); };
        switch ((c / 2) % 3) {
        case 0:
          x = 0;
          r = steal ? t.t.graft_front(d.t) : t.t.graft_front(std::move(d.t));
          break;
        case 1:
          x = t.m->kids.size();
          r = steal ? t.t.graft_back(d.t) : t.t.graft_back(std::move(d.t));
          break;
        default:
          r = steal ? t.t.graft(w(), d.t) : t.t.graft(T::const_iterator(w()), std::move(d.t));
        }
      });
      if (done) {
        MNode *n = d.m.get();
        drop_t([&](THold const &h) { return h.at == n; }); // the root moves to a new place
        if (!steal)
          d.t.clear(); // moved from
        if ((*r)->id != n->val || r->trunk() != t.t.root() || r->self() != r)
          return bad("tree-graft", "the position given back is not that of the grafted tree");
        n->up = t.m.get();
        th.push_back({T::cursor_t(r), n});
        t.m->kids.insert(t.m->kids.begin() + (long)x, std::move(d.m));
      }
    } else if (k == "prune") {
      if (!t.m || t.m->kids.empty())
        return true;
      MNode *n = pick(t.m.get(), b);
      if (!n->up)
        return true;
      auto cur = walk_to(t, n);
      drop_tree(n);
      size_t const x = n->index();
      cur.self()->trunk()->branches().erase(cur.self());
      n->up->kids.erase(n->up->kids.begin() + (long)x);
    } else if (k == "transplant") { // a branch moves to another place
      if (!t.m || t.m->kids.empty())
        return true;
      MNode *n = pick(t.m.get(), b);
      MTree &d = ts[c % 3 ? i : j];
      if (!n->up || !d.m)
        return true;
      MNode *to = pick(d.m.get(), b / 13 + c);
      if (within(to, n))
        return true;
      auto cur = walk_to(t, n), dst = walk_to(d, to);
      std::unique_ptr<N> moved;
      if (!attempt([&] { moved = std::make_unique<N>(std::move(cur.node())); }))
        return true;
      drop_t([&](THold const &h) { return h.at == n; });
      size_t const x = n->index();
      MNode *from = n->up;
      auto keep = std::move(from->kids[x]);
      from->kids.erase(from->kids.begin() + (long)x);
      cur.self()->trunk()->branches().erase(cur.self());
      N::iterator r;
      bool done = attempt([&] { r = dst.node().emplace_back(std::move(*moved)); });
      if (!done) {
        if (moved->num_branches() != keep->kids.size() || (**moved).id != keep->val)
          return bad("tree-add", "a branch is lost though it could not be moved");
        r = dst.node().emplace_back(std::move(*moved));
      }
      keep->up = to;
      th.push_back({T::cursor_t(r), keep.get()});
      to->kids.push_back(std::move(keep));
    } else if (k == "swapnodes") {
      MTree &d = ts[c % 2 ? i : j];
      if (!t.m || !d.m)
        return true;
      MNode *x = pick(t.m.get(), b), *y = pick(d.m.get(), b / 17 + c);
      if (within(x, y) || within(y, x))
        return true;
      auto cx = walk_to(t, x), cy = walk_to(d, y);
      cx.node().swap(cy.node());
      std::swap(x->val, y->val);
      x->kids.swap(y->kids);
      x->own();
      y->own();
    } else if (k == "swaptrees") {
      if (i == j)
        return true;
      t.t.swap(ts[j].t);
      t.m.swap(ts[j].m);
    } else if (k == "movetree") {
      if (i == j)
        return true;
      if (t.m)
        drop_tree(t.m.get());
      if (c % 2)
        t.t = std::move(ts[j].t);
      else {
        T x(std::move(ts[j].t));
        t.t = std::move(x);
      }
      t.m = std::move(ts[j].m);
    } else if (k == "fell") {
      if (t.m)
        drop_tree(t.m.get());
      t.t.clear();
      t.m.reset();
    }
    return true;
  }

public:
  int go(Plan const &p) {
    ls.resize(3);
    for (auto &l : ls)
      l.l = std::make_unique<L>();
    ts = std::vector<MTree>(3);
    for (auto *o : p.of("O")) {
      auto const &f = o->f;
      if (f.size() < 4)
        continue;
      hist += f[0] + ":" + f[1] + "," + f[2] + "," + f[3] + " ";
      size_t a = (size_t)toi(f[1]), b = (size_t)toi(f[2]), c = (size_t)toi(f[3]);
      long const oom = W->counters[1];
      list_step(f[0], a, b, c) && tree_step(f[0], a, b, c);
      if (W->viol)
        return 1;
      for (size_t i = 0; i < ls.size(); ++i) {
        if (!check_list(i))
          return 1;
        W->obs_hash = fnv(W->obs_hash, ids(ls[i].m));
      }
      if (!check_lh() || !check_rh() || !check_trees())
        return 1;
      W->counters[0]++;
      if (W->counters[1] > oom)
        log_event("%s runs out of memory", f[0].c_str());
      if (lh.size() > 12)
        lh.erase(lh.begin(), lh.begin() + 4);
      if (rh.size() > 8)
        rh.erase(rh.begin(), rh.begin() + 3);
      if (th.size() > 16)
        th.erase(th.begin(), th.begin() + 6);
    }
    W->counters[2] += (long)lh.size();
    W->counters[3] += (long)th.size();
    W->counters[4] += (long)rh.size();
    return 0;
  }
};

void p19_gen(Rng &r, Plan &p, bool thorough) {
  static char const *lk[] = {"add", "add", "add", "add", "hold", "hold", "range", "del", "del", "filter", "clear", "copy", "move", "view"};
  static char const *tk[] = {"leaf", "leaf", "leaf", "plant", "plant", "thold", "graft", "graft", "prune", "transplant", "transplant", "swapnodes", "swapnodes", "swaptrees", "movetree", "fell"};
  int const mix = r.range(0, 2); // lists, trees, both
  int const n = r.range(4, thorough ? 120 : 50);
  for (int i = 0; i < n; ++i) {
    bool list = mix == 0 || (mix == 2 && r.chance(1, 2));
    char const *k = list ? lk[r.below(14)] : tk[r.below(i < 6 ? 5 : 16)];
    p.add("O", {k, std::to_string(r.below(3)), std::to_string(r.below(100000)), std::to_string(r.below(1000))});
  }
  if (r.chance(1, 2))
    p.cfg("heap_fill", (long)r.below(256));
  if (r.chance(2, 3)) {
    int nf = r.range(1, 4);
    for (int i = 0; i < nf; ++i) {
      Fault f;
      f.proc = 0;
      f.op = OpClass::ALLOC;
      f.nth = (int)r.below((uint64_t)n * 2 + 4);
      f.eff = Eff::BADALLOC;
      p.fault(f);
    }
  }
}
void p19_exec(Plan const &p, Result &res) {
  auto pr = run_child([&] { return Run().go(p); });
  absorb(pr, res, "containers");
  res.nontrivial = W->counters[0] >= 4;
  static char const *names[] = {"steps", "out-of-memory", "held-list-positions", "held-tree-positions", "held-ranges"};
  for (int i = 0; i < 5; ++i)
    if (W->counters[i])
      res.probes[names[i]] += W->counters[i];
}
std::vector<Scenario> const v{{"P19", p19_gen, p19_exec}};
} // namespace
std::vector<Scenario> const &scenarios_cont() { return v; }
