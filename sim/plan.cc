#include "plan.hh"
#include <algorithm>

static std::string esc(std::string const &s) {
  std::string r;
  for (char c : s) {
    unsigned char u = (unsigned char)c;
    if (c == '\\')
      r += "\\\\";
    else if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (u < 32 || u > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", u);
      r += b;
    } else
      r += c;
  }
  return r;
}
static std::string unesc(std::string const &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\' || i + 1 >= s.size()) {
      r += s[i];
      continue;
    }
    char c = s[++i];
    if (c == 'n')
      r += '\n';
    else if (c == 't')
      r += '\t';
    else if (c == 'x' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += c;
  }
  return r;
}

std::string Plan::get(std::string const &k, std::string const &d) const {
  for (auto &i : items)
    if (i.kind == "C" && i.f.size() >= 2 && i.f[0] == k)
      return i.f[1];
  return d;
}
long Plan::geti(std::string const &k, long d) const {
  std::string v = get(k);
  return v.empty() ? d : toi(v);
}
std::vector<std::pair<std::string, std::vector<std::string>>>
Plan::docs() const {
  std::vector<std::pair<std::string, std::vector<std::string>>> r;
  for (auto &i : items) {
    if (i.kind != "L" || i.f.size() < 2)
      continue;
    auto it = std::find_if(r.begin(), r.end(),
                           [&](auto &p) { return p.first == i.f[0]; });
    if (it == r.end()) {
      r.push_back({i.f[0], {}});
      it = r.end() - 1;
    }
    it->second.push_back(i.f[1]);
  }
  return r;
}
std::vector<Item const *> Plan::of(std::string const &kind) const {
  std::vector<Item const *> r;
  for (auto &i : items)
    if (i.kind == kind)
      r.push_back(&i);
  return r;
}
void Plan::fault(sim::Fault const &f) {
  add("F", {std::to_string(f.proc), sim::op_name(f.op), std::to_string(f.nth),
            sim::eff_name(f.eff), std::to_string(f.arg)});
}
void Plan::arm() const {
  using namespace sim;
  reset_faults();
  W->chunk = (int)geti("chunk", 0);
  W->heap_fill = (int)geti("heap_fill", -1);
  W->heap_jitter = (int)geti("heap_jitter", 0);
  W->clock_mode = (int)geti("clock_mode", 0);
  for (auto *i : of("F")) {
    if (i->f.size() < 5)
      continue;
    Fault f;
    f.proc = (int)toi(i->f[0]);
    f.op = op_from_name(i->f[1]);
    f.nth = (int)toi(i->f[2]);
    f.eff = eff_from_name(i->f[3]);
    f.arg = (int)toi(i->f[4]);
    add_fault(f);
  }
}
std::string Plan::text() const {
  std::string r = "plan\t" + prop + "\t" + std::to_string(salt) + "\n";
  for (auto &i : items) {
    r += i.kind;
    for (auto &f : i.f)
      r += "\t" + esc(f);
    r += "\n";
  }
  return r;
}
bool Plan::parse(std::string const &text, Plan &p) {
  p = Plan{};
  size_t pos = 0;
  bool head = false;
  while (pos < text.size()) {
    size_t e = text.find('\n', pos);
    if (e == std::string::npos)
      e = text.size();
    std::string line = text.substr(pos, e - pos);
    pos = e + 1;
    if (line.empty() || line[0] == '#')
      continue;
    std::vector<std::string> f;
    size_t q = 0;
    for (;;) {
      size_t t = line.find('\t', q);
      if (t == std::string::npos) {
        f.push_back(unesc(line.substr(q)));
        break;
      }
      f.push_back(unesc(line.substr(q, t - q)));
      q = t + 1;
    }
    if (!head) {
      if (f.size() != 3 || f[0] != "plan")
        return false;
      p.prop = f[1];
      p.salt = strtoull(f[2].c_str(), nullptr, 10);
      head = true;
    } else {
      Item it;
      it.kind = f[0];
      it.f.assign(f.begin() + 1, f.end());
      p.items.push_back(it);
    }
  }
  return head;
}

std::string abort_class(sim::ProcResult const &pr) {
  if (pr.kind == sim::ProcResult::HANG)
    return "no-progress";
  std::string const &e = pr.err;
  size_t a = e.find("Assertion `");
  if (a != std::string::npos) {
    size_t b = e.find("' failed", a);
    if (b != std::string::npos)
      return "assert:" + e.substr(a + 11, std::min<size_t>(b - a - 11, 50));
  }
  a = e.find("terminate called");
  if (a != std::string::npos) {
    size_t q = e.find("instance of '", a);
    return "exception:" +
           (q == std::string::npos ? std::string("?")
                                   : e.substr(q + 13, std::min<size_t>(30, e.find('\'', q + 13) - q - 13)));
  }
  return "signal-" + std::to_string(pr.code);
}
void absorb(sim::ProcResult const &pr, Result &res, char const *what) {
  if (sim::W->viol)
    res.fail(sim::W->vclass, sim::W->vmsg);
  else if (pr.kind == sim::ProcResult::SIGNAL ||
           pr.kind == sim::ProcResult::HANG)
    res.fail(abort_class(pr), std::string(what) + ": " + pr.str() + "\n" +
                                  pr.err.substr(0, 2000));
}
void child_fail(char const *cls, std::string const &msg) {
  using sim::W;
  if (W->viol)
    return;
  snprintf(W->vclass, sizeof W->vclass, "%s", cls);
  snprintf(W->vmsg, sizeof W->vmsg, "%s", msg.c_str());
  W->viol = 1;
}
void probe(int i, long n) { sim::W->counters[i] += n; }
void blob_put(std::string const &s) {
  using sim::W;
  uint32_t n = (uint32_t)s.size();
  if (W->blob_len + n + 4 > sizeof W->blob)
    n = W->blob_len + 4 > sizeof W->blob
            ? 0
            : (uint32_t)(sizeof W->blob - W->blob_len - 4);
  if (W->blob_len + n + 4 > sizeof W->blob)
    return;
  memcpy(W->blob + W->blob_len, &n, 4);
  memcpy(W->blob + W->blob_len + 4, s.data(), n);
  W->blob_len += n + 4;
}
std::vector<std::string> blob_get() {
  using sim::W;
  std::vector<std::string> r;
  uint32_t p = 0;
  while (p + 4 <= W->blob_len) {
    uint32_t n;
    memcpy(&n, W->blob + p, 4);
    r.emplace_back(W->blob + p + 4, n);
    p += n + 4;
  }
  W->blob_len = 0;
  return r;
}
std::string diff_text(std::string const &a, std::string const &b) {
  size_t i = 0, line = 1;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n')
      ++line;
    ++i;
  }
  auto cut = [&](std::string const &s) {
    size_t st = s.rfind('\n', i ? i - 1 : 0);
    st = st == std::string::npos || i == 0 ? 0 : st + 1;
    if (st > s.size())
      return std::string("<end>");
    return s.substr(st, 200);
  };
  return "first difference at byte " + std::to_string(i) + " (line " +
         std::to_string(line) + ")\n--- expected\n" + cut(a) + "\n--- got\n" +
         cut(b) + "\n";
}
void random_policies(sim::Rng &r, Plan &p) {
  if (r.chance(2, 3))
    p.cfg("chunk", r.chance(1, 3) ? 1 : (r.chance(1, 2) ? r.range(2, 40) : r.range(41, 700)));
  if (r.chance(1, 2))
    p.cfg("heap_fill", (long)r.below(256));
  if (r.chance(1, 4))
    p.cfg("heap_jitter", r.range(1, 9));
  p.cfg("clock_mode", (long)r.below(3));
}
