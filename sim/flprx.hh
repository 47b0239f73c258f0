// Small helpers over FLPR's public API, used inside simulated processes.
#ifndef FLPRX_HH
#define FLPRX_HH 1
#include "flpr/flpr.hh"
#include "common.hh"
#include <fstream>
#include <sstream>

namespace fx {
using File = FLPR::Parsed_File<>;
inline std::string emit(FLPR::LL_SEQ const &lines) {
  std::ostringstream os;
  for (auto const &ll : lines)
    os << ll;
  return os.str();
}
inline std::string one(FLPR::Logical_Line const &ll) {
  std::ostringstream os;
  os << ll;
  return os.str();
}
inline std::string canon(FLPR::LL_Stmt const &s) {
  std::string r;
  for (auto it = s.begin(); it != s.end(); ++it)
    r += it->text();
  return r;
}
inline std::string stmts(FLPR::LL_STMT_SEQ const &seq) {
  std::string r;
  for (auto const &s : seq) {
    if (s.label())
      r += std::to_string(s.label()) + " ";
    r += canon(s) + "\n";
  }
  return r;
}
// A stream whose source delivers data in seeded portions and may fail.
class Src : public std::streambuf {
public:
  Src(std::string data, uint64_t salt, int chunk, long fail_at)
      : d(std::move(data)), r(salt), chunk(chunk), fail_at(fail_at) {}
  bool failed = false;

protected:
  int_type underflow() override {
    if (fail_at >= 0 && (long)pos >= fail_at) {
      failed = true;
      sim::W->fired[(int)sim::Eff::ERR][(int)sim::OpClass::READ]++;
      sim::log_event("stream source fails at %ld", (long)pos);
      throw std::runtime_error("source failed");
    }
    if (pos >= d.size())
      return traits_type::eof();
    size_t n = chunk > 0 ? 1 + (size_t)r.below((uint64_t)chunk) : d.size();
    n = std::min(n, d.size() - pos);
    if (fail_at >= 0 && (long)(pos + n) > fail_at)
      n = (size_t)fail_at - pos;
    sim::log_event("stream source delivers %zu", n);
    buf.assign(d, pos, n);
    pos += n;
    setg(&buf[0], &buf[0], &buf[0] + n);
    return traits_type::to_int_type(buf[0]);
  }

private:
  std::string d, buf;
  sim::Rng r;
  int chunk;
  long fail_at;
  size_t pos = 0;
};
} // namespace fx
#endif
