// Seeded generator of Fortran documents (free and fixed form) and the
// structural reading of a document that the oracles use.
#ifndef GEN_HH
#define GEN_HH 1
#include "ref.hh"
#include "simrt.hh"
#include <set>
#include <string>
#include <vector>

namespace gen {
struct Opts {
  bool fixed = false;
  int units = 2;        // program units
  int body = 5;         // statements per body
  int p_compound = 15;  // percent
  int p_cont = 20;      // continued statements
  int p_comment = 20;   // comment lines / trailing comments
  int p_embed = 20;     // comment lines inside continued statements
  int p_pp = 4;         // preprocessor, include and literal lines
  int p_label = 8;
  int p_string = 15;
  int p_empty = 3;      // empty statements (stray semicolons)
  int p_case = 5;       // upper case keywords
  int p_return = 0;     // return-stmts inside of bodies
  bool split_tokens = true; // continued character literals / tokens
  bool modules = true;
  bool internal = true;
  bool constructs = true;
  bool legacy = true;
  bool headless = false;
  bool rich = false;    // derived types, interfaces, more constructs
  bool wide_indent = false;
  bool round_labels = false; // 20, 30, ...: the same ones in every file
  bool crlf = false;
  bool tabs = false;
  std::vector<std::string> callees{"alpha", "beta", "gamma", "delta"};
  std::vector<std::string> used{"m_one", "m_two"};
};
Opts random_opts(sim::Rng &r);
std::vector<std::string> document(sim::Rng &r, Opts const &o);
// one statement of the executable kind, for insertion; canonical spacing
std::string simple_stmt(sim::Rng &r, Opts const &o);

struct Proc {
  std::string name;    // lower case, "" for a main program without header
  bool internal = false, interface_body = false;
  int begin = 0, end = 0; // statement indexes [begin,end)
  int after_uses = 0;     // index before which a new use-stmt belongs
  int first_exec = -1, last_exec = -1;
  bool has_exec = false;
  std::set<std::string> calls; // callees in its own execution part
  std::set<std::string> uses;
  bool header = true;
  std::string kind;    // program, function, subroutine, moduleprocedure
  size_t name_at = 0;  // position of the name in the header
  // statements of: header, uses, imports, implicit part, declarations, execution part, contained, end
  std::vector<int> reg[8];
};
// Structure of a document made of this generator's vocabulary.
bool procs(ref::Doc const &d, std::vector<Proc> &out);
std::string lower(std::string s);
bool sequence_field(sim::Rng &r, std::vector<std::string> &lines);
} // namespace gen
#endif
