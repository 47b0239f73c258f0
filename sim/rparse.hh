// An independent reading of the structure of a program: which statements form
// which constructs, parts, procedures and program units, and what kind each
// statement is.  Shares no code with FLPR; used as oracle.
#ifndef RPARSE_HH
#define RPARSE_HH 1
#include "ref.hh"
#include <string>
#include <vector>

namespace ref {
struct Node {
  std::string tag; // name of the construct, or kind of the statement
  int stmt = -1;   // leaf: index of the statement
  std::vector<Node> k;
};
// false: outside the vocabulary of this reader or not well formed
bool parse(Doc const &d, Node &root, std::string &why);
// one node per line, indented
std::string show(Node const &n);
// helpers on canonical (blank free, lower case) statement text
std::string ident(std::string const &s, size_t p);
bool starts(std::string const &s, char const *p);
size_t skip_paren(std::string const &s, size_t p);
bool subprogram_header(std::string const &s, std::string &name, bool *function = nullptr, size_t *name_at = nullptr);
std::string lower_code(std::string t); // outside of character context
} // namespace ref
#endif
