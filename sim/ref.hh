// An independent, deliberately small reading of Fortran source layout: which
// statements (label + text without insignificant blanks), comments and other
// lines a text contains.  Shares no code with FLPR; used as oracle.
#ifndef REF_HH
#define REF_HH 1
#include <string>
#include <vector>

namespace ref {
struct Stmt {
  int label = 0;
  std::string canon; // text with blanks outside character context removed
  int line0 = 0, line1 = 0; // physical lines of its text (0-based, inclusive)
  int comp = 0;             // position among the statements of its line
  bool operator==(Stmt const &o) const {
    return label == o.label && canon == o.canon;
  }
};
struct Doc {
  bool ok = true;
  std::string why;
  std::vector<Stmt> stmts;
  std::vector<std::string> comments; // text from '!' on, right-trimmed
  // text behind the last column next to a continued character literal: there is
  // no place for a comment, so it may be kept or go
  std::vector<std::string> soft;
  std::vector<std::string> other;    // preprocessor, include, literal lines
};
Doc scan_free(std::vector<std::string> const &lines);
// last_col==0: no column limit
Doc scan_fixed(std::vector<std::string> const &lines, int last_col);
std::vector<std::string> split_lines(std::string const &text);
std::string join_lines(std::vector<std::string> const &l);
std::string canon(std::string const &text); // of one statement, no layout
std::string rtrim(std::string s);
} // namespace ref
#endif
