#include "ref.hh"
#include <cctype>
#include <cstdlib>

namespace ref {
static bool blank_char(char c) { return c == ' ' || c == '\t' || c == '\r'; }
std::string rtrim(std::string s) {
  while (!s.empty() && blank_char(s.back()))
    s.pop_back();
  return s;
}
std::vector<std::string> split_lines(std::string const &text) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) {
      r.push_back(text.substr(p));
      break;
    }
    r.push_back(text.substr(p, e - p));
    p = e + 1;
  }
  return r;
}
std::string join_lines(std::vector<std::string> const &l) {
  std::string r;
  for (auto const &s : l) {
    r += s;
    r += '\n';
  }
  return r;
}
std::string canon(std::string const &t) {
  std::string r;
  char q = 0;
  for (char c : t) {
    if (q) {
      r += c;
      if (c == q)
        q = 0;
    } else {
      if (c == '\'' || c == '"')
        q = c;
      if (!blank_char(c))
        r += c;
    }
  }
  return r;
}

namespace {
bool iequal_prefix(std::string const &s, size_t p, char const *w) {
  for (; *w; ++w, ++p)
    if (p >= s.size() || std::tolower((unsigned char)s[p]) != *w)
      return false;
  return true;
}
bool include_line(std::string const &s, size_t p) {
  if (!iequal_prefix(s, p, "include"))
    return false;
  p += 7;
  while (p < s.size() && s[p] == ' ')
    ++p;
  return p < s.size() && (s[p] == '\'' || s[p] == '"');
}
bool flpr_directive(std::string const &s, size_t p) {
  return s.compare(p + 1, 5, "#flpr") == 0 && s.size() > p + 5;
}
bool flpr_literal(std::string const &s, size_t p) {
  // "!#flprXYZ literal": columns 6..8 after the mark are free
  return flpr_directive(s, p) && s.size() > p + 13 && s[p + 9] == ' ' &&
         s.compare(p + 10, 7, "literal") == 0;
}
// Accumulates one logical line and cuts it into statements.
struct Accum {
  Doc &d;
  std::string text; // canonical so far, statement separators as '\n'
  char q = 0;
  int label = 0, line0 = -1, line1 = -1;
  explicit Accum(Doc &doc) : d{doc} {}
  void begin(int line, int lab) {
    text.clear();
    at.clear();
    q = 0;
    label = lab;
    line0 = line1 = line;
  }
  std::vector<int> at; // physical line of every character of text
  void put(char c) {
    put_(c);
    at.resize(text.size(), line1);
  }
  void put_(char c) {
    if (q) {
      text += c;
      if (c == q)
        q = 0;
    } else if (c == ';')
      text += '\n';
    else {
      if (c == '\'' || c == '"')
        q = c;
      if (!blank_char(c))
        text += c;
    }
  }
  void finish() {
    int comp = 0;
    size_t p = 0;
    int lab = label;
    while (p <= text.size()) {
      size_t e = text.find('\n', p);
      if (e == std::string::npos)
        e = text.size();
      if (e > p) {
        Stmt s;
        s.label = lab;
        lab = 0;
        s.canon = text.substr(p, e - p);
        s.line0 = at[p];
        s.line1 = at[e - 1];
        s.comp = comp++;
        d.stmts.push_back(s);
      }
      p = e + 1;
    }
    line0 = -1;
    text.clear();
  }
  bool open() const { return line0 >= 0; }
};
size_t first_nonblank(std::string const &s) {
  size_t p = 0;
  while (p < s.size() && blank_char(s[p]))
    ++p;
  return p;
}
char last_nonblank(std::string const &s) {
  for (size_t i = s.size(); i > 0; --i)
    if (!std::isspace((unsigned char)s[i - 1]))
      return s[i - 1];
  return 0;
}
} // namespace

Doc scan_free(std::vector<std::string> const &lines) {
  Doc d;
  Accum a(d);
  bool lit = false, cont = false, ppcont = false;
  for (size_t i = 0; i < lines.size(); ++i) {
    std::string const &s = lines[i];
    size_t p = first_nonblank(s);
    if (ppcont) {
      d.other.push_back(rtrim(s));
      ppcont = last_nonblank(s) == '\\';
      continue;
    }
    if (lit) {
      d.other.push_back(rtrim(s));
      if (p < s.size() && s[p] == '!' && flpr_literal(s, p))
        lit = false;
      continue;
    }
    if (p == s.size())
      continue;
    if (s[p] == '#' && p == 0) {
      d.other.push_back(rtrim(s));
      ppcont = last_nonblank(s) == '\\';
      if (cont) {
        d.ok = false;
        d.why = "directive inside a continued statement";
      }
      continue;
    }
    if (include_line(s, p) && !cont) {
      d.other.push_back(rtrim(s));
      continue;
    }
    if (s[p] == '!') { // also between the parts of a continued literal
      if (flpr_literal(s, p)) {
        lit = true;
        d.other.push_back(rtrim(s));
      } else if (flpr_directive(s, p))
        d.other.push_back(rtrim(s));
      else
        d.comments.push_back(rtrim(s.substr(p)));
      continue;
    }
    if (!cont) {
      int lab = 0;
      if (std::isdigit((unsigned char)s[p])) {
        size_t b = p;
        while (p < s.size() && p - b < 6 && std::isdigit((unsigned char)s[p]))
          lab = lab * 10 + (s[p++] - '0');
        if (p < s.size() && !blank_char(s[p])) {
          d.ok = false;
          d.why = "no blank behind the label on line " + std::to_string(i + 1);
        }
      }
      a.begin((int)i, lab);
    } else {
      a.line1 = (int)i;
      if (s[p] == '&')
        ++p;
    }
    cont = false;
    for (; p < s.size(); ++p) {
      char c = s[p];
      if (!a.q && c == '!') {
        d.comments.push_back(rtrim(s.substr(p)));
        break;
      }
      if (c == '&') {
        size_t n = p + 1;
        while (n < s.size() && blank_char(s[n]))
          ++n;
        if (n == s.size()) {
          cont = true;
          break;
        }
        if (!a.q && s[n] == '!') {
          cont = true;
          d.comments.push_back(rtrim(s.substr(n)));
          break;
        }
        if (!a.q) {
          d.ok = false;
          d.why = "stray ampersand on line " + std::to_string(i + 1);
        }
      }
      a.put(c);
    }
    if (a.q && !cont) {
      d.ok = false;
      d.why = "unterminated character context on line " + std::to_string(i + 1);
      a.q = 0;
    }
    if (!cont)
      a.finish();
  }
  if (cont) {
    d.ok = false;
    d.why = "file ends in a continued statement";
    a.finish();
  }
  return d;
}

Doc scan_fixed(std::vector<std::string> const &lines, int last_col) {
  Doc d;
  Accum a(d);
  bool ppcont = false;
  for (size_t i = 0; i < lines.size(); ++i) {
    std::string s = lines[i];
    if (ppcont) {
      d.other.push_back(rtrim(s));
      ppcont = last_nonblank(s) == '\\';
      continue;
    }
    size_t p = first_nonblank(s);
    if (p == s.size())
      continue;
    char const c0 = s[p];
    if (p != 5) {
      if (p == 0 && c0 == '#') {
        if (a.open())
          a.finish();
        d.other.push_back(rtrim(s));
        ppcont = last_nonblank(s) == '\\';
        continue;
      }
      if (last_col > 0 && p >= (size_t)last_col) {
        d.comments.push_back((c0 == '!' ? "" : "! ") + rtrim(s.substr(p)));
        continue;
      }
      if (include_line(s, p)) {
        if (a.open())
          a.finish();
        d.other.push_back(rtrim(s));
        continue;
      }
      if (c0 == '!' ||
          (p == 0 && (c0 == '*' || std::toupper((unsigned char)c0) == 'C'))) {
        if (flpr_directive(s, p)) {
          if (a.open())
            a.finish();
          d.other.push_back(rtrim(s));
        } else {
          std::string t = rtrim(s.substr(p));
          t[0] = '!';
          d.comments.push_back(t);
        }
        continue;
      }
    }
    size_t start = 6;
    if (p == 5 && c0 != '0') {
      if (!a.open()) {
        d.ok = false;
        d.why = "continuation of nothing on line " + std::to_string(i + 1);
        a.begin((int)i, 0);
      }
      a.line1 = (int)i;
    } else {
      if (a.open())
        a.finish();
      int lab = 0;
      if (p < 5 && std::isdigit((unsigned char)c0)) {
        while (p < s.size() && p < 5 && std::isdigit((unsigned char)s[p]))
          lab = lab * 10 + (s[p++] - '0');
        if (p < 6)
          p = 6;
      } else if (p < 5) {
        d.ok = false;
        d.why = "text in the control columns on line " + std::to_string(i + 1);
      }
      a.begin((int)i, lab);
    }
    size_t lim = last_col > 0 ? std::min((size_t)last_col, s.size()) : s.size();
    size_t k = start;
    for (; k < lim; ++k) {
      if (!a.q && s[k] == '!') {
        d.comments.push_back(rtrim(s.substr(k)));
        break;
      }
      a.put(s[k]);
    }
    if (k >= lim && lim < s.size()) {
      std::string t = rtrim(s.substr(lim));
      size_t b = first_nonblank(t);
      if (b < t.size() && a.q)
        d.soft.push_back(t[b] == '!' ? t.substr(b) : t[b] == '&' && t.find('!') != t.npos ? t.substr(t.find('!')) : "! " + t);
      else if (b < t.size()) {
        // "&" behind the last column: a mark for readers of free form
        size_t c = t[b] == '&' ? first_nonblank(t.substr(b + 1)) + b + 1 : 0;
        if (t[b] == '!')
          d.comments.push_back(t.substr(b));
        else if (c && c >= t.size())
          ;
        else if (c && t[c] == '!')
          d.comments.push_back(t.substr(c));
        else
          d.comments.push_back("! " + t);
      }
    }
  }
  if (a.open()) {
    if (a.q) {
      d.ok = false;
      d.why = "unterminated character context at the end";
    }
    a.finish();
  }
  return d;
}
} // namespace ref
