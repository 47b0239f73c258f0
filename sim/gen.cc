#include "gen.hh"
#include "rparse.hh"
#include <algorithm>
#include <cctype>

namespace gen {
using sim::Rng;
std::string lower(std::string s) {
  for (auto &c : s)
    c = (char)std::tolower((unsigned char)c);
  return s;
}
static std::string upper(std::string s) {
  for (auto &c : s)
    c = (char)std::toupper((unsigned char)c);
  return s;
}

Opts random_opts(Rng &r) {
  Opts o;
  o.fixed = r.chance(1, 4);
  o.units = r.range(1, 3);
  o.body = r.range(1, 8);
  auto dial = [&](int hi) { return r.chance(1, 4) ? 0 : r.range(0, hi); };
  o.p_compound = dial(50);
  o.p_cont = dial(50);
  o.p_comment = dial(45);
  o.p_embed = dial(40);
  o.p_pp = dial(10);
  o.p_label = dial(20);
  o.p_string = dial(40);
  o.p_empty = dial(10);
  o.p_case = dial(30);
  o.split_tokens = r.chance(1, 2);
  o.modules = r.chance(2, 3);
  o.internal = r.chance(1, 2);
  o.constructs = r.chance(3, 4);
  o.legacy = r.chance(1, 2);
  o.wide_indent = r.chance(1, 6);
  o.rich = r.chance(1, 2);
  o.headless = r.chance(1, 6);
  o.round_labels = r.chance(1, 2);
  o.p_return = r.chance(1, 3) ? r.range(3, 25) : 0;
  return o;
}

// ------------------------------------------------------ statement text ----
namespace {
struct Ctx {
  Rng &r;
  Opts const &o;
  int nlabel = 10, biglabel = 10000;
  bool nolabel = false; // inside of specification parts
  std::vector<std::string> stmts; // "label\ttext"
  // a label not yet used in this scope; the largest ones are what tools like to take
  int fresh() {
    if (r.chance(1, 5) && biglabel > 9200)
      return biglabel -= 1 + (int)r.below(r.chance(1, 3) ? 40 : 1);
    return nlabel += o.round_labels ? 10 : r.range(1, 37);
  }
  std::string var() {
    static char const *v[] = {"x",  "y",   "zed", "v1", "v2",  "kount",
                              "e1", "d2",  "arr", "tt", "q_9", "w"};
    return v[r.below(12)];
  }
  std::string lit() {
    switch (r.below(9)) {
    case 0:
      return std::to_string(r.range(0, 999));
    case 1:
      return "1.0";
    case 2:
      return "3.";
    case 3:
      return "2.5e-3";
    case 4:
      return ".5";
    case 5:
      return "1.0d0";
    case 6:
      return "7_4";
    case 7:
      return "1.5_8";
    default:
      return ".true.";
    }
  }
  std::string str() {
    static char const *body[] = {"hello",      "a & b",      "no ! comment",
                                 "x; y = 2",   "it''s",      "say \"hi\"",
                                 "",           "end do",     "  two  blanks ",
                                 "call alpha", "100 format", "a=b!c;d&e",
                                 "na\xc3\xafve", "\xe6\xb8\xa9 \xc2\xb0" "C", "\xe9t\xe9"};
    std::string b = body[r.below(15)];
    if (o.split_tokens && r.chance(1, 8)) // longer than a line, or two
      for (int i = r.range(4, 24); i > 0; --i)
        b += " " + std::string(body[r.below(12)]);
    char q = r.chance(1, 2) ? '\'' : '"';
    std::string s;
    for (size_t i = 0; i < b.size(); ++i) {
      if (b[i] == '\'' && i + 1 < b.size() && b[i + 1] == '\'') {
        s += q == '\'' ? "''" : "'";
        ++i;
      } else if (b[i] == q)
        s += std::string(2, q);
      else
        s += b[i];
    }
    return q + s + q;
  }
  std::string expr(int d = 0) {
    switch (r.below(d > 2 ? 3 : 9)) {
    case 0:
    case 1:
      return var();
    case 2:
      return lit();
    case 3:
      return expr(d + 1) + " + " + expr(d + 1);
    case 4:
      return expr(d + 1) + " * " + var();
    case 5:
      return "( " + expr(d + 1) + " - " + lit() + " )";
    case 6:
      return "f( " + expr(d + 1) + " , " + var() + " )";
    case 7:
      return "arr( " + var() + " , " + std::to_string(r.range(1, 9)) + " )";
    default:
      return "obj % " + var();
    }
  }
  std::string cond() {
    static char const *op[] = {"==", "/=", "<", ">=", ".lt.", ".eq."};
    std::string c = var() + " " + op[r.below(6)] + " " + expr(2);
    if (r.chance(1, 5))
      c += " .and. " + var() + " > 0";
    return c;
  }
  std::string call() {
    std::string n = r.pick(o.callees);
    if (r.chance((unsigned)o.p_case, 100))
      n = upper(n);
    if (r.chance(1, 10))
      n = (o.rich && r.chance(1, 3) ? "obj % b ( 3 ) % " : "obj % ") + n;
    std::string s = "call " + n;
    switch (r.below(4)) {
    case 0:
      break;
    case 1:
      s += " ( )";
      break;
    case 2:
      s += " ( " + expr(1) + " )";
      break;
    default:
      s += " ( " + var() + " , " + expr(1) + " )";
    }
    return s;
  }
  std::string more_action() {
    static char const *const t[] = {
        "x = [ 1 , 2 , v1 ]", "x = ( / 1.0 , 2.0 / )", "x = [ ( i * 2 , i = 1 , 10 ) ]", "x = [ real :: 1 , 2 ]",
        "zed = ( 1.0 , - 2.0 )", "tt ( 2 : 3 ) = q_9 ( : n )", "obj % b ( 3 ) % c = d % e ( 1 : 2 , : )",
        "x = tp ( a = 1 , b = 2 )", "x [ 1 ] = y [ 2 ]", "w = .not. a .and. b .or. c .eqv. d .neqv. e",
        "x = y ** 2 ** ( - zed )", "x = v1 .myop. v2", "arr ( :: 2 ) = tt ( 1 : 10 : 3 )", "x = 1_kind4 + 1.0e+10_dp - 1.d0",
        "call obj % b ( 3 ) % c ( x )", "call run ( a = 1 , b = c )", "error stop", "error stop 'bad'", "stop 1", "stop 'abc; &'",
        "goto 9000", "goto ( 10 , 20 ) kount", "sync all", "sync memory", "lock ( lk )", "unlock ( lk )", "event post ( ev )",
        "fail image", "flush 10", "flush ( 10 )", "backspace 10", "endfile ( 10 )", "end file 10", "wait ( 10 )", "read * , x",
        "read ( 10 , * , end = 99 , err = 98 ) x , ( y ( i ) , i = 1 , 3 )", "read 100 , x", "read ( unit = 10 , fmt = '(a)' ) s",
        "write ( 6 , 100 ) x , y", "write ( 10 ) ( x ( i ) , i = 1 , n )", "write ( * , nml = grp )", "print 100 , x", "print '(a)' , s",
        "print *", "print fmt1 , x", "inquire ( iolength = n ) x , y", "allocate ( real :: a ( n ) )", "allocate ( a ( 0 : n , m ) , b , source = c )",
        "allocate ( tp :: p )", "deallocate ( a , b , stat = i )", "nullify ( a , b % c )", "pp ( 1 : n ) => a", "pp => null ( )", "p % q => f ( x )",
        "forall ( i = 1 : 3 : 2 , j = 1 : 3 , m ( i , j ) ) a ( i ) = b ( i )", "if ( a > b ) allocate ( b ( 1 ) )", "if ( w ) pp => q",
        "if ( w ) write ( * , * ) 'a; b'", "if ( w ) goto 9000", "if ( w .and. .not. ( x < 3 ) ) error stop 'x'", "if ( w ) read ( 10 , * ) x",
        "if = 3", "do1 = 4", "end1 = x", "call1 ( 3 ) = y", "return1 = .true.", "format1 ( 2 ) = 3", "if ( w ) if1 = 3", "stop1 % a = 2", "use1 = 3", "print1 = x",
        "go1 = to1", "else1 = 3", "case1 = 2", "block1 = 3", "type1 % is = 3", "real1 = 2.0", "integer1 = 3", "data1 = 4", "type ( 3 ) = 4"};
    return t[r.below(sizeof t / sizeof *t - 1)];
  }
  std::string rich_action() {
    if (r.chance(1, 2))
      return more_action();
    switch (r.below(16)) {
    case 0:
      return "read ( * , * ) " + var() + " , " + var();
    case 1:
      return "allocate ( arr ( 10 ) , stat = ierr )";
    case 2:
      return "deallocate ( arr )";
    case 3:
      return "pp => " + var();
    case 4:
      return "nullify ( pp )";
    case 5:
      return "open ( unit = 10 , file = " + str() + " )";
    case 6:
      return "stop";
    case 7:
      return "close ( 10 )";
    case 8:
      return "rewind 10";
    case 9:
      return "forall ( i = 1 : 3 ) arr( i ) = " + expr(2);
    case 10:
      return "where ( arr > 0 ) arr = " + lit();
    case 11:
      return "if ( " + cond() + " ) stop " + str();
    case 12:
      return "go to ( 10 , 20 ) , " + var();
    case 13:
      return "if ( " + var() + " ) 10 , 20 , 30";
    case 14:
      return "call obj % run ( n = " + expr(2) + " )";
    default:
      return "inquire ( unit = 10 , exist = " + var() + " )";
    }
  }
  std::string action() {
    if (r.chance((unsigned)o.p_string, 100)) {
      switch (r.below(3)) {
      case 0:
        return "print * , " + str();
      case 1:
        return "write ( * , * ) " + str() + " , " + var();
      default:
        return "name1 = " + str() + (r.chance(1, 2) ? " // " + str() : "");
      }
    }
    if (o.p_return && r.chance((unsigned)o.p_return, 100))
      return r.chance(1, 2) ? "return" : "if ( " + cond() + " ) return";
    if (o.rich && r.chance(1, 3))
      return rich_action();
    switch (r.below(12)) {
    case 0:
    case 1:
    case 2:
    case 3:
      return var() + " = " + expr();
    case 4:
    case 5:
      return call();
    case 6:
      return "if ( " + cond() + " ) " + var() + " = " + expr(1);
    case 7:
      return "if ( " + cond() + " ) " + call();
    case 8:
      return "arr( " + var() + " ) = " + expr(1);
    case 9:
      return "obj % " + var() + " = " + expr(1);
    case 10:
      return "continue";
    default:
      return "if ( " + cond() + " ) go to 9000";
    }
  }
  void put(std::string const &t, int label = 0) {
    if (!label && !nolabel && r.chance((unsigned)o.p_label, 100) && labelable(t))
      label = fresh();
    stmts.push_back(std::to_string(label) + "\t" + t);
  }
  static bool labelable(std::string const &t) {
    if (!t.compare(0, 3, "end"))
      return t.size() < 4 || ((t[3] == ' ' || (t[3] >= 'a' && t[3] <= 'z')) && t.find("interface") == std::string::npos &&
                              t.find("type") == std::string::npos && t.find("enum") == std::string::npos &&
                              t.find("module") == std::string::npos && t.find("where") == std::string::npos &&
                              t.find("forall") == std::string::npos && t.find(" %") == std::string::npos);
    return t.compare(0, 3, "use") && t.compare(0, 8, "implicit") &&
           t.compare(0, 8, "contains") && t.find("::") == std::string::npos &&
           t.compare(0, 10, "subroutine") && t.compare(0, 8, "function") &&
           t.compare(0, 6, "module") && t.compare(0, 7, "program") &&
           t.compare(0, 4, "else") && t.compare(0, 4, "case") &&
           t.find("subroutine") == std::string::npos &&
           t.find("function") == std::string::npos &&
           t.compare(0, 4, "type") && t.compare(0, 4, "data") &&
           t.compare(0, 5, "class") && t != "private" && t != "sequence" &&
           t.compare(0, 9, "interface") && t.compare(0, 6, "common") &&
           t.compare(0, 8, "external") && t.compare(0, 9, "dimension") &&
           t.compare(0, 8, "namelist") && t != "save" && t.compare(0, 3, "end");
  }
  bool in_subprogram = false;
  void format() {
    static char const *f[] = {"format ( i5 , 2 ( f10.3 , 1x ) , 'text; &' / )", "format ( )", "format ( a , ' ! no comment' )", "format ( 1x , 3i4 )"};
    put(f[r.below(4)], fresh());
  }
  std::string kw(char const *spaced, char const *tight) {
    return r.chance(1, 3) ? tight : spaced;
  }
  void exec_block(int n, int depth) {
    for (int i = 0; i < n; ++i) {
      if (o.constructs && depth < 3 && r.chance(1, 5))
        construct(depth);
      else if (o.rich && i > 0 && r.chance(1, 16))
        switch (r.below(depth == 0 && in_subprogram ? 3 : 2)) {
        case 0:
          format();
          break;
        case 1:
          put("data q1 , q2 / 1.0 , 2 * 3.0 / , q3 / 'abc' /");
          break;
        default:
          put("entry ent" + std::to_string(r.range(1, 99)) + (r.chance(1, 2) ? "" : " ( x , y )"));
        }
      else
        put(action());
    }
  }
  void more_construct(int depth, std::string const &pre, std::string const &post) {
    int n = r.range(0, 2);
    switch (r.below(o.legacy ? 11 : 9)) {
    case 0:
      put(pre + "do concurrent ( i = 1 : 10" + (r.chance(1, 2) ? " , j = 1 : 5 , a > b )" : " )"));
      exec_block(n + 1, depth + 1);
      put(kw("end do", "enddo") + post);
      break;
    case 1:
      put(pre + "do " + var() + " = 10 , 1 , - 2");
      exec_block(n, depth + 1);
      put(kw("end do", "enddo") + post);
      break;
    case 2:
      put(pre + "select rank ( x )");
      put("rank ( 0 )");
      exec_block(n, depth + 1);
      if (r.chance(1, 2)) {
        put("rank ( * )");
        exec_block(n, depth + 1);
      }
      if (r.chance(1, 2)) {
        put("rank default");
        exec_block(1, depth + 1);
      }
      put(kw("end select", "endselect") + post);
      break;
    case 3:
      put(pre + kw("select case", "selectcase") + " ( " + var() + " )");
      for (int i = r.range(0, 3); i > 0; --i) {
        static char const *c[] = {"( : 5 )", "( 'a' : 'f' , 'z' )", "( 7 : )", "( 1 , 2 )"};
        put(std::string("case ") + c[r.below(4)] + (r.chance(1, 3) ? post : ""));
        exec_block(n, depth + 1);
      }
      if (r.chance(1, 2)) {
        put("case default" + (r.chance(1, 2) ? post : ""));
        exec_block(1, depth + 1);
      }
      put(kw("end select", "endselect") + post);
      break;
    case 4: // nested masks
      put(pre + "where ( arr > 0 )");
      put("arr = 1");
      put("where ( arr < 3 ) arr = " + lit());
      put("where ( arr < 3 )");
      put("arr = 2");
      if (r.chance(1, 2)) {
        put(kw("else where", "elsewhere"));
        put("arr = 4");
      }
      put(kw("end where", "endwhere"));
      put(kw("end where", "endwhere") + post);
      break;
    case 5:
      put(pre + "forall ( i = 1 : 3 , j = 1 : 3 , m ( i , j ) )");
      put("arr ( i ) = " + expr(2));
      if (r.chance(1, 2)) {
        put("forall ( k = 1 : 2 )");
        put("arr ( k ) = " + expr(2));
        put(kw("end forall", "endforall"));
      }
      if (r.chance(1, 2)) {
        put("where ( arr > 1 )");
        put("arr = 2");
        put(kw("end where", "endwhere"));
      }
      put(kw("end forall", "endforall") + post);
      break;
    case 6:
      put(pre + "associate ( aa => b % c , dd => e1 + w )");
      exec_block(n, depth + 1);
      put(kw("end associate", "endassociate") + post);
      break;
    case 7: {
      put(pre + "block");
      if (r.chance(1, 3))
        put("use m_block , only : " + var());
      if (r.chance(1, 3))
        put("import , only : a");
      static char const *d[] = {"integer loc7", "real , save :: loc8 ( 3 )", "enum , bind ( c )", "interface", "type :: tpl"};
      int k = (int)r.below(5);
      put(d[k]);
      if (k == 2) {
        put("enumerator :: red = 1 , green");
        put("end enum");
      } else if (k == 3) {
        put("subroutine ext9 ( x )");
        put("end subroutine");
        put(kw("end interface", "endinterface"));
      } else if (k == 4) {
        put("integer :: a");
        put("end type");
      }
      exec_block(n, depth + 1);
      put(kw("end block", "endblock") + post);
    } break;
    case 8:
      put(pre + "select type ( pp => obj % x )");
      if (r.chance(2, 3)) {
        put("type is ( real ( 8 ) )" + (r.chance(1, 2) ? post : ""));
        exec_block(n, depth + 1);
      }
      if (r.chance(1, 2)) {
        put("class is ( tp )" + (r.chance(1, 2) ? post : ""));
        exec_block(n, depth + 1);
      }
      put(kw("end select", "endselect") + post);
      break;
    case 9: { // an action ends the loop
      int l = fresh();
      put("do " + std::to_string(l) + (r.chance(1, 2) ? " , " : " ") + (r.chance(1, 4) ? "while ( " + cond() + " )" : var() + " = 1 , 10"));
      exec_block(n, depth + 1);
      put(r.chance(1, 2) ? call() : var() + " = " + expr(1), l);
    } break;
    default: { // three loops share their end
      int l = fresh();
      put("do " + std::to_string(l) + " i = 1 , 10");
      if (r.chance(1, 2))
        put(action_in_loop());
      put("do " + std::to_string(l) + " j = 1 , 20");
      if (r.chance(1, 2))
        put("do " + std::to_string(l) + " k = 1 , 20");
      exec_block(n, depth + 1);
      put(r.chance(1, 2) ? "continue" : "arr ( i , j ) = " + expr(1), l);
    } break;
    }
  }
  std::string action_in_loop() { return var() + " = " + expr(1); }
  void rich_construct(int depth) {
    std::string nm = r.chance(1, 3) ? "nm" + std::to_string(r.range(1, 9)) : "";
    std::string pre = nm.empty() ? "" : nm + " : ", post = nm.empty() ? "" : " " + nm;
    int n = r.range(0, 2);
    if (r.chance(1, 2)) {
      more_construct(depth, pre, post);
      return;
    }
    switch (r.below(o.legacy ? 7 : 5)) {
    case 0:
      put(pre + "if ( " + cond() + " ) then");
      exec_block(n, depth + 1);
      if (r.chance(1, 3)) {
        put(kw("else if", "elseif") + " ( " + cond() + " ) then" + (r.chance(1, 2) ? post : ""));
        exec_block(n, depth + 1);
      }
      if (r.chance(1, 3)) {
        put("else" + (r.chance(1, 2) ? post : ""));
        exec_block(n, depth + 1);
      }
      put(kw("end if", "endif") + post);
      break;
    case 1:
      put(pre + "block");
      if (r.chance(1, 2))
        put("integer :: loc" + std::to_string(r.range(1, 9)));
      exec_block(n + 1, depth + 1);
      put(kw("end block", "endblock") + post);
      break;
    case 2:
      put(pre + "select type ( obj )");
      put("type is ( integer )");
      exec_block(1, depth + 1);
      if (r.chance(1, 2)) {
        put("class is ( tp )");
        exec_block(n, depth + 1);
      }
      put("class default");
      exec_block(1, depth + 1);
      put(kw("end select", "endselect") + post);
      break;
    case 3:
      put(pre + "forall ( i = 1 : 3 )");
      put("arr( i ) = " + expr(2));
      put(kw("end forall", "endforall") + post);
      break;
    case 4:
      put("where ( arr > 0 )");
      put("arr = " + expr(2));
      for (int i = r.range(1, 3); i > 0; --i) {
        put("elsewhere ( arr < 9 )");
        put("arr = " + expr(2));
      }
      put("elsewhere");
      put("arr = " + lit());
      put(kw("end where", "endwhere"));
      break;
    case 5: {
      int l = fresh();
      put("do " + std::to_string(l) + " " + var() + " = 1 , 10");
      exec_block(1, depth + 1);
      put(kw("end do", "enddo"), l);
    } break;
    default: { // one statement ends two loops
      int l = fresh();
      put("do " + std::to_string(l) + " " + var() + " = 1 , 10");
      put("do " + std::to_string(l) + " " + var() + " = 1 , 20");
      exec_block(1, depth + 1);
      put("continue", l);
    } break;
    }
  }
  void rich_spec() {
    if (r.chance(1, 3)) {
      std::string nm = "tp" + std::to_string(r.range(1, 9));
      put(r.chance(1, 2) ? "type :: " + nm : r.chance(1, 2) ? "type , public :: " + nm : "type " + nm);
      if (r.chance(1, 3))
        put(r.chance(1, 2) ? "private" : "sequence");
      put("integer :: a = 1");
      if (r.chance(1, 2))
        put("real , pointer :: b ( : ) => null ( )");
      if (r.chance(1, 3)) {
        put("contains");
        put("procedure :: run => run_impl");
        if (r.chance(1, 2))
          put("generic :: go => run");
        if (r.chance(1, 3))
          put("final :: finish");
      }
      put(kw("end type", "endtype") + (r.chance(1, 2) ? " " + nm : ""));
    }
    if (r.chance(1, 3)) {
      put(r.chance(1, 4) ? "interface gen1" : "interface");
      for (int i = r.range(1, 2); i > 0; --i) {
        std::string nm = "ext" + std::to_string(r.range(1, 9));
        bool fn = r.chance(1, 2);
        put(fn ? "function " + nm + " ( x )" : "subroutine " + nm + " ( x )");
        if (r.chance(2, 3))
          put("integer :: x");
        put(fn ? "end function" : "end subroutine " + nm);
      }
      put(kw("end interface", "endinterface"));
    }
    switch (r.below(8)) {
    case 0:
      put("common / blk / q1 , q2");
      break;
    case 1:
      put("data q1 / 1.0 /");
      break;
    case 2:
      put("save");
      break;
    case 3:
      put("external e1 , e2");
      break;
    case 4:
      put("dimension zz ( 10 )");
      break;
    case 5:
      put("namelist / nml / q1 , q2");
      break;
    case 6:
      put("character ( len = * ) , parameter :: txt = " + str());
      break;
    default:;
    }
  }
  void construct(int depth) {
    int n = r.range(0, 2);
    if (o.rich && r.chance(1, 3)) {
      rich_construct(depth);
      return;
    }
    switch (r.below(o.legacy ? 9 : 8)) {
    case 0:
    case 1: {
      put("if ( " + cond() + " ) then");
      exec_block(n + 1, depth + 1);
      if (r.chance(1, 3)) {
        put(kw("else if", "elseif") + " ( " + cond() + " ) then");
        exec_block(n, depth + 1);
      }
      if (r.chance(1, 3)) {
        put("else");
        exec_block(1, depth + 1);
      }
      put(kw("end if", "endif"));
    } break;
    case 2: {
      std::string nm = r.chance(1, 3) ? "lp" + std::to_string(r.range(1, 9)) : "";
      put((nm.empty() ? "" : nm + " : ") + "do " + var() + " = 1 , " +
          std::to_string(r.range(2, 50)));
      exec_block(n + 1, depth + 1);
      if (r.chance(1, 4))
        put(r.chance(1, 2) ? "cycle" : "exit");
      put(kw("end do", "enddo") + (nm.empty() ? "" : " " + nm));
    } break;
    case 3:
      put(kw("do while", "do while") + " ( " + cond() + " )");
      exec_block(n + 1, depth + 1);
      put(kw("end do", "enddo"));
      break;
    case 4:
      put(kw("select case", "select case") + " ( " + var() + " )");
      put("case ( 1 )");
      exec_block(1, depth + 1);
      if (r.chance(1, 2)) {
        put("case ( 2 : 5 , 9 )");
        exec_block(n, depth + 1);
      }
      put("case default");
      exec_block(1, depth + 1);
      put(kw("end select", "endselect"));
      break;
    case 5:
      put("do");
      exec_block(1, depth + 1);
      put("exit");
      put(kw("end do", "enddo"));
      break;
    case 6:
      put("where ( arr > 0 )");
      put("arr = " + lit());
      if (r.chance(1, 2)) {
        put("elsewhere");
        put("arr = 2.0");
      }
      put(kw("end where", "endwhere"));
      break;
    case 7:
      put("associate ( aa => " + var() + " )");
      exec_block(1, depth + 1);
      put(kw("end associate", "endassociate"));
      break;
    case 8: {
      int l = fresh();
      put("do " + std::to_string(l) + " " + var() + " = 1 , 10");
      exec_block(1, depth + 1);
      put("continue", l);
    } break;
    }
  }
  void more_spec(bool in_module) {
    static char const *const t[] = {
        "integer * 8 k8", "character * 10 c10 , c20 * 20", "character ( 8 , 1 ) :: c8", "double precision dp1", "real x0 , y0 ( 10 )", "integer i0",
        "complex ( kind = 8 ) , allocatable , dimension ( : ) :: zc", "type ( tp ) , pointer :: ptp => null ( )", "class ( * ) , intent ( inout ) , optional :: poly",
        "class ( tp ) , allocatable :: pc", "procedure ( iface ) , pointer :: fptr => null ( )", "procedure ( ) :: ext9", "generic :: operator ( + ) => addit",
        "intent ( in ) :: a1", "optional a1", "pointer p1 ( : , : )", "target :: t1", "allocatable al ( : )", "volatile v9", "asynchronous as1", "protected pr1",
        "value va1", "codimension cd [ * ]", "intrinsic sin , cos", "bind ( c ) :: / blk /", "equivalence ( q1 , q2 ) , ( q3 ( 1 ) , q4 )",
        "common q1 , q2 / blk2 / q3", "save / blk / , q4", "data ( arr ( i ) , i = 1 , 10 ) / 10 * 0.0 /", "data q1 , q2 / 1.0 , 2 * 3.0 / , q3 / 'abc' /",
        "parameter ( pi3 = 6.28 )", "logical l1 , l2", "real ( kind = 8 ) function_x", "integer :: subroutine_y", "real , parameter :: pr ( 2 ) = [ 1.0 , 2.0 ]",
        "character ( len = 3 ) :: ch = 'a;b' , ci = \"!&'\""};
    for (int i = (int)r.below(4); i > 0; --i)
      put(t[r.below(sizeof t / sizeof *t)]);
    if (in_module && r.chance(1, 3)) {
      static char const *a[] = {"public", "private", "private :: q1", "public operator ( + ) , assignment ( = )", "public q2 , tp"};
      put(a[r.below(5)]);
    }
    switch (r.below(10)) {
    case 0:
      put(r.chance(1, 2) ? "enum , bind ( c )" : "enum , bind ( c )");
      put("enumerator :: red = 1 , green");
      if (r.chance(1, 2))
        put("enumerator blue");
      put(kw("end enum", "endenum"));
      break;
    case 1: {
      static char const *g[] = {"operator ( .my. )", "assignment ( = )", "read ( formatted )", "gen1", "operator ( + )"};
      std::string n = g[r.below(5)];
      put("interface " + n);
      if (r.chance(1, 2))
        put("module procedure mp1 , mp2");
      if (r.chance(1, 3))
        put("procedure :: mp3 , mp4");
      if (r.chance(1, 3)) {
        put("function ext8 ( x ) result ( y )");
        spec(false, true);
        nolabel = true;
        put("end function ext8");
      }
      put(kw("end interface", "endinterface") + (r.chance(1, 2) ? " " + n : ""));
    } break;
    case 2:
      put("abstract interface");
      put(r.chance(1, 2) ? "subroutine iface ( x )" : "pure subroutine iface ( x ) bind ( c )");
      spec(false, true);
      nolabel = true;
      put("end subroutine");
      put(kw("end interface", "endinterface"));
      break;
    case 3: {
      static char const *h[] = {"type , extends ( base ) , abstract :: ch1", "type , bind ( c ) :: ch1", "type , public :: ch1", "type ch1"};
      put(h[r.below(4)]);
      if (r.chance(1, 2))
        put("real , allocatable :: comp ( : , : )");
      if (r.chance(1, 2))
        put("integer i7 , i8 ( 3 )");
      if (r.chance(1, 3))
        put("procedure ( iface ) , pointer , nopass :: pp");
      if (r.chance(1, 2)) {
        put("contains");
        if (r.chance(1, 3))
          put("private");
        put(r.chance(1, 2) ? "procedure , nopass , public :: np => np_impl" : "procedure np2");
        if (r.chance(1, 3))
          put("procedure ( iface ) , deferred , pass ( self ) :: df");
        if (r.chance(1, 3))
          put("generic , public :: assignment ( = ) => asg");
        if (r.chance(1, 3))
          put("final :: f1 , f2");
      }
      put(kw("end type", "endtype") + (r.chance(1, 2) ? " ch1" : ""));
    } break;
    case 4:
      if (in_subprogram) {
        put("entry ent" + std::to_string(r.range(1, 99)) + " ( x )");
        put("integer :: aft");
      }
      break;
    case 5:
      if (!in_module)
        format();
      break;
    default:;
    }
  }
  void spec(bool in_module, bool in_body = false) {
    nolabel = true;
    int n = (int)r.below(3);
    for (int i = 0; i < n; ++i) {
      std::string u = r.pick(o.used);
      switch (r.below(4)) {
      case 0:
        put("use " + u + " , only : " + var());
        break;
      case 1:
        put("use :: " + u);
        break;
      default:
        if (o.rich && r.chance(1, 3)) {
          static char const *us[] = {"use , intrinsic :: iso_c_binding , only : c_int , cp => c_ptr", "use m_ren , a => b , operator ( .x. ) => operator ( .y. )",
                                     "use m_only , only :", "use m_ops , only : operator ( + ) , assignment ( = )", "use , non_intrinsic :: m_non"};
          put(us[r.below(5)]);
        } else
          put("use " + u);
      }
    }
    if (o.rich && in_body && r.chance(1, 4))
      put(r.chance(1, 2) ? "import" : "import , only : tp");
    if (o.rich && r.chance(1, 6)) {
      put(r.chance(1, 2) ? "implicit real ( a - h , o - z ) , integer ( i - n )" : "implicit double precision ( d )");
      if (r.chance(1, 2))
        put("parameter ( pi2 = 6.28 , n2 = 3 )");
      if (!in_module && !in_body && r.chance(1, 3))
        format();
    } else if (r.chance(1, 2))
      put("implicit none");
    if (o.rich && !in_body)
      more_spec(in_module);
    n = (int)r.below(3);
    for (int i = 0; i < n; ++i)
      switch (r.below(6)) {
      case 0:
        put("integer :: " + var());
        break;
      case 1:
        put("real , dimension ( 10 , 10 ) :: arr");
        break;
      case 2:
        put("character ( len = 20 ) :: name1");
        break;
      case 3:
        put("real ( 8 ) , parameter :: pi = 3.14");
        break;
      case 4:
        put("logical :: " + var() + " , " + var() + "_b");
        break;
      default:
        put("integer , intent ( in ) :: " + var());
      }
    if (o.rich && r.chance(1, 2))
      rich_spec();
    if (in_module && r.chance(1, 3)) {
      put("type :: tp");
      put("integer :: a");
      put(kw("end type", "endtype") + " tp");
    }
    nolabel = false;
  }
  std::string name(char const *base) {
    return std::string(base) + std::to_string(r.range(1, 99));
  }
  void module_procedure() {
    std::string nm = name("mp");
    put("module procedure " + nm);
    in_subprogram = true;
    spec(false);
    if (r.chance(9, 10))
      exec_block(1 + (int)r.below((unsigned)o.body), 0);
    if (o.internal && r.chance(1, 3)) {
      put("contains");
      subprogram(1);
    }
    static char const *e[] = {"end", "end procedure", "endprocedure"};
    put(r.chance(1, 2) ? "end procedure " + nm : e[r.below(3)]);
  }
  void subprogram(int depth) {
    bool fn = r.chance(1, 4);
    int const nl = nlabel, bl = biglabel; // labels are local to a subprogram
    if (r.chance(1, 2))
      nlabel = 10, biglabel = 10000;
    std::string nm = name(fn ? "fn" : "sub");
    std::string pre;
    if (r.chance(1, 8))
      pre = "recursive ";
    if (o.rich && r.chance(1, 4)) {
      static char const *pp[] = {"pure ", "elemental ", "impure "};
      pre = pp[r.below(3)];
      if (depth == 0 && r.chance(1, 4))
        pre = "module " + pre;
    }
    if (fn && o.rich && r.chance(1, 2)) {
      static char const *pp[] = {"integer ", "real ( 8 ) ", "logical ", "character ( len = 8 ) ", "type ( tp ) "};
      pre += pp[r.below(5)];
    }
    if (fn)
      put(pre + "function " + nm + " ( x )" +
          (r.chance(1, 3) ? " result ( y )" : "") + (o.rich && r.chance(1, 8) ? " bind ( c )" : ""));
    else
      put(pre + "subroutine " + nm +
          (r.chance(1, 2) ? "" : (r.chance(1, 2) ? " ( )" : o.rich && r.chance(1, 4) ? " ( x , * ) bind ( c , name = 'x;y' )" : " ( x , y )")));
    in_subprogram = depth == 0;
    spec(false);
    if (r.chance(9, 10)) {
      exec_block(1 + (int)r.below((unsigned)o.body), 0);
      if (r.chance(1, 4))
        put("if ( x > 3 ) return");
      if (r.chance(1, 4))
        put("return");
    }
    if (o.internal && depth < 1 && r.chance(1, 3)) {
      put("contains");
      int n = r.range(1, 2);
      for (int i = 0; i < n; ++i) {
        int const il = nlabel, ib = biglabel;
        subprogram(depth + 1);
        nlabel = il, biglabel = ib;
      }
    }
    std::string w = fn ? "function" : "subroutine";
    switch (depth > 0 ? 1 + r.below(3) : r.below(4)) {
    case 0:
      put("end");
      break;
    case 1:
      put("end " + w);
      break;
    case 2:
      put("end " + w + " " + nm);
      break;
    default:
      put("end" + w + " " + nm);
    }
    nlabel = nl, biglabel = bl;
  }
  void unit(bool &have_main) {
    in_subprogram = false;
    int k = (int)r.below(4);
    if (o.modules && k == 0) {
      std::string nm = name("mod");
      put("module " + nm);
      spec(true);
      if (r.chance(4, 5)) {
        put("contains");
        int n = r.range(1, 2);
        for (int i = 0; i < n; ++i)
          if (o.rich && r.chance(1, 6))
            module_procedure();
          else
            subprogram(0);
      }
      put(r.chance(1, 2) ? "end module " + nm : "end module");
    } else if (!have_main && k == 1) {
      have_main = true;
      std::string nm = name("main");
      bool head = !(o.headless && r.chance(2, 3));
      if (head)
        put("program " + nm);
      else
        nm = "";
      spec(false);
      exec_block(1 + (int)r.below((unsigned)o.body), 0);
      if (o.internal && r.chance(1, 3)) {
        put("contains");
        subprogram(1);
      }
      put(head && r.chance(1, 2) ? "end program " + nm
                         : (r.chance(1, 2) ? "end program" : "end"));
    } else
      subprogram(0);
  }
};

// ---------------------------------------------------------- rendering ----
// Template text: tokens separated by single blanks.
std::vector<std::string> toks(std::string const &t) {
  std::vector<std::string> v;
  std::string cur;
  char q = 0;
  for (char c : t) {
    if (q) {
      cur += c;
      if (c == q)
        q = 0;
    } else if (c == ' ') {
      if (!cur.empty())
        v.push_back(cur);
      cur.clear();
    } else {
      if (c == '\'' || c == '"')
        q = c;
      cur += c;
    }
  }
  if (!cur.empty())
    v.push_back(cur);
  return v;
}
bool wordy(char c) { return std::isalnum((unsigned char)c) || c == '_' || c == '.'; }

struct Render {
  Rng &r;
  Opts const &o;
  std::vector<std::string> out;
  int ncomment = 0;
  bool pct(int p) { return r.chance((unsigned)p, 100); }
  std::string comment() {
    static char const *txt[] = {"plain remark",  "it's got a quote",
                                "a \"half quote", "has & ampersand",
                                "x = 1; y = 2",   "!! double",
                                "trailing &",     "end subroutine",
                                "caf\xc3\xa9 \xe9"};
    return "! c" + std::to_string(ncomment++) + " " + txt[r.below(9)];
  }
  std::string gap(std::string const &a, std::string const &b) {
    bool must = wordy(a.back()) && wordy(b.front());
    if (b.front() == '\'' || b.front() == '"' || a.back() == '\'' ||
        a.back() == '"')
      must = must || wordy(a.back()) || wordy(b.front()) ||
             ((a.back() == '\'' || a.back() == '"') &&
              (b.front() == '\'' || b.front() == '"'));
    int n = must ? r.range(1, pct(20) ? 3 : 1) : (pct(60) ? 1 : (pct(80) ? 0 : 2));
    return std::string((size_t)n, ' ');
  }
  void noise() {
    while (pct(o.p_comment) && r.chance(1, 2)) {
      if (r.chance(1, 3))
        out.push_back(r.chance(1, 2) ? "" : "   ");
      else if (o.fixed && r.chance(1, 2))
        out.push_back(std::string(1, "Cc*!"[r.below(4)]) + comment().substr(1));
      else
        out.push_back(std::string(o.fixed ? 6 + r.below(4) : r.below(8), ' ') +
                      comment());
    }
    if (pct(o.p_pp)) {
      switch (r.below(o.fixed ? 3 : 4)) {
      case 0:
        out.push_back("#ifdef FOO_" + std::to_string(r.range(1, 9)));
        break;
      case 1:
        out.push_back(std::string(o.fixed ? 6 : r.below(5), ' ') +
                      "include 'file" + std::to_string(r.range(1, 9)) + ".inc'");
        break;
      case 2:
        out.push_back("#define MAC(a) \\");
        out.push_back("   a + a");
        break;
      default:
        out.push_back("!#flprbeg literal");
        out.push_back("  anything & goes ' here");
        out.push_back("!#flprend literal");
      }
    }
  }
  void line(std::vector<std::pair<int, std::string>> const &group) {
    // one logical line holding these statements
    int label = group[0].first;
    std::vector<std::string> tk; // tokens with ';' between
    for (size_t i = 0; i < group.size(); ++i) {
      if (i) {
        tk.push_back(";");
        if (pct(o.p_empty))
          tk.push_back(";");
      } else if (!label && pct(o.p_empty) && !o.fixed)
        tk.push_back(";");
      for (auto &t : toks(group[i].second)) {
        if (pct(o.p_case) && t.find('\'') == std::string::npos &&
            t.find('"') == std::string::npos)
          tk.push_back(upper(t));
        else
          tk.push_back(t);
      }
    }
    if (pct(o.p_empty))
      tk.push_back(";");
    if (o.fixed)
      fixed(label, tk);
    else
      free_(label, tk);
  }
  static bool breakable(std::string const &t, size_t k, bool isstr) {
    bool ok = t[k - 1] != '\'' && t[k - 1] != '"' && t[k] != '\'' && t[k] != '"' && t[k - 1] != '&' && t[k] != '&' &&
              t[k - 1] != '!' && t[k] != '!';
    return isstr ? ok : ok && std::isalnum((unsigned char)t[k]) && std::isalnum((unsigned char)t[k - 1]);
  }
  void free_(int label, std::vector<std::string> const &tk) {
    size_t ind = r.below(o.wide_indent ? 30 : 8);
    std::string cur;
    if (label) {
      cur = std::to_string(label) + std::string(1 + r.below(4), ' ');
      if (pct(30))
        cur = std::string(r.below(3), ' ') + cur;
    } else
      cur = std::string(ind, ' ');
    bool cont = pct(o.p_cont);
    for (size_t i = 0; i < tk.size(); ++i) {
      std::string t = tk[i];
      bool first = i == 0;
      if (!first) {
        bool brk = cont && r.chance(1, 4);
        bool must = !gap(tk[i - 1], t).empty() && wordy(tk[i - 1].back()) &&
                    wordy(t.front());
        if (brk) {
          bool lead = r.chance(1, 3);
          cur += std::string(1 + r.below(2), ' ') + "&";
          if (pct(o.p_comment))
            cur += " " + comment();
          else if (pct(10))
            cur += "  ";
          out.push_back(cur);
          while (pct(o.p_embed))
            out.push_back(std::string(r.below(6), ' ') + comment());
          cur = std::string(ind + r.below(5), ' ');
          if (lead) {
            cur += "&";
            cur += " ";
          }
          (void)must;
        } else
          cur += gap(tk[i - 1], t);
      }
      // a character literal (or a long name) may be split across lines
      bool isstr = t.find('\'') != std::string::npos ||
                   t.find('"') != std::string::npos;
      bool isname = std::isalpha((unsigned char)t[0]) && t.size() > 3 && i > 0;
      if (o.split_tokens && cont && t.size() > 3 && (isstr || isname) &&
          r.chance(1, 3)) {
        // never between the two halves of a doubled quote, and never leave a
        // blank or an ampersand at the break
        size_t from = 0;
        for (int tries = r.chance(1, 3) ? 4 : 1; tries > 0 && t.size() - from > 3; --tries) {
          size_t k = from + 1 + r.below(t.size() - from - 2);
          if (!breakable(t, k, isstr))
            continue;
          cur += t.substr(from, k - from) + "&";
          out.push_back(cur);
          if (pct(o.p_embed / 2))
            out.push_back(std::string(r.below(6), ' ') + comment());
          cur = std::string(ind + r.below(5), ' ') + "&";
          from = k;
        }
        cur += t.substr(from);
        continue;
      }
      cur += t;
    }
    if (pct(o.p_comment))
      cur += std::string(r.below(4), ' ') + comment();
    else if (pct(5))
      cur += "  ";
    out.push_back(cur);
  }
  void fixed(int label, std::vector<std::string> const &tk) {
    std::string cur;
    if (label) {
      std::string l = std::to_string(label);
      size_t lead = l.size() < 5 ? r.below(6 - l.size()) : 0;
      cur = std::string(lead, ' ') + l;
      cur.resize(6, ' ');
    } else
      cur = std::string(6, ' ');
    if (r.chance(1, 40))
      cur[5] = '0';
    cur += std::string(r.below(6), ' ');
    bool cont = pct(o.p_cont);
    auto next_line = [&](size_t blanks) {
      out.push_back(cur);
      while (pct(o.p_embed))
        out.push_back(std::string(1, "Cc*!"[r.below(4)]) + comment().substr(1));
      cur = "     " + std::string(1, "&1+x$"[r.below(5)]) + std::string(blanks, ' ');
    };
    for (size_t i = 0; i < tk.size(); ++i) {
      std::string g = i ? gap(tk[i - 1], tk[i]) : "";
      std::string const &t = tk[i];
      bool isstr = t.find('\'') != std::string::npos || t.find('"') != std::string::npos;
      bool isname = std::isalpha((unsigned char)t[0]) && t.size() > 3 && i > 0;
      if (isstr && t.size() > 60 + 6 * (i == 0)) { // column 72 is inside of the literal
        size_t from = 0;
        if (cur.size() + g.size() > 68)
          next_line(r.below(4));
        else
          cur += g;
        while (cur.size() + t.size() - from > 72) {
          size_t k = from + 72 - cur.size();
          cur += t.substr(from, k - from);
          next_line(0);
          from = k;
        }
        cur += t.substr(from);
        continue;
      }
      if (o.split_tokens && cont && isstr && t.size() > 3 && cur.size() + g.size() + t.size() < 72 && r.chance(1, 3)) {
        size_t k = 1 + r.below(t.size() - 2); // blanks in front move the break to column 72
        cur += std::string(72 - k - cur.size(), ' ') + t.substr(0, k);
        next_line(0);
        cur += t.substr(k);
        continue;
      }
      if (o.split_tokens && cont && isname && !isstr && cur.size() + g.size() + t.size() < 66 && r.chance(1, 4)) {
        size_t from = 0;
        cur += g;
        for (int tries = r.chance(1, 3) ? 4 : 1; tries > 0 && t.size() - from > 3; --tries) {
          size_t k = from + 1 + r.below(t.size() - from - 2);
          if (!breakable(t, k, false))
            continue;
          cur += t.substr(from, k - from);
          next_line(0);
          from = k;
        }
        cur += t.substr(from);
        continue;
      }
      if (i && ((cont && r.chance(1, 4)) || cur.size() + tk[i].size() > 66)) {
        if (pct(o.p_comment) && cur.size() < 60)
          cur += " " + comment();
        out.push_back(cur);
        while (pct(o.p_embed))
          out.push_back(std::string(1, "Cc*!"[r.below(4)]) +
                        comment().substr(1));
        cur = "     " + std::string(1, "&1+x$"[r.below(5)]) +
              std::string(r.below(6) + (g.empty() ? 0 : 1), ' ');
        cur += tk[i];
      } else
        cur += g + tk[i];
    }
    if (pct(o.p_comment) && cur.size() < 60)
      cur += std::string(1 + r.below(3), ' ') + comment();
    out.push_back(cur);
  }
};
} // namespace

std::vector<std::string> document(Rng &r, Opts const &o) {
  Ctx c{r, o, 10, {}};
  bool have_main = false;
  for (int i = 0; i < o.units; ++i)
    c.unit(have_main);
  Render rd{r, o, {}, 0};
  std::vector<std::pair<int, std::string>> group;
  auto flush = [&] {
    if (group.empty())
      return;
    rd.noise();
    rd.line(group);
    group.clear();
  };
  for (size_t i = 0; i < c.stmts.size(); ++i) {
    std::string const &s = c.stmts[i];
    size_t t = s.find('\t');
    int label = std::stoi(s.substr(0, t));
    std::string text = s.substr(t + 1);
    if (!group.empty() &&
        (label || group.size() > 3 || !r.chance((unsigned)o.p_compound, 100)))
      flush();
    group.push_back({label, text});
  }
  flush();
  rd.noise();
  if (o.tabs)
    for (auto &l : rd.out) {
      if (!o.fixed && l.size() > 2 && l[0] == ' ' && r.chance(1, 4))
        l[0] = '\t';
    }
  if (o.crlf)
    for (auto &l : rd.out)
      l += '\r';
  return rd.out;
}

std::string simple_stmt(Rng &r, Opts const &o) {
  Ctx c{r, o, 10, {}};
  Opts o2 = o;
  o2.p_case = 0;
  o2.p_empty = 0;
  Render rd{r, o2, {}, 0};
  auto tk = toks(c.action());
  std::string s;
  for (size_t i = 0; i < tk.size(); ++i)
    s += (i ? rd.gap(tk[i - 1], tk[i]) : "") + tk[i];
  return s;
}

// ------------------------------------------------- structural reading ----
namespace {
using ref::ident;
using ref::starts;
// the callee when this is (an if-stmt holding) a call-stmt
std::string callee(std::string s) {
  if (starts(s, "if(")) {
    int depth = 0;
    char q = 0;
    size_t i = 2;
    for (; i < s.size(); ++i) {
      char c = s[i];
      if (q) {
        if (c == q)
          q = 0;
        continue;
      }
      if (c == '\'' || c == '"')
        q = c;
      else if (c == '(')
        depth++;
      else if (c == ')' && --depth == 0)
        break;
    }
    s = i < s.size() ? s.substr(i + 1) : "";
  }
  if (!starts(s, "call"))
    return "";
  if (s.size() > 4 && s[4] == '=')
    return "";
  size_t p = 4;
  std::string n = ident(s, p);
  p += n.size();
  for (;;) {
    size_t q = p;
    if (q < s.size() && s[q] == '(') {
      q = ref::skip_paren(s, q);
      if (q == std::string::npos)
        return n;
    }
    if (q >= s.size() || s[q] != '%')
      return n;
    n = ident(s, q + 1);
    p = q + 1 + n.size();
  }
}


void leaves(ref::Node const &n, std::vector<ref::Node const *> &v) {
  if (n.stmt >= 0)
    v.push_back(&n);
  for (auto &c : n.k)
    leaves(c, v);
}
void first_last(ref::Node const &n, int &a, int &b) {
  std::vector<ref::Node const *> v;
  leaves(n, v);
  a = v.front()->stmt;
  b = v.back()->stmt;
}
struct Collect {
  std::vector<std::string> const &low;
  std::vector<Proc> &out;
  void walk(ref::Node const &n, int host, bool in_interface) {
    static char const *kind[] = {"main-program", "function-subprogram", "subroutine-subprogram", "separate-module-subprogram", "interface-body"};
    static char const *word[] = {"program", "function", "subroutine", "moduleprocedure", ""};
    int k = 0;
    while (k < 5 && n.tag != kind[k])
      ++k;
    if (k < 5) {
      Proc p;
      p.internal = host >= 0;
      p.interface_body = k == 4;
      p.kind = word[k];
      first_last(n, p.begin, p.end);
      ++p.end;
      std::string const &h = low[(size_t)p.begin];
      size_t at = 0;
      if (k == 0) {
        p.header = n.k[0].tag == "program-stmt";
        if (p.header)
          p.name = ident(h, at = 7);
      } else if (k == 3)
        p.name = ident(h, at = 15);
      else {
        bool fn = false;
        ref::subprogram_header(h, p.name, &fn, &at);
        if (k == 4)
          p.kind = fn ? "function" : "subroutine";
      }
      p.name_at = at;
      p.after_uses = p.begin + (p.header ? 1 : 0);
      for (size_t j = 0; j < n.k.size(); ++j) {
        auto &c = n.k[j];
        std::vector<ref::Node const *> v;
        leaves(c, v);
        auto put = [&](int r) {
          for (auto l : v)
            if (p.reg[r].empty() || p.reg[r].back() < l->stmt) // the end of shared loops is in each of them
              p.reg[r].push_back(l->stmt);
        };
        if (j == 0 && p.header)
          put(0);
        else if (c.tag == "specification-part") {
          for (auto &d : c.k) {
            v.clear();
            leaves(d, v);
            put(d.tag == "use-stmt" ? 1 : d.tag == "import-stmt" ? 2 : d.tag == "implicit-part" ? 3 : 4);
            if (d.tag == "use-stmt") {
              std::string const &u = low[(size_t)d.stmt];
              size_t q = u.find("::");
              p.uses.insert(ident(u, u[3] == ':' || u[3] == ',' ? q + 2 : 3));
              p.after_uses = d.stmt + 1;
            }
          }
        } else if (c.tag == "execution-part") {
          put(5);
          p.has_exec = true;
          p.first_exec = v.front()->stmt;
          p.last_exec = v.back()->stmt;
          for (auto l : v) {
            std::string c2 = callee(low[(size_t)l->stmt]);
            if (!c2.empty())
              p.calls.insert(c2);
          }
        } else if (c.tag == "internal-subprogram-part")
          put(6);
        else
          put(7);
      }
      (void)in_interface;
      host = (int)out.size();
      out.push_back(p);
    }
    for (auto &c : n.k)
      walk(c, host, in_interface);
  }
};
} // namespace

bool procs(ref::Doc const &d, std::vector<Proc> &out) {
  ref::Node root;
  std::string why;
  out.clear();
  if (d.stmts.empty())
    return true;
  if (!ref::parse(d, root, why))
    return false;
  std::vector<std::string> low;
  for (auto &s : d.stmts)
    low.push_back(ref::lower_code(s.canon));
  Collect c{low, out};
  c.walk(root, -1, false);
  return true;
}
// Text in the sequence field (columns 73 to 80) of some lines of a fixed-form
// document; false if a line reaches into that field already.
bool sequence_field(Rng &r, std::vector<std::string> &lines) {
  for (auto const &l : lines)
    if (l.size() > 72 || l.find('\t') != std::string::npos)
      return false;
  int how = (int)r.below(3), n = 10;
  bool pp = false;
  for (size_t i = 0; i < lines.size(); ++i, n += 10) {
    std::string &l = lines[i];
    size_t b = l.find_first_not_of(' ');
    bool const prev = pp;
    pp = (b == 0 && l[0] == '#') || prev ? ref::rtrim(l).size() && ref::rtrim(l).back() == '\\' : false;
    if (prev || (b == 0 && (l[0] == '#' || std::toupper((unsigned char)l[0]) == 'C' || l[0] == '*')))
      continue;
    std::string low = b == std::string::npos ? "" : lower(l.substr(b, 7));
    if (b != std::string::npos && b != 5 && (l[b] == '!' || low == "include"))
      continue;
    if (b == std::string::npos && !r.chance(1, 4))
      continue;
    bool const cont = i + 1 < lines.size() && lines[i + 1].size() > 6 && lines[i + 1].find_first_not_of(' ') == 5 && lines[i + 1][5] != '0';
    if (how == 1 && !cont)
      continue;
    if (how == 2 && r.chance(1, 2))
      continue;
    std::string t;
    if (how == 1)
      t = r.chance(1, 6) ? "& ! more " + std::to_string(n) : "&"; // (no two alike)
    else {
      t = std::to_string(n);
      t = (r.chance(1, 8) ? "!SQ" : "SEQ") + std::string(t.size() < 5 ? 5 - t.size() : 0, '0') + t;
      if (r.chance(1, 10))
        t.insert(0, 2, ' ');
    }
    l.resize(72, ' ');
    l += t;
  }
  return true;
}

} // namespace gen
