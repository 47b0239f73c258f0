From c38edf57f07b266e4406ac6c357590f76c3b2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 01/73] fix: report a read error instead of treating it as the
 end of the file

---
 src/flpr/Logical_File.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..c44f159 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -59,6 +59,11 @@ bool Logical_File::read_and_scan(std::istream &is,
   for (std::string line; std::getline(is, line);) {
     buf.push_back(line);
   }
+  if (is.bad()) {
+    std::cerr << "Logical_File::read_and_scan: error while reading \""
+              << stream_name << "\"\n";
+    return false;
+  }
   return scan(buf, stream_name, last_fixed_col, stream_type);
 }
 
-- 
2.43.0


From fa3a8a2c4c5696f79cca71808918771ea4fa9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 02/73] fix: Parsed_File::read_file returns true on success

---
 src/flpr/Parsed_File.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..8f226e5 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -165,7 +165,7 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
-- 
2.43.0


From a88f334b6ea4a6ca8fb4be237f2260af20ff0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 03/73] fix: an unparsable file leaves an empty parse tree
 instead of dereferencing its root

---
 src/flpr/Parsed_File.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 8f226e5..8c76227 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -181,6 +181,7 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
     if (!result.match) {
       std::cerr << "\tparsing FAILED" << std::endl;
       bad_state_ = true;
+      return;
     }
     parse_tree_.swap(result.parse_tree);
     link_stmts_recurse_(*parse_tree_);
-- 
2.43.0


From d5dc41af86f56ace6293eae14e9bebb64222274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 04/73] fix: module reports files that it cannot parse or write

---
 apps/module_base.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/module_base.cc b/apps/module_base.cc
index 7dfa730..1d6ca24 100644
--- a/apps/module_base.cc
+++ b/apps/module_base.cc
@@ -36,6 +36,8 @@ bool do_file(std::string const &filename, int const last_fixed_col,
   FLPR::Procedure_Visitor puv(file, visit_action);
 
   bool const changed = puv.visit();
+  if (!file) // unable to parse
+    exit(1);
 
   if (changed) {
     std::string bak{filename + ".bak"};
@@ -43,6 +45,11 @@ bool do_file(std::string const &filename, int const last_fixed_col,
       std::ofstream os(filename);
       write_file(os, file);
       os.close();
+      if (!os) {
+        std::cerr << "Unable to write \"" << filename
+                  << "\", the original is in \"" << bak << "\"" << std::endl;
+        exit(3);
+      }
     } else {
       std::cerr << "Unable to rename \"" << filename << "\" to \"" << bak
                 << std::endl;
-- 
2.43.0


From 576e34dfbb549b3ee847def627e18a18d2773826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 05/73] fix: module reports an unreadable list of call names

---
 apps/module.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/module.cc b/apps/module.cc
index 44971de..f5c1a99 100644
--- a/apps/module.cc
+++ b/apps/module.cc
@@ -66,6 +66,10 @@ int main(int argc, char *argv[]) {
     while (is >> name) {
       action.add_subroutine_name(name);
     }
+    if (!is.eof()) {
+      std::cerr << "Unable to read \"" << call_name << "\"" << std::endl;
+      return 1;
+    }
     is.close();
   } else {
     /* There is only one name that triggers the action */
-- 
2.43.0


From 90c559be1db65dfea829073811623bc7297cd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 06/73] fix: initialize the output option of flpr-format

---
 apps/flpr_format_base.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.hh b/apps/flpr_format_base.hh
index 881c61c..558ce41 100644
--- a/apps/flpr_format_base.hh
+++ b/apps/flpr_format_base.hh
@@ -30,8 +30,8 @@ struct Options {
   };
 
   Options() noexcept
-      : write_inplace_{false}, verbose_{false}, do_timing_{false}, quiet_{
-                                                                       false} {
+      : write_inplace_{false}, verbose_{false}, do_timing_{false},
+        quiet_{false}, do_output_{false} {
     disable_all_filters();
   }
   void disable_all_filters() noexcept { filters_.fill(false); }
-- 
2.43.0


From e1097613eac7f79571f149e01a8b99cfebba2252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 07/73] fix: flpr-format reports unreadable input and failed
 output in its exit status

---
 apps/flpr-format.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apps/flpr-format.cc b/apps/flpr-format.cc
index 563b5f3..568284a 100644
--- a/apps/flpr-format.cc
+++ b/apps/flpr-format.cc
@@ -45,12 +45,19 @@ int main(int argc, char *const argv[]) {
      below. */
   FLPR::Indent_Table indents;
 
+  int status{0};
+
   /* Process each input file */
   for (auto const &fname : filenames) {
     File file;
     VERBOSE_BEGIN("read_file");
     file.read_file(fname, options[OPT(COL72)]?72:0);
     VERBOSE_END;
+    if (!file) {
+      std::cerr << "Error reading file \"" << fname << "\"" << std::endl;
+      status = 2;
+      continue;
+    }
     /* Define the indentation pattern based on the input format. It would be
        nice if this was setup from an external configuration file */
     if (file.logical_file().is_fixed_format() && !options[OPT(FIXED_TO_FREE)]) {
@@ -61,6 +68,13 @@ int main(int argc, char *const argv[]) {
     }
     if (flpr_format_file(file, options, indents)) {
       std::cerr << "Error formating file \"" << fname << "\"" << std::endl;
+      status = 2;
     }
   }
+
+  if (!std::cout.flush()) {
+    std::cerr << "Error writing output" << std::endl;
+    status = 2;
+  }
+  return status;
 }
-- 
2.43.0


From cce33436ea4334f4035d54d254aa491971e90458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 08/73] fix: caliper reports failed output in its exit status

---
 apps/caliper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/caliper.cc b/apps/caliper.cc
index f9efb6a..d56d642 100644
--- a/apps/caliper.cc
+++ b/apps/caliper.cc
@@ -65,6 +65,10 @@ bool caliper_file(std::string const &filename) {
   bool const changed = puv.visit();
   if (changed) {
     write_file(std::cout, file);
+    if (!std::cout.flush()) {
+      std::cerr << "Error writing output" << std::endl;
+      return false;
+    }
   }
   return changed;
 }
-- 
2.43.0


From dd49e8a3386894739b1363d5516a938e102170f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 09/73] fix: parse_files reports an unreadable file-list

---
 apps/parse_files.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/parse_files.cc b/apps/parse_files.cc
index 5ae783d..db5b1ab 100644
--- a/apps/parse_files.cc
+++ b/apps/parse_files.cc
@@ -90,6 +90,11 @@ bool file_list_from_file(std::vector<std::string> &filenames,
     filenames.emplace_back(std::string{});
     filenames.back().swap(fname);
   }
+  if (is.bad()) {
+    std::cerr << "Unable to read file-list \"" << file_list_name << "\""
+              << std::endl;
+    return false;
+  }
   is.close();
   return filenames.size() > orig_size;
 }
-- 
2.43.0


From d52a4b2515afdd975d9223255c904b28329ee7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 10/73] fix: reset the scanner condition at the end of each
 scanned string

---
 src/flpr/scan_fort.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..4d6785c 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -281,6 +281,10 @@ write { return Syntax_Tags::KW_WRITE; }
 
 [ \t\r] /* eat whitespace */
 
+  /* the input may end inside of a real-literal-constant: don't let that
+     condition leak into the scan of the next string */
+<*><<EOF>> { BEGIN(INITIAL); yyterminate(); }
+
 . { return Syntax_Tags::UNKNOWN; }
 
 
-- 
2.43.0


From b02553e02871dbba5bbf17c617604e86d6a6208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 11/73] fix: accept a labeled end-do-stmt that closes a
 nonlabel-do-stmt

---
 src/flpr/Prgm_Parsers_utils.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..f939b5a 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -548,8 +548,10 @@ public:
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label (or with a label that isn't referenced by an open
+       label-do-stmt), the only end-do this can be is a end-do-statment */
+    if (!state.ss->has_label() ||
+        state.do_label_stack.level(state.ss->label()) < 0) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
         return PP_Result{}; // wasn't end-do-stmt, so match fails
-- 
2.43.0


From 6c7296e03eff6a3471c9dc4658b159be0c058303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 12/73] fix: token layout positions account for embedded
 comment lines

---
 src/flpr/Line_Accum.cc   | 6 ++++--
 src/flpr/Line_Accum.hh   | 6 ++++++
 src/flpr/Logical_Line.cc | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Line_Accum.cc b/src/flpr/Line_Accum.cc
index ee3a1c4..1062f51 100644
--- a/src/flpr/Line_Accum.cc
+++ b/src/flpr/Line_Accum.cc
@@ -31,6 +31,8 @@ void Line_Accum::add_line(int const file_lineno, int const num_left_spaces,
   lli_to_accum_offset_.push_back(accum_.size());
   lli_to_file_line_num_.push_back(file_lineno);
   lli_to_file_column_num_.push_back(main_txt_file_colno);
+  lli_to_layout_line_.push_back(next_layout_line_);
+  next_layout_line_ += 1;
   accum_ += main_txt;
   if (num_right_spaces > 0) {
     accum_ += ' ';
@@ -80,12 +82,12 @@ bool Line_Accum::linecolno(int accum_offset, int &lineno, int &colno,
   accum_offset -= lli_to_accum_offset_[lli];
   lineno = lli_to_file_line_num_[lli];
   colno = lli_to_file_column_num_[lli] + accum_offset;
-  txt_lineno = (int)lli;
+  txt_lineno = lli_to_layout_line_[lli];
   txt_colno = accum_offset;
 
   assert(colno > 0);
   assert(txt_lineno >= 0);
-  assert(txt_lineno < static_cast<int>(lli_to_file_line_num_.size()));
+  assert(txt_lineno < next_layout_line_);
   assert(txt_colno >= 0);
 
   return true;
diff --git a/src/flpr/Line_Accum.hh b/src/flpr/Line_Accum.hh
index 07a481f..467fa71 100644
--- a/src/flpr/Line_Accum.hh
+++ b/src/flpr/Line_Accum.hh
@@ -33,6 +33,9 @@ public:
                 int const main_txt_file_colno, std::string const &main_txt,
                 int const num_right_spaces);
 
+  //! Account for a layout_ line that doesn't contribute any text
+  void skip_line() { next_layout_line_ += 1; }
+
   //! Return the file line and column
   /*!
     \param[in]  offset   The offset returned by yylex
@@ -62,6 +65,9 @@ private:
   std::vector<int> lli_to_accum_offset_;
   std::vector<int> lli_to_file_line_num_;
   std::vector<int> lli_to_file_column_num_;
+  /* the layout_ line for each lli: these differ when lines are skipped */
+  std::vector<int> lli_to_layout_line_;
+  int next_layout_line_{0};
 };
 } // namespace FLPR
 #endif
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..cce9039 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -131,6 +131,8 @@ void Logical_Line::init_from_layout() noexcept {
          have the correct breaks between lexemes. */
       la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
                   fl.right_space.size());
+    } else {
+      la.skip_line();
     }
   }
 
-- 
2.43.0


From caa6bfa04b2ae8dc4dcce0db9882aa2fd6c8b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 13/73] fix: set the layout position of both parts of a split
 keyword

---
 src/flpr/Logical_Line.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index cce9039..6c98ed0 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -771,8 +771,23 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
     /* Break up keywords with no space. */
+    size_t const num_frags = fragments_.size();
     if (result_tok == Syntax_Tags::TK_NAME)
       unsmash();
+    bool const unsmashed = fragments_.size() > num_frags;
+    if (unsmashed) {
+      /* set the layout of the first part, and the start of the second */
+      Token_Text &first{*std::prev(fragments_.end(), 2)};
+      int const len = first.text().size();
+      first.mt_begin_line_ = tli;
+      first.mt_begin_col_ = tci;
+      la.linecolno(tok_start_col + len - 1, li, ci, first.mt_end_line_,
+                   first.mt_end_col_);
+      first.mt_end_col_ += 1;
+      first.pre_spaces_ = next_pre_sp;
+      next_pre_sp = 0;
+      la.linecolno(tok_start_col + len, li, ci, tli, tci);
+    }
 
     /* calculate the "end" address (one character beyond the last character of
        the token */
-- 
2.43.0


From 475b50dc778c6ce76d20dca64e65590ff301ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 14/73] fix: setting label zero removes the statement label

---
 src/flpr/File_Line.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..3582763 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -610,8 +610,15 @@ bool File_Line::set_label(int new_label) {
 
   auto &bits = classification_;
 
-  if (new_label == 0 && !has_label())
-    return false;
+  if (new_label == 0) {
+    if (!has_label())
+      return false;
+    if (!is_fixed_format())
+      left_space.insert(0, left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
     if (left_txt.empty()) {
       left_txt = std::to_string(new_label);
-- 
2.43.0


From bccee18e29a667d5611cecf73ca0902952eba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 15/73] fix: edit positions are relative to the statement, not
 the Logical_Line

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index c44f159..da457e5 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -429,8 +429,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -445,7 +445,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From a61f8d5b9d5e15d81a659f5755d95411432bbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 16/73] fix: compare the split line with the number of layout
 lines

---
 src/flpr/Logical_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6c98ed0..80e3469 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -503,7 +503,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
   auto const num_left_sp = layout_[0].main_first_col() - 1;
 
-- 
2.43.0


From a120f2223bf0ad73c795dd66d0ffdf84e8bd7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 17/73] fix: keep the continuation of a line when text follows
 the erased range

---
 src/flpr/Logical_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 80e3469..a540e99 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -445,7 +445,7 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
   }
 
   int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
+  for (size_t i = hold_stln; i < layout_.size(); ++i)
     if (layout_[i].is_fortran())
       count_fortran += 1;
   if (count_fortran == 1)
-- 
2.43.0


From d6bc05708c05aa5a05abb3af06bb2f1b8078e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 18/73] fix: keep the trailing comment when the text of a line
 is removed

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 3582763..e12586a 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -436,13 +436,13 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
     left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From 715970478d75fcc2df7f66065bbcc583b7407b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 19/73] fix: moving a line left must not insert outside of its
 right space

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index e12586a..3c8d3ac 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -509,7 +509,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
+    int offset{0};
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -562,7 +562,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From 87cad38e2b15d22946f1a6baf22d6ddf629e8c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:30 +0000
Subject: [PATCH 20/73] fix: a statement emplaced at the beginning of a region
 becomes part of it

---
 src/flpr/Procedure.hh       | 2 +-
 src/flpr/Range_Partition.hh | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..3e3c0a6 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..b176488 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -138,11 +138,16 @@ public:
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
+    iterator old_begin = begin(idx);
     if (insert_pos == old_begin) {
       /* inserting before the body changes our begin, and we tell the tracker
          for the previous partition that their end has changed. */
       parts_[idx].begin = new_begin;
+      /* empty partitions directly in front stay there */
+      for (index_type p = parts_[idx].pred;
+           p != end_idx_ && parts_[p].begin == old_begin; p = parts_[p].pred) {
+        parts_[p].begin = new_begin;
+      }
       if (has_tracker(idx))
         parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
       if (valid_idx_(idx - 1) && has_tracker(idx - 1)) {
-- 
2.43.0


From 9aae02ce2811d7191c6785e011e59194c84dadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:32 +0000
Subject: [PATCH 21/73] fix: keep continued preprocessor lines of fixed-format
 files verbatim

---
 src/flpr/Logical_File.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index da457e5..444720b 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -141,6 +141,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
       size_t start_line = curr++;
       while (curr < N && last_non_blank_char(fl[curr - 1].left_txt) == '\\') {
         fl[curr].make_preprocessor();
+        fl[curr].left_txt = raw_lines[curr]; // not Fortran: verbatim text
         curr += 1;
       }
       lines.emplace_back(fl.begin() + start_line, fl.begin() + curr);
@@ -253,6 +254,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
       size_t start_line = curr++;
       while (curr < N && last_non_blank_char(fl[curr - 1].left_txt) == '\\') {
         fl[curr].make_preprocessor();
+        fl[curr].left_txt = raw_lines[curr]; // not Fortran: verbatim text
         curr += 1;
       }
       lines.emplace_back(fl.begin() + start_line, fl.begin() + curr);
-- 
2.43.0


From 0d5bb19e2019cde7d466a66a91e1826af6ede64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:20 +0000
Subject: [PATCH 22/73] fix: comment and blank lines do not end a continued
 line or character context

---
 src/flpr/Logical_File.cc | 10 +++++++---
 src/flpr/Logical_Line.cc |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 444720b..e432045 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -105,7 +105,8 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -202,8 +203,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* comment and blank lines may appear between continued lines */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
+    if (!fl[i].is_blank())
+      prev_line_cont = fl[i].is_continued();
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a540e99..6e060de 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,10 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
+    if (!layout_.back().is_blank())
+      prev_line_cont = layout_.back().is_continued();
   }
   init_from_layout();
 }
@@ -103,7 +105,8 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From 72f76420bb2517d8e330d121c8e8c70e31dc613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:17 +0000
Subject: [PATCH 23/73] fix: indenting must not cut fixed-format comments at a
 later exclamation mark

---
 src/flpr/File_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 3c8d3ac..a648451 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -459,7 +459,10 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
+    /* a fixed-format comment may start with another character in column one */
+    std::string::size_type pos = left_txt.find_first_not_of(" \t");
+    if (pos != std::string::npos && left_txt[pos] != '!')
+      return false;
     if (pos != std::string::npos) {
       left_space.clear();
       main_txt.clear();
-- 
2.43.0


From f0f06331aa04206920cf6b06cf4a85106854d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 24/73] fix: splitting a line keeps a token that continues on
 the next line whole

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e060de..d1a4272 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -556,7 +556,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* A token may be split across an ampersand that follows it directly, so
+         don't introduce space where there was none */
+      if (!export_beg->right_space.empty() &&
+          export_beg->right_space.size() != new_rs) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
-- 
2.43.0


From 65256f7c1715fcdbdb9de43b5758c94c17f689b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:29 +0000
Subject: [PATCH 25/73] fix: the remainder of a split line does not begin with
 a comment line

---
 src/flpr/Logical_Line.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d1a4272..894c5a2 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -594,7 +594,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
 
-    /* skip comments */
+    /* skip comments: they stay with this line, because the first layout line
+       of a Logical_Line has to hold its text */
     auto non_trivial = export_beg;
     while (non_trivial != layout_.end() && non_trivial->is_trivial()) {
       if (non_trivial->left_txt.empty()) {
@@ -605,6 +606,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
       non_trivial->set_leading_spaces(num_left_sp);
+      export_beg = non_trivial;
     }
   }
 
@@ -632,7 +634,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   }
 
   /* Trim down this layout_ */
-  layout_.resize(split_line + 1);
+  layout_.erase(export_beg, layout_.end());
 
   /* Statements is now invalid */
   clear_stmts();
-- 
2.43.0


From ccda53fb5e05be6be88272736fdde19a626cbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:15 +0000
Subject: [PATCH 26/73] fix: splitting a compound line updates the statements
 that stay on it

---
 src/flpr/Logical_File.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index e432045..be1d90f 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -342,6 +342,17 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
     std::advance(update_stmt, 1);
   }
   assert(num_changed == ll_seq_new->stmts().size());
+
+  /* the tokens following prev_stmt are gone, so also update the statements that
+     remain on the original Logical_Line */
+  LL_Stmt_Src orig_ss{ll_seq_orig, false};
+  update_stmt = std::prev(prev_stmt, ll_seq_orig->stmts().size() - 1);
+  while (orig_ss.advance()) {
+    assert(update_stmt->it() == ll_seq_orig);
+    update_stmt->update_range(orig_ss.move());
+    std::advance(update_stmt, 1);
+  }
+  assert(update_stmt == pos);
   return true;
 }
 
-- 
2.43.0


From 2caa03011910e57f5d9e3e5ea48a79dfa1c54633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 27/73] fix: splitting at the end of a line removes the
 semicolon that follows the statement

---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 894c5a2..d2a6ebe 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -591,6 +591,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
+    /* cleanup the source: remove the semicolons following frag */
+    layout_[split_line].main_txt.erase(frag->mt_end_col_);
+
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
 
-- 
2.43.0


From de49eb3689c5a9bee98f5b26ec45c4045fe2d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 28/73] fix: flpr-format splits compound lines without
 duplicating labels and comments

---
 apps/flpr_format_base.cc | 58 +++++++++++-----------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index bfcd0b5..214aac4 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -131,59 +131,31 @@ bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   return changed;
 }
 
-/* This needs to be updated to take advantage of newer features. As it is, it
-   probably corrupts the Token_Text layout position information.  DON'T USE AS
-   AN EXAMPLE! */
+/* Put each statement of a compound line on a Logical_Line of its own. */
 bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
   bool changed = false;
-  bool cleanup_split = false;
 
   for (FLPR::LL_SEQ::iterator ll_it = ll_seq.begin(); ll_it != ll_seq.end();
        ++ll_it) {
 
     if (!ll_it->has_fortran())
       continue;
-    FLPR::Logical_Line &ll{*ll_it};
-    if (ll.stmts().size() < 2) {
-      if (cleanup_split) {
-        ll.fragments().erase(ll.stmts()[0].end(), ll.fragments().end());
-        ll.text_from_frags();
-        cleanup_split = false;
-      } else if (ll.has_empty_statements()) {
-        changed |= ll.remove_empty_statements();
-      }
-    } else {
-      assert(ll_it->stmts().size() > 1);
-      /* Insert a copy above the current LL. The Logical_Line copy constructor
-         updates the new stmt TT_Ranges to reference the new copy of lines. */
-      auto new_ll_it = ll_seq.insert(ll_it, *ll_it);
-      /* Fix it up to contain only one statement */
-      FLPR::Logical_Line &new_ll{*new_ll_it};
-      /* Remove trailing fragments from new LL (the semicolon and the rest of
-         the compound statments) */
-      new_ll.fragments().erase(new_ll.stmts()[0].end(),
-                               new_ll.fragments().end());
-      /* Remove leading fragments from new LL (this handles the case of there
-         being empty statements before the beginning of this one). */
-      new_ll.fragments().erase(new_ll.fragments().begin(),
-                               new_ll.stmts()[0].begin());
-      /* Fix-up the File_Lines (text) in the new LL */
-      new_ll.text_from_frags();
-
-      /* Fix-up the stmts list */
-      new_ll.init_stmts();
-
-      /* Remove leading fragments from old LL */
-      ll.fragments().erase(ll.fragments().begin(), ll.stmts()[1].begin());
-      cleanup_split = true; /* this will reformat the old LL once it gets down
-                               to one statement */
-
-      /* Fix-up the stmts list */
-      ll.init_stmts();
-
-      ll_it = new_ll_it; // revisit the source line
+    if (ll_it->stmts().size() > 1) {
+      /* Move everything after the first statement to a new Logical_Line, which
+         is visited next. The label and any trailing comments stay with the
+         first statement. */
+      auto new_ll_it =
+          ll_seq.insert(std::next(ll_it), FLPR::Logical_Line());
+      new_ll_it->file_info = ll_it->file_info;
+      FLPR::TT_Range first_stmt{ll_it->stmts()[0]};
+      ll_it->split_after(first_stmt.last(), *new_ll_it);
+      ll_it->init_stmts();
+      new_ll_it->init_stmts();
       changed = true;
     }
+    if (ll_it->has_empty_statements()) {
+      changed |= ll_it->remove_empty_statements();
+    }
   }
   return changed;
 }
-- 
2.43.0


From 964ae3ab17bdca81c1a0af48f0f68ef56beb639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 29/73] fix: lines left over by removing empty statements do
 not remain continuations

---
 src/flpr/Logical_Line.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d2a6ebe..77a3f60 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -289,13 +289,9 @@ void Logical_Line::text_from_frags() noexcept {
   while (fline_it != layout_.end()) {
     if (!fline_it->is_comment()) {
       fline_it->make_uncontinued();
-      if (fline_it->right_txt.empty()) {
-        fline_it->set_classification(File_Line::class_flags::blank);
+      fline_it->make_comment_or_blank();
+      if (fline_it->is_blank())
         blanked = true;
-      } else {
-        fline_it->main_txt.clear();
-        fline_it->set_classification(File_Line::class_flags::comment);
-      }
     }
     std::advance(fline_it, 1);
   }
-- 
2.43.0


From 100e15968d609a53da6c80dfa091475965d08a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 30/73] fix: do not indent a fixed-format comment into column
 six

---
 src/flpr/File_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index a648451..ce48a5d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -457,8 +457,11 @@ size_t File_Line::size() const noexcept {
          right_space.size() + right_txt.size();
 }
 
-bool File_Line::set_leading_spaces(int const spaces) {
+bool File_Line::set_leading_spaces(int spaces) {
   if (is_comment()) {
+    /* in fixed-format, a character in column six marks a continuation */
+    if (is_fixed_format() && spaces == 5)
+      spaces += 1;
     /* a fixed-format comment may start with another character in column one */
     std::string::size_type pos = left_txt.find_first_not_of(" \t");
     if (pos != std::string::npos && left_txt[pos] != '!')
-- 
2.43.0


From daf9b94c1a11da853f3b92eb615067e9a62240e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:32 +0000
Subject: [PATCH 31/73] fix: reformatted fixed-format lines are continued in
 column six

---
 src/flpr/Logical_Line.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 77a3f60..d2cae45 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -12,6 +12,7 @@
   \file Logical_Line.cc
 */
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <stdexcept>
@@ -155,7 +156,8 @@ void Logical_Line::init_from_layout() noexcept {
 
 namespace {
 size_t max_main_txt_len(File_Line const &fl) noexcept {
-  const size_t MAX_CHARS{76};
+  /* leave room for an ampersand, or stay within the fixed-format columns */
+  const size_t MAX_CHARS{fl.is_fixed_format() ? size_t{72} : size_t{76}};
   if (fl.is_comment())
     return 0;
 
@@ -175,7 +177,9 @@ size_t max_main_txt_len(File_Line const &fl) noexcept {
 // Continue the current line
 Logical_Line::FL_VEC::iterator
 continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
-  curr->make_continued();
+  bool const fixed_format = curr->is_fixed_format();
+  if (!fixed_format)
+    curr->make_continued();
 
   size_t spaces = curr->left_txt.size() + curr->left_space.size();
   if (curr == text.begin())
@@ -192,6 +196,13 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
     curr->make_uncontinued();
     curr->main_txt.clear();
   }
+  if (fixed_format) {
+    /* the continuation mark is in column six */
+    curr->set_classification(File_Line::class_flags::fixed_format);
+    curr->set_classification(File_Line::class_flags::continuation);
+    curr->left_txt = "     &";
+    spaces -= std::min(spaces, curr->left_txt.size());
+  }
   curr->left_space.assign(spaces, ' ');
   return curr;
 }
-- 
2.43.0


From 16cb920cbb8e6f506905eb79f093a5e717733dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:03 +0000
Subject: [PATCH 32/73] fix: an unclosed parenthesis ends the statement instead
 of hanging the parser

---
 src/flpr/parse_stmt.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..879b94f 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -70,10 +70,13 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
       nesting_depth -= 1;
       if (!nesting_depth)
         break;
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      // End of the statement: an open paren or bracket is never closed
+      if (nesting_depth > 1)
+        FAIL;
+      break;
     } else if (nesting_depth == 1) {
       // Other things you can run into that terminate an expression
-      if (Syntax_Tags::BAD == ts.peek())
-        break;
       if (Syntax_Tags::TK_COMMA == ts.peek())
         break;
       if (Syntax_Tags::TK_COLON == ts.peek())
@@ -114,8 +117,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      return Stmt_Tree{}; // there is no matching PARENR
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From 27c36e3edd7871984457d76038a87c259ba198ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 33/73] fix: the second half of a split line is not a labelled
 or continuation line

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d2cae45..d533030 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -574,8 +574,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt.clear();
     }
 
-    /* clean new: remove left_txt */
+    /* clean new: remove left_txt, and what it said about the line */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -615,6 +617,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
+      non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
       export_beg = non_trivial;
     }
-- 
2.43.0


From b05c2f61e9fc26ab2ed4ee6d31a771aeb274f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 34/73] fix: a continued statement can be replaced by a shorter
 one

---
 src/flpr/Logical_Line.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d533030..794c544 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -411,10 +411,9 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   for (std::string const &s : new_text) {
     layout_[fl_idx++].main_txt = s;
   }
-  assert(ref_line < fl_idx);
 
   /* fix continuations */
-  if (ref_line < fl_idx - 1) {
+  if (ref_line + 1 < fl_idx) {
     layout_[ref_line].make_continued();
   }
   layout_[fl_idx - 1].make_uncontinued();
-- 
2.43.0


From 8a6e407e3d26a5d2bd59e36b1d984af2295a78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 35/73] fix: substituting all of the text on a continuation
 line

---
 src/flpr/Logical_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 794c544..18bb684 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -470,7 +470,9 @@ void Logical_Line::replace_stmt_substr(TT_Range const &orig,
   int const el = orig.back().mt_end_line_;
   int const ec = orig.back().mt_end_col_;
   erase_stmt_text_(sl, sc, el, ec);
-  layout_[sl].main_txt.insert(sc, new_text);
+  /* erasing may have cleared the whole line */
+  std::string &main_txt = layout_[sl].main_txt;
+  main_txt.insert(std::min(static_cast<size_t>(sc), main_txt.size()), new_text);
   init_from_layout();
 }
 
-- 
2.43.0


From b15e44cc4cb591f35ae0926785a59ca0d441a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:00 +0000
Subject: [PATCH 36/73] fix: replacing a fragment moves its end

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 18bb684..6f34c35 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -332,6 +332,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
-- 
2.43.0


From 2c94c2ad74b8d947c352886733f2bfbf6121bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:38 +0000
Subject: [PATCH 37/73] fix: replacing a statement drops its statement tree

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index be1d90f..9d61f49 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -428,6 +428,7 @@ void Logical_File::replace_stmt_text(LL_STMT_SEQ::iterator stmt,
   assert(stmt->ll().has_stmts());
   assert(stmt->ll().stmts().size() == 1);
   stmt->assign_range(stmt->ll().stmts()[0]);
+  stmt->drop_stmt_tree();
   stmt->set_stmt_syntag(new_syntag);
   stmt->unhook();
 }
-- 
2.43.0


From 6af84e3315c566bea577b9f2fd0be25dba81f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:18 +0000
Subject: [PATCH 38/73] fix: fixed-format replacement lines are continued in
 column six

---
 src/flpr/Logical_Line.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6f34c35..faacf48 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -377,6 +377,7 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(!is_compound());
 
   size_t const old_size = layout_.size();
+  bool const fixed_format = layout_[0].is_fixed_format();
 
   /* find the last is_fortran() line in layout_ to use as a prototype for any
      needed new File_Lines, and to mark as continued if appending new text */
@@ -400,10 +401,19 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
-    ref_fl.left_txt.clear();
-    ref_fl.right_txt.clear();
-    ref_fl.set_leading_spaces(indent);
+    if (fixed_format) {
+      /* the continuation mark is in column six */
+      ref_fl.left_txt = "     &";
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+      ref_fl.right_space.clear();
+      ref_fl.right_txt.clear();
+    } else {
+      ref_fl.make_continued();
+      ref_fl.left_txt.clear();
+      ref_fl.right_txt.clear();
+      ref_fl.set_leading_spaces(indent);
+    }
+    ref_fl.unset_classification(File_Line::class_flags::label);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
 
@@ -414,7 +424,7 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   }
 
   /* fix continuations */
-  if (ref_line + 1 < fl_idx) {
+  if (ref_line + 1 < fl_idx && !fixed_format) {
     layout_[ref_line].make_continued();
   }
   layout_[fl_idx - 1].make_uncontinued();
-- 
2.43.0


From a4c5043a4d0a86861f521095414d080ab36f09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 39/73] fix: every statement kind the parser assigns can be
 parsed again on demand

---
 src/flpr/parse_stmt.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 879b94f..f5ef68a 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3922,6 +3922,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_END_BLOCK_STMT):
     return end_block_stmt(ts);
     break;
+  case TAG(SG_END_DO):
+    return end_do(ts);
+    break;
   case TAG(SG_END_DO_STMT):
     return end_do_stmt(ts);
     break;
@@ -4111,6 +4114,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_PRIVATE_COMPONENTS_STMT):
     return private_components_stmt(ts);
     break;
+  case TAG(SG_PRIVATE_OR_SEQUENCE):
+    return private_or_sequence(ts);
+    break;
   case TAG(SG_PROC_COMPONENT_DEF_STMT):
     return proc_component_def_stmt(ts);
     break;
@@ -4183,6 +4189,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_TYPE_BOUND_PROCEDURE_STMT):
     return type_bound_procedure_stmt(ts);
     break;
+  case TAG(SG_TYPE_BOUND_PROC_BINDING):
+    return type_bound_proc_binding(ts);
+    break;
   case TAG(SG_TYPE_DECLARATION_STMT):
     return type_declaration_stmt(ts);
     break;
-- 
2.43.0


From 5aadfba5fbbdf046ee4e4c3088400ffe5b1c5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:31 +0000
Subject: [PATCH 40/73] fix: label scan covers statements inserted before a
 headless main program

---
 src/flpr/Procedure.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 3e3c0a6..790cc8c 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -442,12 +442,14 @@ template <typename PFile_T>
 template <typename OutputIt>
 void Procedure<PFile_T>::scan_out_labels(OutputIt d_first) const {
   /* Because labels can appear almost anywhere in the body of a subprogram, we
-     want to go to the subprogram root, as its stmt_range covers all the
-     statements in the subprogram */
+     want to go to the end of the subprogram root, as its stmt_range covers all
+     the statements in the subprogram.  Start from the regions, as a statement
+     can be inserted in front of a main-program without a program-stmt. */
   Prgm_Cursor c = procedure_root_;
-  for (auto const &s : c->stmt_range()) {
-    if (s.has_label()) {
-      *d_first++ = s.label();
+  Stmt_Const_Iterator const last{c->stmt_range().end()};
+  for (Stmt_Const_Iterator s{ranges_.cbegin()}; s != last; ++s) {
+    if (s->has_label()) {
+      *d_first++ = s->label();
     }
   }
 }
-- 
2.43.0


From bc87a3c27ea72baa0ec5823a15f5f9f2ca868c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 41/73] fix: a headless main program can be renamed, in both
 source forms

---
 src/flpr/Procedure.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 790cc8c..845fbbb 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,8 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  /* a new program-stmt has no node in the tree yet, so use the statement */
+  Stmt_Const_Cursor s = ranges_.cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -361,14 +362,17 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
 
   if (headless_main_program()) {
     std::string const program_stmt = "program " + new_name;
-    emplace_stmt(end(PROC_BEGIN), Logical_Line(program_stmt),
+    bool const fixed = file_.logical_file().is_fixed_format();
+    emplace_stmt(end(PROC_BEGIN),
+                 fixed ? Logical_Line("      " + program_stmt, 0)
+                       : Logical_Line(program_stmt),
                  Syntax_Tags::SG_PROGRAM_STMT, false);
     mark_prgm_tree_dirty_();
     return true;
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = ranges_.begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 53e3374486a80b4a56ca965bc107621e9fc1430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 42/73] fix: label scan covers exactly the statements of the
 procedure

---
 src/flpr/Procedure.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 845fbbb..beed987 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -445,12 +445,12 @@ template <typename PFile_T> bool Procedure<PFile_T>::complete_end_stmt() {
 template <typename PFile_T>
 template <typename OutputIt>
 void Procedure<PFile_T>::scan_out_labels(OutputIt d_first) const {
-  /* Because labels can appear almost anywhere in the body of a subprogram, we
-     want to go to the end of the subprogram root, as its stmt_range covers all
-     the statements in the subprogram.  Start from the regions, as a statement
-     can be inserted in front of a main-program without a program-stmt. */
-  Prgm_Cursor c = procedure_root_;
-  Stmt_Const_Iterator const last{c->stmt_range().end()};
+  /* Labels can appear almost anywhere in the body of a subprogram, so cover all
+     of the regions, up to and including the end statement.  The stmt_range of
+     the subprogram root is not enough: a statement can be inserted in front of a
+     main-program without a program-stmt, or in front of the unit that follows */
+  assert(procedure_initialized());
+  Stmt_Const_Iterator const last{std::next(ranges_.cbegin(PROC_END))};
   for (Stmt_Const_Iterator s{ranges_.cbegin()}; s != last; ++s) {
     if (s->has_label()) {
       *d_first++ = s->label();
-- 
2.43.0


From addc32f386e0bf1528f96f82a8034b57455ef1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 43/73] fix: errors in text scanned without file information
 are reported, not a crash

---
 src/flpr/Logical_File.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 9d61f49..855b788 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -26,6 +26,13 @@
 #include <set>
 
 namespace FLPR {
+namespace {
+//! The name for error messages: text that is scanned directly has none
+std::string buffer_name(std::shared_ptr<File_Info> const &info) {
+  return info ? info->filename : std::string("<buffer>");
+}
+} // namespace
+
 void Logical_File::clear() {
   file_info.reset();
   lines.clear();
@@ -99,7 +106,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << buffer_name(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_fixed error: " << e.what() << std::endl;
@@ -155,7 +162,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_fixed confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << buffer_name(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
@@ -197,7 +204,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << buffer_name(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_free error: " << e.what() << std::endl;
@@ -271,7 +278,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_free confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << buffer_name(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
-- 
2.43.0


From 18b2b8b3fa4a9a603041d5084de33f93f7756a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 44/73] fix: statements recognised by an action-stmt extension
 can be parsed again on demand

---
 src/flpr/LL_Stmt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/LL_Stmt.cc b/src/flpr/LL_Stmt.cc
index 48a6b0d..fa31089 100644
--- a/src/flpr/LL_Stmt.cc
+++ b/src/flpr/LL_Stmt.cc
@@ -66,7 +66,10 @@ bool LL_Stmt::rebuild_tree_() const {
     return false;
   }
   TT_Stream tts{*const_cast<LL_Stmt *>(this)};
-  if (Stmt::is_action_stmt(stmt_syntag_)) {
+  /* action-stmt extensions can carry a client tag (the tag of an
+     other-specification-stmt extension is never extracted) */
+  if (Stmt::is_action_stmt(stmt_syntag_) ||
+      stmt_syntag_ >= Syntax_Tags::CLIENT_EXTENSION) {
     stmt_tree_ = Stmt::parse_stmt_dispatch(Syntax_Tags::SG_ACTION_STMT, tts);
   } else {
     stmt_tree_ = Stmt::parse_stmt_dispatch(stmt_syntag_, tts);
-- 
2.43.0


From 12ba284af40b4e4656bcfeaa2ff545a4fb80958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:44 +0000
Subject: [PATCH 45/73] fix: replacing the text of a statement with embedded
 comment lines asserted

---
 src/flpr/Logical_Line.cc | 53 +++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index faacf48..85a1841 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -376,29 +376,25 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(!layout_.empty());
   assert(!is_compound());
 
-  size_t const old_size = layout_.size();
   bool const fixed_format = layout_[0].is_fixed_format();
 
-  /* find the last is_fortran() line in layout_ to use as a prototype for any
-     needed new File_Lines, and to mark as continued if appending new text */
-  size_t ref_line = old_size - 1;
-  while (ref_line > 0 && !layout_[ref_line].is_fortran()) {
-    ref_line -= 1;
-  }
-  assert(layout_[ref_line].is_fortran());
-  assert(!layout_[ref_line].is_continued());
-
-  size_t num_orig_fortran_lines{0};
-  for (auto const &fl : layout_) {
-    if (fl.is_fortran())
-      num_orig_fortran_lines += 1;
+  /* the new text only goes to the is_fortran() lines, which leaves embedded
+     comment lines alone */
+  std::vector<size_t> fortran_idx;
+  for (size_t i = 0; i < layout_.size(); ++i) {
+    if (layout_[i].is_fortran())
+      fortran_idx.push_back(i);
   }
+  assert(!fortran_idx.empty());
 
-  /* Currently, this routine will destroy embedded comment lines.  Prevent this
-     from happening until it is fixed. */
-  assert(num_orig_fortran_lines == layout_.size());
+  /* use the last is_fortran() line in layout_ as a prototype for any needed new
+     File_Lines, and to mark as continued if appending new text */
+  size_t const num_orig = fortran_idx.size();
+  size_t const ref_line = fortran_idx.back();
+  assert(!layout_[ref_line].is_continued());
 
-  if (layout_.size() < new_text.size()) {
+  if (num_orig < new_text.size()) {
+    size_t const num_added = new_text.size() - num_orig;
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
     if (fixed_format) {
@@ -412,26 +408,23 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
       ref_fl.left_txt.clear();
       ref_fl.right_txt.clear();
       ref_fl.set_leading_spaces(indent);
+      layout_[ref_line].make_continued();
     }
     ref_fl.unset_classification(File_Line::class_flags::label);
-    layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
+    layout_.insert(layout_.begin() + ref_line + 1, num_added, ref_fl);
+    for (size_t i = 1; i <= num_added; ++i)
+      fortran_idx.push_back(ref_line + i);
   }
 
   /* copy the new text into place */
-  size_t fl_idx{0};
-  for (std::string const &s : new_text) {
-    layout_[fl_idx++].main_txt = s;
-  }
-
-  /* fix continuations */
-  if (ref_line + 1 < fl_idx && !fixed_format) {
-    layout_[ref_line].make_continued();
+  for (size_t i = 0; i < new_text.size(); ++i) {
+    layout_[fortran_idx[i]].main_txt = new_text[i];
   }
-  layout_[fl_idx - 1].make_uncontinued();
+  layout_[fortran_idx[new_text.size() - 1]].make_uncontinued();
 
   /* clear any excess original lines, preserving comments */
-  for (size_t i = fl_idx; i < layout_.size(); ++i) {
-    layout_[i].make_comment_or_blank();
+  for (size_t i = new_text.size(); i < num_orig; ++i) {
+    layout_[fortran_idx[i]].make_comment_or_blank();
   }
   init_from_layout();
 }
-- 
2.43.0


From 7ad44e562944db1ffb17e53cc78f5b3e80b920d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 46/73] fix: the scanner was built for seven-bit text: other
 bytes outside of comments read past its tables

---
 src/flpr/scan_fort.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 4d6785c..42405df 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -16,7 +16,7 @@ int curr_line_pos = 0;
 #define YY_USER_ACTION curr_line_pos += yyleng;
 using FLPR::Syntax_Tags;
 %}
-%option full
+%option full 8bit
 %option case-insensitive
 %option noyywrap
 %option stack
-- 
2.43.0


From 7ed0147d2260ba1dc4b48221a543d9a753e2dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 47/73] fix: text after a continuation mark was taken for a
 comment and mixed up by edits

---
 src/flpr/File_Line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ce48a5d..058892f 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -789,6 +789,11 @@ find_trailing_free(std::string const &txt,
       if (c == '\'' || c == '"')
         char_context = c;
       else if (c == '!' || c == '&') {
+        /* only a comment may follow the continuation mark */
+        ST const next = txt.find_first_not_of(" \t\r", i + 1);
+        if (c == '&' && next != std::string::npos && txt[next] != '!')
+          throw std::runtime_error("find_trailing_free: text after the "
+                                   "continuation mark");
         open_delim = '\0';
         return i;
       }
-- 
2.43.0


From da6233779c2cb73646b887f291a67653cb1f45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 48/73] fix: a preprocessor line inside of a continued
 free-form statement became part of it and was lost by edits

---
 src/flpr/Logical_File.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 855b788..9b12676 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -285,6 +285,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
 
       size_t last_code_line = curr;
       while (curr < N) {
+        if (!fl[curr].is_trivial() && !fl[curr].is_fortran()) {
+          /* e.g. a preprocessor line: not a part of this statement */
+          last_code_line = curr - 1;
+          break;
+        }
         if (!fl[curr].is_trivial() && !fl[curr].is_continued()) {
           last_code_line = curr;
           break;
-- 
2.43.0


From 684803c9966c1ce94bb5d1aa07652a339e00503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 49/73] fix: text after a zero byte was not tokenised, and a
 statement starting behind a line with only a label or continuation mark had
 no position

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 85a1841..070942f 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -783,9 +783,12 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 
   // Feed the la.accum() to the flex parser to generate
   // the Logical_Line token fragment data.
-  YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
+  YY_BUFFER_STATE bs = yy_scan_bytes(la.accum().data(), la.accum().size());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  /* the first line may hold nothing but a label or a continuation mark */
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From c08f309712f38dba540da1d8fd540eb0c52949c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:22 +0000
Subject: [PATCH 50/73] fix: a FORMAT statement among executable statements and
 the second RANK case were taken for macro calls

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f5ef68a..10fbffa 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2452,6 +2452,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_FORMAT))),
+        neg(peek(TAG(KW_RANK))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From 47bd29cbb24a9b127b5568032a7cee055931ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 51/73] fix: a construct that could not be completed was
 dropped and the statements behind it taken for a program

---
 src/flpr/Prgm_Parsers.hh       |  4 ++++
 src/flpr/Prgm_Parsers_utils.hh | 26 +++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Prgm_Parsers.hh b/src/flpr/Prgm_Parsers.hh
index acaaae8..1bc5314 100644
--- a/src/flpr/Prgm_Parsers.hh
+++ b/src/flpr/Prgm_Parsers.hh
@@ -50,6 +50,10 @@ template <typename Node_Data = Prgm_Node_Data> struct Parsers {
         : stmt_range_(ll_stmt_range), ss{stmt_range_} {}
     SL_Range_Iterator<LL_Stmt> ss;
     Label_Stack do_label_stack;
+    //! A construct was begun but could not be completed
+    /*! Its statements are already consumed, so that no alternative can make
+        sense of what follows: nothing more is to be matched. */
+    bool broken{false};
   };
 
   static PP_Result associate_construct(State &state);
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index f939b5a..48a96b7 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -135,6 +135,8 @@ public:
           << "\nwhen expecting end-of-stream " << std::endl;
       return PP_Result{Prgm_Tree{}, false};
     }
+    if (state.broken)
+      return PP_Result{Prgm_Tree{}, false};
     return PP_Result{Prgm_Tree{}, true};
   }
 };
@@ -270,6 +272,7 @@ public:
       std::cerr << "Unrecognized statement\n";
       state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
       FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      state.broken = true;
       return PP_Result{};
     }
     if (root)
@@ -326,6 +329,7 @@ public:
         std::cerr << "Unrecognized statement\n";
         state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
         FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        state.broken = true;
         return PP_Result{};
       }
       if (root)
@@ -393,6 +397,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (state.broken || !state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -496,6 +502,9 @@ public:
   constexpr Legacy_Do_Construct_Parser() = default;
   PP_Result operator()(State &state) const noexcept {
 
+    if (state.broken || !state.ss)
+      return PP_Result{};
+
     /****************************** DO-STMT ***********************************/
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
@@ -543,6 +552,11 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (state.broken || !state.ss) {
+      state.broken = true;
+      return PP_Result{};
+    }
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
@@ -553,8 +567,10 @@ public:
     if (!state.ss->has_label() ||
         state.do_label_stack.level(state.ss->label()) < 0) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
-      if (!end_stmt_tree)
+      if (!end_stmt_tree) {
+        state.broken = true;
         return PP_Result{}; // wasn't end-do-stmt, so match fails
+      }
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
@@ -584,8 +600,10 @@ public:
            we are closing off are inner-shared-do-constructs and the last one is
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
-        if (!end_stmt_tree)
+        if (!end_stmt_tree) {
+          state.broken = true;
           return PP_Result{};
+        }
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -617,8 +635,10 @@ public:
           do_construct_tag = TAG(PG_DO_CONSTRUCT);
           end_stmt_pg_tag = TAG(HOIST);
         }
-        if (!end_stmt_tree)
+        if (!end_stmt_tree) {
+          state.broken = true;
           return PP_Result{};
+        }
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 033238d5c6802a8e93191da222bf1ba994ad1318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 52/73] fix: an abstract interface statement ends at the end of
 its statement, and an empty statement is no interface statement

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 10fbffa..647407f 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2174,7 +2174,7 @@ Stmt_Tree interface_stmt(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          h_seq(TOK(KW_INTERFACE), opt(rule(generic_spec)), eol()),
-         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE)), eol());
+         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE), eol()));
   EVAL(SG_INTERFACE_STMT, p(ts));
 }
 
-- 
2.43.0


From e324aa64cb714a9e01157980ce29373c5d9ec22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 53/73] fix: fixed-format tokens split around comment lines
 keep their continuation marks in free format

---
 src/flpr/Logical_File.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 9b12676..3e5ed5b 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -571,6 +571,11 @@ bool Logical_File::convert_fixed_to_free() {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
 
+            /* comment lines between the parts of a token don't need a mark */
+            while (!needs_front_continuation.empty() &&
+                   needs_front_continuation.front() < curr_idx)
+              needs_front_continuation.pop_front();
+
             if (!needs_front_continuation.empty() &&
                 needs_front_continuation.front() == curr_idx) {
               needs_front_continuation.pop_front();
-- 
2.43.0


From 181b15fdabbc535a9344b580032877e89ffeda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 54/73] fix: a character literal longer than a line is not
 changed by splitting it

---
 src/flpr/Logical_Line.cc | 57 +++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 070942f..7db0442 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -254,23 +254,50 @@ void Logical_Line::text_from_frags() noexcept {
       if (line_start) {
         // I couldn't add the current token as the first one on a
         // line!
-        size_t token_size = tt_it->text().size();
-        size_t splits = token_size / max_llen + 1;
-        size_t split_size = token_size / splits + 1;
-        size_t pos{0}, count{split_size};
-
-        for (size_t i = 0; i < splits; ++i) {
-          if (i > 0)
-            fline_it->main_txt.append(1, '&');
-          fline_it->main_txt.append(tt_it->text().substr(pos, count));
-          // Move the continuation ampersand in close
-          if (i + 1 != splits) {
-            fline_it->make_continued();
-            fline_it->right_space.clear();
-            fline_it = continue_fl(layout_, fline_it);
+        std::string const &token_text = tt_it->text();
+        bool const fixed_format = fline_it->is_fixed_format();
+        size_t splits = token_text.size() / max_llen + 1;
+        size_t split_size = token_text.size() / splits + 1;
+        for (size_t pos = 0;;) {
+          size_t count = split_size;
+          if (fixed_format) {
+            /* the part of a character literal on this line extends to the last
+               column, and continues right behind the continuation mark */
+            size_t const used =
+                fline_it->left_txt.size() + fline_it->left_space.size();
+            count = used < 72 ? 72 - used : 1;
+          }
+          fline_it->main_txt.append(token_text, pos, count);
+          pos += count;
+          if (pos >= token_text.size())
+            break;
+          /* there can't be a comment behind an unfinished character literal,
+             so give it a line of its own */
+          fline_it->make_uncontinued();
+          if (!fline_it->right_txt.empty()) {
+            size_t const split_line = fline_it - layout_.begin();
+            File_Line comment{*fline_it};
+            comment.make_comment_or_blank();
+            layout_.insert(std::next(fline_it), comment);
+            fline_it = layout_.begin() + split_line;
+            fline_it->right_txt.clear();
+          }
+          size_t const this_line = fline_it - layout_.begin();
+          fline_it = continue_fl(layout_, fline_it);
+          /* Move the continuation ampersand in close */
+          layout_[this_line].right_space.clear();
+          if (fixed_format)
+            fline_it->left_space.clear();
+          else {
+            if (layout_[this_line].is_continuation() &&
+                !fline_it->left_space.empty())
+              fline_it->left_space.pop_back(); // keep the marks in one column
+            fline_it->left_txt.swap(fline_it->left_space);
+            fline_it->left_txt.append(1, '&');
+            fline_it->set_classification(File_Line::class_flags::continuation);
           }
-          pos = pos + count;
         }
+        max_llen = max_main_txt_len(*fline_it);
         line_start = false;
         add_line = false;
         redo = 0;
-- 
2.43.0


From 227ad15316e4abadc07d8b69a3741742852ae2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 55/73] fix: a zero in column six is not part of the label or
 of the free-format text

---
 src/flpr/File_Line.cc    | 8 ++++++--
 src/flpr/Logical_File.cc | 8 +++++++-
 src/flpr/Logical_Line.cc | 8 ++++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 058892f..e65a576 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -144,8 +144,12 @@ File_Line File_Line::analyze_fixed(int const linenum,
     } else if (std::isdigit(c)) {
       // Read a <= 5-digit integer statement label
       const ST N = raw_txt.size();
-      while (ri < N && ri < 6 && std::isdigit(raw_txt[ri]))
+      while (ri < N && ri < 5 && std::isdigit(raw_txt[ri]))
         ri += 1;
+      // A zero in column six marks the initial line of a statement
+      if (N > 5 && raw_txt[5] == '0' &&
+          raw_txt.find_first_not_of(' ', ri) == 5)
+        ri = 6;
       left_text = raw_txt.substr(0, ri);
       SET_CLASS(label);
     }
@@ -632,7 +636,7 @@ bool File_Line::set_label(int new_label) {
       if (left_space.size() > 6)
         left_space.erase(0, 6);
     } else {
-      assert(has_label());
+      assert(has_label() || left_txt[5] == '0'); // or an initial line mark
       left_txt = std::to_string(new_label);
       left_txt.append(6 - left_txt.size(), ' ');
     }
diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 3e5ed5b..b8ec117 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -564,7 +564,13 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
+            if (fl.left_txt.size() == 6 && fl.left_txt[5] == '0') {
+              /* There is no initial line mark in free-format */
+              size_t const label_end =
+                  fl.left_txt.find_last_not_of(' ', 4) + 1; // 0 if not there
+              fl.left_space.insert(0, fl.left_txt.size() - label_end, ' ');
+              fl.left_txt.erase(label_end);
+            } else if (fl.left_txt.empty()) {
               fl.left_space.insert(0, 6, ' ');
             }
           } else {
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 7db0442..6df2923 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -143,8 +143,12 @@ void Logical_Line::init_from_layout() noexcept {
   if (layout_.front().has_label()) {
     assert(!layout_.front().left_txt.empty());
     std::size_t pos;
-    label = std::stoi(layout_.front().left_txt, &pos);
-    if (pos < layout_.front().left_txt.size()) {
+    /* a fixed-format label is in the first five columns */
+    std::string const label_txt{layout_.front().is_fixed_format()
+                                    ? layout_.front().left_txt.substr(0, 5)
+                                    : layout_.front().left_txt};
+    label = std::stoi(label_txt, &pos);
+    if (label_txt.find_first_not_of(' ', pos) != std::string::npos) {
       std::cerr << "Label \"" << layout_.front().left_txt
                 << "\" not fully converted to integer" << std::endl;
     }
-- 
2.43.0


From f16e8f231c3f9fb7f4dd00ed7de33bd70b4985e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 56/73] fix: keep a blank between label and statement when
 converting to free format

---
 src/flpr/Logical_File.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index b8ec117..84347a9 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -566,13 +566,12 @@ bool Logical_File::convert_fixed_to_free() {
           if (curr_fortran_line == 0) {
             if (fl.left_txt.size() == 6 && fl.left_txt[5] == '0') {
               /* There is no initial line mark in free-format */
-              size_t const label_end =
-                  fl.left_txt.find_last_not_of(' ', 4) + 1; // 0 if not there
-              fl.left_space.insert(0, fl.left_txt.size() - label_end, ' ');
-              fl.left_txt.erase(label_end);
-            } else if (fl.left_txt.empty()) {
-              fl.left_space.insert(0, 6, ' ');
+              fl.left_txt.erase(fl.left_txt.find_last_not_of(' ', 4) + 1);
             }
+            /* Keep the blanks of the control columns: in free-format, there has
+               to be a blank between the label and the statement */
+            if (fl.left_txt.size() < 6)
+              fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
           } else {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
-- 
2.43.0


From c32640cb2034b7c1dc1b2548182e2f20b61f56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 57/73] fix: fixed-format lines with nothing in front of the
 last column are comments

---
 src/flpr/File_Line.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index e65a576..dc80cf6 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -109,6 +109,13 @@ File_Line File_Line::analyze_fixed(int const linenum,
       return File_Line(linenum, bits, raw_txt);
     }
     // How about a Fortran include directive? (Section 6.4 of the standard)
+    // Is there anything in front of the last column?
+    if (last_column > 0 && ri >= static_cast<ST>(last_column)) {
+      SET_CLASS(comment);
+      if (c != '!')
+        raw_txt.insert(ri, "! ");
+      return File_Line(linenum, bits, raw_txt);
+    }
     if (is_include_line(raw_txt, ri)) {
       SET_CLASS(include);
       return File_Line(linenum, bits, raw_txt);
-- 
2.43.0


From 1ff5b42625dd19f5d883c8c3f97d6fa7a601236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 58/73] fix: do not indent fixed-format text past column 72,
 nor continued character literals

---
 src/flpr/File_Line.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index dc80cf6..8c9bd9a 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -19,6 +19,7 @@
 #include <cctype>
 #include <cstdlib>
 #include <iomanip>
+#include <limits>
 #include <ostream>
 #include <stdexcept>
 #include <vector>
@@ -115,6 +116,7 @@ File_Line File_Line::analyze_fixed(int const linenum,
       if (c != '!')
         raw_txt.insert(ri, "! ");
       return File_Line(linenum, bits, raw_txt);
+    // How about a Fortran include directive? (Section 6.4 of the standard)
     }
     if (is_include_line(raw_txt, ri)) {
       SET_CLASS(include);
@@ -195,6 +197,9 @@ File_Line File_Line::analyze_fixed(int const linenum,
         right_text.clear();
       } else {
         if (right_text[ri] != '&' && right_text[ri] != '!') {
+        } else if (!open_delim_char) {
+          main_text.append(right_text, 0, ri); // becomes right_sp
+          right_text.erase(0, ri);
           right_text.insert(0, "! ");
         }
       }
@@ -526,7 +531,18 @@ bool File_Line::set_leading_spaces(int spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
+    int max_left_space{std::numeric_limits<int>::max()};
+    if (is_fixed_format()) {
+      /* a continued character context extends to the last column */
+      if (open_delim != '\0')
+        return false;
+      /* do not push the end of the text past column 72 */
+      int const main_width = static_cast<int>(main_txt.size());
+      if (6 + static_cast<int>(left_space.size()) + main_width <= 72)
+        max_left_space = 72 - 6 - main_width;
+    }
     int offset{0};
+      spaces = std::min(spaces, max_left_space);
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -541,7 +557,7 @@ bool File_Line::set_leading_spaces(int spaces) {
       if (has_label()) {
         if (lt_size < spaces) {
           /* If the label fits in the indent region, properly format it */
-          int const new_ls = spaces - lt_size;
+          int const new_ls = std::min(spaces - lt_size, max_left_space);
           if (static_cast<int>(left_space.size()) == new_ls)
             return false; // no change needed
           offset = new_ls - left_space.size();
-- 
2.43.0


From 714d727ec09035a86954baf89e085feba9e90a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 59/73] fix: count the control columns when laying out
 fixed-format text

---
 src/flpr/Logical_Line.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6df2923..dd7df70 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -159,13 +159,22 @@ void Logical_Line::init_from_layout() noexcept {
 }
 
 namespace {
+// The number of columns in front of main_txt
+size_t main_txt_offset(File_Line const &fl) noexcept {
+  /* the control columns of fixed-format are always there */
+  size_t const left_size =
+      fl.is_fixed_format() ? std::max(size_t{6}, fl.left_txt.size())
+                           : fl.left_txt.size();
+  return left_size + fl.left_space.size();
+}
+
 size_t max_main_txt_len(File_Line const &fl) noexcept {
   /* leave room for an ampersand, or stay within the fixed-format columns */
   const size_t MAX_CHARS{fl.is_fixed_format() ? size_t{72} : size_t{76}};
   if (fl.is_comment())
     return 0;
 
-  size_t mlen = fl.left_txt.size() + fl.left_space.size();
+  size_t mlen = main_txt_offset(fl);
   const size_t rlen = fl.right_space.size() + fl.right_txt.size();
 
   // We will try to format around the right space and right txt, as
@@ -267,8 +276,7 @@ void Logical_Line::text_from_frags() noexcept {
           if (fixed_format) {
             /* the part of a character literal on this line extends to the last
                column, and continues right behind the continuation mark */
-            size_t const used =
-                fline_it->left_txt.size() + fline_it->left_space.size();
+            size_t const used = main_txt_offset(*fline_it);
             count = used < 72 ? 72 - used : 1;
           }
           fline_it->main_txt.append(token_text, pos, count);
-- 
2.43.0


From 55dc3514dfa8d94968d87f3faf3798ca1d3107eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 60/73] fix: text past the last column stays out of the way
 when reformatting

---
 src/flpr/File_Line.cc    | 23 +++++++++++------------
 src/flpr/Logical_File.cc | 10 +++++++---
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 8c9bd9a..cb34926 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -109,15 +109,14 @@ File_Line File_Line::analyze_fixed(int const linenum,
       SET_CLASS(preprocessor);
       return File_Line(linenum, bits, raw_txt);
     }
-    // How about a Fortran include directive? (Section 6.4 of the standard)
     // Is there anything in front of the last column?
     if (last_column > 0 && ri >= static_cast<ST>(last_column)) {
       SET_CLASS(comment);
       if (c != '!')
         raw_txt.insert(ri, "! ");
       return File_Line(linenum, bits, raw_txt);
-    // How about a Fortran include directive? (Section 6.4 of the standard)
     }
+    // How about a Fortran include directive? (Section 6.4 of the standard)
     if (is_include_line(raw_txt, ri)) {
       SET_CLASS(include);
       return File_Line(linenum, bits, raw_txt);
@@ -197,10 +196,10 @@ File_Line File_Line::analyze_fixed(int const linenum,
         right_text.clear();
       } else {
         if (right_text[ri] != '&' && right_text[ri] != '!') {
+          right_text.insert(0, "! ");
         } else if (!open_delim_char) {
           main_text.append(right_text, 0, ri); // becomes right_sp
           right_text.erase(0, ri);
-          right_text.insert(0, "! ");
         }
       }
     }
@@ -531,6 +530,7 @@ bool File_Line::set_leading_spaces(int spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
+    int offset{0};
     int max_left_space{std::numeric_limits<int>::max()};
     if (is_fixed_format()) {
       /* a continued character context extends to the last column */
@@ -541,9 +541,8 @@ bool File_Line::set_leading_spaces(int spaces) {
       if (6 + static_cast<int>(left_space.size()) + main_width <= 72)
         max_left_space = 72 - 6 - main_width;
     }
-    int offset{0};
-      spaces = std::min(spaces, max_left_space);
     if (left_txt.empty()) {
+      spaces = std::min(spaces, max_left_space);
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
       orig_spaces = left_space.size();
@@ -564,10 +563,11 @@ bool File_Line::set_leading_spaces(int spaces) {
           left_space.assign(new_ls, ' ');
         } else {
           /* Otherwise, use left_space to introduce a single space */
-          if (left_space.size() == 1)
+          int const new_ls = std::min(1, max_left_space);
+          if (static_cast<int>(left_space.size()) == new_ls)
             return false; // no change needed
-          offset = 1 - left_space.size();
-          left_space.assign(1, ' ');
+          offset = new_ls - left_space.size();
+          left_space.assign(new_ls, ' ');
         }
       } else if (is_continuation() && !is_fixed_format()) {
         if (orig_spaces == spaces)
@@ -587,11 +587,10 @@ bool File_Line::set_leading_spaces(int spaces) {
         }
       }
     }
-    /* See if we can adjust spacing to leave right_txt comments in their
-       original position */
+    /* See if we can adjust spacing to leave right_txt comments (and anything
+       past the last column of fixed-format) in their original position */
     if (!right_txt.empty() && offset) {
-      std::string::size_type pos = right_txt.find('!');
-      if (pos != std::string::npos) {
+      if (is_fixed_format() || right_txt.find('!') != std::string::npos) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 84347a9..be8ed2a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -550,16 +550,20 @@ bool Logical_File::convert_fixed_to_free() {
           File_Line &fl = layout[curr_idx];
           if (curr_fortran_line + 1 < total_fortran_lines) {
             /* Need to add a trailing continuation mark */
-            if (fl.right_txt.empty()) {
+            if (fl.right_txt.empty() || fl.open_delim != '\0') {
+              /* nothing can follow the mark in a character context */
               fl.right_txt = "&";
-            } else {
+            } else if (fl.right_txt[0] != '&') { // could be in column 73
               fl.right_txt.insert(0, "& ");
-              if (fl.open_delim == '\0' && fl.right_space.size() > 2) {
+              if (fl.right_space.size() > 2) {
                 fl.right_space.erase(0, 2);
               }
             }
             layout[curr_idx].set_classification(
                 File_Line::class_flags::continued);
+          } else if (!fl.right_txt.empty() && fl.right_txt[0] == '&') {
+            /* A mark past the last column, but nothing is continued */
+            fl.right_txt.erase(0, fl.right_txt.find_first_not_of(" \t\r", 1));
           }
 
           /* Adjust left_txt and left_spaces */
-- 
2.43.0


From cbe186c609322f8e49d345cd9faf42a2ebdeeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 61/73] fix: append_comment put the comment inside a token that
 continues on the next line

---
 src/flpr/Logical_Line.cc | 29 +++++++++++++++++++----------
 src/flpr/Logical_Line.hh |  2 ++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index dd7df70..d33ff28 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -894,21 +894,30 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 void Logical_Line::append_comment(std::string const &comment_text) {
   if (comment_text.empty())
     return;
-  if (layout_[0].right_txt.empty()) {
-    int lline_len = layout_[0].main_first_col() + layout_[0].main_txt.size();
+  /* A line that ends inside of a token has no place for a comment: the text
+     would become a part of a character literal, and the space in front of it
+     would divide any other token. */
+  int line{0};
+  for (auto const &tt : fragments_) {
+    if (tt.mt_begin_line_ <= line && line < tt.mt_end_line_)
+      line = tt.mt_end_line_;
+  }
+  File_Line &fl{layout_[line]};
+  if (fl.right_txt.empty()) {
+    int lline_len = fl.main_first_col() + fl.main_txt.size();
     int c_len = 2 + comment_text.size();
     if (72 - c_len > lline_len)
-      layout_[0].right_space = std::string(72 - c_len - lline_len, ' ');
+      fl.right_space = std::string(72 - c_len - lline_len, ' ');
     else
-      layout_[0].right_space = "    ";
-    layout_[0].right_txt = "! ";
-    layout_[0].right_txt.append(comment_text);
+      fl.right_space = "    ";
+    fl.right_txt = "! ";
+    fl.right_txt.append(comment_text);
   } else {
-    if (layout_[0].right_txt.find('!') == std::string::npos)
-      layout_[0].right_txt.append(" ! ");
+    if (fl.right_txt.find('!') == std::string::npos)
+      fl.right_txt.append(" ! ");
     else
-      layout_[0].right_txt.append(" : ");
-    layout_[0].right_txt.append(comment_text);
+      fl.right_txt.append(" : ");
+    fl.right_txt.append(comment_text);
   }
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..a4e7551 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -173,6 +173,8 @@ public:
   std::ostream &dump(std::ostream &os) const;
 
   //! Appends an eol comment to first line.  Don't put a leading '!' in text
+  /*! If the first line ends inside of a token, the comment goes to
+      the first line that does not. */
   void append_comment(std::string const &text);
 
   //! Returns true if this Logical_Line contains some Fortran statements
-- 
2.43.0


From 02fa1c803fd7fe2157978ecc055c99e61b27e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 62/73] fix: Safe_List::clear lost the end position and could
 run out of memory

---
 src/flpr/Safe_List.hh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..21e0dc2 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -94,10 +94,7 @@ public:
   constexpr iterator end() noexcept { return my_end_; }
   constexpr const_iterator end() const noexcept { return my_end_; }
   constexpr const_iterator cend() const noexcept { return my_end_; }
-  constexpr void clear() {
-    list_.clear();
-    append_sentry_();
-  }
+  constexpr void clear() noexcept { list_.erase(list_.begin(), my_end_); }
   constexpr size_type size() const noexcept { return list_.size() - 1; };
   constexpr bool empty() const noexcept { return list_.size() < 2; };
   template <class... Args> constexpr reference emplace_back(Args &&... args) {
-- 
2.43.0


From 0f4e8c0a1db4c08abb075ea034aff6f1e684b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 63/73] fix: Safe_List::remove_if asked the filter about the
 hidden end element

---
 src/flpr/Safe_List.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 21e0dc2..96e7d20 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -105,10 +105,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // The hidden element is not part of the contents
+    for (iterator i = list_.begin(); i != my_end_;) {
+      if (p(*i))
+        i = list_.erase(i);
+      else
+        ++i;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From d676c9f305563539a98efc9ba7ec6a1880153869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 64/73] fix: moving from a Safe_List left the source without an
 end element

---
 src/flpr/Safe_List.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 96e7d20..077a91f 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -72,9 +72,8 @@ public:
   constexpr Safe_List(Safe_List const &src) : list_{src.list_} {
     my_end_ = std::prev(list_.end());
   }
-  constexpr Safe_List(Safe_List &&src) : list_{std::move(src.list_)} {
-    my_end_ = std::prev(list_.end());
-  }
+  //! Take over the contents (and all iterators), leaving \p src empty
+  constexpr Safe_List(Safe_List &&src) : Safe_List() { swap_(src); }
   constexpr Safe_List &operator=(Safe_List const &src) {
     list_ = src.list_;
     my_end_ = std::prev(list_.end());
@@ -82,8 +81,8 @@ public:
   }
   constexpr Safe_List &operator=(Safe_List &&src) {
     if (this != &src) {
-      list_ = std::move(src.list_);
-      my_end_ = std::prev(list_.end());
+      Safe_List tmp{std::move(src)};
+      swap_(tmp);
     }
     return *this;
   }
@@ -148,6 +147,11 @@ private:
   iterator my_end_; //!< The hidden element that serves as end()
 
 private:
+  //! Exchange everything, hidden elements included
+  constexpr void swap_(Safe_List &other) noexcept {
+    list_.swap(other.list_);
+    std::swap(my_end_, other.my_end_);
+  }
   //! Append the hidden element to an existing list
   /*! Note, this should only be used after some ctor initialization of list_ */
   constexpr void append_sentry_() { my_end_ = list_.insert(list_.end(), T()); }
-- 
2.43.0


From 5e222e1734759c2166884e51f89a0d8c377c6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 65/73] fix: a Tree could not be made from a value

---
 src/flpr/Tree.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..10fe65f 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -590,7 +590,7 @@ public:
 
   constexpr explicit Tree(value const &src)
       : root_list_p_{std::make_unique<node_list>()} {
-    root_list_p_->push_front(node(src));
+    root_list_p_->emplace_front(src);
     root_list_p_->front().link(root_list_p_->begin());
   }
 
-- 
2.43.0


From 41e15126ee6c182d841bc6f88f1c5f4f24a832e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 66/73] fix: flpr_show_cst reported success when reading stdin
 or writing failed

---
 apps/flpr_show_cst.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/flpr_show_cst.cc b/apps/flpr_show_cst.cc
index ba7fe98..0db7a03 100644
--- a/apps/flpr_show_cst.cc
+++ b/apps/flpr_show_cst.cc
@@ -16,6 +16,7 @@
 */
 
 #include "flpr/flpr.hh"
+#include <cstdio>
 #include <iostream>
 
 int main() {
@@ -40,6 +41,11 @@ int main() {
     } else
       break;
   }
+  /* std::cin takes a failing read for the end of the input */
+  if (std::cin.bad() || std::ferror(stdin)) {
+    std::cerr << "Unable to read the input, exiting." << std::endl;
+    return 1;
+  }
   if (raw_lines.empty()) {
     std::cerr << "No lines entered." << std::endl;
     return 1;
@@ -101,5 +107,9 @@ int main() {
       std::cout << "Unrecognized: " << stmt << '\n';
     }
   }
+  if (!std::cout.flush()) {
+    std::cerr << "Unable to write the output." << std::endl;
+    return 3;
+  }
   return 0;
 }
-- 
2.43.0


From 69781d8941f92d022cb4672f9ffa8e31876a5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 67/73] fix: parse_files reported success when its output
 failed

---
 apps/parse_files.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/parse_files.cc b/apps/parse_files.cc
index db5b1ab..ead2001 100644
--- a/apps/parse_files.cc
+++ b/apps/parse_files.cc
@@ -45,6 +45,10 @@ int main(int argc, char *const argv[]) {
     read_file(f, files);
   }
   std::cout << "done." << std::endl;
+  if (!std::cout) {
+    std::cerr << "Unable to write the output." << std::endl;
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 8a940bb995b7fdefa77094e5e0aeab4cd1b0cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 68/73] fix: replace_main_text: mark each added line but the
 last as continued

---
 src/flpr/Logical_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d33ff28..af1ff80 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -443,9 +443,10 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
       ref_fl.right_space.clear();
       ref_fl.right_txt.clear();
     } else {
-      ref_fl.make_continued();
       ref_fl.left_txt.clear();
+      ref_fl.right_space.clear();
       ref_fl.right_txt.clear();
+      ref_fl.make_continued();
       ref_fl.set_leading_spaces(indent);
       layout_[ref_line].make_continued();
     }
-- 
2.43.0


From a2bc51943af39e05b5f6cd9cb41353a864506411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 69/73] fix: remove_fragment: the neighbors of a removed token
 keep the space between them

---
 src/flpr/Logical_Line.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index af1ff80..70c7a57 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -396,6 +396,13 @@ void Logical_Line::remove_fragment(typename TT_SEQ::iterator frag) {
 
   int const len_change = -(int)(old_text_len);
 
+  // The spaces on both sides are between the neighbors now
+  int const spaces = frag->pre_spaces_ + frag->post_spaces_;
+  if (frag != fragments_.begin())
+    std::prev(frag)->post_spaces_ = spaces;
+  if (std::next(frag) != fragments_.end())
+    std::next(frag)->pre_spaces_ = spaces;
+
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = fragments_.erase(frag);
        frag != fragments_.end() && frag->mt_begin_line_ == layout_line;
-- 
2.43.0


From 0f9e5d2e7e677f8757c7ff8a1b8c78575b524fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 70/73] fix: text_from_frags: tokens know where their text has
 gone

---
 src/flpr/Logical_Line.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 70c7a57..93d44f8 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -258,6 +258,10 @@ void Logical_Line::text_from_frags() noexcept {
         //	    std::cout << "APPEND " << redo << ' ' << *tt_it << '\n';
         redo = 0;
         line_start = false;
+        tt_it->mt_begin_line_ = tt_it->mt_end_line_ =
+            fline_it - layout_.begin();
+        tt_it->mt_end_col_ = fline_it->main_txt.size();
+        tt_it->mt_begin_col_ = tt_it->mt_end_col_ - tt_it->text().size();
         continue;
       }
       //	std::cout << "FAIL " << redo << ' ' << line_start << ' ' <<
@@ -271,6 +275,8 @@ void Logical_Line::text_from_frags() noexcept {
         bool const fixed_format = fline_it->is_fixed_format();
         size_t splits = token_text.size() / max_llen + 1;
         size_t split_size = token_text.size() / splits + 1;
+        tt_it->mt_begin_line_ = fline_it - layout_.begin();
+        tt_it->mt_begin_col_ = fline_it->main_txt.size();
         for (size_t pos = 0;;) {
           size_t count = split_size;
           if (fixed_format) {
@@ -309,6 +315,8 @@ void Logical_Line::text_from_frags() noexcept {
             fline_it->set_classification(File_Line::class_flags::continuation);
           }
         }
+        tt_it->mt_end_line_ = fline_it - layout_.begin();
+        tt_it->mt_end_col_ = fline_it->main_txt.size();
         max_llen = max_main_txt_len(*fline_it);
         line_start = false;
         add_line = false;
@@ -346,6 +354,18 @@ void Logical_Line::text_from_frags() noexcept {
     std::advance(fline_it, 1);
   }
   if (blanked) {
+    /* the tokens follow their lines */
+    std::vector<int> new_line(layout_.size());
+    int num_kept{0};
+    for (size_t i = 0; i < layout_.size(); ++i) {
+      new_line[i] = num_kept;
+      if (!layout_[i].is_blank())
+        num_kept += 1;
+    }
+    for (auto &tt : fragments_) {
+      tt.mt_begin_line_ = new_line[tt.mt_begin_line_];
+      tt.mt_end_line_ = new_line[tt.mt_end_line_];
+    }
     auto newend =
         std::remove_if(layout_.begin(), layout_.end(),
                        [](File_Line const &fl) { return fl.is_blank(); });
-- 
2.43.0


From a210f975a9b3c31c9e855e322b1aca832a78f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 71/73] fix: text_from_frags: a token on a new fixed-format
 line isn't a part of the one before

---
 src/flpr/Logical_Line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 93d44f8..64f1139 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -215,6 +215,8 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
     curr->set_classification(File_Line::class_flags::continuation);
     curr->left_txt = "     &";
     spaces -= std::min(spaces, curr->left_txt.size());
+    /* the next token isn't a part of the one before */
+    spaces = std::max(spaces, size_t{1});
   }
   curr->left_space.assign(spaces, ' ');
   return curr;
-- 
2.43.0


From 94d1730e49bec2d21e2b67800b76bedf6964450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 72/73] fix: text_from_frags: text laid over a blank line was
 lost

---
 src/flpr/Logical_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 64f1139..50d774c 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -200,7 +200,7 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
   // Add (or move to) the next line in text
   do
     std::advance(curr, 1);
-  while (curr != text.end() && curr->is_comment());
+  while (curr != text.end() && curr->is_trivial());
 
   if (curr == text.end())
     curr = text.insert(text.end(), File_Line());
-- 
2.43.0


From 0e974ccd5a11036fafb165be630c5370e39401c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 73/73] fix: make_comment_or_blank: a fixed-format comment in
 column six is a continuation

---
 src/flpr/File_Line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index cb34926..a964939 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -459,6 +459,11 @@ void File_Line::make_comment_or_blank() {
     left_txt.assign(left_txt.size(), ' ');
     main_txt.assign(main_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
+    /* a comment in column six would be a continuation mark */
+    if (is_fixed_format && left_txt.size() + left_space.size() +
+                                   main_txt.size() + right_space.size() ==
+                               5)
+      right_space.append(1, ' ');
     classification_.reset();
     classification_[ff] = is_fixed_format;
     classification_[com] = true;
-- 
2.43.0

