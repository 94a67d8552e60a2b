From e4d32248624356026225c3bb1f74acdc80c6e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 01/30] fix: refuse numbers that do not fit instead of dying on
 std::out_of_range

std::stof throws for literals that overflow or underflow a float.
---
 stl-to-ps/lexer.l | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..24df7de 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -68,6 +71,12 @@ void stl2pserror(stl2psscan_t scanner) {
   parser_support::Error(loc, stl2psget_text(scanner), e);
 }
 
+// Parse a NUM; fails for values that don't fit.
+static bool ParseNum(const char* text, float* out) {
+  *out = std::strtof(text, nullptr);
+  return std::isfinite(*out);
+}
+
 %}
 
 %%
@@ -93,8 +102,11 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+) {
+    if (ParseNum(yytext, &yylval_param->fp)) return T::NUM;
+    stl2pserror(yyscanner);
+    return 256;
+}
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From 7620af64d65b6928949538bae2f83974ddcc470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 02/30] fix: keep what follows a NUL byte in a string literal

---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index 24df7de..3e89a0c 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -107,7 +107,7 @@ text  return T::TEXT;
     stl2pserror(yyscanner);
     return 256;
 }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(std::string(yytext, yyleng)); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From 9fab48e7507088fbdd68e75661c9d6814ed7f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 03/30] fix: refuse ratios that are not of whole numbers

They were silently truncated (1.5:2 drew at 1:2), or undefined if out of range.
---
 stl-to-ps/parser.y | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..dd3df6d 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -54,6 +54,9 @@ int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
 }
+
+// Only whole numbers that fit in an int can be part of a Scale.
+bool IsInt(float f) { return f == truncf(f) && fabsf(f) < 2147483648.0f; }
 }  // namespace
 
 %}
@@ -134,7 +137,14 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           if (!IsInt($3) || !IsInt($5)) {
+             error(@$, "a ratio must be of whole numbers");
+             delete $1;
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
-- 
2.43.0


From d6d74d09529b87b33ffeeff7771ca338666fc24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 04/30] fix: let Closest collect enough points whatever order
 they come in

A point farther than the ones collected so far was dropped even while fewer
than count had been found.
---
 stl-to-ps/ast.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..a606200 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -87,8 +87,8 @@ std::vector<Eigen::RowVector2d> Closest(
   std::multimap<double, Eigen::RowVector2d> c;
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
-    // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    // Once there are enough points, skip anything that's too far away.
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From 987b32fcc13bfb010127777e16b4ac101d94065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 05/30] fix: refuse STL facets that do not have exactly three
 vertices

---
 stl-to-ps/stl.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..654dc7a 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -98,6 +98,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
+      if (norm != geo::point::zero || !points.empty()) {
+        LOG(ERROR) << line_number << ": the last facet was not ended";
+        return nullptr;
+      }
       norm = {x, y, z};
       points.clear();
       continue;
@@ -105,8 +109,14 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_efacet = *new RE2(R"( *endfacet *)");
     if (RE2::FullMatch(line, re_efacet)) {
+      if (points.size() != 3) {
+        LOG(ERROR) << line_number << ": a facet must have 3 vertexes, not "
+                   << points.size();
+        return nullptr;
+      }
       if (norm == geo::point::zero) {
         LOG(WARNING) << line_number << ": missing normal";
+        points.clear();
         continue;
       } else {
         ret->facets.emplace_back(norm, points);
@@ -126,6 +136,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (norm != geo::point::zero || !points.empty()) {
+    LOG(ERROR) << line_number << ": the last facet was not ended";
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From 8672647cb012c45e5e95a49f5bdd41a76689a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 06/30] fix: fail when a model can not be read to its end

---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 654dc7a..76886d9 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -136,6 +136,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << line_number << ": failed to read the next line";
+    return nullptr;
+  }
   if (norm != geo::point::zero || !points.empty()) {
     LOG(ERROR) << line_number << ": the last facet was not ended";
     return nullptr;
-- 
2.43.0


From 16262899034fe31ca1d378af797551ababc20f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 07/30] fix: fail, don't abort, when the script can not be read

---
 stl-to-ps/stl-to-ps.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..e65a3a0 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -107,7 +107,15 @@ void RenderPages(const std::string& src, const std::vector<OutputPage>& pages,
 
 bool ScriptToPS(const std::string& src, std::istream& in_orig,
                 std::ostream& out) {
-  std::string file_string(std::istreambuf_iterator<char>(in_orig), {});
+  std::string file_string;
+  char buffer[4096];
+  while (in_orig.read(buffer, sizeof(buffer)) || in_orig.gcount() > 0) {
+    file_string.append(buffer, in_orig.gcount());
+  }
+  if (in_orig.bad()) {
+    LOG(ERROR) << "Failed to read '" << src << "'";
+    return false;
+  }
 
   Document doc;
   if (int ret = Parse(src, file_string, &doc)) {
-- 
2.43.0


From eb23b1fedcfaa0ad16bd5845b533e8ac0a6647d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 08/30] fix: fail when the output can not be written

---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..931eb1f 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (!out) {
+    LOG(ERROR) << "Failed to write '" << absl::GetFlag(FLAGS_output) << "'";
+    return 1;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From 32df9f180e61c1c86d38a41d8622cc71b8bd1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 09/30] fix: refuse a scale with a zero term

---
 stl-to-ps/stl-to-ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e65a3a0..dd842e5 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -677,6 +677,10 @@ bool DrawToPage::operator()(const Draw& draw) {
       SYM_ERROR(*s) << "Wrong type for scale";
       return false;
     }
+    if (scales.first == 0 || scales.second == 0) {
+      SYM_ERROR(*s) << "Neither part of a scale can be zero";
+      return false;
+    }
   }
   proj.scale = 72.0 * scales.first / scales.second;
 
-- 
2.43.0


From 85bcb0dbbb1f43212c9e92309ea862b4a1a414b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 10/30] fix: refuse a dia or rad whose 'dir' has no direction
 in the view

---
 stl-to-ps/stl-to-ps.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index dd842e5..5d3d728 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -276,6 +276,11 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 
   if (!ok) return false;
 
+  if (dir.x() == 0 && dir.y() == 0) {
+    SYM_ERROR(*p_dir) << "'dir' must not be zero in the plane of the view";
+    return false;
+  }
+
   Eigen::RowVector2d target = {target3.x(), target3.y()};
 
   // Flatten to 2d
-- 
2.43.0


From ba5587eaf379ec1cb89469a6a0175985e8c9c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 11/30] fix: don't look for models in '/' when a load path
 element is empty

---
 stl-to-ps/stl-to-ps.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 5d3d728..fceefab 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -142,7 +142,7 @@ bool LoadFiles(const Document& doc,
     // Parse out the load path.
     static auto& load_paths = *new auto([] {
       std::vector<std::string> r =
-          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',');
+          absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',', absl::SkipEmpty());
       r.insert(r.begin(), ".");
       return r;
     }());
-- 
2.43.0


From 8f6427f89da239a3a9678745e704983c36c15bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 12/30] fix: report near() and center() calls that find nothing

---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index a606200..a7f6de0 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "No points to be near to";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enough points to find a center";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From 780de4691b0185c253b307ee82a01960ccb21715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 13/30] fix: label nearly parallel arms with an angle, not nan,
 and refuse parallel ones

---
 stl-to-ps/stl-to-ps.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index fceefab..e7e1d11 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -425,7 +425,8 @@ bool DrawToPage::operator()(const Angle& dim) {
   if (!ok) return false;
 
   auto c = to_dir.cross(from_dir);
-  if (c.z() == 0) {
+  // Parallel arms can be a bit off after rounding.
+  if (std::abs(c.z()) < 1e-9) {
     SYM_ERROR(dim) << "Degenerate angle provided.";
     return false;
   }
@@ -463,7 +464,9 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Rounding can push the cosine past 1.
+  double cos = from_dir.dot(to_dir.normalized());
+  double ang = std::acos(std::max(-1.0, std::min(1.0, cos))) * 180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From a7cba4a300be92c7427c8695d924f7f43bdb72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 14/30] fix: escape the formatted part of a dia label

---
 stl-to-ps/ps.cc        | 41 +++++++++++++++++++++--------------------
 stl-to-ps/ps.h         |  3 +++
 stl-to-ps/stl-to-ps.cc |  1 +
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..3a1b005 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -126,28 +126,29 @@ void ArcToPs(const std::vector<geo::Arc>& arcs, std::ostream& out) {
   }
 }
 
+std::string Escape(const std::string& str) {
+  std::string s;
+  s.reserve(str.size());
+  for (char c : str) {
+    switch (c) {
+      default:
+        s.push_back(c);
+        break;
+
+      case '(':
+      case ')':
+      case '\\':
+        s.push_back('\\');
+        s.push_back(c);
+        break;
+    }
+  }
+  return s;
+}
+
 void TextToPs(const std::vector<Text>& text, std::ostream& out) { //
   for (const auto t : text) {
-    std::string s;
-    if (t.raw) {
-      s = t.str;
-    } else {
-      s.reserve(t.str.size());
-      for (char c : t.str) {
-        switch (c) {
-          default:
-            s.push_back(c);
-            break;
-
-          case '(':
-          case ')':
-          case '\\':
-            s.push_back('\\');
-            s.push_back(c);
-            break;
-        }
-      }
-    }
+    const std::string s = t.raw ? t.str : Escape(t.str);
     out << absl::Substitute(
         (t.center ? "newpath $0 $1 moveto ($2) CenterText show\n"
                   : "newpath $0 $1 moveto ($2) show\n"),
diff --git a/stl-to-ps/ps.h b/stl-to-ps/ps.h
index 981bef5..7b849f4 100644
--- a/stl-to-ps/ps.h
+++ b/stl-to-ps/ps.h
@@ -49,6 +49,9 @@ struct Text {
   bool raw = false;
 };
 
+// Escape text for use inside a PostScript string literal.
+std::string Escape(const std::string &str);
+
 void DocumentHeader(const std::string &src, std::ostream &out);
 
 void PageHeader(int num, int pages, std::ostream &out);
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e7e1d11..914e583 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -543,6 +543,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
   t.at.x() += (ps::kFontSize * 0.3 * (t.str.length() - 2)) / proj.scale;
+  t.str = absl::StrCat(kPsDia, ps::Escape(absl::StrFormat(fmt, r * 2)));
 
   AddText({t});
 
-- 
2.43.0


From 55e61b070f3e40530bdd1b40494b17eae2d522eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 15/30] fix: keep line ends in the name and source out of the
 header comments

---
 stl-to-ps/ps.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 3a1b005..20c7450 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -52,6 +52,16 @@ std::string Now() {
 }  // namespace impl
 }  // namespace
 
+namespace {
+// Make text safe for use in a comment.
+std::string OneLine(std::string s) {
+  for (char& c : s) {
+    if (c == '\n' || c == '\r' || c == '\f') c = ' ';
+  }
+  return s;
+}
+}  // namespace
+
 void DocumentHeader(const std::string& src, std::ostream& out) {
   out << absl::Substitute(R"(% generated by stl-to-ps
 % Name: $0
@@ -77,7 +87,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          OneLine(absl::GetFlag(FLAGS_name)), OneLine(src),
+                          impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From 31db3f4c260d1b4cc8d0fd0dc426f1aa197661cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 16/30] fix: don't let rounding bring edge-on faces back into
 the drawing

---
 stl-to-ps/stl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 76886d9..3d26bd4 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -46,6 +46,7 @@ constexpr double kMinLineLen = 0;
 constexpr bool show_hidden = false;
 constexpr bool show_invisible = false;
 constexpr double min_ang = .98;
+constexpr double kEdgeOn = 1e-9;  // Rotation can leave this much of a normal.
 using std::swap;
 
 std::ostream& operator<<(std::ostream& o, const Edge& e) {
@@ -166,7 +167,7 @@ STLFile STLFile::Rotate(const Eigen::Matrix3d& m) const {
 void STLFile::CullBackFace() {
   int i = 0, j = facets.size();
   for (; i < j; i++) {
-    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);
+    if (facets[i].norm.z() <= kEdgeOn) swap(facets[i--], facets[--j]);
   }
   facets.resize(j);
 }
-- 
2.43.0


From 4ae68a0eaa266c2e412a65027c64efa183e50273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 17/30] fix: don't compute where parallel edges cross

---
 stl-to-ps/stl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 3d26bd4..bfbe65b 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -47,6 +47,7 @@ constexpr bool show_hidden = false;
 constexpr bool show_invisible = false;
 constexpr double min_ang = .98;
 constexpr double kEdgeOn = 1e-9;  // Rotation can leave this much of a normal.
+constexpr double kParallel = 1e-9;  // The sine of the angle between edges.
 using std::swap;
 
 std::ostream& operator<<(std::ostream& o, const Edge& e) {
@@ -403,7 +404,13 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       // [[j][i]] = [[-du.y, du.x][-dv.y, dv.x]] * [[x][y]]/ det
 
       // Matrix inversion
-      auto det = 1 / (du.x() * dv.y() - dv.x() * du.y());
+      const double cross = du.x() * dv.y() - dv.x() * du.y();
+      // If they are parallel, then where they cross is down to rounding.
+      if (std::abs(cross) <= kParallel * std::hypot(du.x(), du.y()) *
+                                 std::hypot(dv.x(), dv.y())) {
+        continue;
+      }
+      auto det = 1 / cross;
       auto x = eu.first.x() - ev.first.x();
       auto y = eu.first.y() - ev.first.y();
       auto j = (-du.y() * x + du.x() * y) * det;
-- 
2.43.0


From 1dafab7947da549d15ba7b6f6ba7e0c2c17bebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 18/30] fix: don't let rounding at the end of an edge decide
 whether a face hides it

---
 stl-to-ps/stl.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index bfbe65b..508061f 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -48,6 +48,8 @@ constexpr bool show_invisible = false;
 constexpr double min_ang = .98;
 constexpr double kEdgeOn = 1e-9;  // Rotation can leave this much of a normal.
 constexpr double kParallel = 1e-9;  // The sine of the angle between edges.
+constexpr double kEdgeEnd = 1e-9;  // Past the end of an edge, by rounding.
+constexpr double kTouching = 1e-9;  // Neither in front of nor behind.
 using std::swap;
 
 std::ostream& operator<<(std::ostream& o, const Edge& e) {
@@ -268,6 +270,8 @@ std::vector<geo::Line> STLFile::ToLines() const {
       auto& p_min = hidden_points[0].first;
       auto& p_max = hidden_points[idx - 1].first;
       if ((p_min - p_max).squaredNorm() == 0) continue;
+      // An edge can't be hidden by a face it lies in.
+      if ((p_min + p_max).dot(f.norm) >= 2 * (f.r - kTouching)) continue;
       CHECK(hidden_points[0].second <= hidden_points[idx - 1].second)
           << "Points out of order " << idx;
       edge_hides_list[v].emplace_back(p_min, p_max);
@@ -416,14 +420,15 @@ std::vector<std::map<int, Eigen::RowVector3d>> STLFile::EdgeCrosses() const {
       auto j = (-du.y() * x + du.x() * y) * det;
       auto i = (-dv.y() * x + dv.x() * y) * det;
 
-      if (!(0 <= i && i <= 1 && 0 <= j && j <= 1)) {
+      if (!(-kEdgeEnd <= i && i <= 1 + kEdgeEnd &&  //
+            -kEdgeEnd <= j && j <= 1 + kEdgeEnd)) {
         continue;
       }
       auto pu = eu.first + du * i;
       auto pv = ev.first + dv * j;
 
-      if (pu.z() <= pv.z()) hidden_by_list.emplace_back(u, v, pu);
-      if (pv.z() <= pu.z()) hidden_by_list.emplace_back(v, u, pv);
+      if (pu.z() <= pv.z() + kTouching) hidden_by_list.emplace_back(u, v, pu);
+      if (pv.z() <= pu.z() + kTouching) hidden_by_list.emplace_back(v, u, pv);
     }
   }
   for (const auto& h : hidden_by_list) {
-- 
2.43.0


From 97351b3e956ebea8a8ecece76f5eff01d6f01c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 19/30] fix: read STL numbers with a '+' in front of the
 exponent

---
 stl-to-ps/stl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 508061f..065ecb2 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -100,7 +100,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     // Start of facet
     static const auto& re_facet = *new RE2(
-        R"( *facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
       if (norm != geo::point::zero || !points.empty()) {
         LOG(ERROR) << line_number << ": the last facet was not ended";
@@ -131,7 +131,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     }
 
     static const auto& re_vertex = *new RE2(
-        R"( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)");
+        R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
       points.push_back({x, y, z});
       continue;
-- 
2.43.0


From 3ca66a06e35bd9a0a9db51053349863ab9563c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 20/30] fix: refuse STL vertices and facet ends outside of a
 facet

---
 stl-to-ps/stl.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 065ecb2..62ba703 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -79,6 +79,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
   std::string line;
   int line_number = 0, solid = 0, loop = 0;
 
+  bool in_facet = false;
   Eigen::RowVector3d norm = geo::point::zero;
   std::vector<Eigen::RowVector3d> points;
   double x, y, z;
@@ -102,10 +103,11 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_facet = *new RE2(
         R"( *facet normal +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_facet, &x, &y, &z)) {
-      if (norm != geo::point::zero || !points.empty()) {
+      if (in_facet) {
         LOG(ERROR) << line_number << ": the last facet was not ended";
         return nullptr;
       }
+      in_facet = true;
       norm = {x, y, z};
       points.clear();
       continue;
@@ -113,6 +115,11 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
 
     static const auto& re_efacet = *new RE2(R"( *endfacet *)");
     if (RE2::FullMatch(line, re_efacet)) {
+      if (!in_facet) {
+        LOG(ERROR) << line_number << ": there is no facet to end";
+        return nullptr;
+      }
+      in_facet = false;
       if (points.size() != 3) {
         LOG(ERROR) << line_number << ": a facet must have 3 vertexes, not "
                    << points.size();
@@ -133,6 +140,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     static const auto& re_vertex = *new RE2(
         R"( *vertex +([-+.eE0-9]+) +([-+.eE0-9]+) +([-+.eE0-9]+) *)");
     if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {
+      if (!in_facet) {
+        LOG(ERROR) << line_number << ": vertex outside of a facet";
+        return nullptr;
+      }
       points.push_back({x, y, z});
       continue;
     }
@@ -144,7 +155,7 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": failed to read the next line";
     return nullptr;
   }
-  if (norm != geo::point::zero || !points.empty()) {
+  if (in_facet) {
     LOG(ERROR) << line_number << ": the last facet was not ended";
     return nullptr;
   }
-- 
2.43.0


From 0de54cf1fd178b016de6a1f1771aacf7fa084c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 21/30] fix: keep the dimension line off its label

---
 stl-to-ps/stl-to-ps.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 914e583..7a70061 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -644,12 +644,15 @@ bool DrawToPage::operator()(const Dim& dim) {
   auto gap = std::min(std::abs(width / a.x()), std::abs(height / a.y()));
   gap /= proj.scale;
 
+  // The length as drawn, in pt's.
+  double drawn = std::hypot(length.x(), length.y()) * proj.scale;
+
   // Dimention lines
-  if (gap * 2 < dim_value * proj.scale) {  // cmp the gap and dim (in pt's)
-    AddLines({
-        {arrow_from, at - a * gap},
-        {at + a * gap, arrow_to},
-    });
+  if (gap * 2 < drawn) {
+    // Stop short of the text, which may be beyond one of the arrows.
+    Eigen::RowVector3d before = at - a * gap, after = at + a * gap;
+    if ((before - arrow_from).dot(a) > 0) AddLines({{arrow_from, before}});
+    if ((arrow_to - after).dot(a) > 0) AddLines({{after, arrow_to}});
   } else {
     AddLines({
         {arrow_from, arrow_from - a * 10},
-- 
2.43.0


From d2094dffe2c8c87f937c349365fef7987b2b51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 22/30] fix: collect a point only once in Closest whatever the
 rounding

---
 stl-to-ps/ast.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index a7f6de0..e84b9bb 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -28,6 +28,7 @@
 #include "stl-to-ps/ast.h"
 
 #include <cxxabi.h>
+#include <algorithm>
 #include <limits>
 #include <map>
 #include <string>
@@ -87,19 +88,21 @@ std::vector<Eigen::RowVector2d> Closest(
     Eigen::RowVector2d to) {
   if (count < 1) return {};
 
+  double same = 0;
+  for (const auto& p : ps) same = std::max(same, p.squaredNorm() * 1e-20);
+
   std::multimap<double, Eigen::RowVector2d> c;
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Once there are enough points, skip anything that's too far away.
     if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
-    // Check if this point (or one very close to it) has already been collected
-    // (if so; reject it).
-    auto r = c.equal_range(d);
-    auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+    // Check if this point (or one that only rounding sets apart from it) has
+    // already been collected (if so; reject it).
+    auto pred = [&p, same](const decltype(c)::value_type& i) {
+      return (p - i.second).squaredNorm() <= same;
     };
-    if (std::find_if(r.first, r.second, pred) != r.second) continue;
+    if (std::find_if(c.begin(), c.end(), pred) != c.end()) continue;
 
     c.emplace(d, p);
     // If there are already more than enought points, throw out the last ones.
-- 
2.43.0


From c5ecc4878e59494175e199a064489cfa0781d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 23/30] fix: draw the leader of a dia or rad out to the circle

---
 stl-to-ps/stl-to-ps.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 7a70061..e086f12 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -519,7 +519,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
 
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > r) {
     Eigen::RowVector2d c = center + dir * len;
     AddLines({{b, c}, {c, at}});
   } else {
@@ -792,7 +792,7 @@ bool DrawToPage::RenderRad(std::map<std::string, Meta*>* seen, const NodeI& rad,
   // TODO, Do a better job here.
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > r) {
     Eigen::RowVector2d b = center + dir * len;
     AddLines({{center, b}, {b, at}});
   } else {
-- 
2.43.0


From 6362f2045f28878c5b76985b0f5f215fd10890b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 24/30] fix: find circles far from the origin and none through
 a line

---
 stl-to-ps/center.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..93b6389 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -47,8 +47,13 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
+  // Solve relative to the mean, so that the distance to the origin costs no
+  // precision.
+  Eigen::RowVector2d mean{0, 0};
+  for (const auto& p : points) mean += p / points.size();
+
   for (size_t i = 0; i < points.size(); i++) {
-    auto p = points[i];
+    Eigen::RowVector2d p = points[i] - mean;
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -56,10 +61,15 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   }
 
   Eigen::Matrix<double, 3, Eigen::Dynamic> Xt = X.transpose();
+
+  // Points that are all on one line aren't on any circle.
+  Eigen::Matrix2d s = (Xt * X).topLeftCorner<2, 2>();
+  if (!(s.determinant() > 1e-14 * s.trace() * s.trace())) return false;
+
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = res.x();
-  center->y() = res.y();
+  center->x() = mean.x() + res.x();
+  center->y() = mean.y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From b97fe1196ede6c5ec590c49e7160f569d1992fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 25/30] fix: count columns of the first line from 1 like those
 of any other line

---
 stl-to-ps/parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.cc b/stl-to-ps/parser.cc
index aec6120..237931a 100644
--- a/stl-to-ps/parser.cc
+++ b/stl-to-ps/parser.cc
@@ -54,7 +54,7 @@ int Parse(std::string filename, const std::string& file, Document* doc) {
   stl2pslex_init(&scanner);
   auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);
   stl2psset_lineno(1, scanner);
-  stl2psset_column(0, scanner);
+  stl2psset_column(1, scanner);
   stl2psset_extra(&extra, scanner);
   int ret;
   {
-- 
2.43.0


From 770afb641b9c3a4b081bb16cd753a3a60c24eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 26/30] fix: escape carriage returns in PostScript strings

---
 stl-to-ps/ps.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 20c7450..33b83b5 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -146,6 +146,10 @@ std::string Escape(const std::string& str) {
         s.push_back(c);
         break;
 
+      case '\r':  // Unescaped, it reads as a \n.
+        s.append("\\r");
+        break;
+
       case '(':
       case ')':
       case '\\':
-- 
2.43.0


From 41094e625bdef099e7a36dacdd1d91416c1eea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 27/30] fix: refuse to draw what is too far off for PostScript
 to hold

---
 stl-to-ps/stl-to-ps-impl.h |  5 +++++
 stl-to-ps/stl-to-ps.cc     | 26 +++++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps-impl.h b/stl-to-ps/stl-to-ps-impl.h
index 0de06ef..1a0a675 100644
--- a/stl-to-ps/stl-to-ps-impl.h
+++ b/stl-to-ps/stl-to-ps-impl.h
@@ -71,6 +71,10 @@ class DrawToPage : public VisitDrawable {
   void AddLines(const std::vector<geo::Line>& lines);
   void AddText(const std::vector<ps::Text>& text);
 
+  // Report (for `node`) anything added since the last call that is too far off
+  // for PostScript to hold.
+  ABSL_MUST_USE_RESULT bool InRange(const NodeI& node);
+
  private:
   friend class DrawToPageTests;
 
@@ -88,6 +92,7 @@ class DrawToPage : public VisitDrawable {
 
   const std::map<std::string, std::unique_ptr<STLFile>>& stl_files;
   OutputPage* current_page = nullptr;
+  bool in_range_ = true;
 
   // Working set for use by operator()'s
   geo::point_set points_;
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e086f12..9d6f339 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -28,8 +28,10 @@
 #include "stl-to-ps/stl-to-ps.h"
 #include "stl-to-ps/stl-to-ps-impl.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
@@ -63,6 +65,12 @@ Meta* Take(const std::string& name, std::map<std::string, Meta*>* m) {
   return k;
 }
 
+// Can PostScript, with single precision, hold these numbers?  (nan's don't.)
+bool Fits(const Eigen::RowVector2d& p) {
+  constexpr double max = std::numeric_limits<float>::max();
+  return std::abs(p.x()) < max && std::abs(p.y()) < max;
+}
+
 bool Flatten(std::string name, const std::vector<std::unique_ptr<Meta>>& inp,
              std::map<std::string, Meta*>* seen) {
   bool ok = true;
@@ -199,6 +207,7 @@ bool GeneratePages(
     visitor.set_current_page(&current_page);
     for (const auto& draw : doc_page.draws) {
       if (!draw->VisitNode(&visitor)) ok = false;
+      if (!visitor.InRange(*draw)) ok = false;
     }
 
     current_page.AddHeader(page_name, pages->size(), doc.pages.size());
@@ -233,7 +242,10 @@ bool DrawToPage::AddDims(const STLFile& file,
   rotation_ = rotation;
 
   bool ok = true;
-  for (const auto& dim : dims) ok &= dim->VisitNode(this);
+  for (const auto& dim : dims) {
+    ok &= dim->VisitNode(this);
+    ok &= InRange(*dim);
+  }
   return ok;
 }
 
@@ -736,6 +748,7 @@ bool DrawToPage::operator()(const Draw& draw) {
 
   // Render things out.
   AddLines(projection.ToLines());
+  if (!InRange(draw)) return false;
 
   if (!AddDims(projection, draw.dims, rotation)) return false;
 
@@ -837,6 +850,7 @@ bool DrawToPage::operator()(const Text& text) {
     if (!s.empty()) {
       t.str = std::string(s);
       current_page->text.push_back(t);
+      in_range_ &= Fits(t.at);
     }
     t.at.y() -= 12;
   }
@@ -864,6 +878,7 @@ void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {
     l.t += proj.d;
 
     current_page->lines.push_back(l);
+    in_range_ &= Fits(l.o) && Fits(l.t);
   }
 }
 
@@ -877,6 +892,7 @@ void DrawToPage::AddArcs(const std::vector<geo::Arc>& arcs) {
     a.r *= proj.scale;
 
     current_page->arcs.push_back(a);
+    in_range_ &= Fits(a.center) && Fits({a.r, 0}) && Fits({a.start, a.end});
   }
 }
 
@@ -888,7 +904,15 @@ void DrawToPage::AddText(const std::vector<ps::Text>& text) {
     t.at *= proj.scale;
     t.at += proj.d;
     current_page->text.push_back(t);
+    in_range_ &= Fits(t.at);
   }
 }
 
+bool DrawToPage::InRange(const NodeI& node) {
+  if (in_range_) return true;
+  in_range_ = true;
+  SYM_ERROR(node) << "This is too far off the page to be drawn";
+  return false;
+}
+
 }  // namespace stl2ps
-- 
2.43.0


From d2a83ecb7af6a50f669ead5e2f25420e3af5af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 28/30] fix: let the build rules' outputs be in a directory of
 the package

---
 stl-to-ps/rule.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/rule.bzl b/stl-to-ps/rule.bzl
index c3013cc..30497ae 100644
--- a/stl-to-ps/rule.bzl
+++ b/stl-to-ps/rule.bzl
@@ -46,7 +46,7 @@ def _stl2pdf_impl(ctx):
         arguments = [args_ps]
     )
 
-    out_pdf = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out_pdf = ctx.outputs.out
 
     args_pdf = ctx.actions.args()
     args_pdf.add(out_ps.path)
@@ -93,7 +93,7 @@ stl2pdf = rule(
 )
 
 def _scad_binary_impl(ctx):
-    out = ctx.actions.declare_file(ctx.outputs.out.basename)
+    out = ctx.outputs.out
 
     args = ctx.actions.args()
     args.add("-o%s" % out.path)
-- 
2.43.0


From 94f31d626fa2b3126b5f0b1baf4cb81bae4193ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 29/30] fix: solve circles relative to a point that loses no
 precision

The mean of three points can't be represented exactly.
---
 stl-to-ps/center.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index 93b6389..598d39c 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -47,13 +47,17 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   Eigen::Matrix<double, Eigen::Dynamic, 3> X(points.size(), 3);
   Eigen::Matrix<double, Eigen::Dynamic, 1> Y(points.size(), 1);
 
-  // Solve relative to the mean, so that the distance to the origin costs no
-  // precision.
-  Eigen::RowVector2d mean{0, 0};
-  for (const auto& p : points) mean += p / points.size();
+  // Solve relative to the middle of the points, so that the distance to the
+  // origin costs no precision.
+  Eigen::RowVector2d min = points[0], max = points[0];
+  for (const auto& p : points) {
+    min = min.cwiseMin(p);
+    max = max.cwiseMax(p);
+  }
+  const Eigen::RowVector2d middle = (min + max) / 2;
 
   for (size_t i = 0; i < points.size(); i++) {
-    Eigen::RowVector2d p = points[i] - mean;
+    Eigen::RowVector2d p = points[i] - middle;
     X(i, 0) = p.x();
     X(i, 1) = p.y();
     X(i, 2) = 0.5;
@@ -68,8 +72,8 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
 
   Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;
 
-  center->x() = mean.x() + res.x();
-  center->y() = mean.y() + res.y();
+  center->x() = middle.x() + res.x();
+  center->y() = middle.y() + res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
   return true;
 }
-- 
2.43.0


From 1b5ffe4c5df105c8b67e664d243b41fbc30ad859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 30/30] fix: don't divide by a scale of zero before any scale
 is set

---
 stl-to-ps/stl-to-ps-impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps-impl.h b/stl-to-ps/stl-to-ps-impl.h
index 1a0a675..495786b 100644
--- a/stl-to-ps/stl-to-ps-impl.h
+++ b/stl-to-ps/stl-to-ps-impl.h
@@ -99,7 +99,7 @@ class DrawToPage : public VisitDrawable {
   Eigen::Matrix3d rotation_;
 
   struct {
-    float scale = 0;
+    float scale = 1;
     Eigen::RowVector2d d = {0, 0};
   } proj;
 };
-- 
2.43.0

