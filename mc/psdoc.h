// A strict little PostScript interpreter: executes a document and reports what
// is on each page, or the first error an interpreter would raise.
#ifndef MC_PSDOC_H_
#define MC_PSDOC_H_
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace mc {
struct PsLine {
  double x1, y1, x2, y2;
};
struct PsArc {
  double x, y, r, a, b;  // counter-clockwise from a to b, degrees
};
struct PsText {
  double x, y;    // where the first glyph starts (baseline)
  double ax, ay;  // the last moveto: the anchor
  std::string s;
  double width;  // advance width
  double size;
  double cx() const { return x + width / 2; }
};
struct PsPage {
  double w = 0, h = 0;
  std::vector<PsLine> lines;
  std::vector<PsArc> arcs;
  std::vector<PsText> texts;
  int device_sets = 0;
  // Every pen something was drawn with: width (0: a text), shade and dash.
  std::set<std::tuple<double, double, double>> pens;
};
struct PsDoc {
  bool ok = true;
  std::string error;
  std::vector<PsPage> pages;
  std::string comments;  // comment lines, in order
  std::vector<std::string> comment_lines;
};
PsDoc RunPs(const std::string& doc);

// The page's own furniture taken off: border polyline, page meta text, title
// text and its box.  Returns false (with why) if some of it is missing.
struct Furniture {
  bool border = false;
  std::string meta, title;
  bool has_meta = false, has_title = false;
};
bool Strip(const PsPage& in, PsPage* rest, Furniture* f, std::string* why);

// Undirected comparison helpers.
std::string Canon(const std::vector<PsLine>& l, double q = 0.01);
bool SameLines(std::vector<PsLine> a, std::vector<PsLine> b, double tol, std::string* why);
bool SameTexts(const std::vector<PsText>& a, const std::vector<PsText>& b, double tol, std::string* why);
bool SameArcs(const std::vector<PsArc>& a, const std::vector<PsArc>& b, double tol, std::string* why);
bool SamePage(const PsPage& a, const PsPage& b, double tol, std::string* why);
std::string Show(const PsLine&);
std::string Show(const PsText&);
std::string Show(const PsArc&);
std::string Show(const PsPage&);
}  // namespace mc
#endif
