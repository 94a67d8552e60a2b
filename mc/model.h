// Reference models shared by the checks: the script language (tokens, grammar,
// lexer), small geometry, model files.  Written from the properties, not from
// the implementation.
#ifndef MC_MODEL_H_
#define MC_MODEL_H_
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "psdoc.h"
#include "run.h"

namespace mc {

// ---------------------------------------------------------------- language
enum Tok {
  tLBrace, tRBrace, tLBrack, tRBrack, tLPar, tRPar, tEq, tSemi, tColon, tComma, tAt,
  tAngle, tDia, tDim, tDraw, tLoad, tPage, tRad, tText, tId, tNum, tStr, tEnd, tBad
};
constexpr int kTokens = tEnd;  // number of real token kinds
extern const char* const kTokName[];

struct Token {
  Tok t;
  std::string text;  // ID name, or the string's content
  double num = 0;
  std::string spell;
  int line = 1;      // where it stands
  int line_end = 1;
};

struct APoint {
  std::vector<std::string> funcs;  // outermost first
  double x = 0, y = 0, z = 0;
};
struct AVal {
  enum Kind { kStr, kNum, kRatio, kLoc, kPoint } k = kNum;
  std::string s;
  double a = 0, b = 0;
  APoint p;
};
struct AProp {
  std::string name;
  AVal v;
  int line = 0;
  unsigned tags = 0;  // for the checks' own use
};
struct ACall {
  Tok kind;
  std::vector<AProp> props;
  int line = 0;
  unsigned tags = 0;
};
struct ABlock {  // draw or text
  bool draw = true;
  std::string name;  // model, or the text
  std::vector<AProp> props;
  std::vector<ACall> calls;
  int line = 0;
  unsigned tags = 0;
};
struct APage {
  std::vector<AProp> props;
  std::vector<ABlock> blocks;
  int line = 0;
  unsigned tags = 0;
};
struct ALoad {
  std::string name, file;
  int line = 0;
  unsigned tags = 0;
};
struct ADoc {
  std::vector<ALoad> loads;
  std::vector<APage> pages;
};
// Parse a token sequence (without tEnd).  False: not a sentence; *bad is the
// index of the first token after which no sentence continues (size(): the end).
bool RefParse(const std::vector<Token>& t, ADoc* doc, size_t* bad);
// Tokens of a byte string.  A byte that starts no token gives tBad.
std::vector<Token> RefLex(const std::string& s);
std::string Dump(const ADoc&);
std::string Dump(const AVal&);
const char* CallName(Tok);

// Value and property builders.
AVal VS(const std::string& s);
AVal VN(double v);
AVal VR(double a, double b);
AVal VL(double x, double y);
AVal VP(double x, double y, double z);
AVal VF(const std::string& f, AVal p);
inline AProp Prop(const std::string& n, AVal v) { return {n, v, 0, 0}; }
// The script of a document, one item a line; fills in the line numbers.
std::string Print(ADoc* d, int first_line = 1, const std::string& eol = "\n");
std::string Print(const AVal& v);

// ---------------------------------------------------------------- geometry
struct V3 {
  double x = 0, y = 0, z = 0;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, double k) { return {a.x * k, a.y * k, a.z * k}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline double norm(V3 a) { return sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a * (1 / norm(a)); }
// The page axes in model space: right, up, and towards the viewer.
struct Frame {
  V3 r, u, w;
  V3 map(V3 p) const { return {dot(p, r), dot(p, u), dot(p, w)}; }
};
Frame NamedView(const std::string& name);  // X+ X- Y+ Y- Z+ Z-
Frame AngleView(double a, double b);

struct Tri {
  V3 a, b, c;  // counter-clockwise seen from outside
  V3 n() const { return cross(b - a, c - a); }
};
using Mesh = std::vector<Tri>;
std::string StlText(const Mesh& m, const std::string& name = "m");
std::string StlNum(double v);
Mesh Box(V3 lo, V3 hi);
void Quad(Mesh* m, V3 a, V3 b, V3 c, V3 d);  // ccw
struct Box2 {
  double x0, y0, x1, y1;
};
// Bounding box of the faces turned to the viewer; {0,0,0,0} if none.
Mesh Prism(int n, double r, double cx, double cy, double z0, double z1, double phase_deg = 0);
Box2 VisibleBox(const Mesh& m, const Frame& f, double eps = 1e-9);

// Page position of a model point for a draw.
struct Place {
  double k;       // points per model unit
  double dx, dy;  // page position of the (rotated) origin
  double X(double x) const { return x * k + dx; }
  double Y(double y) const { return y * k + dy; }
};
Place Placement(const Box2& b, double num, double den, bool has_at, double ax, double ay);

// ---------------------------------------------------------------- scripts
std::string P3(V3 p);                     // [x,y,z]
std::string P2(double x, double y);       // [x,y]
}  // namespace mc
#endif
