// Reads file names from stdin, one a line; prints for each one line of JSON:
// what a PostScript interpreter would put on its pages.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>

#include "psdoc.h"

static std::string Str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}
static std::string N(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.6g", v);
  return b;
}
int main() {
  std::string f;
  while (std::getline(std::cin, f)) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    mc::PsDoc d = mc::RunPs(ss.str());
    std::string o = "{\"ok\":" + std::string(d.ok ? "true" : "false") + ",\"error\":" + Str(d.error) + ",\"comments\":[";
    for (size_t i = 0; i < d.comment_lines.size(); i++) o += (i ? "," : "") + Str(d.comment_lines[i]);
    o += "],\"pages\":[";
    for (size_t i = 0; i < d.pages.size(); i++) {
      const auto& p = d.pages[i];
      o += std::string(i ? "," : "") + "{\"w\":" + N(p.w) + ",\"h\":" + N(p.h) + ",\"lines\":[";
      for (size_t k = 0; k < p.lines.size(); k++) {
        const auto& l = p.lines[k];
        o += (k ? ",[" : "[") + N(l.x1) + "," + N(l.y1) + "," + N(l.x2) + "," + N(l.y2) + "]";
      }
      o += "],\"arcs\":[";
      for (size_t k = 0; k < p.arcs.size(); k++) {
        const auto& a = p.arcs[k];
        o += (k ? ",[" : "[") + N(a.x) + "," + N(a.y) + "," + N(a.r) + "," + N(a.a) + "," + N(a.b) + "]";
      }
      o += "],\"texts\":[";
      for (size_t k = 0; k < p.texts.size(); k++) {
        const auto& t = p.texts[k];
        o += (k ? ",[" : "[") + N(t.x) + "," + N(t.y) + "," + Str(t.s) + "," + N(t.size) + "]";
      }
      o += "]}";
    }
    puts((o + "]}").c_str());
    fflush(stdout);
  }
}
