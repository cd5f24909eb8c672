// C37: strings and lines of input
#include "smash/stringfunctions.h"
#include "smash/inputfunctions.h"
#include <numeric>
#include <sstream>
namespace spec {
using namespace smash;
// characters missing in s for a width; continuation bytes are not characters
//@ C37 smash::utf8::adjust
size_t missing(const std::string &s, size_t width) {
  for (unsigned char c : s) {
    size_t more = 0;
    if (c >= 0xFC) more = 5;
    else if (c >= 0xF8) more = 4;
    else if (c >= 0xF0) more = 3;
    else if (c >= 0xE0) more = 2;
    else if (c == 0xCC) more = 2;
    else if (c == 0xCD) more = 2;
    else if (c >= 0xC0) more = 1;
    width += more;
  }
  if (width <= s.size()) return 0;
  return width - s.size();
}
//@ C37 smash::utf8::fill_left inline=smash::utf8::adjust
std::string left(const std::string &s, size_t width, char fill) {
  const size_t n = missing(s, width);
  return n == 0 ? s : std::string(n, fill) + s;
}
//@ C37 smash::utf8::fill_right inline=smash::utf8::adjust
std::string right(const std::string &s, size_t width, char fill) {
  const size_t n = missing(s, width);
  return n == 0 ? s : s + std::string(n, fill);
}
//@ C37 smash::utf8::fill_both inline=smash::utf8::adjust
std::string both(const std::string &s, size_t width, char fill) {
  const size_t n = missing(s, width);
  if (n == 0) return s;
  const int l = n / 2;
  const int r = n - l;
  return std::string(l, fill) + s + std::string(r, fill);
}
//@ C37 smash::trim
std::string trimmed(const std::string &s) {
  const auto a = s.find_first_not_of(" \t\n\r");
  if (a == std::string::npos) return std::string{};
  return s.substr(a, s.find_last_not_of(" \t\n\r") + 1 - a);
}
//@ C37 smash::remove_substr
void remove(std::string &s, const std::string &p) {
  auto i = s.find(p);
  while (i != std::string::npos) {
    s.erase(i, p.length());
    i = s.find(p);
  }
}
//@ C37 smash::isoclean opaque=remove_substr
void clean(std::string &s) {
  remove_substr(s, "\u207a");
  remove_substr(s, "\u207b");
  remove_substr(s, "\u2070");
}
//@ C37 smash::split n=2
std::vector<std::string> pieces(const std::string &s, char delim) {
  std::vector<std::string> r;
  std::stringstream in;
  in.str(s);
  std::string item;
  while (std::getline(in, item, delim)) r.push_back(item);
  return r;
}
// pieces with the delimiter between them
//@ C37 smash::join
std::string joined(const std::vector<std::string> &v, const std::string &delim) {
  return std::accumulate(v.begin(), v.end(), std::string{}, [&delim](const std::string &a, const std::string &b) {
    return a.empty() ? b : a + delim + b;
  });
}
//@ C37 smash::quote
std::string quoted(const std::string &s) { return "\"" + s + "\""; }
// comments, blank lines and blanks around are dropped; lines are counted from one
//@ C37 smash::line_parser opaque=trim
std::vector<Line> lines(const std::string &text) {
  std::istringstream in(text);
  std::vector<Line> r;
  std::string l;
  int n = 0;
  while (std::getline(in, l)) {
    n += 1;
    const auto hash = l.find('#');
    if (hash != std::string::npos) l = l.substr(0, hash);
    if (l.find_first_not_of(" \t") != std::string::npos) {
      l = trim(l);
      r.emplace_back(n, std::move(l));
    }
    l = std::string();
  }
  return r;
}
}
