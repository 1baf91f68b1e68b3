// Text output helpers.
//  part 0: grouped integers   1: padding   2: printed length of text with escape sequences   3: justified text   4: durations
#include "engine/nsx.h"
#include "src/utils/printer.hpp"
#include <cstring>
using namespace napsat;
static unsigned digits(uint64_t n) { unsigned d = 1; while (n >= 10) { n /= 10; d++; } return d; }
extern "C" void nsx_main() {
  unsigned part = nsx_param("part", 0);
  if (part == 0) {
    // a number of `len` digits (case split), optionally negative; digits symbolic within [lo,hi]
    int64_t lo = (int64_t)nsx_param("lo", 0), off = (int64_t)nsx_param("off", 0); uint64_t hi = nsx_param("hi", 99999);
    if (unsigned e = nsx_param("exps", 0)) { unsigned k = 3 + (unsigned)nsx_concretize(nsx_sym("power", 0, e - 1)); uint64_t p = 1; while (k--) p *= 10; off = (int64_t)(p - hi / 2); }   // around a power of ten
    bool neg = nsx_param("neg", 0) && nsx_concretize(nsx_sym("negative", 0, 1));
    uint64_t m = off + nsx_sym("n", lo, hi); long long n = neg ? (long long)(0 - m) : (long long)m;
    std::string s = pretty_integer(n); const char* p = s.c_str(); size_t len = s.size();
    if (neg && n) { nsx_assert(len > 1 && p[0] == '-', "a negative number starts with a minus sign"); p++; len--; nsx_reach("negative"); }
    nsx_assert(len >= 1 && len <= 26, "a number has digits");
    uint64_t v = 0; unsigned nd = 0;
    for (size_t i = 0; i < len; i++) {
      if ((len - 1 - i) % 4 == 3) { nsx_assert(p[i] == ',', "a comma before every group of three digits"); continue; }
      nsx_assert(p[i] >= '0' && p[i] <= '9', "digits in every other place"); v = v * 10 + (uint64_t)(p[i] - '0'); nd++;
    }
    nsx_assert(v == m, "the text denotes the number"); nsx_assert(nd == 1 || p[0] != '0', "no leading zero"); nsx_observe("len", len);
    if (nd > 3) nsx_reach("grouped"); nsx_reach("printed");
  } else if (part == 1) {
    unsigned mx = (unsigned)nsx_sym("max", nsx_param("lo", 1), nsx_param("hi", 120)), n = (unsigned)nsx_sym("n", 0, nsx_param("hi", 120)); nsx_assume(n <= mx);
    std::string s = pad(n, mx); for (char c : s) nsx_assert(c == ' ', "padding is made of spaces");
    nsx_assert(s.size() + digits(n) == digits(mx), "padded numbers are as wide as the largest"); if (s.size()) nsx_reach("padded"); nsx_reach("done");
  } else if (part == 2) {
    unsigned n = nsx_param("n", 5); std::string s; unsigned in = 0, want = 0; static const char V[] = {'a', '\033', 'm', '[', ';', ' '};
    for (unsigned i = 0; i < n; i++) { char c = V[nsx_concretize(nsx_sym("char", 0, 5))]; s += c; if (c == '\033') in = 1; if (!in) want++; if (c == 'm') in = 0; }
    nsx_assert(string_length_escaped(s) == want, "escape sequences do not count"); if (want < n && want) nsx_reach("escaped"); 
  } else if (part == 3) {
    unsigned n = nsx_param("n", 7), width = nsx_param("width", 5); bool pre = nsx_concretize(nsx_sym("prefix", 0, 1)); std::string in; static const char V[] = {'a', ' ', '.', '\n'};
    for (unsigned i = 0; i < n; i++) in += V[nsx_concretize(nsx_sym("char", 0, nsx_param("voc", 4) - 1))];
    std::string P = pre ? "> " : "", out = justify_string(in, width, ' ', P);
    // the lines start with the prefix; without it the words are the words of the input, in order
    std::string text; size_t i = 0; unsigned lines = 0;
    while (i < out.size()) {
      size_t e = out.find('\n', i); if (e == std::string::npos) e = out.size(); std::string line = out.substr(i, e - i); lines++;
      nsx_assert(line.compare(0, P.size(), P) == 0, "every line starts with the prefix"); line = line.substr(P.size());
      bool one = true; size_t b = 0; while (b < line.size() && line[b] == ' ') b++; for (size_t j = b; j + 1 < line.size(); j++) if (line[j] == ' ' && line[j + 1] != ' ') one = false;
      nsx_assert(one || line.size() <= width - P.size(), "a line is not wider than asked, except for a single word"); text += line + " "; i = e + 1;
    }
    auto words = [](const std::string& s) { std::string r; bool sp = true; for (char c : s) { bool w = c != ' ' && c != '\n'; if (w) { if (sp && !r.empty()) r += '|'; r += c; } sp = !w; } return r; };
    nsx_assert(words(text) == words(in), "the words are kept in order"); if (lines > 1) nsx_reach("several lines"); nsx_observe("len", out.size());
  } else {
    // hours, minutes, seconds, milliseconds
    static const unsigned HV[] = {0, 1, 25}, MV[] = {0, 1, 59}; unsigned h = HV[nsx_concretize(nsx_sym("h", 0, 2))], m = MV[nsx_concretize(nsx_sym("m", 0, 2))], s = MV[nsx_concretize(nsx_sym("s", 0, 2))]; uint64_t ms = nsx_concretize(nsx_sym("ms", 0, 3)) * 333, us = nsx_sym("us", 0, 999);
    long long t = ((h * 3600ll + m * 60 + s) * 1000 + (long long)ms) * 1000; std::string w; if (h) w += std::to_string(h) + "h "; if (m) w += std::to_string(m) + "m "; if (s) w += std::to_string(s) + "s "; w += std::to_string(ms) + "ms";
    nsx_assert(pretty_time(std::chrono::microseconds(t + (long long)us)) == w, "a duration is split into hours, minutes, seconds and milliseconds"); nsx_reach("done");
  }
}
