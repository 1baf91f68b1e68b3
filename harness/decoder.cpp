// Reading compressed files. liblzma and libbz2 are replaced by decoders of a small format that keep their interface contracts (what
// is consumed and produced per call, end of stream, several streams, errors, release of memory).
//  part 0: the decompressed text of any file made of nops pieces    part 1: a compressed DIMACS file
//  Format: streams '@' pieces '$'; a letter stands for itself, a digit d for d*unit times the next character, '!' is damage.
#include "harness/common.h"
#include "src/utils/decoder.hpp"
#include <sstream>
#include <lzma.h>
#include <bzlib.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
static unsigned unit, block; static long open_handles;
// one step of decoding: -1 more input wanted, -2 end of a stream, -3 damaged, otherwise a character
struct Core { unsigned phase = 0, run = 0, digit = 0; unsigned char c = 0;
  template <class IN> int step(IN in) {
    if (run) { run--; return c; }
    int x = in(); if (x < 0) return -1;
    if (phase == 0) { if (x != '@') return -3; phase = 1; return step(in); }
    if (digit) { c = (unsigned char)x; run = digit * unit; digit = 0; return step(in); }
    if (x == '$') { phase = 0; return -2; }
    if (x == '!') return -3;
    if (x > '0' && x <= '9' && unit) { digit = (unsigned)(x - '0'); return step(in); }
    return x;
  } };
struct L { Core k; bool concat, ended = false, dead = false, stalled = false; unsigned streams = 0; };
extern "C" {
lzma_ret lzma_stream_decoder(lzma_stream* s, uint64_t, uint32_t flags) { L* l = new L; l->concat = flags & LZMA_CONCATENATED; s->internal = (lzma_internal*)l; s->total_in = s->total_out = 0; open_handles++; return LZMA_OK; }
lzma_ret lzma_auto_decoder(lzma_stream* s, uint64_t m, uint32_t flags) { return lzma_stream_decoder(s, m, flags); }
void lzma_end(lzma_stream* s) { if (s->internal) { delete (L*)s->internal; s->internal = nullptr; open_handles--; } }
lzma_ret lzma_code(lzma_stream* s, lzma_action a) {
  L* l = (L*)s->internal; nsx_assert(l != nullptr, "the decoder is used while it exists"); nsx_assert(!l->dead, "no decoding after an error");
  nsx_assert((s->next_in || !s->avail_in) && (s->next_out || !s->avail_out), "the decoder gets buffers");
  bool progress = false;
  auto in = [&]() -> int { if (!s->avail_in) return -1; s->avail_in--; s->total_in++; progress = true; return *s->next_in++; };
  while (true) {
    if (l->ended) return LZMA_STREAM_END;
    if (!s->avail_out && !(s->avail_in && !l->k.run && *s->next_in == '$')) break;
    int c = l->k.step(in);
    if (c == -1) { if (a == LZMA_FINISH && l->concat && l->streams && l->k.phase == 0) { l->ended = true; return LZMA_STREAM_END; } break; }
    if (c == -3) { l->dead = true; return l->k.phase || l->streams ? LZMA_DATA_ERROR : LZMA_FORMAT_ERROR; }
    if (c == -2) { l->streams++; if (!l->concat) { l->ended = true; return LZMA_STREAM_END; } continue; }
    *s->next_out++ = (uint8_t)c; s->avail_out--; s->total_out++; progress = true;
  }
  if (!progress && l->stalled) { l->dead = true; return LZMA_BUF_ERROR; }
  l->stalled = !progress; return LZMA_OK;
}
struct Z { Core k; FILE* f; unsigned char buf[5000]; unsigned n, at; bool ended, dead; };
BZFILE* BZ2_bzReadOpen(int* e, FILE* f, int, int, void* unused, int n) {
  if (!f || n < 0 || n > 5000 || (!unused && n)) { *e = BZ_PARAM_ERROR; return nullptr; }
  Z* z = new Z; z->f = f; z->n = 0; z->at = 0; z->ended = z->dead = false; while (n--) { z->buf[z->n] = ((unsigned char*)unused)[z->n]; z->n++; }
  open_handles++; *e = BZ_OK; return z;
}
void BZ2_bzReadClose(int* e, BZFILE* b) { *e = BZ_OK; if (b) { delete (Z*)b; open_handles--; } }
int BZ2_bzRead(int* e, BZFILE* b, void* out, int len) {
  Z* z = (Z*)b; nsx_assert(z && out && len >= 0, "the decoder gets a file and a buffer");
  if (z->ended || z->dead) { *e = BZ_SEQUENCE_ERROR; return 0; }
  auto in = [&]() -> int { if (z->at == z->n) { z->at = z->n = 0; int c; while (z->n < block && (c = fgetc(z->f)) >= 0) z->buf[z->n++] = (unsigned char)c; if (!z->n) return -1; } return z->buf[z->at++]; };
  int got = 0; *e = BZ_OK;
  while (got < len) {
    int c = z->k.step(in);
    if (c == -1) { z->dead = true; *e = BZ_UNEXPECTED_EOF; return 0; }
    if (c == -3) { z->dead = true; *e = BZ_DATA_ERROR; return 0; }
    if (c == -2) { z->ended = true; *e = BZ_STREAM_END; return got; }
    ((char*)out)[got++] = (char)c;
  }
  return got;
}
void BZ2_bzReadGetUnused(int* e, BZFILE* b, void** u, int* n) { Z* z = (Z*)b; *e = BZ_OK; if (!z->ended) { *e = BZ_SEQUENCE_ERROR; return; } *u = z->buf + z->at; *n = (int)(z->n - z->at); }
}
// what the file stands for
static bool reference(const std::string& t, std::string& out) {
  bool in = false; unsigned n = 0;
  for (size_t i = 0; i < t.size(); i++) {
    if (!in) { if (t[i] != '@') return false; in = true; continue; }
    if (t[i] == '$') { in = false; n++; continue; }
    if (t[i] == '!') return false;
    if (unit && t[i] > '0' && t[i] <= '9') { if (i + 1 == t.size()) return false; out.append((unsigned)(t[i] - '0') * unit, t[i + 1]); i++; continue; }
    out.push_back(t[i]);
  }
  return !in && n;
}
// natively the file gets a name with the extension
static std::string named(const std::string& t, const char* ext) {
  nsx_set_file(t.c_str()); if (nsx_engine()) return std::string("f") + ext;
  static std::string n; n = std::string(getenv("NSX_FILE")) + ext; (void)!symlink(getenv("NSX_FILE"), n.c_str()); atexit([] { unlink(n.c_str()); }); return n;
}
extern "C" void nsx_main() {
  bool bz = pick("bzip2", 2); unsigned n = nsx_param("nops", 4), lead = nsx_param("lead", 0), menu = nsx_param("menu", 6); block = nsx_param("block", 3); open_handles = 0;
  std::string t, want; const char* ext = bz ? ".bz2" : ".xz";
  if (nsx_param("part", 0) == 0) {
    unit = bz ? nsx_param("unit_bz", 1024) : nsx_param("unit", 64);
    if (lead) { t = "@"; unsigned k = nsx_param("from", 0) + pick("lead", lead); t.append(k, 'x'); }
    while (n--) switch (pick("piece", menu)) { case 0: t += '@'; break; case 1: t += '$'; break; case 2: t += (char)nsx_sym("char", 'a', 'z'); break; case 3: t += "4y"; break; case 4: t += "3z"; break; default: t += '!'; }
    bool good = reference(t, want); std::string f = named(t, ext);
    std::ostringstream o; bool ok = bz ? decompress_bz2(f.c_str(), o) : decompress_xz(f.c_str(), o); std::string got = o.str();
    nsx_assert(ok == good, "exactly complete and undamaged files are accepted");
    if (ok) { nsx_assert(got.size() == want.size(), "the whole content is read"); unsigned same = 1; for (size_t i = 0; i < got.size(); i++) same &= got[i] == want[i]; nsx_assert(same, "the content is read as it is"); nsx_reach(want.size() > (bz ? 4096 : 256) ? "long" : "short"); }
    else nsx_reach("refused");
    nsx_assert(!open_handles, "the decoder is released"); nsx_observe("size", ok ? got.size() : 0);
  } else {
    unit = 0; tokens_t tok = mode_tokens(0); options o(tok); NapSAT* s = create_solver(0, 0, o); t = "@"; Formula f(3); bool whole = true;
    for (unsigned i = 0; i < 3; i++) { Tlit l(Tvar(i + 1), pick("sign", 2)); f.cl.push_back({l}); t += (l.pol() ? "" : "-") + std::string(1, (char)('1' + i)) + " 0\n"; if (i < 2 && coin("split")) t += "$@"; }
    t += "$"; unsigned cut = pick("cut", (unsigned)t.size() + 1); if (cut < t.size()) { t.resize(cut); std::string x; whole = reference(t, x); if (whole) { f.cl.resize(0); for (size_t i = 0; i < x.size(); i++) if (x[i] == '\n') { bool neg = i >= 4 && x[i - 4] == '-'; f.cl.push_back({Tlit(Tvar((unsigned)(x[i - 3] - '0')), !neg)}); } } }
    std::string name = named(t, ext); bool ok = parse_dimacs(s, name.c_str());
    nsx_assert(ok == whole, "exactly complete files are read");
    if (ok) { nsx_assert(solve(s) == status::SAT && is_model(s, f), "the clauses of the file hold"); unsigned assigned = 0; for (Tlit l : get_partial_assignment(s)) assigned += l.var().value <= 3; nsx_assert(assigned >= f.cl.size(), "all clauses are read"); nsx_reach("read"); }
    else { nsx_assert(get_status(s) == status::ERROR, "a damaged file is reported"); nsx_reach("refused"); }
    nsx_assert(!open_handles, "the decoder is released"); delete_solver(s);
  }
}
