// Library code that libstdc++.so / libc provide in binary form, written as source so that
// the symbolic executor can run it.  Only linked into the bitcode, never into native builds.
#include "../engine/nsx.h"
#include <bits/stl_tree.h>
#include <bits/hashtable_policy.h>
#include <list>
#include <string>
#include <iostream>
#include <chrono>
#include <stdexcept>
#include <new>
#include <functional>

// ------------------------------------------------------------- red-black tree
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
// ordered containers only rely on order, so no rebalancing is done (the header node keeps colour red)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  _Rb_tree_node_base* nx = inc(z); _Rb_tree_node_base* pv = z == h._M_left ? &h : dec(z);
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_left == z) h._M_left = nx;
  if (h._M_right == z) h._M_right = pv;
  return z;
}
// ------------------------------------------------------------------ std::list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
// --------------------------------------------------------------- hash tables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 3; const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (want >= bkt) { size_t g = want + 1 > bkt * 2 ? want + 1 : bkt * 2; return {true, _M_next_bkt(g)}; } const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = bkt; }
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
// ------------------------------------------------------------------- throws
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }
// ------------------------------------------------------------------ streams
ostream cout, cerr, clog; istream cin;
chrono::system_clock::time_point chrono::system_clock::now() noexcept { static long t = 0; t += 1000; return time_point(duration(t)); }
chrono::steady_clock::time_point chrono::steady_clock::now() noexcept { static long t = 0; t += 1000; return time_point(duration(t)); }
}
template class std::basic_streambuf<char>;
static std::string cout_text;
extern "C" void nsx_capture(int on) { if (on) cout_text.clear(); std::cout.sink = on ? &cout_text : nullptr; }
extern "C" const char* nsx_captured(void) { return cout_text.c_str(); }

extern "C" {
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
const char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int err_; int* __errno_location() { return &err_; }
double nsx_strtod(const char*, char**, int*); double strtod(const char* s, char** e) { return nsx_strtod(s, e, &err_); }
static unsigned long long parse(const char* s, char** end, int base, bool* neg, bool* ovf) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  *neg = false; *ovf = false; if (*p == '-' || *p == '+') *neg = *p++ == '-';
  if (base == 0) base = 10;
  unsigned long long r = 0; bool any = false;
  for (; isdigit((unsigned char)*p); p++) { unsigned d = *p - '0'; if (r > (~0ull - d) / 10) *ovf = true; r = r * 10 + d; any = true; }
  if (end) *end = (char*)(any ? p : s);
  return any ? r : 0;
}
long __isoc23_strtol(const char* s, char** e, int b) { bool n, o; unsigned long long r = parse(s, e, b, &n, &o); if (n ? (o || r > 1ull << 63) : (o || r > ~0ull >> 1)) { err_ = 34; return n ? (long)(1ull << 63) : (long)(~0ull >> 1); } return n ? -(long)r : (long)r; }
long long __isoc23_strtoll(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { bool n, o; unsigned long long r = parse(s, e, b, &n, &o); if (o) { err_ = 34; return ~0ul; } return n ? -r : r; }
int __cxa_guard_acquire(unsigned long* g) { return !*(char*)g; }
void __cxa_guard_release(unsigned long* g) { *(char*)g = 1; }
void __cxa_guard_abort(unsigned long*) {}
int vsnprintf(char*, size_t, const char*, va_list) { return 0; }
// sscanf(str, "p cnf %u %u", &a, &b) -- the only format used by the repository
int nsx_sscanf2(const char* s, const char* f, unsigned* a, unsigned* b) {
  unsigned* out[2] = {a, b}; int n = 0;
  while (*f) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; f++; continue; }
    if (*f == '%') { f += 2; while (isspace((unsigned char)*s)) s++; char* e; bool neg, o; unsigned long long r = parse(s, &e, 10, &neg, &o); if (e == s) return n ? n : (*s ? 0 : -1); if (n < 2) *out[n] = (unsigned)(neg ? -r : r); n++; s = e; continue; }
    if (*s != *f) return n ? n : (*s ? 0 : -1);
    s++; f++;
  }
  return n;
}
}
// C files: reading only, over the text of the symbolic run
extern "C" {
struct nsx_FILE { const char* t; int eof; };
FILE* fopen(const char* n, const char*) { const char* t = nsx_file_text(n); if (!t) return nullptr; nsx_FILE* f = (nsx_FILE*)malloc(sizeof(nsx_FILE)); f->t = t; f->eof = 0; return (FILE*)f; }
FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
int fclose(FILE* f) { free(f); return 0; }
int fgetc(FILE* p) { nsx_FILE* f = (nsx_FILE*)p; if (!*f->t) { f->eof = 1; return -1; } return (unsigned char)*f->t++; }
int getc(FILE* p) { return fgetc(p); }
int ungetc(int c, FILE* p) { if (c == -1) return c; nsx_FILE* f = (nsx_FILE*)p; f->t--; f->eof = 0; return c; }
int feof(FILE* p) { return ((nsx_FILE*)p)->eof; }
int ferror(FILE*) { return 0; }
size_t fread(void* b, size_t s, size_t n, FILE* p) { size_t k = 0; for (; k < s * n; k++) { int c = fgetc(p); if (c < 0) break; ((char*)b)[k] = (char)c; } return s ? k / s : 0; }
}
// std::to_string(double): text is not modelled
std::string nsx_d2s(double) __asm__("_ZNSt7__cxx119to_stringEd");
std::string nsx_d2s(double) { return "<fp>"; }
