#include "expr.h"
#include <algorithm>
static u32 epoch = 0;

static std::vector<Expr*> table(1 << 16, nullptr);
static size_t nExpr = 0;
static char* arena = nullptr; static size_t arenaLeft = 0;
size_t exprCount() { return nExpr; }

static Expr* alloc() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 22; arena = (char*)malloc(arenaLeft); }
  Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
  memset((void*)e, 0, sizeof(Expr)); return e;
}
static inline u64 hash(Op op, unsigned w, unsigned aux, u64 c, Expr* a, Expr* b, Expr* d) {
  u64 h = op * 0x9E3779B97F4A7C15ull ^ (u64)w << 32 ^ (u64)aux << 40;
  auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(c); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
  return h;
}
// unsigned interval of a node from its children's; sound for every assignment within the symbols' ranges
static void setRange(Expr* e) {
  Expr *a = e->k[0], *b = e->k[1], *d = e->k[2]; u64 m = maskw(e->w); e->lo = 0; e->hi = m;
  auto set = [&](u64 l, u64 h) { e->lo = l; e->hi = h; };
  auto bits = [](u64 h) { return h ? ~0ull >> std::countl_zero(h) : 0; };
  switch (e->op) {
    case CONST_: set(e->c, e->c); break;
    case ADD: { u64 h = a->hi + b->hi; if (h >= a->hi && h <= m) set(a->lo + b->lo, h); else if (isC(b) && a->lo + b->c > m && e->w < 64) set((a->lo + b->c) & m, (a->hi + b->c) & m); else if (isC(b) && e->w == 64 && a->lo + b->c < a->lo) set(a->lo + b->c, a->hi + b->c); break; }
    case SUB: if (a->lo >= b->hi) set(a->lo - b->hi, a->hi - b->lo); break;
    case MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) set(a->lo * b->lo, (u64)h); break; }
    case UDIV: if (b->lo) set(a->lo / b->hi, a->hi / b->lo); break;
    case UREM: if (b->lo) set(0, std::min(a->hi, b->hi - 1)); break;
    case AND: set(0, std::min(a->hi, b->hi)); break;
    case OR: set(std::max(a->lo, b->lo), bits(a->hi | b->hi)); break;
    case XOR: set(0, bits(a->hi | b->hi)); break;
    case SHL: if (b->hi < e->w && (a->hi << b->hi) >> b->hi == a->hi && (a->hi << b->hi) <= m) set(a->lo << b->lo, a->hi << b->hi); break;
    case LSHR: set(b->hi < 64 ? a->lo >> b->hi : 0, b->lo < 64 ? a->hi >> b->lo : 0); break;
    case ITE: set(std::min(b->lo, d->lo), std::max(b->hi, d->hi)); break;
    case ZEXT: set(a->lo, a->hi); break;
    case EXTRACT: { u64 l = a->lo >> e->aux, h = a->hi >> e->aux; if (h <= m) set(l, h); break; }
    case CONCAT: set(a->lo << b->w | b->lo, a->hi << b->w | b->hi); break;
    case CTPOP: set(a->lo ? 1 : 0, std::min<u64>(m, bits(a->hi) ? 64 - std::countl_zero(bits(a->hi)) : 0)); break;
    default: break;
  }
}
static Expr* intern(Op op, unsigned w, unsigned aux, u64 c, Expr* a, Expr* b, Expr* d) {
  u64 h = hash(op, w, aux, c, a, b, d); size_t m = table.size() - 1;
  for (size_t i = h & m;; i = (i + 1) & m) {
    Expr* e = table[i];
    if (!e) {
      e = alloc();
      e->op = op; e->w = w; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->id = (u32)nExpr++;
      e->sup.clr();
      if (op == SYM) e->sup.set(aux);
      for (Expr* x : {a, b, d}) if (x) e->sup.orr(x->sup);
      auto leaves = [](Expr* x) -> unsigned { return isC(x) ? 1 : x->ctree; };
      if (op == ITE) { unsigned l = leaves(b), r = leaves(d); e->ctree = l && r ? std::min(l + r, 60000u) : 0; }
      switch (op) {
        case CONST_: e->tz = c ? std::min<unsigned>(std::countr_zero(c), w) : w; break;
        case SHL: e->tz = isC(b) ? std::min<u64>(w, a->tz + b->c) : a->tz; break;
        case MUL: e->tz = std::min<unsigned>(w, a->tz + b->tz); break;
        case ADD: case SUB: case OR: case XOR: e->tz = std::min(a->tz, b->tz); break;
        case AND: e->tz = std::max(a->tz, b->tz); break;
        case ZEXT: case SEXT: e->tz = a->tz == a->w ? w : a->tz; break;
        case ITE: e->tz = std::min(b->tz, d->tz); break;
        case CONCAT: e->tz = b->tz == b->w ? b->w + a->tz : b->tz; break;
        default: e->tz = 0;
      }
      setRange(e);
      table[i] = e;
      if (nExpr * 2 > table.size()) {
        std::vector<Expr*> old(table.size() * 2, nullptr); old.swap(table); size_t mm = table.size() - 1;
        for (Expr* x : old) if (x) { size_t j = hash(x->op, x->w, x->aux, x->c, x->k[0], x->k[1], x->k[2]) & mm; while (table[j]) j = (j + 1) & mm; table[j] = x; }
      }
      return e;
    }
    if (e->op == op && e->w == w && e->aux == aux && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
  }
}
Expr* eConst(u64 v, unsigned w) { return intern(CONST_, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
Expr* eSym(unsigned idx, unsigned w, u64 lo, u64 hi) {
  if (hi > maskw(w)) hi = maskw(w);
  Expr* e = intern(SYM, w, idx, lo * 0x9E3779B97F4A7C15ull ^ (hi + 1), nullptr, nullptr, nullptr); e->lo = lo; e->hi = hi; return e;
}
Expr* eRaw(Op op, Expr* a, Expr* b) { return intern(op, opWidth(op, a->w), 0, 0, a, b, nullptr); }

static double asD(u64 v) { return std::bit_cast<double>(v); }
static float asF(u64 v) { return std::bit_cast<float>((u32)v); }
static u64 dB(double d) { return std::bit_cast<u64>(d); }
static u64 fB(float d) { return std::bit_cast<u32>(d); }

unsigned opWidth(Op op, unsigned wa) {
  switch (op) { case EQ: case ULT: case ULE: case SLT: case SLE: case FCMP: case UADDO: case USUBO: case UMULO: case SADDO: case SSUBO: case SMULO: return 1; default: return wa; }
}
u64 foldOp(Op op, unsigned w, unsigned aux, u64 a, u64 b, u64 c, unsigned wa, unsigned wb) {
  u64 m = maskw(w);
  switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m; case UREM: return b ? a % b : a;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx(a, wa) < sx(b, wa); case SLE: return sx(a, wa) <= sx(b, wa);
    case ITE: return a ? b : c;
    case ZEXT: return a; case SEXT: return (u64)sx(a, wa) & m;
    case EXTRACT: return (a >> aux) & m; case CONCAT: return ((a << wb) | b) & m;
    case FADD: return w == 64 ? dB(asD(a) + asD(b)) : fB(asF(a) + asF(b));
    case FSUB: return w == 64 ? dB(asD(a) - asD(b)) : fB(asF(a) - asF(b));
    case FMUL: return w == 64 ? dB(asD(a) * asD(b)) : fB(asF(a) * asF(b));
    case FDIV: return w == 64 ? dB(asD(a) / asD(b)) : fB(asF(a) / asF(b));
    case FCMP: { double x = wa == 64 ? asD(a) : asF(a), y = wa == 64 ? asD(b) : asF(b); bool un = std::isnan(x) || std::isnan(y);
      bool r = false; switch (aux & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !un; break; case 7: r = !un; break; default: r = false; }
      if (un) r = false; if (aux >= 8 && un) r = true; return r; }
    case FPTOSI: { double x = wa == 64 ? asD(a) : asF(a); return (u64)(i64)x & m; }
    case FPTOUI: { double x = wa == 64 ? asD(a) : asF(a); return (u64)(x < 9.2e18 ? (u64)(i64)x : (u64)x) & m; }
    case SITOFP: return w == 64 ? dB((double)sx(a, wa)) : fB((float)sx(a, wa));
    case UITOFP: return w == 64 ? dB((double)a) : fB((float)a);
    case FPEXT: return dB((double)asF(a)); case FPTRUNC: return fB((float)asD(a));
    case UADDO: return ((a + b) & maskw(wa)) < a; case USUBO: return a < b;
    case UMULO: return ((unsigned __int128)a * b) >> wa != 0;
    case SADDO: { __int128 r = (__int128)sx(a, wa) + sx(b, wa); return r != (__int128)sx((u64)r & maskw(wa), wa); }
    case SSUBO: { __int128 r = (__int128)sx(a, wa) - sx(b, wa); return r != (__int128)sx((u64)r & maskw(wa), wa); }
    case SMULO: { __int128 r = (__int128)sx(a, wa) * sx(b, wa); return r != (__int128)sx((u64)r & maskw(wa), wa); }
    case CTPOP: return std::popcount(a);
    default: fprintf(stderr, "foldOp %d\n", op); abort();
  }
}

static Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* c) {
  switch (e->op) {
    case ITE: return eIte(a, b, c);
    case ZEXT: case SEXT: case FPTOSI: case FPTOUI: case SITOFP: case UITOFP: case FPEXT: case FPTRUNC: case CTPOP: return eUn(e->op, a, e->w, e->aux);
    case EXTRACT: return eExtract(a, e->aux, e->w);
    case CONCAT: return eConcat(a, b);
    default: return eBin(e->op, a, b, e->aux);
  }
}

// apply f to every constant leaf of a const ITE tree
static std::unordered_map<Expr*, Expr*>* leafMemo = nullptr;
template <class F> static Expr* mapLeaves(Expr* t, F&& f, std::unordered_map<Expr*, Expr*>& memo) {
  if (isC(t)) return f(t);
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  Expr* a = mapLeaves(t->k[1], f, memo); Expr* b = mapLeaves(t->k[2], f, memo);
  Expr* r = eIte(t->k[0], a, b); memo[t] = r; return r;
}
constexpr unsigned CT = 300;

static bool isBitSet(Expr* x);
Expr* eNot(Expr* a) { return eBin(XOR, a, eConst(1, 1)); }

Expr* eUn(Op op, Expr* a, unsigned w, unsigned aux) {
  if (isC(a)) return eConst(foldOp(op, w, aux, a->c, 0, 0, a->w, 0), w);
  if (a->ctree && a->ctree <= CT) { std::unordered_map<Expr*, Expr*> m; return mapLeaves(a, [&](Expr* l) { return eConst(foldOp(op, w, aux, l->c, 0, 0, l->w, 0), w); }, m); }
  if (op == ZEXT || op == SEXT) { if (a->w == w) return a; if (a->op == ZEXT) return eUn(ZEXT, a->k[0], w); if (op == SEXT && a->op == SEXT) return eUn(SEXT, a->k[0], w); }
  return intern(op, w, aux, 0, a, nullptr, nullptr);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return eConst(a->c >> lo, w);
  if (a->op == EXTRACT) return eExtract(a->k[0], a->aux + lo, w);
  if (w == 1 && a->op == SHL && isC(a->k[0])) { if (a->k[0]->c == 1) return eBin(EQ, a->k[1], eConst(lo, a->w)); if (a->k[0]->c == maskw(a->w)) return eBin(ULE, a->k[1], eConst(lo, a->w)); }
  if (w == 1 && lo == 0 && a->op == LSHR && a->k[1]->hi < a->w && !isC(a->k[1]) && isBitSet(a->k[0])) return eBitTest(a->k[0], a->k[1]);
  if (lo && w + lo <= a->w && a->hi >> lo == 0) return eConst(0, w);
  if (w == 1 && a->op == ITE && isBitSet(a)) return eIte(a->k[0], eExtract(a->k[1], lo, 1), eExtract(a->k[2], lo, 1));
  if (w == 1 && (a->op == AND || a->op == OR || a->op == XOR) && isBitSet(a)) return eBin(a->op, eExtract(a->k[0], lo, 1), eExtract(a->k[1], lo, 1));
  if (a->op == CONCAT) { unsigned wl = a->k[1]->w; if (lo + w <= wl) return eExtract(a->k[1], lo, w); if (lo >= wl) return eExtract(a->k[0], lo - wl, w); }
  if (a->op == ZEXT) { unsigned wi = a->k[0]->w; if (lo >= wi) return eConst(0, w); if (lo + w <= wi) return eExtract(a->k[0], lo, w); if (lo == 0) return eUn(ZEXT, a->k[0], w); return eUn(ZEXT, eExtract(a->k[0], lo, wi - lo), w); }
  if (a->op == SEXT) { unsigned wi = a->k[0]->w; if (lo + w <= wi) return eExtract(a->k[0], lo, w); if (lo == 0) return eUn(SEXT, a->k[0], w); }
  if (a->ctree && a->ctree <= CT) { std::unordered_map<Expr*, Expr*> m; return mapLeaves(a, [&](Expr* l) { return eConst(l->c >> lo, w); }, m); }
  if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
  if (a->op == AND || a->op == OR || a->op == XOR) { if (isC(a->k[1])) return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w)); }
  if (lo == 0 && (a->op == ADD || a->op == SUB) && w <= 32 && isC(a->k[1])) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
  return intern(EXTRACT, w, lo, 0, a, nullptr, nullptr);
}
Expr* eConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return eConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return eUn(ZEXT, lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return eExtract(hi->k[0], lo->aux, w);
  if (hi->op == CONCAT && isC(hi->k[0]) && hi->k[0]->c == 0) return eUn(ZEXT, eConcat(hi->k[1], lo), w);
  if (hi->op == ZEXT && lo->op == EXTRACT && hi->k[0]->op == EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->aux == lo->aux + lo->w)
    return eUn(ZEXT, eExtract(lo->k[0], lo->aux, lo->w + hi->k[0]->w), w);
  // same-condition ITEs (bytes of one ITE): merge back
  if (hi->op == ITE && lo->op == ITE && hi->k[0] == lo->k[0]) return eIte(hi->k[0], eConcat(hi->k[1], lo->k[1]), eConcat(hi->k[2], lo->k[2]));
  if (hi->op == ITE && hi->ctree && isC(lo) && hi->ctree <= CT) { std::unordered_map<Expr*, Expr*> m; return mapLeaves(hi, [&](Expr* l) { return eConcat(l, lo); }, m); }
  if (lo->op == ITE && lo->ctree && isC(hi) && lo->ctree <= CT) { std::unordered_map<Expr*, Expr*> m; return mapLeaves(lo, [&](Expr* l) { return eConcat(hi, l); }, m); }
  return intern(CONCAT, w, 0, 0, hi, lo, nullptr);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return eIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : eNot(c);
    if (isC(a)) return a->c ? eBin(OR, c, b) : eBin(AND, eNot(c), b);
    if (isC(b)) return b->c ? eBin(OR, eNot(c), a) : eBin(AND, c, a);
    if (a == c) return eBin(OR, c, b);
    if (b == c) return eBin(AND, c, a);
  }
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(ITE, a->w, 0, 0, c, a, b);
}
// ---- words used as small bit sets: built from 1 << position by or/and/xor/not/ite
static bool isOneBit(Expr* x) { return x->op == SHL && isC(x->k[0]) && x->k[0]->c == 1 && x->k[1]->hi < x->w; }
static bool isBitSet2(Expr* x, int& budget) {           // every leaf is 1<<p, a constant or -1<<p
  if (--budget < 0) return false;
  if (isC(x)) return x->c == 0 || x->c == maskw(x->w) || std::popcount(x->c) <= 3 || std::popcount(~x->c & maskw(x->w)) <= 3;
  switch (x->op) {
    case SHL: return isC(x->k[0]) && (x->k[0]->c == 1 || x->k[0]->c == maskw(x->w)) && x->k[1]->hi < x->w;
    case AND: case OR: case XOR: return isBitSet2(x->k[0], budget) && isBitSet2(x->k[1], budget);
    case ITE: return isBitSet2(x->k[1], budget) && isBitSet2(x->k[2], budget);
    default: return false;
  }
}
static bool isBitSet(Expr* x) { int budget = 60; return isBitSet2(x, budget); }
static Expr* bt(Expr* x, Expr* n, std::unordered_map<Expr*, Expr*>& memo) {
  if (isC(n)) return eExtract(x, n->c, 1);
  if (isC(x)) {
    u64 m = maskw(x->w), in = x->c, out = ~x->c & m; if (!in) return eConst(0, 1); if (!out) return eConst(1, 1);
    bool inv = std::popcount(in) > std::popcount(out); u64 z = inv ? out : in; Expr* r = eConst(0, 1);
    for (; z; z &= z - 1) r = eBin(OR, r, eBin(EQ, n, eConst(std::countr_zero(z), n->w)));
    return inv ? eNot(r) : r;
  }
  auto it = memo.find(x); if (it != memo.end()) return it->second;
  Expr* r;
  switch (x->op) {
    case SHL: { Expr* p = x->k[1]; unsigned w = std::max(p->w, n->w); p = eZext(p, w); Expr* q = eZext(n, w); r = x->k[0]->c == 1 ? eBin(EQ, p, q) : eBin(ULE, p, q); break; }
    case ITE: r = eIte(x->k[0], bt(x->k[1], n, memo), bt(x->k[2], n, memo)); break;
    default: r = eBin(x->op, bt(x->k[0], n, memo), bt(x->k[1], n, memo));
  }
  return memo[x] = r;
}
Expr* eBitTest(Expr* x, Expr* n) { std::unordered_map<Expr*, Expr*> m; return bt(x, n, m); }
// positions that include every bit x can have set
static bool cover(Expr* x, std::vector<Expr*>& out) {
  if (isC(x)) { if (std::popcount(x->c) > 3) return false; for (u64 z = x->c; z; z &= z - 1) { Expr* p = eConst(std::countr_zero(z), x->w); if (std::find(out.begin(), out.end(), p) == out.end()) out.push_back(p); } return true; }
  switch (x->op) {
    case SHL: { if (x->k[0]->c != 1) return false; if (std::find(out.begin(), out.end(), x->k[1]) == out.end()) out.push_back(x->k[1]); return out.size() <= 6; }
    case OR: case XOR: return cover(x->k[0], out) && cover(x->k[1], out);
    case ITE: return cover(x->k[1], out) && cover(x->k[2], out);
    case AND: { std::vector<Expr*> o = out; if (cover(x->k[0], o)) { out = o; return true; } return cover(x->k[1], out); }
    default: return false;
  }
}
static bool bitCover(Expr* x, std::vector<Expr*>& ps) { return !isC(x) && x->w > 1 && isBitSet(x) && cover(x, ps) && ps.size() <= 6; }
bool eBitPositions(Expr* x, std::vector<Expr*>& ps) { return bitCover(x, ps); }
static Expr* nonZero(Expr* x, const std::vector<Expr*>& ps) { Expr* r = eConst(0, 1); for (Expr* p : ps) r = eBin(OR, r, eBitTest(x, p)); return r; }
Expr* eCtpop(Expr* x) {
  std::vector<Expr*> ps; if (!bitCover(x, ps)) return eUn(CTPOP, x, x->w);
  Expr* s = eConst(0, x->w);
  for (size_t i = 0; i < ps.size(); i++) { Expr* c = eBitTest(x, ps[i]); for (size_t j = 0; j < i; j++) c = eBin(AND, c, eNot(eBin(EQ, eZext(ps[i], x->w), eZext(ps[j], x->w)))); s = eBin(ADD, s, eZext(c, x->w)); }
  return s;
}
Expr* eCtz(Expr* x) {
  std::vector<Expr*> ps; if (!bitCover(x, ps)) return nullptr;
  Expr* r = eConst(x->w, x->w);
  for (Expr* p : ps) { Expr* q = eZext(p, x->w); r = eIte(eBin(AND, eBitTest(x, p), eBin(ULT, q, r)), q, r); }
  return r;
}
Expr* eBin(Op op, Expr* a, Expr* b, unsigned aux) {
  unsigned w = opWidth(op, a->w);
  if (isC(a) && isC(b)) return eConst(foldOp(op, w, aux, a->c, b->c, 0, a->w, b->w), w);
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ || op == UADDO || op == UMULO || op == SADDO || op == SMULO;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u64 m = maskw(a->w);
  switch (op) {
    case EQ: if (a->hi < b->lo || b->hi < a->lo) return eConst(0, 1); break;
    case ULT: if (a->hi < b->lo) return eConst(1, 1); if (a->lo >= b->hi) return eConst(0, 1); break;
    case ULE: if (a->hi <= b->lo) return eConst(1, 1); if (a->lo > b->hi) return eConst(0, 1); break;
    case SLT: case SLE: if (a->hi <= m >> 1 && b->hi <= m >> 1) return eBin(op == SLT ? ULT : ULE, a, b); break;
    case UDIV: if (b->lo && a->lo / b->hi == a->hi / b->lo) return eConst(a->lo / b->hi, w); break;
    case UREM: if (isC(b) && b->c && a->lo / b->c == a->hi / b->c) return a->lo / b->c ? eBin(SUB, a, eConst(a->lo / b->c * b->c, w)) : a; break;
    case UADDO: { u64 h = a->hi + b->hi; if (h >= a->hi && h <= m) return eConst(0, 1); break; }
    case USUBO: if (a->lo >= b->hi) return eConst(0, 1); break;
    case FCMP: { u64 inf = a->w == 64 ? 0x7FF0000000000000ull : 0x7F800000ull;   // non-negative non-NaN: ordered as their bit patterns
      if (a->hi > inf || b->hi > inf) break;
      switch (aux) { case 0: return eConst(0, 1); case 15: return eConst(1, 1); case 7: return eConst(1, 1); case 8: return eConst(0, 1); }
      switch (aux & 7) { case 1: return eBin(EQ, a, b); case 2: return eBin(ULT, b, a); case 3: return eBin(ULE, b, a); case 4: return eBin(ULT, a, b); case 5: return eBin(ULE, a, b); case 6: return eNot(eBin(EQ, a, b)); }
      break; }
    case UMULO: if ((unsigned __int128)a->hi * b->hi <= m) return eConst(0, 1); break;
    case SADDO: { u64 h = a->hi + b->hi; if (h >= a->hi && h <= m >> 1) return eConst(0, 1); break; }
    case SDIV: case SREM: if (a->hi <= m >> 1 && b->hi <= m >> 1 && b->lo) return eBin(op == SDIV ? UDIV : UREM, a, b); break;
    case ASHR: if (a->hi <= m >> 1) return eBin(LSHR, a, b); break;
    case SHL: case LSHR: if (b->lo >= a->w) return eConst(0, w); break;
    default: break;
  }
  if (isC(b)) {
    u64 k = b->c;
    switch (op) {
      case ADD: case SUB: case OR: case XOR: case SHL: case LSHR: case ASHR: if (k == 0) return a; break;
      case MUL: if (k == 0) return b; if (k == 1) return a; if (std::has_single_bit(k)) return eBin(SHL, a, eConst(std::countr_zero(k), a->w)); break;
      case UDIV: if (k == 1) return a; if (k && std::has_single_bit(k)) return eBin(LSHR, a, eConst(std::countr_zero(k), a->w)); break;
      case UREM: if (k == 1) return eConst(0, w); if (k && std::has_single_bit(k)) return eBin(AND, a, eConst(k - 1, a->w)); break;
      case SDIV: if (k == 1) return a; break;
      case AND: if (k == 0) return b; if (k == m) return a; break;
      case ULT: if (k == 0) return eConst(0, 1); if (k == 1) return eBin(EQ, a, eConst(0, a->w)); break;
      case ULE: if (k == m) return eConst(1, 1); if (k == 0) return eBin(EQ, a, b); break;
      default: break;
    }
    if (op == OR && k == m) return b;
    if (op == SUB) return eBin(ADD, a, eConst(0 - k, a->w));
    if (op == ADD && a->op == ADD && isC(a->k[1])) return eBin(ADD, a->k[0], eConst(a->k[1]->c + k, a->w));
    if (op == XOR && a->op == XOR && isC(a->k[1])) return eBin(XOR, a->k[0], eConst(a->k[1]->c ^ k, a->w));
    if (op == AND && a->op == AND && isC(a->k[1])) return eBin(AND, a->k[0], eConst(a->k[1]->c & k, a->w));
    if (op == AND && k == 1 && a->op == LSHR && !isC(a->k[1]) && a->k[1]->hi < a->w && isBitSet(a->k[0])) return eZext(eBitTest(a->k[0], a->k[1]), w);
    if (op == AND && a->hi <= k && std::has_single_bit(k + 1)) return a;
    if (op == AND && a->op == ZEXT) { unsigned wi = a->k[0]->w; if ((k & maskw(wi)) == maskw(wi)) return a; return eUn(ZEXT, eBin(AND, a->k[0], eConst(k, wi)), a->w); }
    if ((op == LSHR || op == ASHR) && a->op == ZEXT && k < 64) { unsigned wi = a->k[0]->w; if (k >= wi) return eConst(0, w); return eUn(ZEXT, eExtract(a->k[0], k, wi - k), w); }
    if (op == LSHR && a->hi >> k == 0 && k < 64) return eConst(0, w);
    if (op == LSHR && a->op == OR && k < a->w && (a->k[0]->hi >> k == 0 || a->k[1]->hi >> k == 0)) return eBin(LSHR, a->k[0]->hi >> k == 0 ? a->k[1] : a->k[0], b);
    if (op == LSHR && a->op == SHL && isC(a->k[1]) && a->k[1]->c == k && k < a->w) return eBin(AND, a->k[0], eConst(maskw(a->w) >> k, a->w));
    if (op == SHL && a->op == SHL && isC(a->k[1])) { u64 t = a->k[1]->c + k; return t >= a->w ? eConst(0, w) : eBin(SHL, a->k[0], eConst(t, w)); }
    if ((op == ASHR || op == SDIV) && k < 64 && a->op == SHL && isC(a->k[1]) && a->k[0]->op == ZEXT && a->k[0]->k[0]->w + a->k[1]->c < a->w) {
      // non-negative shifted value
      if (op == ASHR) return eBin(LSHR, a, b);
    }
    if (op == LSHR && a->op == SHL && isC(a->k[1]) && a->k[0]->op == ZEXT && a->k[0]->k[0]->w + a->k[1]->c <= a->w) {
      u64 s = a->k[1]->c; if (k >= s) return eBin(LSHR, a->k[0], eConst(k - s, w)); return eBin(SHL, a->k[0], eConst(s - k, w));
    }
    if ((op == UDIV || op == UREM) && k) {
      if (op == UDIV && a->op == OR) { unsigned s = std::countr_zero(k); if (s) for (int i = 0; i < 2; i++) if (a->k[i]->hi >> s == 0) return eBin(UDIV, eBin(LSHR, a->k[1 - i], eConst(s, w)), eConst(k >> s, w)); }
      // a = zext(x): divide at the width of x; powers of two in the divisor are split off; few quotients become comparisons
      if (a->op == ZEXT) { unsigned wi = a->k[0]->w; if (k > maskw(wi)) return op == UDIV ? eConst(0, w) : a; return eUn(ZEXT, eBin(op, a->k[0], eConst(k, wi)), w); }
      if (a->op == ITE || a->op == SYM || a->op == EXTRACT || a->op == ADD || a->op == LSHR) {
        unsigned s = std::countr_zero(k);
        if (op == UDIV && s && s < a->w && !a->ctree) return eUn(ZEXT, eBin(UDIV, eExtract(a, s, a->w - s), eConst(k >> s, a->w - s)), w);
        u64 q = m / k;
        if (q <= 3 && !a->ctree) {
          Expr* r = op == UDIV ? eConst(q, w) : eBin(SUB, a, eConst(q * k, w));
          for (u64 i = q; i-- > 0;) r = eIte(eBin(ULT, a, eConst((i + 1) * k, w)), op == UDIV ? eConst(i, w) : i ? eBin(SUB, a, eConst(i * k, w)) : a, r);
          return r;
        }
      }
    }
    if (op == EQ && k == 0 && a->w > 8) {
      // is a bit set empty?  x & (1 << n) is a bit test
      if (a->op == AND) for (int i = 0; i < 2; i++) if (isOneBit(a->k[i]) && isBitSet(a->k[1 - i])) return eNot(eBitTest(a->k[1 - i], a->k[i]->k[1]));
      std::vector<Expr*> ps; if (bitCover(a, ps)) return eNot(nonZero(a, ps));
    }
    if (op == EQ) {
      if (a->w == 1) return k ? a : eNot(a);
      if (a->op == ADD && isC(a->k[1])) return eBin(EQ, a->k[0], eConst(k - a->k[1]->c, a->w));
      if (a->op == XOR && isC(a->k[1])) return eBin(EQ, a->k[0], eConst(k ^ a->k[1]->c, a->w));
      if (a->op == ZEXT) { unsigned wi = a->k[0]->w; return k & ~maskw(wi) ? eConst(0, 1) : eBin(EQ, a->k[0], eConst(k, wi)); }
      if (a->op == SHL && isC(a->k[1]) && a->k[0]->op == ZEXT) { u64 s = a->k[1]->c; unsigned wi = a->k[0]->k[0]->w; if (s + wi <= a->w) return (k & maskw(s)) ? eConst(0, 1) : eBin(EQ, a->k[0], eConst(k >> s, a->w)); }
      if (a->op == CONCAT) { unsigned wl = a->k[1]->w; return eBin(AND, eBin(EQ, a->k[0], eConst(k >> wl, a->k[0]->w)), eBin(EQ, a->k[1], eConst(k, wl))); }
      if (a->op == ITE && !a->ctree && (isC(a->k[1]) || isC(a->k[2]))) return eIte(a->k[0], eBin(EQ, a->k[1], b), eBin(EQ, a->k[2], b));
    }
    if (op == ULT && a->op == ZEXT) { unsigned wi = a->k[0]->w; return k > maskw(wi) ? eConst(1, 1) : eBin(ULT, a->k[0], eConst(k, wi)); }
    if (op == ULE && a->op == ZEXT) { unsigned wi = a->k[0]->w; return k >= maskw(wi) ? eConst(1, 1) : eBin(ULE, a->k[0], eConst(k, wi)); }
    if (op == SLT && a->op == ZEXT) { i64 s = sx(k, a->w); return s <= 0 ? eConst(0, 1) : eBin(ULT, a, b); }
    if (op == SLE && a->op == ZEXT) { i64 s = sx(k, a->w); return s < 0 ? eConst(0, 1) : eBin(ULE, a, b); }
  }
  if (isC(a)) {
    u64 k = a->c;
    if (op == ULT && k == m) return eConst(0, 1);
    if (op == ULE && k == 0) return eConst(1, 1);
    if (op == ULT && k == 0) return eNot(eBin(EQ, b, a));
    if ((op == SHL || op == LSHR || op == UDIV || op == UREM) && k == 0 && op != UDIV && op != UREM) return a;
    if (op == ULT && b->op == ZEXT) { unsigned wi = b->k[0]->w; return k >= maskw(wi) ? eConst(0, 1) : eBin(ULT, eConst(k, wi), b->k[0]); }
    if (op == ULE && b->op == ZEXT) { unsigned wi = b->k[0]->w; return k > maskw(wi) ? eConst(0, 1) : eBin(ULE, eConst(k, wi), b->k[0]); }
    if (op == SLT && b->op == ZEXT) { i64 s = sx(k, b->w); return s < 0 ? eConst(1, 1) : eBin(ULT, a, b); }
    if (op == SLE && b->op == ZEXT) { i64 s = sx(k, b->w); return s <= 0 ? eConst(1, 1) : eBin(ULE, a, b); }
  }
  if (a == b) switch (op) {
    case SUB: case XOR: return eConst(0, w); case AND: case OR: return a;
    case EQ: case ULE: case SLE: return eConst(1, 1); case ULT: case SLT: return eConst(0, 1); default: break;
  }
  if (w == 1 && (op == AND || op == OR)) { if (eNot(a) == b) return eConst(op == OR, 1); }
  if ((op == EQ || op == ULT || op == ULE || op == SLT || op == SLE) && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w && op != SLT && op != SLE) return eBin(op, a->k[0], b->k[0]);
  if ((op == SLT || op == SLE) && a->op == ZEXT && b->op == ZEXT) return eBin(op == SLT ? ULT : ULE, a, b);
  if ((op == AND || op == OR || op == XOR) && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return eUn(ZEXT, eBin(op, a->k[0], b->k[0]), w);
  // (-1 << p) + z with z in {0,1} and z == 1 only for p == 0: the mask of the upper bits, empty when z is set
  if (op == ADD && w > 8) for (int i = 0; i < 2; i++) {
    Expr *sh = i ? b : a, *z = i ? a : b;
    if (sh->op == SHL && isC(sh->k[0]) && sh->k[0]->c == m && !isC(z) && z->hi == 1 && z->sup.count() == 1 && sh->sup.count() == 1 && z->sup.subset(sh->sup)) {
      Expr* s = z; while (s->op != SYM) { Expr* nx = nullptr; for (auto k : s->k) if (k && k->sup.any()) { nx = k; break; } s = nx; }
      if (s->w > 8) continue;
      std::vector<u64> mm(s->aux + 1, 0); bool ok = true;
      for (u64 v = s->lo; ok && v <= s->hi; v++) { mm[s->aux] = v; if (evalExpr(z, mm) && evalExpr(sh->k[1], mm)) ok = false; }
      if (ok) return eIte(eBin(EQ, z, eConst(1, w)), eConst(0, w), sh);
    }
  }
  // constant-leaf ITE trees
  if (isC(b) && a->ctree && a->ctree <= CT) { std::unordered_map<Expr*, Expr*> mm; return mapLeaves(a, [&](Expr* l) { return eConst(foldOp(op, w, aux, l->c, b->c, 0, l->w, b->w), w); }, mm); }
  if (isC(a) && b->ctree && b->ctree <= CT) { std::unordered_map<Expr*, Expr*> mm; return mapLeaves(b, [&](Expr* l) { return eConst(foldOp(op, w, aux, a->c, l->c, 0, a->w, l->w), w); }, mm); }
  if (a->ctree && b->ctree && a->ctree * b->ctree <= 16) { std::unordered_map<Expr*, Expr*> mm; return mapLeaves(a, [&](Expr* l) { return eBin(op, l, b, aux); }, mm); }
  return intern(op, w, aux, 0, a, b, nullptr);
}

void evalNewEpoch() { epoch++; }
static u64 ev(Expr* e, const std::vector<u64>& m) {
  if (e->op == CONST_) return e->c;
  if (e->ev == epoch) return e->evv;
  u64 r;
  if (e->op == SYM) r = (e->aux < m.size() ? m[e->aux] : 0) & maskw(e->w);
  else if (e->op == ITE) r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m);
  else { u64 a = ev(e->k[0], m), b = e->k[1] ? ev(e->k[1], m) : 0; r = foldOp(e->op, e->w, e->aux, a, b, 0, e->k[0]->w, e->k[1] ? e->k[1]->w : 0); }
  e->ev = epoch; e->evv = r; return r;
}
u64 evalExpr(Expr* e, const std::vector<u64>& m) { epoch++; return ev(e, m); }

static u32 sepoch = 0;
static Expr* sub(Expr* e, const Sup& fm, const std::vector<u64>& fv) {
  if (e->op == CONST_ || !e->sup.inter(fm)) return e;
  if (e->sv == sepoch) return e->svv;
  Expr* r;
  if (e->op == SYM) r = eConst(fv[e->aux], e->w);
  else r = rebuild(e, sub(e->k[0], fm, fv), e->k[1] ? sub(e->k[1], fm, fv) : nullptr, e->k[2] ? sub(e->k[2], fm, fv) : nullptr);
  e->sv = sepoch; e->svv = r; return r;
}
Expr* substExpr(Expr* e, const Sup& fm, const std::vector<u64>& fv) { sepoch++; return sub(e, fm, fv); }
