// Models of the precompiled parts of libstdc++ that the scene-graph code uses
// (std::string bodies, red-black tree links, string streams), so that the
// analysed module is closed.  Numbers written to a stream become opaque tokens
// (#d<n>; ...) naming the abstract value; reading a token gives the value back.
#include <string>
#include <ios>
#include <list>
#include <map>
#include <cstring>

template class std::__cxx11::basic_string<char>;

extern "C" {
// number -> token id (engine); prec = significant digits, flags = ios flags
int law_dtok(double, long, int) __attribute__((nothrow));
int law_itok(long, int) __attribute__((nothrow));
double law_tokval(int) __attribute__((nothrow));
// scan a number at p (n bytes left); kind: 0 real, 1 integer; returns the bytes used (0: no number)
long law_scan(const char *p, long n, int kind, double *out) __attribute__((nothrow));
}

namespace std {
// ---- red-black trees: links only (no rebalancing; the order is what counts)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *nextz = h._M_right == z ? &h : 0;
  _Rb_tree_node_base *repl;  // subtree taking z's place
  if (!z->_M_left) repl = z->_M_right;
  else if (!z->_M_right) repl = z->_M_left;
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
    repl = y;
  }
  (void)nextz;
  if (repl) repl->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = repl;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = repl;
  else z->_M_parent->_M_right = repl;
  // extremes
  _Rb_tree_node_base *r = h._M_parent;
  if (!r) { h._M_left = &h; h._M_right = &h; }
  else {
    _Rb_tree_node_base *m = r;
    while (m->_M_left) m = m->_M_left;
    h._M_left = m;
    m = r;
    while (m->_M_right) m = m->_M_right;
    h._M_right = m;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
}
}

// ---- streams -------------------------------------------------------------
namespace {
struct Sbuf { long a[8]; long mode; std::string s; };  // std::stringbuf: the text is in _M_string (offset 72)
struct Ios {
  void *vptr; long precision, width; int flags, exc, state, pad; Sbuf *buf; long zero[2]; long rpos;
  char rest[216 - 72]; void *tie; char fill, fillinit; void *sb; void *ctype; void *np, *ng;
};
struct Ctype { char pad[56]; char ok; unsigned char tab[256]; char tail[64]; };
const long vt_os[6] = {112, 0, 0, 0, 0, 0};
const long vt_is[6] = {120, 0, 0, 0, 0, 0};
const long vt_ss[6] = {128, 0, 0, 0, 0, 0};
const long vt_ss2[6] = {112, 0, 0, 0, 0, 0};
#define R8(n) n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, n + 7
#define R64(n) R8(n), R8(n + 8), R8(n + 16), R8(n + 24), R8(n + 32), R8(n + 40), R8(n + 48), R8(n + 56)
const Ctype the_ctype = {{0}, 1, {R64(0), R64(64), R64(128), R64(192)}, {0}};

inline Ios *ios(void *s) { return (Ios *)((char *)s + (*(const long **)s)[-3]); }
inline std::string &text(void *s) { return ios(s)->buf->s; }
void init(Ios *i, Sbuf *b, const std::string *s) {
  std::memset((void *)i, 0, sizeof(Ios));
  i->precision = 6;
  i->flags = std::ios_base::dec | std::ios_base::skipws;
  i->ctype = (void *)&the_ctype;
  i->fill = ' '; i->fillinit = 1;
  i->buf = b;
  std::memset((void *)b, 0, 72);
  new (&b->s) std::string();
  if (s) b->s = *s;
}
void puttok(void *s, char kind, int id) {
  char c[16]; int n = 0;
  do { c[n++] = '0' + id % 10; id /= 10; } while (id);
  std::string &t = text(s);
  t += '#'; t += kind;
  while (n) t += c[--n];
  t += ';';
}
const int FMT = std::ios_base::floatfield | std::ios_base::showpos | std::ios_base::showpoint | std::ios_base::uppercase;
const int IFMT = std::ios_base::hex | std::ios_base::oct | std::ios_base::showbase | std::ios_base::showpos;
void putd(void *s, double x) { Ios *i = ios(s); puttok(s, 'd', law_dtok(x, i->precision, i->flags & FMT)); }
void puti(void *s, long x) { puttok(s, 'i', law_itok(x, ios(s)->flags & IFMT)); }
void puts_(void *s, const char *p, long n) { text(s).append(p, n); }
void skip(void *s) {
  Ios *i = ios(s);
  const std::string &t = i->buf->s;
  while (i->rpos < (long)t.size() && (t[i->rpos] == ' ' || (t[i->rpos] >= 9 && t[i->rpos] <= 13))) ++i->rpos;
  if (i->rpos >= (long)t.size()) i->state |= std::ios_base::eofbit;
}
// returns false and sets failbit when there is no number; 0 is stored then, as C++11 says
bool scan(void *s, int kind, double *out) {
  Ios *i = ios(s);
  *out = 0;
  if (i->state) { i->state |= std::ios_base::failbit; return false; }
  skip(s);
  const std::string &t = i->buf->s;
  long n = law_scan(t.data() + i->rpos, (long)t.size() - i->rpos, kind, out);
  if (!n) { i->state |= std::ios_base::failbit; return false; }
  i->rpos += n;
  if (i->rpos >= (long)t.size()) i->state |= std::ios_base::eofbit;
  return true;
}
}
#define SYM(ret, name, sym, ...) ret name(__VA_ARGS__) __asm__(sym); ret name(__VA_ARGS__)
extern "C" {
SYM(void, os_ctor, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev", char *s) {
  *(const long **)s = vt_os + 3; init((Ios *)(s + 112), (Sbuf *)(s + 8), 0); }
SYM(void, os_ctor_m, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1ESt13_Ios_Openmode", char *s, int) {
  *(const long **)s = vt_os + 3; init((Ios *)(s + 112), (Sbuf *)(s + 8), 0); }
SYM(void, os_ctor_s, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", char *s, const std::string &t, int) {
  *(const long **)s = vt_os + 3; init((Ios *)(s + 112), (Sbuf *)(s + 8), &t); }
SYM(void, is_ctor_s, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", char *s, const std::string &t, int) {
  *(const long **)s = vt_is + 3; init((Ios *)(s + 120), (Sbuf *)(s + 16), &t); }
SYM(void, ss_ctor, "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev", char *s) {
  *(const long **)s = vt_ss + 3; *(const long **)(s + 16) = vt_ss2 + 3; init((Ios *)(s + 128), (Sbuf *)(s + 24), 0); }
SYM(void, ss_ctor_s, "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", char *s, const std::string &t, int) {
  *(const long **)s = vt_ss + 3; *(const long **)(s + 16) = vt_ss2 + 3; init((Ios *)(s + 128), (Sbuf *)(s + 24), &t); }
SYM(void, os_dtor, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev", void *) {}
SYM(void, is_dtor, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev", void *) {}
SYM(void, ss_dtor, "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev", void *) {}
SYM(void, iosb_dtor, "_ZNSt8ios_baseD2Ev", void *) {}
SYM(void, loc_ctor, "_ZNSt6localeC1Ev", void *p) { *(void **)p = 0; }
SYM(void, loc_copy, "_ZNSt6localeC1ERKS_", void *p, void *q) { *(void **)p = *(void **)q; }
SYM(void *, loc_assign, "_ZNSt6localeaSERKS_", void *p, void *q) { *(void **)p = *(void **)q; return p; }
SYM(void, loc_dtor, "_ZNSt6localeD1Ev", void *) {}
SYM(void, imbue, "_ZNSt9basic_iosIcSt11char_traitsIcEE5imbueERKSt6locale", void *r, void *, void *) { *(void **)r = 0; }
SYM(void, clear_, "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", Ios *i, int st) { i->state = st; }
SYM(void *, ins_d, "_ZNSo9_M_insertIdEERSoT_", void *s, double x) { putd(s, x); return s; }
SYM(void *, ins_l, "_ZNSo9_M_insertIlEERSoT_", void *s, long x) { puti(s, x); return s; }
SYM(void *, ins_m, "_ZNSo9_M_insertImEERSoT_", void *s, unsigned long x) { puti(s, (long)x); return s; }
SYM(void *, ins_d2, "_ZNSolsEd", void *s, double x) { putd(s, x); return s; }
SYM(void *, ins_f2, "_ZNSolsEf", void *s, float x) { putd(s, x); return s; }
SYM(void *, ins_l2, "_ZNSolsEl", void *s, long x) { puti(s, x); return s; }
SYM(void *, ins_m2, "_ZNSolsEm", void *s, unsigned long x) { puti(s, (long)x); return s; }
SYM(void *, ins_j2, "_ZNSolsEj", void *s, unsigned x) { puti(s, (long)x); return s; }
SYM(void *, ins_s2, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", void *s, const char *p) { puts_(s, p, std::strlen(p)); return s; }
SYM(void *, ins_c2, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", void *s, char c) { puts_(s, &c, 1); return s; }
SYM(void *, ins_str, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", void *s, const std::string &t) { puts_(s, t.data(), t.size()); return s; }
SYM(void *, write_, "_ZNSo5writeEPKcl", void *s, const char *p, long n) { puts_(s, p, n); return s; }
SYM(void, sb_str, "_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3strEv", std::string *r, Sbuf *b) { new (r) std::string(b->s); }
SYM(void, os_str, "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", std::string *r, char *s) { new (r) std::string(((Sbuf *)(s + 8))->s); }
SYM(void, ss_str, "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", std::string *r, char *s) { new (r) std::string(((Sbuf *)(s + 24))->s); }
SYM(void *, ext_d2, "_ZNSirsERd", void *s, double *o) { double v; scan(s, 0, &v); *o = v; return s; }
SYM(void *, ext_f2, "_ZNSirsERf", void *s, float *o) { double v; scan(s, 0, &v); *o = (float)v; return s; }
SYM(void *, ins_i, "_ZNSolsEi", void *s, int x) { puti(s, x); return s; }
static void *putb(void *s, bool x) {
  if (ios(s)->flags & std::ios_base::boolalpha) { if (x) puts_(s, "true", 4); else puts_(s, "false", 5); }
  else puts_(s, x ? "1" : "0", 1);
  return s; }
SYM(void *, ins_b, "_ZNSo9_M_insertIbEERSoT_", void *s, bool x) { return putb(s, x); }
SYM(void *, ins_b2, "_ZNSolsEb", void *s, bool x) { return putb(s, x); }
SYM(void *, ins_s, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", void *s, const char *p, long n) {
  puts_(s, p, n); return s; }
SYM(void *, ins_c, "_ZNSo3putEc", void *s, char c) { puts_(s, &c, 1); return s; }
SYM(void *, flush_, "_ZNSo5flushEv", void *s) { return s; }
SYM(void *, endl_, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", void *s) { puts_(s, "\n", 1); return s; }
SYM(void *, ext_d, "_ZNSi10_M_extractIdEERSiRT_", void *s, double *o) { double v; scan(s, 0, &v); *o = v; return s; }
SYM(void *, ext_f, "_ZNSi10_M_extractIfEERSiRT_", void *s, float *o) { double v; scan(s, 0, &v); *o = (float)v; return s; }
SYM(void *, ext_i, "_ZNSirsERi", void *s, int *o) { double v; scan(s, 1, &v); *o = (int)v; return s; }
SYM(void *, ext_l, "_ZNSi10_M_extractIlEERSiRT_", void *s, long *o) { double v; scan(s, 1, &v); *o = (long)v; return s; }
SYM(void *, ext_m, "_ZNSi10_M_extractImEERSiRT_", void *s, unsigned long *o) { double v; scan(s, 1, &v); *o = (long)v; return s; }
SYM(void *, ext_j, "_ZNSi10_M_extractIjEERSiRT_", void *s, unsigned *o) { double v; scan(s, 1, &v); *o = (unsigned)(long)v; return s; }
static void *getb(void *s, bool *o) {
  Ios *i = ios(s);
  *o = false;
  if (i->state) { i->state |= std::ios_base::failbit; return s; }
  skip(s);
  const std::string &t = i->buf->s;
  if (i->flags & std::ios_base::boolalpha) {
    if (t.compare(i->rpos, 4, "true") == 0) { *o = true; i->rpos += 4; }
    else if (t.compare(i->rpos, 5, "false") == 0) { i->rpos += 5; }
    else i->state |= std::ios_base::failbit;
  } else {
    double v;
    if (!scan(s, 1, &v)) return s;
    if (v == 1) *o = true;
    else if (v != 0) { *o = true; i->state |= std::ios_base::failbit; }
  }
  if (i->rpos >= (long)t.size()) i->state |= std::ios_base::eofbit;
  return s; }
SYM(void *, ext_b, "_ZNSi10_M_extractIbEERSiRT_", void *s, bool *o) { return getb(s, o); }
SYM(void *, ext_b2, "_ZNSirsERb", void *s, bool *o) { return getb(s, o); }
SYM(int, get_, "_ZNSi3getEv", void *s) {
  Ios *i = ios(s);
  const std::string &t = i->buf->s;
  if (i->state) { i->state |= std::ios_base::failbit; return -1; }
  if (i->rpos >= (long)t.size()) { i->state |= std::ios_base::eofbit | std::ios_base::failbit; return -1; }
  return (unsigned char)t[i->rpos++]; }
SYM(void *, ws_, "_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_", void *s) { skip(s); return s; }
SYM(void *, ext_s, "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", void *s, std::string &o) {
  Ios *i = ios(s);
  o.clear();
  if (i->state) { i->state |= std::ios_base::failbit; return s; }
  skip(s);
  const std::string &t = i->buf->s;
  while (i->rpos < (long)t.size() && !(t[i->rpos] == ' ' || (t[i->rpos] >= 9 && t[i->rpos] <= 13))) o += t[i->rpos++];
  if (o.empty()) i->state |= std::ios_base::failbit;
  if (i->rpos >= (long)t.size()) i->state |= std::ios_base::eofbit;
  return s; }
SYM(void *, getl, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", void *s, std::string &o, char d) {
  Ios *i = ios(s);
  o.clear();
  const std::string &t = i->buf->s;
  if (i->state || i->rpos >= (long)t.size()) { i->state |= std::ios_base::failbit | std::ios_base::eofbit; return s; }
  while (i->rpos < (long)t.size() && t[i->rpos] != d) o += t[i->rpos++];
  if (i->rpos >= (long)t.size()) i->state |= std::ios_base::eofbit;
  else ++i->rpos;
  return s; }
SYM(int, ispunct_, "ispunct", int c) { return (c > 32 && c < 48) || (c > 57 && c < 65) || (c > 90 && c < 97) || (c > 122 && c < 127); }
SYM(int, isspace_, "isspace", int c) { return c == 32 || (c >= 9 && c <= 13); }
// exceptions: only the type is observed
SYM(void, re1, "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", void *, void *) {}
SYM(void, re2, "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", void *, void *) {}
SYM(void, re3, "_ZNSt13runtime_errorC1EPKc", void *, void *) {}
SYM(void, re4, "_ZNSt13runtime_errorC2EPKc", void *, void *) {}
SYM(void, re5, "_ZNSt13runtime_errorC2ERKS_", void *, void *) {}
SYM(void, re6, "_ZNSt13runtime_errorD2Ev", void *) {}
SYM(void, re7, "_ZNSt13runtime_errorD1Ev", void *) {}
SYM(void, ia1, "_ZNSt16invalid_argumentC1EPKc", void *, void *) {}
SYM(void, ia2, "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", void *, void *) {}
SYM(void, oor1, "_ZNSt12out_of_rangeC1EPKc", void *, void *) {}
SYM(void, oor2, "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", void *, void *) {}
SYM(void, le1, "_ZNSt11logic_errorC2EPKc", void *, void *) {}
SYM(void, le2, "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", void *, void *) {}
SYM(void, le3, "_ZNSt11logic_errorC2ERKS_", void *, void *) {}
SYM(void, le4, "_ZNSt11logic_errorD2Ev", void *) {}
}
