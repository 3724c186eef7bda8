/* Models of the C library, C++ runtime and stream functions used by /repo's code, written to their documented
   contract.  Compiled to bitcode and linked with the code under test for symbolic execution only. */
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; typedef long s64;
typedef u64 size_t;
#define NULL ((void*)0)
#define V __attribute__((visibility("default")))
void *vh_alloc(u64 n, u32 zero); void vh_free(void *p);
void vh_assert(_Bool c, const char *what); void vh_fail_model(const char *what); void vh_kill(void);
void vh_digits(u64 v, u32 n, u8 *out); u32 vh_is_const(u64 v); u32 vh_ite32(_Bool c, u32 a, u32 b);
/* ---------------------------------------------------------------- memory */
void *_Znwm(u64 n) { return vh_alloc(n, 0); }
void *_Znam(u64 n) { return vh_alloc(n, 0); }
void *malloc(u64 n) { return vh_alloc(n, 0); }
void *calloc(u64 n, u64 k) { return vh_alloc(n * k, 1); }
u64 vh_objsize(void *p);
void *memcpy(void *d, const void *s, u64 n) { __builtin_memcpy(d, s, n); return d; }
void *memmove(void *d, const void *s, u64 n) { __builtin_memmove(d, s, n); return d; }
void *memset(void *d, int v, u64 n) { __builtin_memset(d, v, n); return d; }
void *realloc(void *p, u64 n) { void *q = vh_alloc(n, 0); if (p) { u64 k = vh_objsize(p); if (q) { __builtin_memcpy(q, p, k < n ? k : n); vh_free(p); } } return q; }
void _ZdlPv(void *p) { vh_free(p); }
void _ZdaPv(void *p) { vh_free(p); }
void _ZdlPvm(void *p, u64 n) { vh_free(p); }
void _ZdaPvm(void *p, u64 n) { vh_free(p); }
void free(void *p) { vh_free(p); }
int memcmp(const void *x, const void *y, u64 n) { const u8 *a = x, *b = y; int r = 0; for (u64 i = n; i-- > 0;) r = (int)vh_ite32(a[i] != b[i], (u32)((int)a[i] - (int)b[i]), (u32)r); return r; }
void *memchr(const void *x, int c, u64 n) { const u8 *a = x; for (u64 i = 0; i < n; i++) if (a[i] == (u8)c) return (void*)(a + i); return NULL; }
/* ---------------------------------------------------------------- strings */
u64 strlen(const char *s) { u64 n = 0; while (s[n] != 0) n++; return n; }
u64 strnlen(const char *s, u64 k) { u64 n = 0; while (n < k && s[n] != 0) n++; return n; }
int strcmp(const char *a, const char *b) { u64 i = 0; while (a[i] != 0 && a[i] == b[i]) i++; return (int)(u8)a[i] - (int)(u8)b[i]; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncmp(const char *a, const char *b, u64 n) { u64 i = 0; while (i < n && a[i] != 0 && a[i] == b[i]) i++; if (i == n) return 0; return (int)(u8)a[i] - (int)(u8)b[i]; }
static int vh_lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { u64 i = 0; while (a[i] != 0 && vh_lower((u8)a[i]) == vh_lower((u8)b[i])) i++; return vh_lower((u8)a[i]) - vh_lower((u8)b[i]); }
int strncasecmp(const char *a, const char *b, u64 n) { u64 i = 0; while (i < n && a[i] != 0 && vh_lower((u8)a[i]) == vh_lower((u8)b[i])) i++; if (i == n) return 0; return vh_lower((u8)a[i]) - vh_lower((u8)b[i]); }
char *strcpy(char *d, const char *s) { u64 i = 0; while ((d[i] = s[i]) != 0) i++; return d; }
char *stpcpy(char *d, const char *s) { u64 i = 0; while ((d[i] = s[i]) != 0) i++; return d + i; }
char *strncpy(char *d, const char *s, u64 n) { u64 i = 0; for (; i < n && s[i] != 0; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { u64 k = strlen(d); strcpy(d + k, s); return d; }
char *strncat(char *d, const char *s, u64 n) { u64 k = strlen(d), i = 0; for (; i < n && s[i] != 0; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (*s == 0) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char*)s; if (*s == 0) return r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { u64 i = 0; while (n[i] != 0 && h[i] == n[i]) i++; if (n[i] == 0) return (char*)h; if (*h == 0) return NULL; } }
u64 strspn(const char *s, const char *a) { u64 n = 0; for (;; n++) { if (s[n] == 0) return n; if (strchr(a, (u8)s[n]) == NULL) return n; } }
u64 strcspn(const char *s, const char *a) { u64 n = 0; for (;; n++) { if (s[n] == 0) return n; if (strchr(a, (u8)s[n]) != NULL) return n; } }
char *strdup(const char *s) { u64 n = strlen(s) + 1; char *d = vh_alloc(n, 0); __builtin_memcpy(d, s, n); return d; }
char *strndup(const char *s, u64 k) { u64 n = strnlen(s, k); char *d = vh_alloc(n + 1, 0); __builtin_memcpy(d, s, n); d[n] = 0; return d; }
__attribute__((always_inline)) int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
__attribute__((always_inline)) int isdigit(int c) { return c >= '0' && c <= '9'; }
__attribute__((always_inline)) int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
__attribute__((always_inline)) int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((always_inline)) int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((always_inline)) int isupper(int c) { return (c >= 'A' && c <= 'Z'); }
__attribute__((always_inline)) int islower(int c) { return (c >= 'a' && c <= 'z'); }
__attribute__((always_inline)) int isprint(int c) { return c >= 32 && c < 127; }
__attribute__((always_inline)) int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
__attribute__((always_inline)) int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
__attribute__((always_inline)) int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static u32 vh_errno;
u32 *__errno_location(void) { return &vh_errno; }
char *strerror(int e) { return "error"; }
/* base conversion; overflow saturates as the standard says */
static u64 vh_strto(const char *s, int base, _Bool *neg, _Bool *any, _Bool *ovf, const char **end) {
  const char *p = s; u64 v = 0; *neg = 0; *any = 0; *ovf = 0; int nd = 0;
  while (isspace((u8)*p)) p++;
  if (*p == '+') p++; else if (*p == '-') { *neg = 1; p++; }
  if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((u8)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = (p[0] == '0') ? 8 : 10;
  for (;;) {
    int c = (u8)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (base <= 10) break; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    nd++;
    if (nd > 15) { if (*ovf || v > (~0UL - (u64)d) / (u64)base) *ovf = 1; }
    v = v * (u64)base + (u64)d; *any = 1; p++;
  }
  *end = *any ? p : s;
  return v;
}
static s64 vh_stol(const char *s, char **e, int base) { _Bool n, a, o; const char *end; u64 v = vh_strto(s, base, &n, &a, &o, &end); if (e) *e = (char*)end;
  if (o || (!n && v > 0x7fffffffffffffffUL) || (n && v > 0x8000000000000000UL)) { vh_errno = 34; return n ? (s64)0x8000000000000000UL : 0x7fffffffffffffffL; }
  return (s64)(n ? 0 - v : v); }
static u64 vh_stoul(const char *s, char **e, int base) { _Bool n, a, o; const char *end; u64 v = vh_strto(s, base, &n, &a, &o, &end); if (e) *e = (char*)end; if (o) { vh_errno = 34; return ~0UL; } return n ? 0 - v : v; }
s64 strtol(const char *s, char **e, int b) { return vh_stol(s, e, b); }
s64 strtoll(const char *s, char **e, int b) { return vh_stol(s, e, b); }
u64 strtoul(const char *s, char **e, int b) { return vh_stoul(s, e, b); }
u64 strtoull(const char *s, char **e, int b) { return vh_stoul(s, e, b); }
s64 __isoc23_strtol(const char *s, char **e, int b) { return vh_stol(s, e, b); }
s64 __isoc23_strtoll(const char *s, char **e, int b) { return vh_stol(s, e, b); }
u64 __isoc23_strtoul(const char *s, char **e, int b) { return vh_stoul(s, e, b); }
u64 __isoc23_strtoull(const char *s, char **e, int b) { return vh_stoul(s, e, b); }
int atoi(const char *s) { return (int)vh_stol(s, NULL, 10); }
s64 atoll(const char *s) { return vh_stol(s, NULL, 10); }
s64 atol(const char *s) { return vh_stol(s, NULL, 10); }
static u32 vh_bswap32(u32 x) { return (x >> 24) | ((x >> 8) & 0xff00U) | ((x << 8) & 0xff0000U) | (x << 24); }
u32 htonl(u32 x) { return vh_bswap32(x); }
u32 ntohl(u32 x) { return vh_bswap32(x); }
u16 htons(u16 x) { return (u16)((x >> 8) | (x << 8)); }
u16 ntohs(u16 x) { return (u16)((x >> 8) | (x << 8)); }
int abs(int x) { return x < 0 ? -x : x; }
s64 llabs(s64 x) { return x < 0 ? -x : x; }
s64 labs(s64 x) { return x < 0 ? -x : x; }
/* ---------------------------------------------------------------- formatted output */
typedef struct { char *d; u64 size, pos; } F;
static void fc(F *f, u8 c) { if (f->pos + 1 < f->size) f->d[f->pos] = (char)c; f->pos++; }
static int ndigits(u64 v) { int k = 1; u64 p = 10; while (k < 20 && v >= p) { k++; if (k < 20) p *= 10; } return k; }
static int digits10(u64 v, u8 *d) {   /* least significant first */
  int n = ndigits(v);
  if (vh_is_const(v)) { for (int i = 0; i < n; i++) { d[i] = (u8)(v % 10); v /= 10; } }
  else vh_digits(v, (u32)n, d);
  return n;
}
enum { FZ = 1, FM = 2, FP = 4, FS = 8, FU = 32 };
static void fnum(F *f, u8 *d, int n, _Bool neg, int w, int p, int fl) {
  char sign = neg ? '-' : (fl & FP) ? '+' : (fl & FS) ? ' ' : 0;
  int zeros = 0;
  if (p > n) zeros = p - n;
  int tot = n + zeros + (sign ? 1 : 0);
  if (p < 0 && (fl & FZ) && !(fl & FM) && w > tot) { zeros += w - tot; tot = w; }
  if (!(fl & FM)) for (int i = tot; i < w; i++) fc(f, 32);
  if (sign) fc(f, (u8)sign);
  for (int i = 0; i < zeros; i++) fc(f, '0');
  for (int i = n - 1; i >= 0; i--) fc(f, d[i]);
  if (fl & FM) for (int i = tot; i < w; i++) fc(f, 32);
}
static void fdec(F *f, u64 mag, _Bool neg, int w, int p, int fl) {
  u8 d[20]; int n = digits10(mag, d);
  for (int i = 0; i < n; i++) d[i] = (u8)(d[i] + '0');
  if (p == 0 && mag == 0) n = 0;
  fnum(f, d, n, neg, w, p, fl);
}
static void fhex(F *f, u64 v, int base, int w, int p, int fl) {
  u8 d[22]; int sh = base == 16 ? 4 : 3, n = 0;
  u64 t = v;
  do { u32 x = (u32)(t & (u64)(base - 1)); d[n++] = (u8)vh_ite32(x < 10, x + '0', x - 10 + ((fl & FU) ? 'A' : 'a')); t >>= sh; } while (t != 0);
  fnum(f, d, n, 0, w, p, fl & ~(FP | FS));
}
static void fstr(F *f, const char *s, int w, int p, int fl) {
  u64 n = 0; if (s == NULL) s = "(null)";
  while ((p < 0 || n < (u64)p) && s[n] != 0) n++;
  if (!(fl & FM)) for (s64 i = (s64)n; i < w; i++) fc(f, 32);
  for (u64 i = 0; i < n; i++) fc(f, (u8)s[i]);
  if (fl & FM) for (s64 i = (s64)n; i < w; i++) fc(f, 32);
}
int vsnprintf(char *dst, u64 size, const char *fmt, __builtin_va_list ap) {
  F f; f.d = dst; f.size = size; f.pos = 0;
  for (; *fmt; fmt++) {
    if (*fmt != '%') { fc(&f, (u8)*fmt); continue; }
    fmt++;
    int fl = 0, w = 0, p = -1, lng = 0;
    for (;; fmt++) { if (*fmt == '0') fl |= FZ; else if (*fmt == '-') fl |= FM; else if (*fmt == '+') fl |= FP; else if (*fmt == ' ') fl |= FS; else if (*fmt == '#') vh_fail_model("printf #"); else break; }
    if (*fmt == '*') { w = __builtin_va_arg(ap, int); if (w < 0) { fl |= FM; w = -w; } fmt++; } else while (*fmt >= '0' && *fmt <= '9') w = w * 10 + (*fmt++ - '0');
    if (*fmt == '.') { fmt++; p = 0; if (*fmt == '*') { p = __builtin_va_arg(ap, int); fmt++; } else while (*fmt >= '0' && *fmt <= '9') p = p * 10 + (*fmt++ - '0'); }
    for (;; fmt++) { if (*fmt == 'l') lng++; else if (*fmt == 'z' || *fmt == 'j' || *fmt == 't' || *fmt == 'q') lng = 2; else if (*fmt == 'h') lng--; else break; }
    switch (*fmt) {
    case '%': fc(&f, '%'); break;
    case 'c': { int c = __builtin_va_arg(ap, int); for (int i = 1; i < w && !(fl & FM); i++) fc(&f, 32); fc(&f, (u8)c); for (int i = 1; i < w && (fl & FM); i++) fc(&f, 32); break; }
    case 's': { const char *s = __builtin_va_arg(ap, const char*); fstr(&f, s, w, p, fl); break; }
    case 'd': case 'i': { s64 v; if (lng > 0) v = __builtin_va_arg(ap, s64); else { int x = __builtin_va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; v = x; }
      if (v < 0) fdec(&f, 0UL - (u64)v, 1, w, p, fl); else fdec(&f, (u64)v, 0, w, p, fl); break; }
    case 'u': case 'x': case 'X': case 'o': { u64 v; if (lng > 0) v = __builtin_va_arg(ap, u64); else { u32 x = __builtin_va_arg(ap, u32); if (lng == -1) x = (u16)x; if (lng == -2) x = (u8)x; v = x; }
      if (*fmt == 'u') fdec(&f, v, 0, w, p, fl & ~(FP | FS)); else fhex(&f, v, *fmt == 'o' ? 8 : 16, w, p, fl | (*fmt == 'X' ? FU : 0)); break; }
    case 'p': { u64 v = __builtin_va_arg(ap, u64); fc(&f, '0'); fc(&f, 'x'); fhex(&f, v, 16, 0, -1, 0); break; }
    default: vh_fail_model("printf conversion"); return 0;
    }
  }
  if (size > 0) dst[f.pos < size ? f.pos : size - 1] = 0;
  return (int)f.pos;
}
int snprintf(char *d, u64 n, const char *fmt, ...) { __builtin_va_list ap; __builtin_va_start(ap, fmt); int r = vsnprintf(d, n, fmt, ap); __builtin_va_end(ap); return r; }
int vsprintf(char *d, const char *fmt, __builtin_va_list ap) { return vsnprintf(d, 1UL << 40, fmt, ap); }
int sprintf(char *d, const char *fmt, ...) { __builtin_va_list ap; __builtin_va_start(ap, fmt); int r = vsnprintf(d, 1UL << 40, fmt, ap); __builtin_va_end(ap); return r; }
int vasprintf(char **out, const char *fmt, __builtin_va_list ap) { char tmp[1]; __builtin_va_list a2; __builtin_va_copy(a2, ap); int n = vsnprintf(tmp, 1, fmt, ap); char *d = vh_alloc((u64)n + 1, 0); vsnprintf(d, (u64)n + 1, fmt, a2); *out = d; return n; }
int asprintf(char **out, const char *fmt, ...) { __builtin_va_list ap; __builtin_va_start(ap, fmt); int r = vasprintf(out, fmt, ap); __builtin_va_end(ap); return r; }
/* ---------------------------------------------------------------- C++ streams: one sink records what is written, others are silent */
#define VH_OS_CAP 8192
static u8 os_buf[VH_OS_CAP]; static u64 os_len, os_w; static u8 os_fill = ' '; static int os_hex; static char os_obj[512];
void *vh_os(void) { return os_obj; }
u64 vh_os_size(void) { return os_len; }
u8 vh_os_at(u64 i) { return os_buf[i]; }
void vh_os_reset(void) { os_len = 0; os_w = 0; os_fill = ' '; os_hex = 0; }
static void os_c(u8 c) { if (os_len >= VH_OS_CAP) { vh_fail_model("stream capture buffer too small"); return; } os_buf[os_len++] = c; }
#define SINK(o) ((void*)(o) == (void*)os_obj)
static void os_pad(u64 n) { for (; n < os_w; n++) os_c(os_fill); os_w = 0; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void *o, const char *s) { if (SINK(o)) { if (os_w) os_pad(strlen(s)); for (u64 i = 0; s[i] != 0; i++) os_c((u8)s[i]); } return o; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void *o, char c) { if (SINK(o)) { if (os_w) os_pad(1); os_c((u8)c); } return o; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h(void *o, u8 c) { if (SINK(o)) { if (os_w) os_pad(1); os_c(c); } return o; }
void *_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a(void *o, u8 c) { if (SINK(o)) { if (os_w) os_pad(1); os_c(c); } return o; }
void *_ZNSo3putEc(void *o, char c) { if (SINK(o)) os_c((u8)c); return o; }
void *_ZNSo5writeEPKcl(void *o, const char *s, s64 n) { if (SINK(o)) for (s64 i = 0; i < n; i++) os_c((u8)s[i]); return o; }
void *_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *o, const char *s, s64 n) { if (SINK(o)) { if (os_w) os_pad((u64)n); for (s64 i = 0; i < n; i++) os_c((u8)s[i]); } return o; }
void *_ZNSo5flushEv(void *o) { return o; }
static void *os_dec(void *o, u64 mag, _Bool neg) {
  if (SINK(o)) {
    if (os_hex) { F f; u8 t[24]; f.d = (char*)t; f.size = 24; f.pos = 0; fhex(&f, mag, 16, 0, -1, 0); if (os_w) os_pad(f.pos); for (u64 i = 0; i < f.pos; i++) os_c(t[i]); return o; }
    u8 d[20]; int n = digits10(mag, d); if (os_w) os_pad((u64)n + neg); if (neg) os_c('-'); for (int i = n - 1; i >= 0; i--) os_c((u8)(d[i] + '0')); }
  return o; }
void *_ZNSolsEi(void *o, int v) { if (os_hex) return os_dec(o, (u32)v, 0); if (v < 0) return os_dec(o, (u64)-(s64)v, 1); return os_dec(o, (u64)v, 0); }
void *_ZNSolsEs(void *o, short v) { return _ZNSolsEi(o, v); }
void *_ZNSolsEt(void *o, u16 v) { return os_dec(o, v, 0); }
void *_ZNSolsEj(void *o, u32 v) { return os_dec(o, v, 0); }
void *_ZNSolsEl(void *o, s64 v) { if (v < 0 && !os_hex) return os_dec(o, 0UL - (u64)v, 1); return os_dec(o, (u64)v, 0); }
void *_ZNSolsEm(void *o, u64 v) { return os_dec(o, v, 0); }
void *_ZNSolsEx(void *o, s64 v) { return _ZNSolsEl(o, v); }
void *_ZNSolsEy(void *o, u64 v) { return os_dec(o, v, 0); }
void *_ZNSolsEb(void *o, _Bool v) { if (SINK(o)) os_c(v ? '1' : '0'); return o; }
void *_ZNSolsEPKv(void *o, void *v) { if (SINK(o)) vh_fail_model("ostream<<ptr"); return o; }
void *_ZNSolsEPFRSt8ios_baseS0_E(void *o, void *(*f)(void*)) { if (SINK(o)) f(o); return o; }
void *_ZNSolsEPFRSoS_E(void *o, void *f) { if (SINK(o)) os_c(10); return o; }
void *_ZSt3hexRSt8ios_base(void *b) { os_hex = 1; return b; }
void *_ZSt3decRSt8ios_base(void *b) { os_hex = 0; return b; }
void *_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw(void *o, int w) { if (SINK(o)) os_w = (u64)w; return o; }
void *_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E(void *o, u8 c) { if (SINK(o)) os_fill = c; return o; }
void *_ZNSolsEd(void *o, double d) { if (SINK(o)) vh_fail_model("ostream<<double"); return o; }
void *_ZNSolsEf(void *o, float d) { if (SINK(o)) vh_fail_model("ostream<<float"); return o; }
void *_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void *o) { if (SINK(o)) os_c(10); return o; }
/* ---------------------------------------------------------------- misc runtime */
void __assert_fail(const char *a, const char *f, u32 l, const char *fn) { vh_assert(0, "no assert() of the code fails"); vh_kill(); }
void _exit(int c) { vh_kill(); }
void exit(int c) { vh_kill(); }
void abort(void) { vh_assert(0, "the code does not abort"); vh_kill(); }
void __cxa_pure_virtual(void) { vh_assert(0, "no pure virtual function is called"); vh_kill(); }
double atof(const char *s) { (void)strlen(s); return 1.0; } /* value not modelled: harnesses never look at it */
void *aligned_alloc(u64 a, u64 n) { return vh_alloc(n, 0); }
/* ---------------------------------------------------------------- calendar (UTC; proleptic Gregorian) */
void *gmtime_r(const s64 *t, int *tm)
{
    s64 days = *t / 86400, rem = *t % 86400; if (rem < 0) { rem += 86400; days--; }
    tm[2] = (int)(rem / 3600); tm[1] = (int)(rem / 60 % 60); tm[0] = (int)(rem % 60);
    s64 w = (days + 4) % 7; tm[6] = (int)(w < 0 ? w + 7 : w);
    s64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; u64 doe = (u64)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    s64 y = (s64)yoe + era * 400 + (mp >= 10); int leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    tm[3] = (int)(doy - (153 * mp + 2) / 5 + 1); tm[4] = (int)(mp < 10 ? mp + 2 : mp - 10); tm[5] = (int)(y - 1900); tm[7] = (int)(mp >= 10 ? doy - 306 : doy + 59 + leap); tm[8] = 0;
    *(s64*)(tm + 10) = 0; *(const char**)(tm + 12) = "GMT"; return tm;
}
