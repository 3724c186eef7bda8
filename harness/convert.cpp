//@SRC bin_xml_creator.cpp bin_xml_packer.cpp bin_write_plugin.cpp bin_xml.cpp bin_xml_types.cpp utils.cpp macros.cpp missings.cpp files.cpp
//@WRAP open close fstat stat ftruncate mmap munmap creat write _Z4SHA1PKhmPh
// Conversion: symbol interning (C01), to the binary form (C02), to the writable form (C03), packing (P01).
// The source document is an arbitrary tree behind the source plugin interface; files are memory; SHA-1 is taken as free of collisions (its function is decided by M02).
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <binary_xml/macros.h>
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_xml_packer.h>
#include <binary_xml/bin_write_plugin.h>
using namespace pklib_xml;
static char g_out[8192]; static long g_outn, g_src, g_cap; static char *g_map, *g_pool; static int g_w; static bool g_pooling;
enum { HN = 16 }; static const unsigned char *g_h[HN]; static long g_hl[HN]; static int g_hn;
extern "C" {
int vh_creat(const char *, mode_t) { g_outn = 0; return 78; }
ssize_t vh_write(int fd, const void *p, size_t n) { VH_ASSERT(fd == 78 && n <= sizeof g_out, "the output is written to its file"); memcpy(g_out, p, n); g_outn = (long)n; return (ssize_t)n; }
int vh_open(const char *, int, ...) { return 77; }
int vh_close(int) { return 0; }
static bool is_src(const char *f) { size_t n = strlen(f); return n > 4 && strcmp(f + n - 4, ".src") == 0; }
int vh_stat(const char *f, struct stat *s) { memset(s, 0, sizeof *s); s->st_size = is_src(f) ? g_src : g_outn; s->st_mtim.tv_sec = 1600000000; return 0; }
int vh_fstat(int, struct stat *s) { memset(s, 0, sizeof *s); s->st_size = g_outn; return 0; }
int vh_ftruncate(int, off_t n) { VH_ASSERT(n >= 0 && n <= g_cap, "the file does not grow past the mapping"); g_outn = n; return 0; }
void *vh_mmap(void *, size_t n, int prot, int, int, off_t) { if (prot & PROT_WRITE) { g_cap = (long)n; g_pool = (char*)aligned_alloc(16, n); memset(g_pool, 0, n); return g_pool; } g_map = (char*)aligned_alloc(16, n); memcpy(g_map, g_out, n); return g_map; }
int vh_munmap(void *, size_t) { return 0; }
unsigned char *vh__Z4SHA1PKhmPh(const unsigned char *d, size_t n, unsigned char *md)
{
    int id = g_hn;
    for (int i = 0; i < g_hn; i++) if (g_hl[i] == (long)n && memcmp(g_h[i], d, n) == 0) { id = i; break; }
    if (id == g_hn) { VH_ASSERT(g_hn < HN, "harness: enough hash slots"); unsigned char *c = (unsigned char*)malloc(n); memcpy(c, d, n); g_h[g_hn] = c; g_hl[g_hn++] = (long)n; }
    memset(md, 0, 20); md[7] = (unsigned char)(id * 37 + 11); return md;
}
}
// ---- the source document
struct Nd { char name[4]; const char *val; int np; char pn[2][4]; const char *pv[2]; int par, kids[64], nk; };
static Nd g_n[80]; static int g_nn;
static Nd *add(int par, char c) { Nd *n = &g_n[g_nn]; memset(n, 0, sizeof *n); n->name[0] = c; n->par = par; if (par >= 0) g_n[par].kids[g_n[par].nk++] = g_nn; g_nn++; return n; }
struct Src : public Bin_src_plugin
{
    Src() : Bin_src_plugin("d.src", nullptr) {}
    void *getRoot() override { return &g_n[0]; }
    const char *getNodeName(void *e) override { return ((Nd*)e)->name; }
    const char *getNodeValue(void *e) override { return ((Nd*)e)->val; }
    void ForAllChildren(OnElement_t f, void *e, void *u) override { Nd *n = (Nd*)e; for (int i = 0; i < n->nk; i++) f(&g_n[n->kids[i]], u); }
    void ForAllChildrenRecursively(OnElementRec_t f, void *e, void *u, int deep) override { f(e, u, deep); Nd *n = (Nd*)e; for (int i = 0; i < n->nk; i++) ForAllChildrenRecursively(f, &g_n[n->kids[i]], u, deep + 1); }
    void ForAllParams(OnParam_t f, void *e, void *u) override { Nd *n = (Nd*)e; for (int i = 0; i < n->np; i++) f(n->pn[i], n->pv[i], e, u); }
};
static long text_size() { long s = 0; for (int i = 0; i < g_nn; i++) { s += 4 + (g_n[i].val ? (long)strlen(g_n[i].val) : 0); for (int k = 0; k < g_n[i].np; k++) s += 4 + (long)strlen(g_n[i].pv[k]); } return s; }
enum { KINDS = 18 };
static char dig(int lo = 0) { return (char)('0' + lo + vh_below8((uint32_t)(10 - lo))); }
static const char *text(int k)
{
    char *s = (char*)malloc(48); s[0] = 0;
    static const char *BASE[KINDS] = {nullptr, "", "?", "-+", "12345678901?", "z*", "3.?", "14.2+", "54.12+", "3.12345+", "1.12345678+", "%b", "0123456789abcdef0123456789abcdef0123456%", "01234567-89ab-cdef-0123-456789abcde%", "1.2.3.?", "999999999999999999!", "2021-06-1?", "2021-06-15 22:41:4?"};
    if (k == 0) return nullptr;
    strcpy(s, BASE[k]);
    for (char *p = s; *p; p++) switch (*p)
    {
        case '?': *p = k == 4 || k >= 16 ? (char)('1' + 8 * vh_choose(2)) : dig(); break; case '+': *p = k == 10 ? (char)('1' + 4 * vh_choose(3)) : dig(1); break; case '!': *p = (char)('2' + 5 * vh_choose(2)); break;
        case '*': *p = (char)('g' + vh_below8(20)); break; case '%': *p = (char)('a' + vh_below8(6)); break;
    }
    return s;
}
static bool number_like(const char *s) { for (; *s; s++) if (!((*s >= '0' && *s <= '9') || *s == '.' || *s == '-')) return false; return true; }
static int norm(const char *s, char *d)            // line breaks of hexadecimal text, letter case of it, and zeros behind the decimal point do not matter
{
    int n = 0; bool num = number_like(s), pt = false; int pts = 0;
    for (const char *p = s; *p; p++) if (*p == '.') pts++;
    pt = num && pts == 1;
    for (const char *p = s; *p; p++) if (*p != '\n') d[n++] = *p;
    if (pt) { while (n > 0 && d[n-1] == '0') n--; if (n > 0 && d[n-1] == '.') n--; }
    d[n] = 0; return n;
}
static bool same(const char *want, const char *got)
{
    if (want == nullptr || *want == 0) return got == nullptr || *got == 0;
    if (got == nullptr) return false;
    if (strcmp(want, got) == 0) return true;
    char a[64], b[64]; int n = norm(want, a), m = norm(got, b);
    return n == m && strcasecmp(a, b) == 0;
}
static void check_node(XB_reader &R, XML_Item *X, Nd *n)
{
    VH_ASSERT(strcmp(R.getNodeName(X->name), n->name) == 0, "the node has its name");
    VH_ASSERT(X->paramcount == n->np && X->childcount == n->nk, "the node has its attributes and children");
    VH_ASSERT(same(n->val, X->getString()), "the node has its value");
    for (int i = 0; i < n->np; i++)
    {
        XML_Param_Description *P = X->getParamByIndex(i);
        VH_ASSERT(strcmp(R.getParamName(P->name), n->pn[i]) == 0, "the attribute has its name");
        VH_ASSERT(same(n->pv[i], P->getString(X)), "the attribute has its value");
    }
    for (int i = 0; i < n->nk; i++) check_node(R, X->getChildByIndex(i), &g_n[n->kids[i]]);
}
static long convert(bool pack)
{
    Src *src = new Src; g_hn = 0;
    Bin_xml_creator *C = pack ? new Bin_xml_packer(src, "d.xb") : new Bin_xml_creator(src, "d.xb");
    VH_ASSERT(C->DoAll(), "the document is converted");
    XB_reader *R = new XB_reader((char*)"d.xb"); R->verbosity = 0;
    VH_ASSERT(R->Initialize(), "the image passes the reader's check");
    VH_ASSERT(R->doc->length <= g_outn && g_outn < R->doc->length + 4, "the recorded size is the real one");
    VH_ASSERT(R->getRoot() != nullptr, "the image has a root");
    check_node(*R, R->getRoot(), &g_n[0]);
    return g_outn;
}
#ifndef CN
#define CN 3
#endif
//@H conv_shape prop=C02 flow=1 time=200 shards=18 tdefs=CN=4 ttime=800
//@B conv_shape every tree of up to 3 nodes (4 thorough) with names of one arbitrary byte each, a number, a text or nothing as value, an attribute or none
H(conv_shape)
{
    debug_status = nullptr; int w = (int)vh_choose(CN * 6), n = 1 + w % CN, r = w / CN;      // r: what the last node is
    for (int i = 0; i < n; i++)
    {
        uint8_t c = vh_u8(); vh_assume(c != 0); Nd *x = add(i == 0 ? -1 : (int)vh_choose((uint32_t)i), (char)c);
        static const int KS[] = {0, 2, 5}; x->val = i == n - 1 ? text(KS[r % 3]) : vh_choose(2) ? "5" : nullptr;
        if (i == n - 1 ? r / 3 : vh_choose(2)) { x->np = 1; uint8_t a = i == n - 1 ? vh_u8() : 'k'; vh_assume(a != 0); x->pn[0][0] = (char)a; x->pv[0] = "7"; }
    }
    g_src = text_size(); convert(false); VH_REACH("converted");
}
//@H conv_values prop=C02 flow=1 time=200 shards=18
//@B conv_values a node and its child with the same two attribute names: every pair of value kinds (18 kinds: empty, numbers, decimals, texts, hexadecimal, SHA-1, GUID, IPv4, date, time, with arbitrary digits) as node value, as attribute behind another and as the same attribute of two nodes
H(conv_values)
{
    debug_status = nullptr; int a = (int)vh_choose(KINDS), b = (int)vh_choose(KINDS), how = (int)vh_choose(2);
    Nd *x = add(-1, 'r'); Nd *y = add(0, 'c');
    if (how == 0) { x->val = text(a); y->val = text(b); x->np = 2; strcpy(x->pn[0], "p"); strcpy(x->pn[1], "o"); x->pv[0] = text(b); x->pv[1] = text(a); }
    else { x->np = y->np = 1; strcpy(x->pn[0], "p"); strcpy(y->pn[0], "p"); x->pv[0] = text(a); y->pv[0] = text(b); y->val = "v"; }
    for (int i = 0; i < 2; i++) for (int k = 0; k < g_n[i].np; k++) if (!g_n[i].pv[k]) g_n[i].pv[k] = "";
    g_src = text_size(); convert(false); VH_REACH("converted");
}
//@H conv_wide prop=C02 flow=1 time=200 shards=9
//@B conv_wide every document of 65 nodes (a node with 64 childs) or of a chain of 20 nodes, written in the source with only 2 characters per node: childs empty, with a digit, with a letter; or with a small attribute each
H(conv_wide)
{
    debug_status = nullptr; int w = (int)vh_choose(9), kind = w / 3, how = w % 3, N = how == 1 ? 20 : 64; char c = (char)('a' + vh_below8(4));
    static const char *SV[3] = {nullptr, "5", "z"};
    add(-1, 'r');
    for (int i = 0; i < N; i++) { Nd *x = add(how == 1 ? i : 0, i == 3 ? c : 'c'); x->val = SV[kind]; if (how == 2) { x->np = 1; x->pn[0][0] = 'k'; x->pv[0] = "1"; } }
    g_src = 2 * g_nn; convert(false); VH_REACH("converted");
}
//@H conv_again prop=C02 flow=1 time=100
//@B conv_again a document of a node with two childs (one attribute, 10 kinds of value) converted twice: the same bytes
H(conv_again)
{
    debug_status = nullptr; int k = (int)vh_choose(10);
    for (int i = 0; i < 3; i++) { Nd *x = add(i == 0 ? -1 : 0, 'a'); x->val = i == 1 ? text(k) : nullptr; }
    g_n[1].np = 1; g_n[1].pn[0][0] = 'b'; g_n[1].pv[0] = "x";
    g_src = text_size(); long n = convert(false); char *first = (char*)malloc((size_t)n); memcpy(first, g_out, (size_t)n);
    free(malloc(1024)); bool eq = convert(false) == n && memcmp(first, g_out, (size_t)n) == 0;
    VH_ASSERT(eq, "the same document is converted to the same bytes"); VH_REACH("converted");
}
//@H pack_shape prop=P01 flow=1 time=200 shards=18
//@B pack_shape every tree of up to 4 nodes with equal names, each with nothing, a digit, a 64-bit number or a text as value, an attribute or none
H(pack_shape)
{
    debug_status = nullptr; int w = (int)vh_choose(36), n = 2 + w % 3, r = w / 3 % 4, q = w / 12;
    static const char *SV[4] = {nullptr, "5", "123456789012", "abcx"};
    for (int i = 0; i < n; i++)
    {
        Nd *x = add(i == 0 ? -1 : (int)vh_choose((uint32_t)i), 'a');
        x->val = SV[i == n - 1 ? r : (int)vh_choose(4)];
        if (i == n - 1 ? q > 0 : i == 1 ? vh_choose(2) : 0) { x->np = 1; x->pn[0][0] = 'k'; x->pv[0] = i == n - 1 && q == 2 ? "lm" : "7"; }
    }
    g_src = text_size(); long a = convert(false), b = convert(true);
    VH_ASSERT(b <= a, "packing does not enlarge the image"); VH_REACH("packed");
}
// ---- the symbol table while it is being collected
struct Cr : public Bin_xml_creator
{
    Cr(Src *s) : Bin_xml_creator(s, "d.xb") {}
    void tables(int n) { for (int t = 0; t < 2; t++) { symbol_table[t] = (const char**)calloc((size_t)n, sizeof(char*)); symbol_table_types[t] = (XML_Binary_Type_Stored*)calloc((size_t)n, 1); } }
    int add(const char *n, int t, XML_Binary_Type ty) { return FindOrAddTyped(n, t, ty); }
    int add(const char *n, int t, const char *v) { return FindOrAdd(n, t, v); }
    int find(const char *n, int t) { return Find(n, t); }
    int count(int t) { return symbol_count[t]; } const char *name(int t, int i) { return symbol_table[t][i]; } int type(int t, int i) { return symbol_table_types[t][i]; }
    void full(char *pool, int t) { for (int i = 0; i < MAX_SYMBOL_COUNT; i++) { char *p = pool + i * 5; for (int k = 0; k < 4; k++) p[k] = (char)('a' + ((i >> (4 * (3 - k))) & 15)); p[4] = 0; symbol_table[t][i] = p; symbol_table_types[t][i] = XBT_STRING; } symbol_count[t] = MAX_SYMBOL_COUNT; }
};
#ifndef SOPS
#define SOPS 3
#endif
//@H intern_ops prop=C01 time=200 shards=8 tdefs=SOPS=4 ttime=800 tshards=16
//@B intern_ops every sequence of 3 (thorough 4) registrations of names of an arbitrary byte or none (the last of up to 2 bytes) in both tables, with a stored type (any for the second) or with one of 6 values whose type is detected
H(intern_ops)
{
    debug_status = nullptr; g_nn = 0; Src *src = new Src; Cr C(src); C.tables(SOPS + 1);
    struct { char n[3]; int t; XML_Binary_Type ty; } m[SOPS]; int w = (int)vh_choose(1 << SOPS);
    static const char *VS[6] = {nullptr, "", "5", "4.25", "x", "12345678901"};
    static const XML_Binary_Type VT[6] = {XBT_NULL, XBT_NULL, XBT_INT32, XBT_INT32_CENTI, XBT_STRING, XBT_INT64};
    for (int i = 0; i < SOPS; i++)
    {
        m[i].n[0] = (char)vh_u8(); m[i].n[1] = i == SOPS - 1 ? (char)vh_u8() : 0; m[i].n[2] = 0; m[i].t = w >> i & 1 && i == 2;
        int r;
        if (w >> i & 1 || i == 0) { int v = i < 2 ? (int)vh_choose(6) : 4; m[i].ty = VT[v]; r = C.add(m[i].n, m[i].t, VS[v]); }
        else { uint8_t t = i == 1 ? vh_u8() : i == 2 ? XBT_INT64 : XBT_GUID; vh_assume(t < XBT_LAST); m[i].ty = (XML_Binary_Type)t; r = C.add(m[i].n, m[i].t, m[i].ty); }
        VH_ASSERT(r >= 0 && r < C.count(m[i].t) && strcmp(C.name(m[i].t, r), m[i].n) == 0, "a registered name gets its entry");
    }
    for (int t = 0; t < 2; t++)
    {
        int distinct = 0;
        for (int i = 0; i < SOPS; i++)
        {
            if (m[i].t != t) continue;
            bool first = true; int ty = 0, cnt = 0;
            for (int k = 0; k < SOPS; k++) if (m[k].t == t && strcmp(m[k].n, m[i].n) == 0) { if (k < i) first = false; ty = cnt++ ? XBT_JoinTypes(m[k].ty, (XML_Binary_Type)ty) : m[k].ty; }
            if (first) distinct++;
            int f = C.find(m[i].n, t); VH_ASSERT(f >= 0 && f < C.count(t) && strcmp(C.name(t, f), m[i].n) == 0, "a registered name is found");
            VH_ASSERT(C.type(t, f) == ty, "the recorded type is the join of the types seen");
        }
        VH_ASSERT(C.count(t) == distinct, "every name has one entry");
        for (int i = 0; i + 1 < C.count(t); i++) VH_ASSERT(strcmp(C.name(t, i), C.name(t, i + 1)) < 0, "the table is sorted by name");
    }
    char q[3] = {(char)vh_u8(), (char)vh_u8(), 0}; bool known = false; for (int i = 0; i < SOPS; i++) if (m[i].t == 0 && strcmp(m[i].n, q) == 0) known = true;
    if (!known) VH_ASSERT(C.find(q, 0) == -1, "an unknown name is reported absent");
    VH_ASSERT(C.find(nullptr, 0) == -1 && C.add(nullptr, 0, XBT_INT32) == -1 && C.add(nullptr, 0, "x") == -1, "no name, no entry");
    VH_REACH("interned");
}
//@H intern_full prop=C01 time=100 steps=20000000
//@B intern_full the full table of 32768 names: every registered name of 3 is found with its entry, a new name (any 2 bytes, the second b) is refused and nothing is changed
H(intern_full)
{
    debug_status = nullptr; g_nn = 0; Src *src = new Src; static Cr *C; C = new Cr(src); C->tables(MAX_SYMBOL_COUNT); char *pool = (char*)malloc(MAX_SYMBOL_COUNT * 5); C->full(pool, 0);
    int i = (int)vh_choose(3) * 16384; if (i >= MAX_SYMBOL_COUNT) i = MAX_SYMBOL_COUNT - 1;
    VH_ASSERT(C->find(pool + i * 5, 0) == i, "a registered name is found");
    VH_ASSERT(C->add(pool + i * 5, 0, XBT_INT32) == i && C->type(0, i) == XBT_STRING, "registering again gives the same entry");
    char q[3] = {(char)vh_u8(), 'b', 0};
    VH_ASSERT(C->find(q, 0) == -1, "an unknown name is reported absent");
    VH_ASSERT(vh_choose(2) ? C->add(q, 0, XBT_INT32) == -1 : C->add(q, 0, "5") == -1, "a name which does not fit is refused");
    VH_ASSERT(C->count(0) == MAX_SYMBOL_COUNT && strcmp(C->name(0, i), pool + i * 5) == 0, "nothing is changed"); VH_REACH("refused");
}
// ---- a writable pool as source: values come in their binary form
struct PV { XML_Binary_Type t; unsigned char b[40]; int n; };
static const XML_Binary_Type PT[] = { XBT_NULL, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_HEX, XBT_GUID, XBT_UNIX_TIME64_MSEC, XBT_BLOB_STRING, XBT_SHA1, XBT_UNIX_TIME, XBT_UINT64 };
enum { PTN = sizeof PT / sizeof PT[0], BS = 8 };
static void fill(PV &v, int k, int len)
{
    v.t = PT[k]; v.n = k == 0 ? 0 : k == 3 || k == 10 ? 4 : k == 6 ? 16 : k == 9 ? 20 : k == 4 || k == 7 || k == 11 ? 8 : len;
    for (int i = 0; i < v.n; i++) { v.b[i] = vh_u8(); if (k == 1 || k == BS) vh_assume(v.b[i] != 0); }
    v.b[v.n] = 0;
}
template<class T> static T as(const PV &p) { T v; memcpy(&v, p.b, sizeof v); return v; }
static BW_element *put_tag(BW_plugin *w, int k, const PV &v)
{
    switch (k)
    {
        case 0: return w->tag(k);
        case 1: case BS: return w->tagStr(k, (const char*)v.b);
        case 2: return w->tagBLOB(k, v.b, v.n);
        case 3: return w->tagInt32(k, as<int32_t>(v));
        case 4: return w->tagInt64(k, as<int64_t>(v));
        case 5: return w->tagHEX(k, v.b, v.n);
        case 6: { GUID_t g; memcpy(&g, v.b, 16); return w->tagGUID(k, &g); }
        case 7: return w->tagTime64(k, as<int64_t>(v));
        case 9: return w->tagSHA1(k, v.b);
        case 10: return w->tagTime(k, as<uint32_t>(v));
        default: return nullptr;
    }
}
static BW_element *put_attr(BW_element *e, int k, const PV &v)
{
    switch (k)
    {
        case 0: return e->attrNull(k);
        case 1: return e->attrStr(k, (const char*)v.b);
        case 2: return e->attrBLOB(k, v.b, v.n);
        case 3: return e->attrInt32(k, as<int32_t>(v));
        case 4: return e->attrInt64(k, as<int64_t>(v));
        case 5: return e->attrHEX(k, v.b, v.n);
        case 6: return e->attrGUID(k, (const char*)v.b);
        case 7: return e->attrTime64(k, as<int64_t>(v));
        case 9: return e->attrSHA1(k, (const char*)v.b);
        case 10: return e->attrTime(k, as<uint32_t>(v));
        case 11: return e->attrUInt64(k, as<uint64_t>(v));
        default: return nullptr;
    }
}
static void check_value(XML_Binary_Data_Ref d, const PV &v)
{
    bool var = v.t == XBT_BLOB || v.t == XBT_HEX || v.t == XBT_BLOB_STRING; d.content = d.data + (var ? 4 : 0); d.content_size = d.size - (var ? 4 : 0);
    if (v.t == XBT_NULL) { VH_ASSERT(d.type == XBT_NULL, "nothing stays nothing"); return; }
    VH_ASSERT(d.type == v.t && d.data != nullptr, "the value keeps its type");
    if (v.t == XBT_STRING) VH_ASSERT((int)strlen(d.content) == v.n, "a text keeps its length");
    else if (v.t != XBT_BLOB_STRING) VH_ASSERT(d.content_size == v.n, "a value keeps its size");
    else VH_ASSERT(d.content_size > v.n && d.content[v.n] == 0, "a text ends where it should");
    bool eq = true; for (int i = 0; i < v.n; i++) eq &= (unsigned char)d.content[i] == v.b[i]; VH_ASSERT(eq, "a value keeps its content");
}
struct PW : public BW_plugin { PW() : BW_plugin("s.xbw", nullptr, 0x10000, BIN_WRITE_CFG_ALWAYS_CREATE_NEW) {} };
static BW_plugin *source_pool()
{
    BW_plugin *w = new PW; VH_ASSERT(w->Initialize(), "an empty file becomes a pool"); char n[2] = { 0, 0 };
    for (int i = 0; i < PTN; i++) { n[0] = (char)('a' + i); VH_ASSERT(w->registerTag(i, n, PT[i]), "registered"); n[0] = (char)('A' + i); VH_ASSERT(w->registerAttr(i, n, PT[i]), "registered"); }
    VH_ASSERT(w->allRegistered(), "indexes are made"); return w;
}
//@H conv_pool prop=C02,B08 flow=1 time=200 shards=12
//@B conv_pool a writable pool as source: a node of each of 12 types with two attributes of each of 11 types and a child behind, with any value, texts and data of 3 or 20 bytes
H(conv_pool)
{
    debug_status = nullptr; int k = (int)vh_choose(PTN), len = vh_choose(2) ? 20 : 3; int a = (int)vh_choose(PTN), b = (int)vh_choose(PTN); if (a == BS || b == BS || a == b || (k > 0 && a != 1 && b != 1)) vh_assume(false);
    if (k == 11) { k = 0; len = 7; }
    g_outn = 0; BW_plugin *w = source_pool(); PV v, va, vb, vc; fill(v, k, len); fill(va, a, len); fill(vb, b, 3); fill(vc, 3, 4);
    BW_element *root = w->tag(0), *e = put_tag(w, k, v), *c = put_tag(w, 3, vc); VH_ASSERT(e && c && put_attr(e, a, va) == e && put_attr(e, b, vb) == e, "the document is made");
    root->add(e); root->add(c); w->setRoot(root);
    Bin_xml_creator *C = new Bin_xml_creator((Bin_src_plugin*)w, "d.xb"); VH_ASSERT(C->DoAll(), "the document is converted");
    XB_reader *R = new XB_reader((char*)"d.xb"); R->verbosity = 0; VH_ASSERT(R->Initialize(), "the image passes the reader's check");
    XML_Item *X = R->getRoot(); VH_ASSERT(X != nullptr && strcmp(R->getNodeName(X->name), "a") == 0 && X->childcount == 2 && X->paramcount == 0, "the root is there");
    XML_Item *E = X->getChildByIndex(0), *D = X->getChildByIndex(1); char n[2] = { (char)('a' + k), 0 };
    VH_ASSERT(strcmp(R->getNodeName(E->name), n) == 0 && E->childcount == 0 && E->paramcount == 2, "the node is there"); check_value(E->getData(), v);
    for (int i = 0; i < 2; i++) { XML_Param_Description *P = E->getParamByIndex(i); n[0] = (char)('A' + (i ? b : a)); VH_ASSERT(strcmp(R->getParamName(P->name), n) == 0, "the attribute is there"); check_value(P->getData(E), i ? vb : va); }
    VH_ASSERT(strcmp(R->getNodeName(D->name), "d") == 0 && D->paramcount == 0, "the node behind is there"); check_value(D->getData(), vc);
    VH_REACH("converted");
}
