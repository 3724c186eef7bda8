//@SRC bin_json_plugin.cpp bin_xml_creator.cpp jsmn/jsmn.c utils.cpp macros.cpp missings.cpp bin_xml_types.cpp
//@WRAP _Z12file_getsizePKc open mmap munmap close
// JSON tokenizer (J01 J02 J03) and the JSON source document (J04)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <binary_xml/macros.h>
#include <binary_xml/bin_json_plugin.h>
using namespace pklib_xml;
#ifndef JN
#define JN 5
#define JT 6
#define JO 4
#define JD 3
#endif
namespace pklib_xml { extern const Bin_src_plugin_selector_t BIN_SRC_PLUGIN_SELECTOR = nullptr; }
static char *g_text; static int g_len;
extern "C" {
off_t vh__Z12file_getsizePKc(const char *) { return g_len; }
int vh_open(const char *, int, ...) { return 77; }
void *vh_mmap(void *, size_t n, int, int, int, off_t) { return g_text; }
int vh_munmap(void *, size_t) { return 0; }
int vh_close(int) { return 0; }
}
static char *bytes(int n) { char *s = (char*)malloc(n ? n : 1); for (int i = 0; i < n; i++) s[i] = (char)vh_u8(); return s; }
static int parse(const char *s, int n, jsmntok_t *t, unsigned m) { jsmn_parser p; jsmn_init(&p); return jsmn_parse(&p, s, n, t, m); }
static void check_tokens(const jsmntok_t *t, int used, int r, int n)
{
    for (int i = 0; i < used; i++)
    {
        VH_ASSERT(t[i].start >= 0 && t[i].start <= n, "a token starts in the text");
        if (r >= 0) VH_ASSERT(t[i].end >= t[i].start && t[i].end <= n, "a token ends in the text, not before its start");
        VH_ASSERT(t[i].parent >= -1 && t[i].parent < i, "a token comes after its parent");
        VH_ASSERT(t[i].size >= 0 && t[i].size < (r >= 0 ? r : used + 1), "a token has less members than there are tokens");
    }
}
//@H js_any prop=J01,J02 time=250 shards=10 tdefs=JN=6,JT=7,JD=4,JO=5 tshards=30
//@B js_any all texts of up to 5 bytes (thorough 6) of any value, each with every token budget from none to one more than its length, and the counting pass
H(js_any)
{
    int k = (int)vh_choose((JN + 1) * (JN + 2)), n = k % (JN + 1), m = k / (JN + 1); if (m > n + 1) return;
    char *s = bytes(n); jsmntok_t *t = (jsmntok_t*)malloc(sizeof(jsmntok_t) * (m ? m : 1));
    for (int i = 0; i < m; i++) t[i].type = (jsmntype_t)99;
    int r = parse(s, n, t, m), c = parse(s, n, nullptr, 0), used = 0;
    VH_ASSERT(r >= -3 && r <= m, "the result is a number of tokens within the budget or an error");
    VH_ASSERT(c >= -3 && c <= n, "the counting pass gives a number of tokens or an error");
    while (used < m && t[used].type != (jsmntype_t)99) used++;
    if (r >= 0)
    {
        VH_ASSERT(used == r, "exactly the reported tokens are filled");
        VH_ASSERT(c == r, "the counting pass announces exactly the tokens which are filled");
        check_tokens(t, r, r, n);
        for (int i = 0; i < r; i++)
        {
            int members = 0; for (int j = i + 1; j < r; j++) members += t[j].parent == i;
            VH_ASSERT(t[i].size == members, "the size of a token is the number of its members");
        }
        VH_REACH("accepted");
    }
    else
    {
        VH_ASSERT(c < 0 || r != JSMN_ERROR_NOMEM || m < c, "a budget as big as announced is always enough");
        check_tokens(t, used, r, n);
        VH_REACH("refused");
    }
    if (c < 0) VH_ASSERT(r < 0, "an error of the counting pass is an error of the filling pass");
}
// ---- well-formed documents with the tokens they must have
struct Tok { int type, start, end, size, parent; };
static char *js; static int L, NT_, wsm, strm, strs, prims; static Tok T[40];
static void put(char c) { js[L++] = c; }
static void ws() { static const char W[5] = " \t\n\r"; if (wsm == 1) put(W[vh_below8(4)]); else if (wsm == 2) { put('\n'); put(' '); } }
static int tok(int type, int parent) { T[NT_] = {type, L, -1, 0, parent}; if (parent >= 0) T[parent].size++; return NT_++; }
static int gstr(int parent)
{
    int v = (strm + strs++) % 5; put('"'); int t = tok(JSMN_STRING, parent);
    if (v == 1 || v == 2) for (int i = 0; i < v; i++) { int w = (strs + i + wsm) % 3; put((char)(w == 0 ? 35 + vh_below8(57) : w == 1 ? 93 + vh_below8(163) : 1 + vh_below8(33))); }
    else if (v == 3) { static const char E[9] = "\"/\\bfrnt"; put('\\'); put(E[vh_below8(8)]); put((char)('a' + vh_below8(26))); }
    else if (v == 4) { put('\\'); put('u'); put((char)('0' + vh_below8(10))); put((char)('a' + vh_below8(6))); put((char)('A' + vh_below8(6))); put((char)('0' + vh_below8(10))); put('"' == 0); L--; }
    T[t].end = L; put('"'); return t;
}
static void gprim(int parent)
{
    int n = 1 + (prims++ & 1), t = tok(JSMN_PRIMITIVE, parent);
    for (int i = 0; i < n; i++) put((char)((prims + i) & 1 ? '0' + vh_below8(10) : (i ? 'a' : '-') + vh_below8(i ? 26 : 2)));
    T[t].end = L;
}
static void gval(int parent, int depth, int &room)
{
    int kinds = depth <= 0 ? 2 : 4, k = (int)vh_choose(kinds);
    if (k == 0) { gprim(parent); return; }
    if (k == 1) { gstr(parent); return; }
    int obj = k == 2, per = obj ? 2 : 1, max = room / per; if (max > 2 + (JT > 6)) max = 2 + (JT > 6);
    int m = (int)vh_choose((uint32_t)max + 1); room -= m * per;
    int t = tok(obj ? JSMN_OBJECT : JSMN_ARRAY, parent); put(obj ? '{' : '[');
    for (int i = 0; i < m; i++)
    {
        if (i) { put(','); } ws(); int p = t;
        if (obj) { p = gstr(t); ws(); put(':'); ws(); }
        gval(p, depth - 1, room);
        ws();
    }
    put(obj ? '}' : ']'); T[t].end = L;
}
static void gdoc(int shape)
{
    js = (char*)malloc(400); L = NT_ = strs = prims = 0; strm = shape % 5; wsm = shape / 5;
    int room = JT - 1; ws(); gval(-1, JD, room); ws();
    g_text = (char*)malloc(L); memcpy(g_text, js, L); g_len = L;      // not terminated
}
//@H js_tree prop=J01,J02,J03 time=250 shards=15 merge=0 tdefs=JN=6,JT=7,JD=4,JO=5
//@B js_tree all well-formed documents of up to 6 tokens (thorough 7) nested up to 3 levels (4), with characters of all classes in strings of up to 6 bytes and primitives of up to 2, with escapes, without blanks or with any blank between the tokens
H(js_tree)
{
    gdoc((int)vh_choose(15));
    int c = parse(g_text, g_len, nullptr, 0);
    VH_ASSERT(c == NT_, "the counting pass announces every token");
    jsmntok_t *t = (jsmntok_t*)malloc(sizeof(jsmntok_t) * c);
    int r = parse(g_text, g_len, t, c);
    VH_ASSERT(r == NT_, "a well-formed document is accepted with all its tokens");
    for (int i = 0; i < NT_; i++)
    {
        VH_ASSERT((int)t[i].type == T[i].type, "a token has its kind");
        VH_ASSERT(t[i].start == T[i].start && t[i].end == T[i].end, "a token spans exactly its text");
        VH_ASSERT(t[i].size == T[i].size, "a token has its number of members");
        VH_ASSERT(t[i].parent == T[i].parent, "a token knows its parent");
    }
    if (c > 1) { jsmntok_t *u = (jsmntok_t*)malloc(sizeof(jsmntok_t) * (c - 1)); VH_ASSERT(parse(g_text, g_len, u, c - 1) == JSMN_ERROR_NOMEM, "a budget which is too small is reported"); }
    VH_REACH("document");
}
// ---- the document presented by the plugin
static int seen, order[40], deeps[40];
struct Doc : Bin_json_plugin { Doc() : Bin_json_plugin("x.json", nullptr) {} jsmntok_t *tk() { return tokens; } };
static Doc *doc;
static int valof(int i) { return T[i].parent >= 0 && T[T[i].parent].type == JSMN_OBJECT ? i + 1 : i; }
static void check_node(int i)
{
    // name
    const char *n = doc->getNodeName(doc->tk() + i); int p = T[i].parent;
    if (p < 0) VH_ASSERT(n == nullptr, "the root has no name");
    else if (T[p].type == JSMN_OBJECT)
    {
        int len = T[i].end - T[i].start;
        VH_ASSERT(n != nullptr && (int)strlen(n) == len && vh_eqn(n, js + T[i].start, len), "a member has its own name");
        VH_REACH("member name");
    }
    else
    {
        int q = T[p].parent;
        if (q >= 0 && T[q].type == JSMN_STRING)
        {
            int len = T[q].end - T[q].start; char want[32]; memcpy(want, js + T[q].start, len);
            if (len > 1 && want[len-1] == 's') len--;
            else if (len > 4 && want[len-4] == 'L' && want[len-3] == 'i' && want[len-2] == 's' && want[len-1] == 't') len -= 4;
            else { memcpy(want + len, "Item", 4); len += 4; }
            VH_ASSERT(n != nullptr && (int)strlen(n) == len && vh_eqn(n, want, len), "an element is named after its array");
            VH_REACH("element name");
        }
    }
    // value, the name stays valid
    char keep[40]; int kl = n ? (int)strlen(n) : 0; if (n) memcpy(keep, n, kl);
    int v = valof(i); const char *s = doc->getNodeValue(doc->tk() + i);
    if (T[v].type == JSMN_STRING || T[v].type == JSMN_PRIMITIVE)
    {
        int len = T[v].end - T[v].start;
        VH_ASSERT(s != nullptr && (int)strlen(s) == len && vh_eqn(s, js + T[v].start, len), "a scalar has its text as value");
    }
    else VH_ASSERT(s == nullptr, "an object or array has no value of its own");
    if (n) VH_ASSERT((int)strlen(n) == kl && vh_eqn(n, keep, kl), "name and value of a node can be used together");
}
static void on(void *e, void *) { int i = (int)((jsmntok_t*)e - doc->tk()); VH_ASSERT(seen < 40 && i >= 0 && i < NT_, "a member lies in the document"); order[seen++] = i; }
static void onr(void *e, void *, int deep) { int i = (int)((jsmntok_t*)e - doc->tk()); VH_ASSERT(seen < 40 && i >= 0 && i < NT_, "a node lies in the document"); deeps[seen] = deep; order[seen++] = i; }
static void walk(int i, int deep, int *want, int *wd, int &n)
{
    want[n] = i; wd[n++] = deep; int v = valof(i);
    if (T[v].type == JSMN_STRING || T[v].type == JSMN_PRIMITIVE) return;
    int kids[10], k = 0; for (int j = v + 1; j < NT_; j++) if (T[j].parent == v) kids[k++] = j;
    seen = 0; doc->ForAllChildren(on, doc->tk() + i, nullptr);
    VH_ASSERT(seen == k, "a node has all its members");
    for (int j = 0; j < k; j++) VH_ASSERT(order[j] == kids[j], "the members of a node come in order");
    for (int j = 0; j < k; j++) walk(kids[j], deep + 1, want, wd, n);
}
//@H js_doc prop=J04 time=250 shards=15 tdefs=JN=6,JT=7,JD=4,JO=5
//@B js_doc all well-formed documents of up to 6 tokens (thorough 7) nested up to 3 levels (4), with any names and values of up to 6 bytes: names, values, members and the recursive walk
H(js_doc)
{
    gdoc((int)vh_choose(15));
    for (int i = 0; i < L; i++) vh_assume(js[i] != 0);
    doc = new Doc(); VH_ASSERT(doc->Initialize(), "a well-formed document is read");
    VH_ASSERT(doc->getRoot() == (void*)doc->tk(), "the root is the first token");
    int want[40], wd[40], n = 0; walk(0, 0, want, wd, n);
    seen = 0; doc->ForAllChildrenRecursively(onr, doc->getRoot(), nullptr, 0);
    VH_ASSERT(seen == n, "the recursive walk visits every node once");
    for (int j = 0; j < n; j++) VH_ASSERT(order[j] == want[j] && deeps[j] == wd[j], "the recursive walk goes in order, parents first");
    for (int j = 0; j < n; j++) check_node(want[j]);
    VH_REACH("document");
}
static void nop(void *e, void *, int) { (void)*(volatile int*)e; doc->getNodeName(e); doc->getNodeValue(e); seen++; VH_ASSERT(seen < 100, "the walk ends"); }
//@H js_odd prop=J04 time=250 shards=16 tdefs=JN=6,JT=7,JD=4,JO=5 tshards=14
//@B js_odd all texts of up to 4 bytes (thorough 5), and all texts made of up to 5 (thorough 6) tokens and punctuation marks in any order: reading ends, and what is accepted is walked without fault
H(js_odd)
{
    static const char *P[] = {"{", "}", "[", "]", ":", ",", "\"", "1"};
    int k = (int)vh_choose(8 * (JO + 1) + JO + 1), n = k < 8 * (JO + 1) ? k / 8 + 1 : k - 8 * (JO + 1);
    if (k >= 8 * (JO + 1)) { g_text = bytes(n); g_len = n; for (int i = 0; i < n; i++) vh_assume(g_text[i] != 0); }
    else
    {
        js = (char*)malloc(40); L = 0;
        for (int i = 0; i < n; i++) { int c = i ? (int)vh_choose(8) : k % 8; if (c == 6) { put('"'); put('a'); put('"'); } else put(P[c][0]); }
        g_text = (char*)malloc(L ? L : 1); memcpy(g_text, js, L); g_len = L;
    }
    if (g_len == 0) return;
    doc = new Doc(); bool ok = doc->Initialize();
    if (ok) { seen = 0; doc->ForAllChildrenRecursively(nop, doc->getRoot(), nullptr, 0); VH_REACH("accepted"); }
    else VH_REACH("refused");
}
