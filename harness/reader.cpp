//@SRC bin_xml.cpp bin_xml_types.cpp utils.cpp macros.cpp missings.cpp files.cpp
// Reading the binary form: the integrity check (R01), accessors (R02), symbol tables (R03), navigation (R04)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <binary_xml/macros.h>
#include <binary_xml/bin_xml_types.h>
#include <binary_xml/bin_xml.h>
using namespace pklib_xml;
namespace pklib_xml { class Bin_xml_packer { public: static bool Convert(const char *, const char *); }; bool Bin_xml_packer::Convert(const char *, const char *) { return false; } }
#ifndef SL
#define SL 3      // text and data length
#endif
#ifndef SZ
#define SZ 44     // bytes of an arbitrary document
#endif
#ifndef NODES
#define NODES 4
#endif
static const XML_Binary_Type VT[] = {XBT_NULL, XBT_STRING, XBT_INT32, XBT_INT64, XBT_BLOB, XBT_HEX, XBT_BLOB_STRING, XBT_FLOAT, XBT_DOUBLE, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME,
    XBT_IPv4, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_INT32_CENTI, XBT_INT32_MILI, XBT_INT32_MICRO, XBT_INT32_NANO};
enum { NVT = sizeof(VT) / sizeof(VT[0]) };
static bool printable(XML_Binary_Type t) { return t != XBT_FLOAT && t != XBT_DOUBLE && t != XBT_UNIX_TIME && t != XBT_UNIX_TIME64_MSEC && t != XBT_UNIX_DATE; }
struct Val { XML_Binary_Type t; char *data; int size, len; };        // where the value lies, its bytes including any length word
static bool g_small;      // numbers of one digit: for the text forms (the printing itself is decided by V01, V07, V09 and V10)
static Val put(XML_Binary_Type t, char *&wp, bool number)
{
    Val v; v.t = t; v.size = 0; v.len = 0;
    if (t == XBT_NULL) { v.data = wp; return v; }
    if (t == XBT_STRING)
    {
        v.data = wp; v.len = vh_len(number ? 1 : 0, SL);
        for (int i = 0; i < v.len; i++) { if (number) *wp++ = (char)('0' + vh_below8(10)); else { uint8_t c = vh_u8(); vh_assume(c != 0); *wp++ = (char)c; } }
        *wp++ = 0; v.size = v.len + 1; return v;
    }
    if (XBT_IS_8(t)) AA8(wp); else AA(wp);
    v.data = wp;
    if (XBT_IS_VARSIZE(t))
    {
        v.len = vh_len(0, SL); int n = t == XBT_BLOB_STRING ? 16 : v.len; *(int32_t*)wp = n; wp += 4;
        for (int i = 0; i < v.len; i++) { uint8_t c = vh_u8(); if (t == XBT_BLOB_STRING) vh_assume(c != 0); *wp++ = (char)c; }
        for (int i = v.len; i < n; i++) *wp++ = 0;
        v.size = 4 + n; return v;
    }
    v.size = XBT_IS_4(t) ? 4 : XBT_IS_8(t) ? 8 : t == XBT_GUID ? 16 : 20; v.len = v.size;
    bool num = XBT_IS_4(t) || XBT_IS_8(t);
    for (int i = 0; i < v.size; i++) *wp++ = (char)(g_small && num ? (i == 0 ? vh_below8(10) : 0) : vh_u8());
    return v;
}
static bool same_text(const char *a, const char *b)
{
    if (a == nullptr || b == nullptr) return a == b;
    return strcmp(a, b) == 0;
}
static void check_data(XML_Binary_Data_Ref d, const Val &v)
{
    VH_ASSERT(d.type == v.t, "the data has the stored type");
    VH_ASSERT(d.size == v.size, "the data has the stored size");
    VH_ASSERT(v.size == 0 || d.data == v.data, "the data is the stored value");
}
static int number_of(const Val &v) { int x = 0; for (int i = 0; i < v.len; i++) x = x * 10 + (v.data[i] - '0'); return x; }
//@H item_value prop=R02 time=150 shards=22 tdefs=SL=8 ttime=500
//@B item_value a node at both phases of its 8-byte alignment with 0..2 parameters and 0..1 children and a value of every storable type (texts and data up to 3 bytes, 8 thorough); text of float and clock types excluded
H(item_value)
{
    debug_status = nullptr;
    XML_Binary_Type t = VT[vh_choose(NVT)]; int base = 4 * (int)vh_choose(2), pc = (int)vh_choose(3), cc = (int)vh_choose(2); bool num = t == XBT_STRING && vh_choose(2) == 1; g_small = printable(t) && vh_choose(2) == 1; if (t == XBT_SHA1 || t == XBT_GUID) g_small = true;
    char *img = (char*)aligned_alloc(16, 128), *wp = img + base; memset(img, 0, 128);
    XML_Item *X = (XML_Item*)wp; wp += sizeof(XML_Item); X->name = 0; X->paramcount = pc; X->childcount = cc;
    XML_Param_Description *P = (XML_Param_Description*)wp; wp += 8 * pc; for (int i = 0; i < pc; i++) { P[i].name = i; P[i].type = XBT_INT32; P[i].data = (int32_t)vh_u32(); }
    for (int i = 0; i < cc; i++) { *(relative_ptr_t*)wp = 64; wp += 4; }
    *wp++ = (char)t; Val v = put(t, wp, num); X->length = (int)(wp - (char*)X);
    check_data(X->getData(), v);
    int32_t i32 = X->getInt(); const int32_t *p32 = X->getIntPtr(); const int64_t *p64 = X->getInt64Ptr();
    if (t == XBT_INT32) { VH_ASSERT(i32 == *(int32_t*)v.data && p32 == (int32_t*)v.data, "a stored 32-bit number is returned"); VH_ASSERT(p64 == nullptr, "a 32-bit number is no 64-bit number"); }
    else if (t == XBT_INT64) { VH_ASSERT(p64 == (int64_t*)v.data, "a stored 64-bit number is returned"); VH_ASSERT(p32 == nullptr && i32 == INT32_NULL, "a 64-bit number is no 32-bit number"); }
    else if (t == XBT_STRING) { if (num) VH_ASSERT(i32 == number_of(v) && p32 != nullptr && *p32 == number_of(v) && p64 != nullptr && *p64 == number_of(v), "the number in a text is returned"); }
    else VH_ASSERT(p32 == nullptr && p64 == nullptr && i32 == INT32_NULL, "no number is reported for other types");
    int32_t bs = -7; const void *bin = X->getBinary(&bs);
    if (t == XBT_BLOB) VH_ASSERT(bin == v.data + 4 && bs == v.len, "binary data is returned with its size");
    else if (t == XBT_STRING) VH_ASSERT(bin == v.data && bs == v.len, "a text is returned as data with its length");
    else VH_ASSERT(bin == nullptr, "no data is reported for other types");
    if (printable(t) && (g_small || t == XBT_STRING))
    {
        const char *s = X->getString();
        if (t == XBT_STRING) VH_ASSERT(s == v.data, "the text is the stored text"); else VH_ASSERT(same_text(s, XBT_ToString(t, v.data)), "the text is the text form of the value");
        char buf[300]; int off = 0, n = X->getStringChunk(off, buf, sizeof buf);
        VH_ASSERT(n == 0 ? s == nullptr || *s == 0 : same_text(s, buf), "the text in chunks is the text");
        VH_ASSERT(X->getStringChunk(off, buf, sizeof buf) == 0, "the text ends");
    }
    VH_REACH("value");
}
//@H two_items prop=R02 time=100
//@B two_items the number accessors asked for two different nodes one after the other, every pair of texts of up to 3 digits
H(two_items)
{
    char *img = (char*)aligned_alloc(16, 64); memset(img, 0, 64);
    for (int i = 0; i < 2; i++)
    {
        XML_Item *X = (XML_Item*)(img + 32 * i); char *wp = (char*)(X + 1); X->length = 32;
        *wp++ = XBT_STRING; Val v = put(XBT_STRING, wp, true);
        const int32_t *p = X->getIntPtr(); VH_ASSERT(p != nullptr && *p == number_of(v), "each node gives its own number");
        const int64_t *q = X->getInt64Ptr(); VH_ASSERT(q != nullptr && *q == number_of(v), "each node gives its own 64-bit number");
    }
    VH_REACH("two");
}
//@H param_value prop=R02 time=150 shards=22 tdefs=SL=8 ttime=500
//@B param_value a node with 1..2 parameters, either one holding a value of every storable type, inline or out of line at both alignment phases; text of float and clock types excluded
H(param_value)
{
    debug_status = nullptr;
    XML_Binary_Type t = VT[vh_choose(NVT)]; int base = 4 * (int)vh_choose(2), pc = 1 + (int)vh_choose(2), at = (int)vh_choose((uint32_t)pc); bool num = t == XBT_STRING && vh_choose(2) == 1; g_small = printable(t) && vh_choose(2) == 1; if (t == XBT_SHA1 || t == XBT_GUID) g_small = true;
    char *img = (char*)aligned_alloc(16, 128), *wp = img + base; memset(img, 0, 128);
    XML_Item *X = (XML_Item*)wp; wp += sizeof(XML_Item); X->name = 0; X->paramcount = pc;
    XML_Param_Description *P = (XML_Param_Description*)wp; wp += 8 * pc; for (int i = 0; i < pc; i++) { P[i].name = i; P[i].type = XBT_NULL; P[i].data = 0; }
    *wp++ = XBT_NULL; Val v; P[at].type = t;
    if (XBT_IS_4(t)) { v.t = t; v.data = (char*)&P[at].data; v.size = v.len = 4; P[at].data = g_small ? (int32_t)vh_below8(10) : (int32_t)vh_u32(); }
    else if (t == XBT_NULL) { v.t = t; v.size = v.len = 0; v.data = nullptr; }
    else { v = put(t, wp, num); P[at].data = (int)(v.data - (char*)X); }
    X->length = (int)(wp - (char*)X);
    XML_Param_Description *Q = X->getParamByIndex(at); VH_ASSERT(Q == P + at, "the parameter is found");
    check_data(Q->getData(X), v);
    int32_t i32 = Q->getInt(X); const int32_t *p32 = Q->getIntPtr(X); const int64_t *p64 = Q->getInt64Ptr(X);
    if (t == XBT_INT32) { VH_ASSERT(i32 == P[at].data && p32 == &P[at].data, "a stored 32-bit number is returned"); VH_ASSERT(p64 == nullptr, "a 32-bit number is no 64-bit number"); }
    else if (t == XBT_INT64) { VH_ASSERT(p64 == (int64_t*)v.data, "a stored 64-bit number is returned"); VH_ASSERT(p32 == nullptr && i32 == INT32_NULL, "a 64-bit number is no 32-bit number"); }
    else if (t == XBT_STRING) { if (num) VH_ASSERT(i32 == number_of(v) && p32 != nullptr && *p32 == number_of(v) && p64 != nullptr && *p64 == number_of(v), "the number in a text is returned"); }
    else VH_ASSERT(p32 == nullptr && p64 == nullptr && i32 == INT32_NULL, "no number is reported for other types");
    if (printable(t) && (g_small || t == XBT_STRING))
    {
        const char *s = Q->getString(X);
        if (t == XBT_STRING) VH_ASSERT(s == v.data, "the text is the stored text"); else if (t == XBT_NULL) VH_ASSERT(s == nullptr || *s == 0, "no text for no value"); else VH_ASSERT(same_text(s, XBT_ToString(t, v.data)), "the text is the text form of the value");
        char buf[300]; int off = 0, n = Q->getStringChunk(X, off, buf, sizeof buf);
        VH_ASSERT(n == 0 ? s == nullptr || *s == 0 : same_text(s, buf), "the text in chunks is the text");
    }
    VH_REACH("value");
}
// ---- R01
struct Rd : public XB_reader { Rd(char *d, long n, int tags, int params) : XB_reader(nullptr) { doc = (XML_Item*)d; size = n; tag_symbols.count = tags; param_symbols.count = params; verbosity = 0; } };
static bool sound_value(int t, const char *p, const char *end)     // p: where the value is read from (aligned already)
{
    long room = end - p;
    if (t == XBT_NULL) return true;
    if (room < 0) return false;
    switch (t)
    {
        case XBT_STRING: { for (; p < end; p++) if (*p == 0) return true; return false; }
        case XBT_BLOB: case XBT_HEX: case XBT_BLOB_STRING:
        {
            if (room < 4) return false;
            int32_t n = *(const int32_t*)p; if (n < 0 || n > room - 4) return false;
            if (t == XBT_BLOB_STRING) { p += 4; for (int i = 0; i < n; i++) if (p[i] == 0) return true; return false; }
            return true;
        }
        case XBT_GUID: case XBT_IPv6: return room >= 16;
        case XBT_SHA1: return room >= 20;
        case XBT_INT64: case XBT_UINT64: case XBT_DOUBLE: case XBT_UNIX_TIME64_MSEC: return room >= 8;
        case XBT_INT32: case XBT_UINT32: case XBT_FLOAT: case XBT_UNIX_TIME: case XBT_UNIX_DATE: case XBT_IPv4:
        case XBT_INT32_DECI: case XBT_INT32_CENTI: case XBT_INT32_MILI: case XBT_INT32_MICRO: case XBT_INT32_NANO: return room >= 4;
        default: return false;
    }
}
static bool sound(Rd &R, long at, long lo, long hi, bool rec)     // the node at offset `at`, which must lie within [lo,hi)
{
    const char *doc = (const char*)R.doc;
    if (at < lo || (at & 3) != 0 || at + 12 > hi) return false;
    const XML_Item *X = (const XML_Item*)(doc + at);
    long len = X->length, pc = X->paramcount, cc = X->childcount;
    if (len < 0 || at + len > hi) return false;
    if (X->name <= XTNR_LAST || X->name >= R.tag_symbols.count || pc < 0 || cc < 0) return false;
    long head = 12 + 8 * pc + 4 * cc; if (head + 1 > len) return false;
    const char *me = doc + at, *end = me + len;
    const XML_Param_Description *P = (const XML_Param_Description*)(X + 1);
    for (long i = 0; i < pc; i++)
    {
        if (P[i].name <= XPNR_LAST || P[i].name >= R.param_symbols.count) return false;
        int t = P[i].type;
        if (t == XBT_NULL || XBT_IS_4(t)) continue;
        if (P[i].data < 0 || P[i].data > len) return false;
        if (!sound_value(t, me + P[i].data, end)) return false;
    }
    const char *v = me + head; int t = *(const XML_Binary_Type_Stored*)v++;
    if (t == XBT_INT64 || t == XBT_UINT64 || t == XBT_DOUBLE || t == XBT_UNIX_TIME64_MSEC || t == XBT_IPv6) AA8(v); else if (t != XBT_STRING) AA(v);
    if (!sound_value(t, v, end)) return false;
    const relative_ptr_t *ch = (const relative_ptr_t*)(me + 12 + 8 * pc);
    for (long i = 0; i < cc; i++)
    {
        long c = ch[i];
        bool before = c < 0;                                       // packed documents refer to a complete earlier node
        long l = before ? 0 : at + 12, h = before ? at : at + len;
        if (at + c < l || ((at + c) & 3) != 0 || at + c + 12 > h) return false;
        long cl = ((const XML_Item*)(me + c))->length; if (cl < 0 || at + c + cl > h) return false;
    }
    if (rec) for (long i = 0; i < cc; i++) if (!sound(R, at + ch[i], 0, R.size, true)) return false;
    return true;
}
static void check_any(char *img, long n, bool rec)
{
    Rd R(img, n, 2, 2);
    bool ok = R.doc->Check(&R, rec), want = sound(R, 0, 0, n, rec);
    VH_ASSERT(!want || ok, "a sound document is accepted");
    VH_ASSERT(want || !ok, "a corrupt document is refused");
    if (ok) VH_REACH("accepted"); else VH_REACH("refused");
}
#ifndef PN
#define PN 2
#endif
//@H check_param prop=R01 time=200 shards=2 tdefs=PN=9 ttime=800 tshards=9
//@B check_param every content of a node of 36 or 48 bytes (thorough 20..52) with one parameter and no child (every parameter type, position, length and every value)
H(check_param)
{
    debug_status = nullptr;
    static const int NS[] = {36, 48, 20, 24, 28, 32, 40, 44, 52}; int n = NS[vh_choose(PN)]; char *img = (char*)aligned_alloc(16, n);
    for (int i = 0; i < n; i++) img[i] = (char)vh_u8();
    XML_Item *X = (XML_Item*)img; X->paramcount = 1; X->childcount = 0; if (n > 20) img[20] = XBT_NULL;
    XML_Param_Description *P = (XML_Param_Description*)(X + 1); P->type = (XML_Binary_Type_Stored)vh_concrete64(P->type); if (XBT_IS_4(P->type) == 0 && P->type != XBT_NULL) { vh_assume(P->data >= -1 && P->data <= n + 1); P->data = (int32_t)vh_concrete64((uint32_t)P->data); }
    check_any(img, n, true);
}
//@H check_far prop=R01 time=100
//@B check_far every 32-bit parameter position, child position, length and count of a node outside its 40 bytes
H(check_far)
{
    debug_status = nullptr;
    const int n = 40; char *img = (char*)aligned_alloc(16, n); memset(img, 0, n);
    XML_Item *X = (XML_Item*)img; X->length = n; X->paramcount = 1; X->childcount = 1; X->name = 1;
    XML_Param_Description *P = (XML_Param_Description*)(X + 1); relative_ptr_t *ch = (relative_ptr_t*)(P + 1); char *v = (char*)(ch + 1); *v = XBT_NULL;
    ch[0] = 28; XML_Item *C = (XML_Item*)(img + 28);
    int what = (int)vh_choose(8); int32_t x = (int32_t)vh_u32();
    switch (what)
    {
        case 0: P->type = VT[vh_choose(NVT)]; if (P->type == XBT_NULL || XBT_IS_4(P->type)) vh_assume(false); vh_assume(x < 0 || x > n); P->data = x; break;
        case 1: vh_assume(x < 0 || x > n - 12); ch[0] = x; break;
        case 2: vh_assume(x < 12 || x > n); X->length = x; break;
        case 3: vh_assume(x < 0 || x > 1); X->childcount = x; break;
        case 4: vh_assume((int16_t)x < 0 || (int16_t)x > 1); X->paramcount = (int16_t)x; break;
        case 5: vh_assume((int16_t)x <= XTNR_LAST || (int16_t)x >= 2); X->name = (int16_t)x; break;
        case 6: vh_assume((int16_t)x <= XPNR_LAST || (int16_t)x >= 2); P->name = (int16_t)x; break;
        case 7: vh_assume(x < 0 || x > 12); C->length = x; break;
    }
    Rd R(img, n, 2, 2);
    bool rec = what != 4 && vh_choose(2);
    VH_ASSERT(!X->Check(&R, rec), "a node with an impossible position or count is refused");
    VH_REACH("refused");
}
//@H check_value prop=R01 time=200 shards=8
//@B check_value every content of a node of 12..44 bytes without parameters and children (every value type and value, every length)
H(check_value)
{
    debug_status = nullptr;
    int n = 12 + 4 * (int)vh_choose(9); char *img = (char*)aligned_alloc(16, n);
    for (int i = 0; i < n; i++) img[i] = (char)vh_u8();
    XML_Item *X = (XML_Item*)img; X->paramcount = 0; X->childcount = 0;
    check_any(img, n, true);
}
//@H check_children prop=R01 time=300 shards=12 tdefs=CHN=3 ttime=800
//@B check_children documents of 2 (thorough 3) nodes: every position inside the document, every length, child counts 0..2
#ifndef CHN
#define CHN 2
#endif
H(check_children)
{
    debug_status = nullptr;
    const int n = CHN * 24; char *img = (char*)aligned_alloc(16, n); memset(img, 0, n);
    // nodes stand at multiples of 24: 12 bytes header, two child positions, value type byte
    for (int i = 0; i < CHN; i++)
    {
        XML_Item *X = (XML_Item*)(img + 24 * i); X->name = 0; X->paramcount = 0; X->childcount = (int)vh_choose(3); X->length = vh_range(0, n + 1);
        relative_ptr_t *ch = (relative_ptr_t*)(X + 1);
        for (int c = 0; c < X->childcount; c++) ch[c] = -24 * i - 12 + 6 * (int)vh_choose((uint32_t)(n + 24) / 6);
    }
    check_any(img, n, true);
}
// ---- R03
static char *container(int nc, int ntypes, char (*name)[4], uint8_t *ty, long &len)
{
    char *img = (char*)aligned_alloc(16, 256), *wp = img; memset(img, 0, 256);
    XML_Item *X = (XML_Item*)wp; wp += sizeof(XML_Item); X->name = XTNR_TAG_SYMBOLS; X->paramcount = 2;
    XML_Param_Description *P = (XML_Param_Description*)wp; wp += 16;
    P[0].name = XPNR_COUNT; P[0].type = XBT_INT32; P[0].data = nc; P[1].name = XPNR_TYPE_COUNT; P[1].type = XBT_INT32; P[1].data = ntypes;
    *wp++ = XBT_BLOB; AA(wp); int32_t *size = (int32_t*)wp; wp += 4; char *b = wp;
    relative_ptr_t *ref = (relative_ptr_t*)wp; wp += 4 * nc; memcpy(wp, ty, ntypes); wp += ntypes;
    for (int i = 0; i < nc; i++) { ref[i] = (int)(wp - img); int k = (int)strlen(name[i]); memcpy(wp, name[i], k + 1); wp += k + 1; }
    *size = (int)(wp - b); AA(wp); X->length = (int)(wp - img); len = X->length; return img;
}
#ifndef SYMS
#define SYMS 4
#endif
//@H xb_symbols prop=R03 time=200 shards=5 tdefs=SYMS=7 ttime=700
//@B xb_symbols tables of 0..4 names (7 thorough) of 1..2 arbitrary bytes in ascending order, with or without types, and every other name of up to 2 bytes
H(xb_symbols)
{
    debug_status = nullptr;
    int nc = (int)vh_choose(SYMS + 1), nt = vh_choose(2) ? nc : 0; char name[8][4]; uint8_t ty[8];
    for (int i = 0; i < nc; i++)
    {
        int L = nc > 3 ? 1 : 1 + (int)vh_choose(2); vh_str(name[i], L); ty[i] = vh_below8(XBT_LAST);
        if (i > 0) vh_assume(strcmp(name[i-1], name[i]) < 0);
    }
    long len; char *img = container(nc, nt, name, ty, len);
    _XB_symbol_table T; VH_ASSERT(T.Load((XML_Item*)img), "a sound table is loaded");
    VH_ASSERT(T.count == nc, "the table knows its size");
    for (int i = 0; i < nc; i++)
    {
        VH_ASSERT(strcmp(T.getSymbol(i), name[i]) == 0, "an identifier gives its name");
        VH_ASSERT(T.getType(i) == (nt ? ty[i] : XBT_NULL), "an identifier gives its type");
        VH_ASSERT(T.getID(name[i]) == i, "a name gives its identifier");
    }
    char u[4]; int L = (int)vh_choose(3); vh_str(u, L); bool known = false;
    for (int i = 0; i < nc; i++) known |= strcmp(u, name[i]) == 0;
    VH_ASSERT(known == (T.getID(u) >= 0), "exactly the stored names are known");
    int16_t id = (int16_t)vh_u16(); vh_assume(id < 0 || id >= nc);
    const char *s = T.getSymbol(id); VH_ASSERT(s != nullptr && (s < img || s >= img + 256), "no stored name belongs to a foreign identifier");
    VH_ASSERT(T.getType(id) == XBT_NULL, "a foreign identifier has no type");
    VH_REACH("table");
}
//@H xb_symbols_bad prop=R03 time=200 shards=4
//@B xb_symbols_bad a table node of 48 bytes with every count, type count, data size and content: refused or usable without leaving the node
H(xb_symbols_bad)
{
    debug_status = nullptr;
    const int n = 48; char *img = (char*)aligned_alloc(16, n); memset(img, 0, n);
    int kind = (int)vh_choose(3);
    for (int i = 36; i < n; i++) img[i] = (char)vh_u8();
    XML_Item *X = (XML_Item*)img; X->name = XTNR_TAG_SYMBOLS; X->paramcount = 2; X->length = n;
    XML_Param_Description *P = (XML_Param_Description*)(X + 1);
    P[0].name = XPNR_COUNT; P[0].type = XBT_INT32; P[1].name = XPNR_TYPE_COUNT; P[1].type = XBT_INT32; img[28] = XBT_BLOB;
    int32_t c = (int32_t)vh_u32(), tc = (int32_t)vh_u32(), sz = kind == 0 ? (int32_t)vh_u32() : vh_range(0, n - 36);
    if (kind < 2) vh_assume(c < 0 || c > 2); else { vh_assume(c >= 0 && c <= 2); c = (int32_t)vh_concrete64((uint32_t)c); }
    P[0].data = c; P[1].data = tc; *(int32_t*)(img + 32) = sz;
    Rd R(img, n, 0, 0); vh_assume(X->Check(&R, false));
    _XB_symbol_table T; bool ok = T.Load(X);
    if (!ok) { VH_REACH("refused"); return; }
    VH_ASSERT(T.count >= 0 && T.count <= 2, "an impossible count is refused");
    for (int i = 0; i < T.count; i++)
    {
        const char *s = T.getSymbol(i); VH_ASSERT(s >= img && s < img + n, "a name lies in the node");
        (void)T.getType(i); VH_ASSERT(T.getID(s) == i, "every stored name finds its own identifier");
    }
    int16_t id = (int16_t)vh_u16(); vh_assume(id >= T.count || id < 0); (void)T.getSymbol(id); (void)T.getType(id);
    VH_REACH("loaded");
}
// ---- R04
struct Tree { int n, par[8], kids[8][8], nk[8]; XML_Item *it[8]; };
static int g_seen[16], g_deep[16], g_k; static bool g_path; static Tree *g_t;
static void on_item(XML_Item *x, void *u, int deep) { VH_ASSERT(g_k < 16, "no node is visited too often"); for (int i = 0; i < g_t->n; i++) if (g_t->it[i] == x) g_seen[g_k] = i; g_deep[g_k++] = deep; VH_ASSERT(u == (void*)g_t, "the caller's data is passed on"); }
static void on_itemA(XML_Item *x, void *u, int deep, XML_Item **root)
{
    on_item(x, u, deep); int me = g_seen[g_k - 1];
    for (int d = deep, a = g_t->par[me]; d >= 0; d--, a = g_t->par[a]) VH_ASSERT(root[d] == g_t->it[a], "the path of ancestors is given");
}
static void build(Tree &t, int n, bool names)
{
    t.n = n; memset(t.nk, 0, sizeof t.nk); t.par[0] = -1;
    for (int i = 1; i < n; i++) { int p = (int)vh_choose((uint32_t)i); t.par[i] = p; t.kids[p][t.nk[p]++] = i; }
    char *img = (char*)aligned_alloc(16, 1024); memset(img, 0, 1024); int at = 0;
    for (int i = 0; i < n; i++)
    {
        XML_Item *X = (XML_Item*)(img + at); t.it[i] = X; X->paramcount = 2; X->childcount = t.nk[i]; X->name = names ? (int16_t)vh_u16() : i;
        for (int k = 0; k < 2; k++) { XML_Param_Description *P = (XML_Param_Description*)(X + 1) + k; P->name = (int16_t)vh_u16(); P->type = XBT_INT32; P->data = (int32_t)vh_u32(); }
        X->length = 12 + 16 + 4 * t.nk[i] + 4; at += X->length;
        if (names) vh_assume(X->name != XTNR_ET_TECERA);
    }
    for (int i = 0; i < n; i++) for (int k = 0; k < t.nk[i]; k++) ((relative_ptr_t*)((char*)(t.it[i] + 1) + 16))[k] = (int)((char*)t.it[t.kids[i][k]] - (char*)t.it[i]);
}
//@H walk prop=R04 time=200 shards=6 tdefs=NODES=6 ttime=700
//@B walk every tree of up to 4 nodes (6 thorough) with arbitrary names: by index, by name, one after the other
H(walk)
{
    int n = 1 + (int)vh_choose(NODES); Tree t; build(t, n, true); XB_reader R(nullptr); R.doc = t.it[0]; R.size = 1024;
    for (int i = 0; i < n; i++)
    {
        XML_Item *X = t.it[i]; int idx = 0;
        for (int k = 0; k < t.nk[i]; k++) { VH_ASSERT(X->getChildByIndex(k) == t.it[t.kids[i][k]], "a child is found by its index"); VH_ASSERT(X->getNextChild(R, idx) == t.it[t.kids[i][k]], "the children follow one another"); }
        VH_ASSERT(X->getNextChild(R, idx) == nullptr, "after the last child there is none");
        int32_t out = (int32_t)vh_u32(); vh_assume(out < 0 || out >= t.nk[i]); VH_ASSERT(X->getChildByIndex(out) == nullptr, "no child has a foreign index");
        int16_t nm = (int16_t)vh_u16(); XML_Item *want = nullptr;
        for (int k = t.nk[i] - 1; k >= 0; k--) if (t.it[t.kids[i][k]]->name == nm) want = t.it[t.kids[i][k]];
        VH_ASSERT(X->getChildByName((XML_Tag_Names)nm) == want, "the first child of a name is found");
    }
    VH_REACH("walk");
}
//@H walk_params prop=R04 time=100
//@B walk_params a node of 0..3 parameters with arbitrary names, every index and name asked for
H(walk_params)
{
    int pc = (int)vh_choose(4); char *img = (char*)aligned_alloc(16, 64); memset(img, 0, 64);
    XML_Item *X = (XML_Item*)img; X->paramcount = pc; X->length = 64; XML_Param_Description *P = (XML_Param_Description*)(X + 1);
    for (int i = 0; i < pc; i++) P[i].name = (int16_t)vh_u16();
    for (int i = 0; i < pc; i++) VH_ASSERT(X->getParamByIndex(i) == P + i, "a parameter is found by its index");
    int32_t out = (int32_t)vh_u32(); vh_assume(out < 0 || out >= pc); VH_ASSERT(X->getParamByIndex(out) == nullptr, "no parameter has a foreign index");
    int16_t nm = (int16_t)vh_u16(); XML_Param_Description *want = nullptr;
    for (int k = pc - 1; k >= 0; k--) if (P[k].name == nm) want = P + k;
    VH_ASSERT(X->getParamByName((XML_Param_Names)nm) == want, "the first parameter of a name is found");
    VH_REACH("params");
}
static void order(const Tree &t, int i, int deep, bool post, int *seq, int *dp, int &k)
{
    for (int c = 0; c < t.nk[i]; c++)
    {
        int x = t.kids[i][c];
        if (!post) { seq[k] = x; dp[k++] = deep; }
        order(t, x, deep + 1, post, seq, dp, k);
        if (post) { seq[k] = x; dp[k++] = deep; }
    }
}
//@H recurse prop=R04 time=200 shards=6 tdefs=NODES=6 ttime=700
//@B recurse every tree of up to 4 nodes (6 thorough): preorder and both postorder walks from an arbitrary start depth
H(recurse)
{
    int n = 1 + (int)vh_choose(NODES), how = (int)vh_choose(3); Tree t; build(t, n, false); g_t = &t; g_k = 0;
    int deep = how == 2 ? 0 : (int)(vh_u32() & 0xffff); XML_Item *root[16];
    if (how == 0) t.it[0]->ForAllChildrenRecursively(on_item, &t, deep);
    else if (how == 1) t.it[0]->ForAllChildrenRecursively_PostOrder(on_item, &t, deep);
    else t.it[0]->ForAllChildrenRecursively_PostOrderA(on_itemA, &t, deep, root);
    int seq[16], dp[16], k = 0; order(t, 0, deep, how != 0, seq, dp, k);
    VH_ASSERT(g_k == k, "every node is visited exactly once");
    for (int i = 0; i < k; i++) { VH_ASSERT(g_seen[i] == seq[i], "the nodes come in order"); VH_ASSERT(g_deep[i] == dp[i], "the depth is told"); }
    VH_REACH("walk");
}
//@H appended prop=R04 time=100
//@B appended 0..2 nodes of 12..28 bytes appended behind a document that ends in an et-tecera node, with arbitrary unaligned lengths
H(appended)
{
    char *img = (char*)aligned_alloc(16, 128); memset(img, 0, 128);
    XML_Item *doc = (XML_Item*)img; doc->childcount = 2; doc->name = 0; relative_ptr_t *ch = (relative_ptr_t*)(doc + 1); ch[0] = 24; ch[1] = 40;
    XML_Item *a = (XML_Item*)(img + 24), *e = (XML_Item*)(img + 40); a->length = 13; e->length = 13; e->name = XTNR_ET_TECERA; a->name = (int16_t)vh_u16(); vh_assume(a->name != XTNR_ET_TECERA);
    doc->length = 53 + (int)vh_choose(4);
    int k = (int)vh_choose(3), at = 56; XML_Item *x[2];
    for (int i = 0; i < k; i++) { at = (at + 3) & ~3; x[i] = (XML_Item*)(img + at); x[i]->length = 12 + (int)vh_choose(17); x[i]->name = (int16_t)vh_u16(); at += x[i]->length; }
    XB_reader R(nullptr); R.doc = doc; R.size = k == 0 ? doc->length : at;
    int i = 0; VH_ASSERT(doc->getNextChild(R, i) == a, "the stored child comes first");
    for (int j = 0; j < k; j++) VH_ASSERT(doc->getNextChild(R, i) == x[j], "the appended nodes follow in order");
    VH_ASSERT(doc->getNextChild(R, i) == nullptr, "after the last node there is none");
    VH_REACH("appended");
}
