//@SRC bin_write_plugin.cpp bin_xml_creator.cpp bin_xml.cpp bin_xml_types.cpp utils.cpp macros.cpp missings.cpp files.cpp
//@WRAP open close fstat ftruncate mmap munmap
// The writable pool: lists (B01), allocator (B02), symbols (B03), values (B04), opening (B05), registry (B06), clearing (B07), presenting (B08)
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <binary_xml/macros.h>
#include <binary_xml/bin_xml.h>
#include <binary_xml/bin_xml_creator.h>
#include <binary_xml/bin_write_plugin.h>
using namespace pklib_xml;
namespace pklib_xml { extern const Bin_src_plugin_selector_t BIN_SRC_PLUGIN_SELECTOR = nullptr; }
#ifndef LN
#define LN 3
#define LOPS 4
#define SYM 3
#endif
// ---- the file behind the pool: a region of the mapped size; growing past it is an error of the code
static char *g_map; static long g_file, g_cap;
extern "C" {
int vh_open(const char *, int, ...) { return 77; }
int vh_close(int) { return 0; }
int vh_fstat(int, struct stat *s) { memset(s, 0, sizeof *s); s->st_size = g_file; return 0; }
int vh_ftruncate(int fd, off_t n) { VH_ASSERT(fd == 77 && n >= 0 && n <= g_cap, "the file does not grow past the mapping"); g_file = n; return 0; }
void *vh_mmap(void *, size_t n, int, int, int, off_t) { return (long)n <= g_cap ? g_map : MAP_FAILED; }
int vh_munmap(void *, size_t) { return 0; }
}
struct W : public BW_plugin
{
    W(const char *n, int cap) : BW_plugin(n, nullptr, cap, BIN_WRITE_CFG_ALWAYS_CREATE_NEW) {}
    void setPool(BW_pool *p) { pool = p; }
    BW_pool *P() { return pool; }
};
static const int CAP = 0x10000;
static W *fresh(const char *name = "pool.xbw", int cap = CAP)
{
    g_cap = cap; g_file = 0; g_map = (char*)aligned_alloc(16, cap); memset(g_map, 0, cap);
    W *w = new W(name, cap); VH_ASSERT(w->Initialize(), "an empty file becomes a pool");
    return w;
}
// ---- B01
struct Ring { int e[8], n; int at(int x) const { for (int i = 0; i < n; i++) if (e[i] == x) return i; return -1; } void del(int i) { for (n--; i < n; i++) e[i] = e[i+1]; } };
static void check_ring(BW_element *par, BW_offset_t first, BW_element **e, const Ring &r, bool child)
{
    if (r.n == 0) { VH_ASSERT(first == 0, "an empty list has no first element"); }
    else
    {
        VH_ASSERT(first == e[r.e[0]]->offset, "the list starts with its first element");
        for (int i = 0; i < r.n; i++)
        {
            VH_ASSERT(e[r.e[i]]->next == e[r.e[(i + 1) % r.n]]->offset, "next leads to the following element");
            VH_ASSERT(e[r.e[(i + 1) % r.n]]->prev == e[r.e[i]]->offset, "prev leads back");
        }
    }
    if (!child) return;
    BW_offset_t at = 0; int i = 0;
    for (BW_element *x = par->NextChild(at); x != nullptr && i <= r.n; x = par->NextChild(at), i++) VH_ASSERT(i < r.n && x == e[r.e[i]], "walking forwards meets the elements in order");
    VH_ASSERT(i == r.n, "walking forwards meets every element");
    at = 0; i = 0;
    for (BW_element *x = par->PrevChild(at); x != nullptr && i <= r.n; x = par->PrevChild(at), i++) VH_ASSERT(i < r.n && x == e[r.e[r.n - 1 - i]], "walking backwards meets the elements in reverse order");
    VH_ASSERT(i == r.n, "walking backwards meets every element");
}
//@H lists prop=B01 time=200 shards=8 tdefs=LN=4,LOPS=5,SYM=3 tshards=20 ttime=850
//@B lists every sequence of 4 (thorough 5) operations add/remove/replace/join on 3 (thorough 4 elements), each a child or an attribute, under one parent, with any identification, flags and content of the elements
H(lists)
{
    W *w = fresh(); BW_pool *P = w->P();
    BW_element *par = P->new_element(XBT_NULL), *e[LN + 1]; par->init(P, 0, XBT_NULL, BIN_WRITE_ELEMENT_FLAG);
    int32_t val[LN]; uint8_t fl[LN]; int16_t id[LN];
    for (int i = 0; i < LN; i++) { e[i] = P->new_element(XBT_INT32); fl[i] = vh_u8(); id[i] = (int16_t)vh_u16(); e[i]->init(P, id[i], XBT_INT32, fl[i]); *(int32_t*)(e[i] + 1) = val[i] = (int32_t)vh_u32(); }
    Ring r[2]; r[0].n = r[1].n = 0; int used = 0;                 // elements are alike: they come into play in order
    for (int s = 0; s < LOPS; s++)
    {
        // add x | remove x | replace x by y | join x and y, then add both
        int op = (int)vh_choose(LN + LN + LN * LN + 1);
        int x = op < LN ? op : op < 2 * LN ? op - LN : (op - 2 * LN) / LN, y = (op - 2 * LN) % LN;
        if (op == 2 * LN + LN * LN) { x = y = -1; for (int i = 0; i < LN; i++) if (r[0].at(i) < 0 && r[1].at(i) < 0) { if (x < 0) x = i; else if (y < 0) y = i; } if (y < 0) vh_assume(false); }
        int hi = x, lo = x; if (op >= 2 * LN) { hi = x > y ? x : y; lo = x < y ? x : y; }
        if (lo > used || (lo == used && hi > used + 1) || (lo < used && hi > used)) vh_assume(false);
        if (hi >= used) used = hi + 1;
        int k = fl[x] & BIN_WRITE_ELEMENT_FLAG ? 1 : 0, i = r[k].at(x);
        if (op < LN) { if (i >= 0) vh_assume(false); VH_ASSERT(par->add(e[x]) == par, "adding gives the parent"); r[k].e[r[k].n++] = x; }
        else if (op < 2 * LN) { VH_ASSERT(par->remove(e[x]) == par, "removing gives the parent"); if (i >= 0) r[k].del(i); VH_ASSERT(e[x]->next == e[x]->offset && e[x]->prev == e[x]->offset, "a removed element is a list of its own"); }
        else
        {
            if ((fl[x] ^ fl[y]) & BIN_WRITE_ELEMENT_FLAG) vh_assume(false);         // same kind
            if (op < 2 * LN + LN * LN)
            {
                if (i < 0 || r[k].at(y) >= 0) vh_assume(false);
                VH_ASSERT(par->replace(e[x], e[y]) == par, "replacing gives the parent"); r[k].e[i] = y;
                VH_ASSERT(e[x]->next == e[x]->offset && e[x]->prev == e[x]->offset, "a replaced element is a list of its own");
            }
            else { VH_ASSERT(e[x]->join(e[y]) == e[x], "joining gives the first list"); VH_ASSERT(par->add(e[x]) == par, "adding gives the parent"); r[k].e[r[k].n++] = x; r[k].e[r[k].n++] = y; }
        }
        check_ring(par, par->first_attribute, e, r[0], false); check_ring(par, par->first_child, e, r[1], true);
    }
    for (int i = 0; i < LN; i++)
    {
        VH_ASSERT(*(int32_t*)(e[i] + 1) == val[i] && e[i]->getPool() == P && e[i]->identification == id[i] && e[i]->value_type == XBT_INT32, "contents are untouched");
        VH_ASSERT(e[i]->first_child == 0 && e[i]->first_attribute == 0 && (e[i]->flags & ~BIN_DELETED) == (fl[i] & ~BIN_DELETED), "so are own lists and flags");
    }
    VH_ASSERT(par->next == par->offset && par->prev == par->offset, "the parent's own list is untouched");
    VH_REACH("listed");
}
// ---- B02
static uint32_t align_of(XML_Binary_Type t) { return t == XBT_INT64 || t == XBT_UINT64 || t == XBT_DOUBLE || t == XBT_UNIX_TIME64_MSEC ? 8 : 4; }
#ifndef AOPS
#define AOPS 2
#define EOPS 1
#endif
static int plain(int v, int lo, int hi) { for (int i = lo; i < hi; i++) if (v == i) return i; vh_assert(0, "the allocator stays in the file"); return v; } // a case for each value
struct Heap { int last, keep[8], nk; };
static void request(BW_pool *P, Heap &h, int k, bool grow)
{
    int before = P->allocator, lim = P->allocator_limit, fsz = (int)P->file_size, len = 0; char *b;
    int32_t size = (int32_t)vh_u32(); vh_assume(size <= 44 || size > 0x18000);
    if (k == 2)
    {
        XML_Binary_Type t = (XML_Binary_Type)vh_u8(); vh_assume(t >= XBT_NULL && t < XBT_LAST && (t != XBT_BLOB_STRING || size <= 44));
        BW_element *e = P->new_element(t, size); b = (char*)e;
        if (e)
        {
            len = sizeof(BW_element) + XBT_Size2(t, size);
            VH_ASSERT(e->value_type == t && e->offset == b - (char*)P && e->next == e->offset && e->prev == e->offset && e->first_child == 0 && e->first_attribute == 0, "a new element is a list of its own with the type asked for");
            VH_ASSERT(((uintptr_t)(e + 1) & (align_of(t) - 1)) == 0, "the content is aligned as its type asks for");
            VH_ASSERT(len >= (int)sizeof(BW_element), "a new element has its head");
        }
        else VH_ASSERT(P->allocator == before && P->root == 0, "a refused element allocates nothing");
        VH_ASSERT(grow || (P->allocator_limit == lim && (int)P->file_size == fsz), "the file does not grow over its limit");
    }
    else
    {
        b = k ? P->allocate8(size) : P->allocate(size); len = size;
        VH_ASSERT(P->allocator_limit == lim && (int)P->file_size == fsz, "the allocator does not move the limit");
        int a0 = k ? (before + 7) & ~7 : before, fits = size > 0 && (int64_t)a0 + (((int64_t)size + (k ? 7 : 3)) & ~(int64_t)(k ? 7 : 3)) <= lim;
        VH_ASSERT((b != nullptr) == fits, "a request is satisfied exactly when there is room for it");
        if (b) VH_ASSERT(((uintptr_t)b & (k ? 7 : 3)) == 0, "the block is aligned");
    }
    VH_ASSERT(P->allocator_limit == (int)P->file_size && P->file_size <= P->mmap_size && (long)P->file_size == g_file, "the counters tell the file's size");
    if (!b) { VH_ASSERT(P->allocator == before, "a refused request changes nothing"); return; }
    P->allocator = plain(P->allocator, before, before + 128);
    int off = plain((int)(b - (char*)P), before, before + 8);
    VH_ASSERT(len >= 0 && off >= before && off >= h.last, "blocks do not overlap");
    VH_ASSERT((int64_t)off + len <= P->allocator && P->allocator <= P->allocator_limit, "the block is accounted for and inside the pool");
    VH_ASSERT(P->allocator - (off + len) < 8 && off - before < 8, "no room is lost");
    h.last = off + len;
    for (int i = 0; i < h.nk; i++) VH_ASSERT(*((unsigned char*)P + h.keep[i]) == 0xA5, "earlier blocks stay as they were");
    b[0] = (char)0xA5; h.keep[h.nk++] = off; *((char*)P + P->allocator - 1) = (char)0xA5; h.keep[h.nk++] = P->allocator - 1;
}
static BW_pool *nearly_full(Heap &h, int room, bool grow)
{
    BW_pool *P = fresh()->P(); P->allocator = P->allocator_limit - room; if (!grow) P->mmap_size = P->file_size;
    h.last = P->allocator; h.nk = 1; h.keep[0] = P->allocator - 1; *((char*)P + P->allocator - 1) = (char)0xA5; memset((char*)P + h.last, 0x77, 256);
    return P;
}
//@H alloc prop=B02 time=200 shards=8 tdefs=AOPS=3,EOPS=2 tshards=16 ttime=800
//@B alloc two (thorough three) requests of any size, aligned to 4 or 8, with 0..10 words left in the file; sizes between 45 bytes and the mapped size not explored
H(alloc)
{
    Heap h; BW_pool *P = nearly_full(h, (int)vh_choose(11) * 4, false);
    for (int s = 0; s < AOPS; s++) request(P, h, (int)vh_choose(2), false);
    VH_REACH("allocated");
}
//@H elements prop=B02 time=200 shards=8 tdefs=AOPS=3,EOPS=2 tshards=16 ttime=800
//@B elements one (thorough two) new elements of any type and size (as above) and a block of any size behind, with 0..10 words left in the file, which can grow or not
H(elements)
{
    int room = (int)vh_choose(11) * 4, grow = (int)vh_choose(2); Heap h; BW_pool *P = nearly_full(h, room, grow);
    for (int s = 0; s < EOPS; s++) request(P, h, 2, grow);
    if (EOPS == 1) request(P, h, 1, grow);
    VH_REACH("allocated");
}
// ---- B03
#ifndef SN
#define SN 3
#define SL 2
#endif
struct Sym { char n[SL + 1]; int len; XML_Binary_Type t; };
static bool same(const Sym &a, const char *b) { for (int i = 0; i <= a.len; i++) if (a.n[i] != b[i]) return false; return true; }
static void newname(Sym &s, int least = 1) { s.len = least + (int)vh_choose(SL + 1 - least); for (int i = 0; i < s.len; i++) { s.n[i] = (char)vh_u8(); vh_assume(s.n[i] != 0); } s.n[s.len] = 0; }
static void check_table(BW_pool *P, BW_symbol_table_16B &T, const Sym *m, int n, const Sym &q)
{
    VH_ASSERT(T.max_id == n - 1, "the table has as many entries as there are names");
    for (int i = 0; i < n; i++)
    {
        BW_offset_t off = 0; XML_Binary_Type t = XBT_LAST;
        VH_ASSERT(T.getByName(P, m[i].n, &off, &t) == i && t == m[i].t, "a registered name finds its identifier and type");
        VH_ASSERT(off > 0 && off < P->allocator && same(m[i], (char*)P + off + 3), "and its place");
        const char *nm = T.getName(P, i); VH_ASSERT(nm != nullptr && same(m[i], nm), "an identifier gives its name");
        XML_Binary_Type_Stored *ts = T.getType(P, i); VH_ASSERT(ts != nullptr && *ts == m[i].t, "an identifier gives its type");
    }
    int want = -1; for (int i = 0; i < n; i++) if (same(m[i], q.n)) want = i;
    VH_ASSERT(T.getByName(P, q.n, nullptr, nullptr) == want, "a name is found exactly when it was registered");
    VH_ASSERT(T.getName(P, n) == nullptr && T.getType(P, n) == nullptr, "an identifier behind the last one is unknown");
}
//@H symbols prop=B03 time=200 shards=8 tdefs=SN=4,SL=2 tshards=16 ttime=850
//@B symbols every sequence of 3 (thorough 4) registrations of tags and attributes with any names of 1..2 characters and types NULL, INT32, INT64, STRING, looked up sequentially, through the index and after a further registration; any name of 0..2 characters asked for
static const XML_Binary_Type KT[4] = { XBT_NULL, XBT_INT32, XBT_INT64, XBT_STRING };
static void reg(W *w, BW_symbol_table_16B &T, bool attr, Sym *m, int &n)
{
    Sym s; newname(s); int kt = (int)(vh_u8() & 3); s.t = KT[kt];
    int want = n; for (int i = 0; i < n; i++) if (same(m[i], s.n)) want = i;
    int id = attr ? (int)w->registerParam(s.n, s.t) : (int)w->registerTag(s.n, s.t);
    VH_ASSERT(id == want, "a new name gets the next identifier, a known one its own");
    if (want == n) m[n++] = s; else m[want].t = m[want].t == s.t ? s.t : XBT_JoinTypes(s.t, m[want].t);
}
H(symbols)
{
    W *w = fresh(); BW_pool *P = w->P(); Sym m[2][SN + 1], q; int n[2] = { 0, 0 };
    newname(q, 0);
    for (int s = 0; s < SN; s++)
    {
        int a = s == 0 ? 0 : (int)vh_choose(2);
        reg(w, a ? P->params : P->tags, a, m[a], n[a]);
    }
    check_table(P, P->tags, m[0], n[0], q); check_table(P, P->params, m[1], n[1], q);
    int more = (int)vh_choose(3);
    VH_ASSERT(w->allRegistered(), "the indexes are made");
    VH_ASSERT(P->tags.index != 0 && (P->params.index != 0 || n[1] == 0), "there are indexes");
    for (int i = 0; i < n[0]; i++) VH_ASSERT(same(m[0][i], P->getTagName(i)) && P->getTagType(i) == m[0][i].t, "a tag's identifier gives its name and type");
    for (int i = 0; i < n[1]; i++) VH_ASSERT(same(m[1][i], P->getAttrName(i)) && P->getAttrType(i) == m[1][i].t, "an attribute's identifier gives its name and type");
    check_table(P, P->tags, m[0], n[0], q); check_table(P, P->params, m[1], n[1], q);
    if (more < 2) { reg(w, more ? P->params : P->tags, more, m[more], n[more]); check_table(P, P->tags, m[0], n[0], q); check_table(P, P->params, m[1], n[1], q); }
    VH_REACH("registered");
}
//@H symbols_id prop=B03 time=200 shards=4 tdefs=SN=3,SL=3 tshards=16 ttime=800
//@B symbols_id 3 tags and 1..2 attributes registered under given identifiers in order, any names of 1..2 (thorough 3) characters, then confirmed or contradicted by a second registration in checking mode
H(symbols_id)
{
    int na = 1 + (int)vh_choose(2); W *w = fresh(); BW_pool *P = w->P(); Sym m[2][SN + 1], q; int n[2] = { SN, na };
    newname(q, 0);
    for (int a = 0; a < 2; a++)
        for (int i = 0; i < n[a]; i++)
        {
            newname(m[a][i]); m[a][i].t = KT[vh_u8() & 3]; for (int j = 0; j < i; j++) if (same(m[a][j], m[a][i].n)) vh_assume(false);
            VH_ASSERT(a ? w->registerAttr(i, m[a][i].n, m[a][i].t) : w->registerTag(i, m[a][i].n, m[a][i].t), "registration succeeds");
        }
    for (int s = 0; s < 2; s++)
    {
        check_table(P, P->tags, m[0], n[0], q); check_table(P, P->params, m[1], n[1], q);
        if (s == 0) VH_ASSERT(w->allRegistered(), "the indexes are made");
    }
    for (int i = 0; i < n[0]; i++) VH_ASSERT(same(m[0][i], P->getTagName(i)) && P->getTagType(i) == m[0][i].t, "a tag's identifier gives its name and type");
    for (int i = 0; i < n[1]; i++) VH_ASSERT(same(m[1][i], P->getAttrName(i)) && P->getAttrType(i) == m[1][i].t, "an attribute's identifier gives its name and type");
    VH_ASSERT(P->getTagName(n[0]) == nullptr && P->getTagType(n[0]) == XBT_UNKNOWN && P->getAttrName(n[1]) == nullptr && P->getAttrType(n[1]) == XBT_UNKNOWN, "identifiers behind the last are unknown");
    // the same file opened again by a program that wants the table to be like this
    struct O : public BW_plugin { O() : BW_plugin("again.xbw", nullptr, CAP, 0) {} };
    O *o = new O; VH_ASSERT(o->Initialize(), "the file opens again");
    XML_Binary_Type t = KT[vh_u8() & 3]; int id = (int)vh_choose(SN + 1);
    VH_ASSERT(o->registerTag(id, q.n, t) == (id < n[0] && same(m[0][id], q.n) && m[0][id].t == t), "an opened file confirms exactly the entries it has");
    VH_REACH("registered");
}
//@H symbols_many prop=B03 time=200 shards=1
//@B symbols_many 130 tags with given names: the identifiers 120..129 and any name of 3 characters, sequentially and through the index
H(symbols_many)
{
    W *w = fresh("many.xbw", 0x18000); BW_pool *P = w->P(); char nm[4]; nm[3] = 0;
    for (int i = 0; i < 130; i++) { nm[0] = 'a' + i / 16; nm[1] = 'A' + i % 16; nm[2] = i & 1 ? 'q' : 0; VH_ASSERT((int)w->registerTag(nm, i & 1 ? XBT_INT32 : XBT_STRING) == i, "a new name gets the next identifier"); }
    char q[4]; q[0] = (char)vh_u8(); q[1] = (char)vh_u8(); q[2] = (char)vh_u8(); q[3] = 0;
    vh_assume(q[0] >= 'h' && q[1] != 0);                                    // the last ones: 112..129
    int want = -1; for (int i = 112; i < 130; i++) if (q[0] == 'a' + i / 16 && q[1] == 'A' + i % 16 && q[2] == (i & 1 ? 'q' : 0)) want = i;
    for (int s = 0; s < 2; s++)
    {
        VH_ASSERT(P->tags.max_id == 129, "all names are there");
        VH_ASSERT(P->tags.getByName(P, q, nullptr, nullptr) == want, "a name is found exactly when it was registered");
        for (int i = 120; i < 130; i++)
        {
            const char *x = P->tags.getName(P, i); VH_ASSERT(x && x[0] == 'a' + i / 16 && x[1] == 'A' + i % 16, "an identifier gives its name");
            XML_Binary_Type_Stored *t = P->tags.getType(P, i); VH_ASSERT(t && *t == (i & 1 ? XBT_INT32 : XBT_STRING), "an identifier gives its type");
        }
        if (s == 0) VH_ASSERT(w->allRegistered(), "the index is made");
    }
    VH_REACH("registered");
}
// ---- B04
static const XML_Binary_Type TY[] = { XBT_NULL, XBT_STRING, XBT_BLOB, XBT_INT32, XBT_INT64, XBT_FLOAT, XBT_DOUBLE, XBT_HEX, XBT_GUID, XBT_SHA1, XBT_UNIX_TIME, XBT_UINT64, XBT_UNIX_TIME64_MSEC, XBT_UINT32, XBT_UNIX_DATE, XBT_INT32_DECI, XBT_BLOB_STRING, XBT_IPv4 };
enum { TN = sizeof TY / sizeof TY[0] };
static W *typed_pool()
{
    W *w = fresh(); char n[2] = { 0, 0 };
    for (int i = 0; i < TN; i++) { n[0] = 'a' + i; VH_ASSERT(w->registerTag(i, n, TY[i]), "registered"); }
    for (int i = 0; i < TN; i++) { n[0] = 'A' + i; VH_ASSERT(w->registerAttr(i, n, TY[i]), "registered"); }
    VH_ASSERT(w->allRegistered(), "indexes are made"); return w;
}
static int fixed_size(XML_Binary_Type t)
{
    switch (t)
    {
        case XBT_NULL: return 0;
        case XBT_INT64: case XBT_UINT64: case XBT_DOUBLE: case XBT_UNIX_TIME64_MSEC: return 8;
        case XBT_GUID: case XBT_IPv6: return 16; case XBT_SHA1: return 20;
        case XBT_STRING: case XBT_BLOB: case XBT_HEX: case XBT_BLOB_STRING: return -1;
        default: return 4;
    }
}
struct Pay { unsigned char b[24]; int len; };                             // bytes of a value or a text with its terminator
static void payload(Pay &p, bool text)
{
    p.len = 24; for (int i = 0; i < 24; i++) p.b[i] = vh_u8();
    if (text) { static const int L[4] = { 0, 1, 3, 4 }; p.len = L[vh_choose(4)]; for (int i = 0; i < p.len; i++) vh_assume(p.b[i] != 0); p.b[p.len] = 0; }
}
static void holds(BW_element *e, XML_Binary_Type t, const unsigned char *b, int n)
{
    VH_ASSERT(e != nullptr && e->value_type == t, "the element has the type of its symbol");
    XML_Binary_Data_Ref d = e->getData();
    VH_ASSERT(d.type == t && d.data == (char*)(e + 1), "the data are those of the element");
    if (t == XBT_STRING) VH_ASSERT(d.content_size == n + 1 && d.size == n + 1, "the size is that of the text");
    else if (t == XBT_BLOB_STRING) VH_ASSERT(d.content_size >= n + 1 && d.size == d.content_size + 4, "there is room for the text");
    else VH_ASSERT(d.content_size == n && d.size == n + (t == XBT_BLOB || t == XBT_HEX ? 4 : 0), "the size is that of the value");
    for (int i = 0; i < n; i++) VH_ASSERT(((unsigned char*)d.content)[i] == b[i], "the content is the value stored");
    if (t == XBT_STRING || t == XBT_BLOB_STRING) VH_ASSERT(d.content[n] == 0 && e->getStr() == d.content, "the text ends where it should");
    else VH_ASSERT(e->getStr() == nullptr, "other values are no text");
    VH_ASSERT((e->getInt32() != nullptr) == (fixed_size(t) == 4), "32 bit access is for 32 bit values");
    VH_ASSERT((e->getInt64() != nullptr) == (t == XBT_INT64 || t == XBT_UNIX_TIME64_MSEC), "64 bit access is for 64 bit numbers");
    VH_ASSERT((e->getUInt64() != nullptr) == (t == XBT_UINT64) && (e->getFloat() != nullptr) == (t == XBT_FLOAT), "each getter is for its type");
    VH_ASSERT((e->getTime() != nullptr) == (t == XBT_UNIX_TIME) && (e->getGUID() != nullptr) == (t == XBT_GUID), "each getter is for its type");
    if (fixed_size(t) == 4) { int32_t v; memcpy(&v, b, 4); VH_ASSERT(*e->getInt32() == v, "the number is the one stored"); }
    if (t == XBT_UNIX_TIME) { uint32_t v; memcpy(&v, b, 4); VH_ASSERT(*e->getTime() == v, "the time is the one stored"); }
    if (e->getInt64()) { int64_t v; memcpy(&v, b, 8); VH_ASSERT(*e->getInt64() == v, "the number is the one stored"); }
    if (t == XBT_UINT64) { uint64_t v; memcpy(&v, b, 8); VH_ASSERT(*e->getUInt64() == v, "the number is the one stored"); }
}
template<class T> static T as(const Pay &p) { T v; memcpy(&v, p.b, sizeof v); return v; }
static bool is8(XML_Binary_Type t) { return fixed_size(t) == 8; }
static BW_element *add_attr(BW_element *par, int k, int id, const Pay &p, bool &ok, int &n)
{
    XML_Binary_Type t = TY[id]; n = 4;
    switch (k)
    {
        case 0: ok = t == XBT_NULL; n = 0; return par->attrNull(id);
        case 1: ok = t == XBT_STRING; n = p.len; return par->attrStr(id, (const char*)p.b);
        case 2: ok = t == XBT_STRING; n = p.len; return par->attrStr2(id, (const char*)p.b, (const char*)p.b + p.len);
        case 3: ok = t == XBT_BLOB; n = p.len; return par->attrBLOB(id, p.b, p.len);
        case 4: ok = t == XBT_HEX; n = p.len; return par->attrHEX(id, p.b, p.len);
        case 5: ok = t == XBT_INT32; return par->attrInt32(id, as<int32_t>(p));
        case 6: ok = t == XBT_UINT32; return par->attrUInt32(id, as<uint32_t>(p));
        case 7: ok = is8(t); n = 8; return par->attrInt64(id, as<int64_t>(p));
        case 8: ok = t == XBT_UINT64; n = 8; return par->attrUInt64(id, as<uint64_t>(p));
        case 9: ok = t == XBT_FLOAT; return par->attrFloat(id, as<float>(p));
        case 10: ok = t == XBT_DOUBLE; n = 8; return par->attrDouble(id, as<double>(p));
        case 11: ok = t == XBT_GUID; n = 16; return par->attrGUID(id, (const char*)p.b);
        case 12: { ok = t == XBT_SHA1; n = 20; char *exact = (char*)malloc(20); memcpy(exact, p.b, 20); return par->attrSHA1(id, exact); }
        case 13: ok = t == XBT_UNIX_TIME; return par->attrTime(id, as<uint32_t>(p));
        default: ok = t == XBT_UNIX_TIME64_MSEC; n = 8; return par->attrTime64(id, as<int64_t>(p));
    }
}
//@H attrs prop=B04 time=200 shards=8
//@B attrs each of the 15 attribute setters under an attribute of each of 18 types, with any value, any text or data of 0, 1, 3 or 4 bytes, between two other attributes of any value
H(attrs)
{
    int k = (int)vh_choose(15), id = (int)vh_choose(TN); W *w = typed_pool(); BW_pool *P = w->P(); Pay p; payload(p, k >= 1 && k <= 4);
    BW_element *par = w->tag(0); int32_t v1 = (int32_t)vh_u32(), v2 = (int32_t)vh_u32(); bool ok; int n;
    BW_element *before = P->new_element(XBT_INT32); before->init(P, 3, XBT_INT32, BIN_WRITE_ATTR_FLAG); *(int32_t*)(before + 1) = v1;
    int a0 = P->allocator; BW_element *r = add_attr(par, k, id, p, ok, n);
    VH_ASSERT(r == (ok ? par : nullptr), "a value is accepted exactly for its type");
    if (!ok) VH_ASSERT(P->allocator == a0 && par->first_attribute == 0, "a refused value changes nothing");
    BW_element *after = P->new_element(XBT_INT32); after->init(P, 15, XBT_INT32, BIN_WRITE_ATTR_FLAG); *(int32_t*)(after + 1) = v2;
    VH_ASSERT(*(int32_t*)(before + 1) == v1 && before->value_type == XBT_INT32 && before->identification == 3, "the value before stays");
    if (ok)
    {
        BW_element *e = par->attrGet(id); VH_ASSERT(e != nullptr && e == par->findAttr(id) && e->identification == id && !(e->flags & BIN_WRITE_ELEMENT_FLAG), "the attribute is found");
        holds(e, TY[id], p.b, n);
        if (fixed_size(TY[id]) == 4) VH_ASSERT(par->findAttrInt32(id) == (int32_t*)(e + 1), "the attribute is found");
    }
    for (int i = 0; i < TN; i++) if (i != id) VH_ASSERT(par->attrGet(i) == nullptr, "no other attribute is found");
    VH_ASSERT(*(int32_t*)(after + 1) == v2 && par->first_child == 0, "the value behind stays");
    VH_REACH("set");
}
static BW_element *make_tag(W *w, int k, int id, const Pay &p, bool &ok, int &n)
{
    XML_Binary_Type t = TY[id]; n = 4;
    switch (k)
    {
        case 0: ok = t == XBT_STRING || t == XBT_BLOB_STRING; n = p.len; return w->tagStr(id, (const char*)p.b);
        case 1: ok = t == XBT_BLOB; n = p.len; return w->tagBLOB(id, p.b, p.len);
        case 2: ok = t == XBT_HEX; n = p.len; return w->tagHEX(id, p.b, p.len);
        case 3: ok = fixed_size(t) == 4; return w->tagInt32(id, as<int32_t>(p));
        case 4: ok = t == XBT_INT64; n = 8; return w->tagInt64(id, as<int64_t>(p));
        case 5: ok = t == XBT_FLOAT; return w->tagFloat(id, as<float>(p));
        case 6: { ok = t == XBT_GUID; n = 16; GUID_t g; memcpy(&g, p.b, 16); return w->tagGUID(id, &g); }
        case 7: { ok = t == XBT_SHA1; n = 20; uint8_t *exact = (uint8_t*)malloc(20); memcpy(exact, p.b, 20); return w->tagSHA1(id, exact); }
        case 8: ok = t == XBT_UNIX_TIME; return w->tagTime(id, as<uint32_t>(p));
        case 9: ok = t == XBT_UNIX_TIME64_MSEC; n = 8; return w->tagTime64(id, as<int64_t>(p));
        default: ok = t == XBT_NULL; n = 0; return t == XBT_NULL ? w->tag(id) : nullptr;
    }
}
//@H tags prop=B04 time=200 shards=8
//@B tags each of the 11 makers of child elements under a tag of each of 18 types, with any value, any text or data of 0, 1, 3 or 4 bytes, before another element of any value
H(tags)
{
    int k = (int)vh_choose(11), id = (int)vh_choose(TN); W *w = typed_pool(); BW_pool *P = w->P(); Pay p; payload(p, k <= 2);
    BW_element *par = w->tag(0); bool ok; int n; int32_t v1 = (int32_t)vh_u32(), v2 = (int32_t)vh_u32();
    BW_element *before = w->tagInt32(3, v1), *e = make_tag(w, k, id, p, ok, n), *after = w->tagInt32(15, v2);
    VH_ASSERT((e != nullptr) == ok, "a value is accepted exactly for its type");
    if (ok)
    {
        VH_ASSERT(par->add(e) == par && par->tagGet(id) == e && par->findChildByTag(id) == e && e->identification == id && (e->flags & BIN_WRITE_ELEMENT_FLAG), "the child is found");
        holds(e, TY[id], p.b, n);
        if (fixed_size(TY[id]) == 4) VH_ASSERT(par->tagGetInt32(id) == (int32_t*)(e + 1), "the child's number is found");
        if (TY[id] == XBT_STRING) VH_ASSERT(par->tagGetStr(id) == (char*)(e + 1), "the child's text is found");
    }
    for (int i = 0; i < TN; i++) if (i != id || !ok) VH_ASSERT(par->tagGet(i) == nullptr && par->tagGetInt32(i) == nullptr && par->tagGetStr(i) == nullptr, "no other child is found");
    VH_ASSERT(*(int32_t*)(before + 1) == v1 && *(int32_t*)(after + 1) == v2 && par->first_attribute == 0, "other values stay");
    VH_REACH("set");
}
#ifndef SETS
#define SETS 3
#endif
//@H sets prop=B04 time=200 shards=8 tdefs=SETS=4 tshards=16 ttime=800
//@B sets every sequence of 3 (thorough 4) of the five child setters on tags of types INT32, INT64, STRING, UNIX_TIME, SHA1, FLOAT with any values (texts of 0, 1, 3 or 4 characters or none), where the first tag may be widened to 64 bits in between; every child's value afterwards
H(sets)
{
    static const int ID[6] = { 3, 4, 1, 10, 9, 5 };
    int widen = (int)vh_choose(SETS + 1); W *w = typed_pool(); BW_pool *P = w->P(); BW_element *par = w->tag(0);
    XML_Binary_Type sym[6], vt[6]; Pay val[6]; bool has[6]; for (int i = 0; i < 6; i++) { sym[i] = TY[ID[i]]; has[i] = false; }
    for (int s = 0; s < SETS; s++)
    {
        if (s == widen) { VH_ASSERT((int)w->registerTag("d", XBT_INT64) == 3 && w->allRegistered(), "the tag is widened"); sym[0] = XBT_INT64; }
        int k = (int)vh_choose(5), i = (int)vh_choose(6), id = ID[i]; Pay p; payload(p, k == 2); bool none = (k == 2 && p.len == 0) || k == 4 ? vh_choose(2) : false, ok; BW_element *r;
        if (none) for (int j = 0; j < 24; j++) p.b[j] = 0;
        switch (k)
        {
            case 0: ok = fixed_size(sym[i]) == 4 || (has[i] && vt[i] == XBT_INT32); r = par->tagSetInt32(id, as<int32_t>(p)); p.len = 4; break;
            case 1: ok = is8(sym[i]) || (has[i] && vt[i] == XBT_INT64); r = par->tagSetInt64(id, as<int64_t>(p)); p.len = 8; break;
            case 2: ok = sym[i] == XBT_STRING; r = par->tagSetString(id, none ? nullptr : (const char*)p.b); break;
            case 3: ok = sym[i] == XBT_UNIX_TIME; r = par->tagSetTime(id, as<uint32_t>(p)); p.len = 4; break;
            default: ok = sym[i] == XBT_SHA1; r = par->tagSetSHA1(id, none ? nullptr : p.b); p.len = 20; break;
        }
        VH_ASSERT((r != nullptr) == ok, "a value is accepted exactly for its type");
        if (ok) { VH_ASSERT(r == par->tagGet(id), "the setter gives the child of the document"); if (!(has[i] && k == 0 && vt[i] == XBT_INT32)) vt[i] = sym[i]; val[i] = p; has[i] = true; }
        int count = 0, want = 0; BW_offset_t at = 0;
        for (BW_element *x = par->NextChild(at); x && count < 9; x = par->NextChild(at)) count++;
        for (int j = 0; j < 6; j++)
        {
            BW_element *e = par->tagGet(ID[j]); VH_ASSERT((e != nullptr) == has[j], "exactly the children set are there");
            if (e) { want++; holds(e, vt[j], val[j].b, val[j].len); }
        }
        VH_ASSERT(count == want, "each child is there once");
    }
    VH_REACH("set");
}
//@H setstr prop=B04 time=200 shards=8
//@B setstr two changes of the text of an attribute or child of type STRING or BLOB_STRING between siblings, with any texts of 0, 1, 3 or 4 (BLOB_STRING also 15..17) characters or none; a child keeps its own attribute and child
H(setstr)
{
    int blob = (int)vh_choose(2), attr = (int)vh_choose(2), id = blob ? 16 : 1; W *w = typed_pool(); BW_pool *P = w->P(); BW_element *par = w->tag(0), *e, *sib = nullptr, *own = nullptr;
    XML_Binary_Type t = TY[id];
    Pay p; payload(p, true);
    if (attr)
    {
        par->attrInt32(3, 7); e = P->new_element(t, p.len); e->init(P, id, t, BIN_WRITE_ATTR_FLAG); memcpy((char*)(e + 1) + (blob ? 4 : 0), p.b, p.len + 1); par->add(e); par->attrInt32(3, 8);
    }
    else
    {
        par->add(w->tagInt32(3, 7)); e = w->tagStr(id, (const char*)p.b); par->add(e); e->attrInt32(3, 9); e->add(own = w->tagInt32(3, 10)); par->add(w->tagInt32(3, 8));
    }
    for (int s = 0; s < 2; s++)
    {
        Pay q; payload(q, true); bool none = false;
        if (blob && s == 0 && vh_choose(2)) { q.len = 15 + (int)vh_choose(3); for (int i = 0; i < q.len; i++) { q.b[i] = vh_u8(); vh_assume(q.b[i] != 0); } q.b[q.len] = 0; }
        if (q.len == 0) none = vh_choose(2);
        bool eq = true; for (int i = 0; i <= q.len && eq; i++) if (q.b[i] != p.b[i]) eq = false;
        VH_ASSERT(e->setStr(w, par, none ? nullptr : (const char*)q.b) == !eq, "a change is reported exactly when there is one");
        e = attr ? par->attrGet(id) : par->tagGet(id); p = q; holds(e, t, p.b, p.len);
        VH_ASSERT(e->identification == id && !(e->flags & BIN_DELETED), "the element is the one asked for");
        BW_offset_t f = attr ? par->first_attribute : par->first_child; VH_ASSERT((attr ? par->first_child : par->first_attribute) == 0, "nothing is added elsewhere");
        BW_element *a = P->BWE(f), *c = P->BWE(a->next); VH_ASSERT(*(int32_t*)(a + 1) == 7 && c == e && *(int32_t*)(P->BWE(c->next) + 1) == 8 && P->BWE(c->next)->next == f, "siblings and their order stay");
        if (!attr) VH_ASSERT(e->findAttrInt32(3) != nullptr && *e->findAttrInt32(3) == 9 && e->tagGet(3) == own, "what the child holds stays with it");
    }
    VH_REACH("set");
}
// ---- B06
#ifndef ROPS
#define RN 3
#define ROPS 5
#endif
static bool found(BW_pool *p, const char *name) { const char *n = p->getDocTypeName(); return n != nullptr && strcmp(n, name) == 0; }
static bool absent(BW_pool *p) { const char *n = p->getDocTypeName(); return n != nullptr && n[0] == '('; }
//@H registry prop=B06 time=200 tdefs=RN=4,ROPS=8 ttime=800
//@B registry every sequence of 5 (thorough 8) steps, each making or deleting one of 3 (thorough 4) plugins with its own pool
H(registry)
{
    static const char *NAME[4] = {"a.xbw", "b.xbw", "c.xbw", "d.xbw"};
    W *w[RN]; BW_pool *p[RN]; for (int i = 0; i < RN; i++) { w[i] = nullptr; p[i] = (BW_pool*)aligned_alloc(16, sizeof(BW_pool)); memset((void*)p[i], 0, sizeof(BW_pool)); }
    for (int s = 0; s < ROPS; s++)
    {
        int x = (int)vh_choose(RN);
        if (w[x]) { w[x]->setPool(nullptr); delete w[x]; w[x] = nullptr; } else { w[x] = new W(NAME[x], 0x1000); w[x]->setPool(p[x]); }
        for (int i = 0; i < RN; i++) if (w[i]) VH_ASSERT(found(p[i], NAME[i]), "a registered pool is found with its plugin"); else VH_ASSERT(absent(p[i]), "a pool without plugin is not found");
    }
    VH_REACH("registered");
}
//@H registry_full prop=B06 time=200
//@B registry_full as many plugins as the registry holds and two more, then every choice of one to be deleted and a new one made
H(registry_full)
{
    const int N = MAX_BW_PLUGINS + 2; static W *w[N + 1]; static BW_pool *p[N + 1]; static char name[N + 1][8];
    for (int i = 0; i <= N; i++) { strcpy(name[i], "p00.xbw"); name[i][1] = (char)('0' + i / 10); name[i][2] = (char)('0' + i % 10); p[i] = (BW_pool*)aligned_alloc(16, sizeof(BW_pool)); memset((void*)p[i], 0, sizeof(BW_pool)); }
    for (int i = 0; i < N; i++) { w[i] = new W(name[i], 0x1000); w[i]->setPool(p[i]); }
    for (int i = 0; i < N; i++) if (i < MAX_BW_PLUGINS) VH_ASSERT(found(p[i], name[i]), "every plugin of a full registry is found"); else VH_ASSERT(absent(p[i]), "what does not fit is refused");
    int d = (int)vh_choose(N); w[d]->setPool(nullptr); delete w[d];
    w[N] = new W(name[N], 0x1000); w[N]->setPool(p[N]);
    for (int i = 0; i <= N; i++) if (i != d) { if (i < MAX_BW_PLUGINS || (i == N && d < MAX_BW_PLUGINS)) VH_ASSERT(found(p[i], name[i]), "the others stay registered, and the freed place is used"); else VH_ASSERT(absent(p[i]), "refused ones stay out"); }
    VH_REACH("full");
}
// ---- B08
#ifndef PN
#define PN 3
#endif
struct PNode { BW_element *e, *a[2]; int na, ak[2], par, kids[4], nk, k, id; Pay p, ap[2]; };
static PNode g_p[4]; static W *g_w; static int g_seen[16], g_seenn, g_deep[16];
static int which(void *e) { for (int i = 0; i < PN; i++) if (g_p[i].e == (BW_element*)e) return i; VH_ASSERT(false, "only the document's nodes are presented"); return 0; }
static void on_child(void *e, void *u) { VH_ASSERT(u == &g_seenn, "the caller's data are passed on"); g_seen[g_seenn++] = which(e); }
static void on_rec(void *e, void *u, int deep) { VH_ASSERT(u == &g_seenn, "the caller's data are passed on"); g_deep[g_seenn] = deep; g_seen[g_seenn++] = which(e); }
static void on_bin(const char *n, int id, XML_Binary_Type t, const char *v, void *e, void *u)
{
    PNode &p = g_p[which(e)]; VH_ASSERT(u == &g_seenn && g_seenn < p.na, "each attribute is presented once"); int i = g_seenn++, s = p.ak[i];
    VH_ASSERT(n[0] == 'A' + s && n[1] == 0 && id == s && t == TY[s], "with its name and type"); VH_ASSERT(v == (char*)(p.a[i] + 1), "and its value");
}
static void on_text(const char *n, const char *v, void *e, void *u)
{
    PNode &p = g_p[which(e)]; VH_ASSERT(u == &g_seenn && g_seenn < p.na, "each attribute is presented once"); int i = g_seenn++, s = p.ak[i];
    VH_ASSERT(n[0] == 'A' + s && n[1] == 0, "with its name");
    if (TY[s] == XBT_STRING) VH_ASSERT(v != nullptr && strcmp(v, (char*)p.ap[i].b) == 0, "and its value");
    if (TY[s] == XBT_INT32) VH_ASSERT(v != nullptr && strcmp(v, "-35") == 0, "and its value");
}
static void preorder(int i, int deep, int *o, int *d, int &n) { o[n] = i; d[n++] = deep; for (int k = 0; k < g_p[i].nk; k++) preorder(g_p[i].kids[k], deep + 1, o, d, n); }
//@H present prop=B08 time=200 shards=18 tdefs=PN=4 ttime=800
//@B present every tree of 3 nodes (thorough 4), each of one of six types (null, text, blob, 64-bit number, IPv4, blob text) with any value, the first and last with up to two attributes of types text, blob or INT32
H(present)
{
    static const int KI[6] = { 0, 1, 2, 4, 17, 16 }, AI[3] = { 1, 2, 3 };
    int c0 = (int)vh_choose(36); g_w = typed_pool(); BW_pool *P = g_w->P();
    for (int i = 0; i < PN; i++)
    {
        PNode &p = g_p[i]; p.nk = p.na = 0; int r = i == PN - 1 ? c0 % 6 : (int)vh_choose(3), id = KI[r]; p.k = r; p.id = id;
        p.par = i == 0 ? -1 : (int)vh_choose((uint32_t)i); if (i) g_p[p.par].kids[g_p[p.par].nk++] = i;
        payload(p.p, false); p.p.len = r == 5 ? 20 : 3; if (r == 1 || r == 5) { for (int k = 0; k < p.p.len; k++) vh_assume(p.p.b[k] != 0); p.p.b[p.p.len] = 0; }
        switch (r) { case 0: p.e = g_w->tag(0); break; case 1: case 5: p.e = g_w->tagStr(id, (char*)p.p.b); break; case 2: p.e = g_w->tagBLOB(id, p.p.b, 3); break; case 3: p.e = g_w->tagInt64(id, as<int64_t>(p.p)); break; default: p.e = g_w->tagInt32(id, as<int32_t>(p.p)); break; }
        VH_ASSERT(p.e != nullptr, "a node is made"); int na = i == PN - 1 ? c0 / 6 % 3 : i == 0 ? c0 / 18 : 0;
        for (int a = 0; a < na; a++)
        {
            int s = AI[i == PN - 1 ? vh_choose(3) : 2]; Pay &q = p.ap[a]; payload(q, false); q.b[2] = 0; vh_assume(q.b[0] != 0 && q.b[1] != 0); p.ak[a] = s;
            BW_element *r = s == 1 ? p.e->attrStr(s, (char*)q.b) : s == 2 ? p.e->attrBLOB(s, q.b, 5) : p.e->attrInt32(s, -35); VH_ASSERT(r == p.e, "an attribute is made");
            BW_element *f = (BW_element*)((char*)P + p.e->first_attribute); p.a[a] = (BW_element*)((char*)P + f->prev); p.na++;
        }
        if (i) g_p[p.par].e->add(p.e);
    }
    g_w->setRoot(g_p[0].e); VH_ASSERT(g_w->getRoot() == g_p[0].e, "the root is the document's");
    int o[8], d[8], n = 0; preorder(0, 0, o, d, n);
    g_seenn = 0; g_w->ForAllChildrenRecursively(on_rec, g_w->getRoot(), &g_seenn, 0); VH_ASSERT(g_seenn == n, "every node is presented once");
    for (int i = 0; i < n; i++) VH_ASSERT(g_seen[i] == o[i] && g_deep[i] == d[i], "in document order with its depth");
    for (int i = 0; i < PN; i++)
    {
        PNode &p = g_p[i]; const char *nm = g_w->getNodeName(p.e); VH_ASSERT(nm != nullptr && nm[0] == 'a' + p.id && nm[1] == 0, "the node has its name");
        XML_Binary_Type t = XBT_UNKNOWN; int size = -1; const char *v = g_w->getNodeBinValue(p.e, t, size); VH_ASSERT(t == TY[p.id], "the node has its type");
        VH_ASSERT(p.k == 0 ? v == nullptr : v == (char*)(p.e + 1), "the node has its value");
        if (p.k) VH_ASSERT(size >= 0 && XBT_Size2(t, size) == p.e->getData().size, "the size told is that of the value");
        if (p.k == 1 || p.k == 5) { const char *s = g_w->getNodeValue(p.e); VH_ASSERT(s != nullptr && strcmp(s, (char*)p.p.b) == 0, "the text is the value"); }
        if (p.k == 0) VH_ASSERT(g_w->getNodeValue(p.e) == nullptr || g_w->getNodeValue(p.e)[0] == 0, "no text without value");
        g_seenn = 0; g_w->ForAllChildren(on_child, p.e, &g_seenn); VH_ASSERT(g_seenn == p.nk, "every child is presented once"); for (int k = 0; k < p.nk; k++) VH_ASSERT(g_seen[k] == p.kids[k], "in order");
        g_seenn = 0; VH_ASSERT(g_w->ForAllBinParams(on_bin, p.e, &g_seenn) && g_seenn == p.na, "every attribute is presented");
        g_seenn = 0; g_w->ForAllParams(on_text, p.e, &g_seenn); VH_ASSERT(g_seenn == p.na, "every attribute is presented as text");
    }
    VH_ASSERT(g_w->getSymbolCount(SYMBOL_TABLE_NODES) == TN && g_w->getSymbolCount(SYMBOL_TABLE_PARAMS) == TN, "all symbols are told");
    for (int i = 0; i < TN; i++) { XML_Binary_Type t; const char *s = g_w->getSymbol(SYMBOL_TABLE_NODES, i, t); VH_ASSERT(s != nullptr && s[0] == 'a' + i && t == TY[i], "each tag with its name and type"); s = g_w->getSymbol(SYMBOL_TABLE_PARAMS, i, t); VH_ASSERT(s != nullptr && s[0] == 'A' + i && t == TY[i], "each attribute with its name and type"); }
    VH_REACH("presented");
}
// ---- B07
struct Named { char n[8]; int len; XML_Binary_Type t; };
struct Tab { Named m[4]; int n; };
static void register_one(W *w, Tab *tb, int k)
{
    Named &s = tb[k].m[tb[k].n]; s.len = (int)vh_choose(2) ? 5 : 1; for (int i = 0; i < s.len; i++) { s.n[i] = (char)('a' + 2 * tb[k].n + vh_below8(2)); } s.n[s.len] = 0; s.t = TY[3 + vh_below8(2)];
    int id = k ? (int)w->registerParam(s.n, s.t) : (int)w->registerTag(s.n, s.t); VH_ASSERT(id == tb[k].n, "the name gets the next identification"); tb[k].n++;
}
static void symbols_stay(BW_pool *P, Tab *tb)
{
    for (int k = 0; k < 2; k++) for (int i = 0; i < tb[k].n; i++)
    {
        const char *s = k ? P->getAttrName((int16_t)i) : P->getTagName((int16_t)i); VH_ASSERT(s != nullptr && strcmp(s, tb[k].m[i].n) == 0, "a symbol keeps its name and identification");
        VH_ASSERT((k ? P->getAttrType((int16_t)i) : P->getTagType((int16_t)i)) == tb[k].m[i].t, "a symbol keeps its type");
    }
    VH_ASSERT(P->tags.max_id == tb[0].n - 1 && P->params.max_id == tb[1].n - 1, "there are no other symbols");
}
static void some_content(W *w, Tab *tb, int n)
{
    BW_pool *P = w->P(); BW_element *root = nullptr;
    for (int i = 0; i < n; i++)
    {
        BW_element *e = P->new_element(XBT_INT64); VH_ASSERT(e != nullptr, "there is room"); e->init(P, 0, XBT_INT64, BIN_WRITE_ELEMENT_FLAG); *(int64_t*)(e + 1) = -1;
        if (root) root->add(e); else root = e;
    }
    if (root) { w->setRoot(root); VH_ASSERT(w->getRoot() == root, "the root is set"); int at = 0; int c = 0; for (BW_element *x = root->NextChild(at); x; x = root->NextChild(at)) { c++; VH_ASSERT(*(int64_t*)(x + 1) == -1, "the content is the one stored"); } VH_ASSERT(c == n - 1, "the content is found"); }
}
//@H clearing prop=B07 time=200 shards=12
//@B clearing up to two tags and two attributes (a tag first) with names of 1 or 5 characters and types INT32 or INT64, registered one after the other in every order with or without indexes in between, 0..2 nodes of content; cleared, a symbol added or not, filled and cleared again
H(clearing)
{
    int c0 = (int)vh_choose(12); W *w = fresh("c.xbw"); BW_pool *P = w->P(); Tab tb[2]; tb[0].n = tb[1].n = 0; int n = c0 % 4, fillc = c0 / 4;
    for (int i = 0; i < n; i++) { int k = i == 0 ? 0 : (int)vh_choose(2); if (tb[k].n == 2) vh_assume(false); register_one(w, tb, k); if (vh_choose(2)) VH_ASSERT(w->allRegistered(), "indexes are made"); }
    VH_ASSERT(w->allRegistered(), "indexes are made"); symbols_stay(P, tb); int a0 = P->allocator; if (tb[0].n) some_content(w, tb, fillc);
    for (int r = 0; r < 2; r++)
    {
        VH_ASSERT(w->Clear(), "the pool is cleared");
        VH_ASSERT(w->getRoot() == nullptr, "no content is left"); VH_ASSERT(P->allocator <= a0 + 64 && P->allocator >= (int)sizeof(BW_pool) && P->allocator <= P->allocator_limit, "its room is free again");
        symbols_stay(P, tb); VH_ASSERT(P->check_id(), "it is still a pool");
        if (r == 0 && vh_choose(2)) { int k = tb[0].n ? (int)vh_choose(2) : 0; if (tb[k].n < 3) register_one(w, tb, k); VH_ASSERT(w->allRegistered(), "indexes are made"); symbols_stay(P, tb); a0 = P->allocator > a0 ? P->allocator : a0; }
        if (tb[0].n) some_content(w, tb, 2);
        symbols_stay(P, tb);
    }
    VH_REACH("cleared");
}
// ---- B05
#ifndef DBODY
#define DBODY 24
#endif
struct Re : public BW_plugin { Re(int cap) : BW_plugin("old.xbw", nullptr, cap, 0) {} BW_pool *P() { return pool; } int cap() { return max_pool_size; } };
static BW_pool *file_of(int body) { g_file = (long)sizeof(BW_pool) + body; g_cap = 0x7fffffffffffffffL; g_map = (char*)aligned_alloc(16, (size_t)g_file); for (long i = 0; i < g_file; i++) g_map[i] = (char)vh_u8(); return (BW_pool*)g_map; }
static void good_head(BW_pool *P) { strcpy(P->binary_xml_write_type_info, "binary_xml.pksoft.org"); P->pool_format_version = BIN_WRITE_POOL_FORMAT_VERSION; P->file_size = (uint32_t)g_file; P->mmap_size = CAP; P->allocator_limit = (int)g_file; }
static void accepted(Re *w)
{
    BW_pool *P = w->P(); VH_ASSERT(P != nullptr && memcmp(P->binary_xml_write_type_info, "binary_xml.pksoft.org", 22) == 0 && P->pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION, "an accepted file has the right signature and version");
    VH_ASSERT(P->file_size == (uint32_t)g_file && (int)P->mmap_size == w->cap() && P->allocator_limit == (int)g_file, "and the right sizes");
    VH_ASSERT(P->allocator >= (int)sizeof(BW_pool) && P->allocator <= P->allocator_limit, "and the allocator in the file");
    VH_ASSERT(P->root == 0 || (P->root >= (int)sizeof(BW_pool) && P->root + (int64_t)sizeof(BW_element) <= P->allocator), "and the root in the used part");
}
//@H damaged_header prop=B05 time=200
//@B damaged_header any header before a body of 24 bytes without symbols; and any file shorter than a header
H(damaged_header)
{
    if (vh_choose(2))
    {
        g_file = (long)vh_choose(sizeof(BW_pool)); g_cap = 0x7fffffffffffffffL; g_map = (char*)aligned_alloc(16, CAP); memset(g_map, 0, CAP); for (int i = 0; i < (int)sizeof(BW_pool); i++) if (i < g_file) g_map[i] = (char)vh_u8();
        Re *w = new Re(CAP); VH_ASSERT(w->Initialize() && w->P()->tags.max_id == -1 && w->P()->params.max_id == -1 && w->getRoot() == nullptr && w->P()->check_id(), "a rest of a file becomes an empty pool"); VH_REACH("fresh"); return;
    }
    BW_pool *P = file_of(DBODY); P->tags.max_id = P->params.max_id = -1; P->tags.names_offset = P->params.names_offset = P->tags.index = P->params.index = 0;
    BW_pool was = *P; Re *w = new Re(CAP); bool ok = w->Initialize();
    if (ok) { accepted(w); VH_ASSERT(w->P()->getDocTypeName() != nullptr, "the document has a name for messages"); VH_REACH("accepted"); } else VH_REACH("refused");
    bool good = memcmp(was.binary_xml_write_type_info, "binary_xml.pksoft.org", 22) == 0 && was.pool_format_version == BIN_WRITE_POOL_FORMAT_VERSION && was.file_size == (uint32_t)g_file && was.allocator_limit == (int)g_file && was.allocator >= (int)sizeof(BW_pool) && was.allocator <= was.allocator_limit && was.mmap_size >= (uint32_t)g_file && was.mmap_size < 0x80000000u && was.root == 0;
    VH_ASSERT(ok || !good, "a good file is accepted");
}
static int pick(const int *v, int n, int lo, int hi) { int k = (int)vh_choose((uint32_t)n + 1); if (k < n) return v[k]; int x = (int)vh_u32(); vh_assume(x < lo || x > hi); return x; }
//@H damaged_tables prop=B05 time=250 shards=20 tshards=20 ttime=850 tdefs=DTAB=16,DMORE=1
//@B damaged_tables a header right in signature, version and sizes before a body of any 8 (thorough 16) bytes: the table of tags or of attributes at selected positions around the body and at any position outside it, its index likewise, with any number of symbols, and the end of the used part at selected places in the body; opened, indexed anew and the names of all identifiers read
#ifndef DTAB
#define DTAB 8
#define DMORE 0
#endif
H(damaged_tables)
{
    enum { S = sizeof(BW_pool), E = S + DTAB };
    static const int NO[] = { 0, S - 1, S, S + 1, S + 4, E - 4, E - 3, E - 1, E }, IX[] = { 0, S - 1, S, S + 4, E - 4, E - 3, E }, MX[] = { -1, 0, 1 }, AL[] = { E, E - 1, S + 4, S };
    int m = pick(MX, 3, -1, 1), which = (int)vh_choose(2); BW_pool *P = file_of(DTAB); good_head(P); BW_symbol_table_16B &T = which ? P->params : P->tags, &O = which ? P->tags : P->params;
    O.max_id = -1; O.names_offset = O.index = 0; P->root = 0; T.max_id = m;
    T.names_offset = pick(NO, 9, S - 1, E + 1); T.index = pick(IX, 7, S - 1, E + 1); P->allocator = AL[vh_choose(DMORE ? 4 : 3)];
    Re *w = new Re(CAP);
    if (!w->Initialize()) { VH_REACH("refused"); return; }
    accepted(w); VH_REACH("accepted"); P = w->P(); BW_symbol_table_16B &U = which ? P->params : P->tags;
    VH_ASSERT(U.max_id < 0 || (U.names_offset >= (int)S && U.names_offset < P->allocator), "names are in the used part");
    VH_ASSERT(U.max_id < DTAB / 4, "there are no more names than room for them");
    if (U.index) for (int i = 0; i <= U.max_id; i++) { const char *s = which ? P->getAttrName((int16_t)i) : P->getTagName((int16_t)i); VH_ASSERT(s == nullptr || strlen(s) < DTAB, "a name can be read"); if (which) P->getAttrType((int16_t)i); else P->getTagType((int16_t)i); }
    else { const char *s = U.max_id < 0 ? nullptr : U.getName(P, 0); VH_ASSERT(s == nullptr || strlen(s) < DTAB, "a name can be read"); }
}
