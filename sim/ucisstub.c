/* A small in-memory UCIS C library that plays the vendor's library in the simulation: it remembers what it is
 * told, refuses what it is told to refuse, and notices misuse of its handles and iterators. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define BASE 0x5a5a00000000ULL
typedef struct { void *fh; int line, token; } Src;
typedef struct { uint64_t type; int flags; union { uint64_t i64; uint32_t i32; unsigned char *bv; } d;
                 int goal, weight, limit, bitlen; } Cov;
typedef struct { unsigned status; double simtime; const char *timeunit, *runcwd; double cputime;
                 const char *seed, *cmd, *args; int compulsory; const char *date, *user; double cost;
                 const char *toolcat; } TD;
typedef struct { int msgno, severity; char *msgstr; } Err;

typedef struct { int idx, prop; int isstr; int iv; char *sv; } Prop;
typedef struct { char *name; Cov c; int has_src; int fh, line, tok; } Item;
typedef struct {
    char kind;                       /* D db, S scope, I instance, X cross, T toggle, H history, F file */
    int db, parent, weight, source, flags, has_src, fh, line, tok, du, npts, *pts, hkind, open;
    int tm, tt, td_;
    uint64_t type;
    char *name, *name2;
    int has_td; TD td;
    int np; Prop *p;
    int nc; Item *c;
} Obj;

static Obj *o; static int no, cap;
static int misuse; static char misuse_msg[200];
typedef struct { int db, owner, pos, hist, freed; uint32_t mask; } It;
static It its[20000]; static int nit;
static struct { char name[300]; int db; } files[200]; static int nfiles;
static struct { char fn[40]; int nth, cb, seen, fired; } faults[8]; static int nfaults;
static void (*err_cb)(void *, Err *); static void *err_ud;
static char *out; static size_t outn, outcap;

static void bad(const char *m) { if (!misuse++) snprintf(misuse_msg, sizeof misuse_msg, "%s", m); }
static char *dup_(const char *s) { return s ? strdup(s) : NULL; }
static void *H(int id) { return (void *)(uintptr_t)(BASE + (uint64_t)id * 64); }
static int U(const void *h, const char *kinds, const char *who)
{
    uint64_t v = (uint64_t)(uintptr_t)h;
    if (!h) return 0;
    if (v < BASE || (v - BASE) % 64 || (v - BASE) / 64 > (uint64_t)no || (v - BASE) / 64 == 0) {
        bad(who); return -1; }
    int id = (int)((v - BASE) / 64);
    if (!strchr(kinds, o[id - 1].kind)) { bad(who); return -1; }
    return id;
}
static int DB(const void *h, const char *who)
{
    int d = U(h, "D", who);
    if (d <= 0 || !o[d - 1].open) { bad(who); return -1; }
    return d;
}
static int failing(const char *fn)
{
    for (int i = 0; i < nfaults; i++)
        if (!strcmp(faults[i].fn, fn) && ++faults[i].seen == faults[i].nth) {
            faults[i].fired = 1;
            if (faults[i].cb && err_cb) { Err e = {42, 2, "refused"}; err_cb(err_ud, &e); }
            return 1;
        }
    return 0;
}
/* anything but 0 says that a call failed */
static int refusal(void) { return no % 3 == 1 ? 1 : no % 3 == 2 ? -2 : -1; }
static Obj *mk(char kind, int db, int parent, const char *name)
{
    if (no == cap) { cap = cap ? cap * 2 : 256; o = realloc(o, cap * sizeof *o); }
    Obj *x = &o[no++];
    memset(x, 0, sizeof *x);
    x->kind = kind; x->db = db; x->parent = parent; x->name = dup_(name);
    return x;
}
static void src(const Src *s, int *has, int *fh, int *line, int *tok)
{
    if (!s) return;
    *has = 1; *fh = U(s->fh, "F", "file handle in source info"); *line = s->line; *tok = s->token;
}

void sim_reset(void) { no = nit = nfiles = nfaults = misuse = 0; misuse_msg[0] = 0; err_cb = NULL; }
void sim_fail(const char *fn, int nth, int cb)
{
    snprintf(faults[nfaults].fn, sizeof faults[0].fn, "%s", fn);
    faults[nfaults].nth = nth; faults[nfaults].cb = cb; faults[nfaults].seen = faults[nfaults].fired = 0;
    nfaults++;
}
int sim_disarm(void) { int n = 0; for (int i = 0; i < nfaults; i++) n += faults[i].fired; nfaults = 0; return n; }
int sim_live_iterators(void) { int n = 0; for (int i = 0; i < nit; i++) n += !its[i].freed; return n; }
int sim_misuse(void) { return misuse; }
const char *sim_misuse_msg(void) { return misuse_msg; }

static void put(const char *f, ...)
{
    va_list a;
    if (outcap - outn < 8192) { outcap = outcap * 2 + 65536; out = realloc(out, outcap); }
    va_start(a, f); outn += vsnprintf(out + outn, outcap - outn, f, a); va_end(a);
}
static void puts_(const char *s)
{
    if (!s) { put(" -"); return; }
    put(" x");
    for (; *s; s++) put("%02x", (unsigned char)*s);
}
const char *sim_dump(void)
{
    outn = 0; put("%s", "");
    for (int i = 0; i < no; i++) {
        Obj *x = &o[i];
        put("%c %d %d %d", x->kind, i + 1, x->db, x->parent);
        puts_(x->name); puts_(x->name2);
        put(" %d %d %llu %d %d %d %d %d %d %d %d %d %d %d", x->weight, x->source, (unsigned long long)x->type,
            x->flags, x->has_src, x->fh, x->line, x->tok, x->du, x->hkind, x->open, x->tm, x->tt, x->td_);
        put(" %d", x->npts);
        for (int k = 0; k < x->npts; k++) put(" %d", x->pts[k]);
        put("\n");
        if (x->has_td) {
            TD *t = &x->td;
            put("t %d %u %.17g %.17g %d %.17g", i + 1, t->status, t->simtime, t->cputime, t->compulsory, t->cost);
            puts_(t->timeunit); puts_(t->runcwd); puts_(t->seed); puts_(t->cmd); puts_(t->args); puts_(t->date);
            puts_(t->user); puts_(t->toolcat);
            put("\n");
        }
        for (int k = 0; k < x->np; k++) {
            Prop *p = &x->p[k];
            put("p %d %d %d %d %d", i + 1, p->idx, p->prop, p->isstr, p->iv);
            puts_(p->sv); put("\n");
        }
        for (int k = 0; k < x->nc; k++) {
            Item *c = &x->c[k];
            put("c %d %d", i + 1, k); puts_(c->name);
            put(" %llu %d %llu %d %d %d %d %d %d %d %d\n", (unsigned long long)c->c.type, c->c.flags,
                (unsigned long long)((c->c.flags & 1) ? c->c.d.i32 : c->c.d.i64), c->c.goal, c->c.weight,
                c->c.limit, c->c.bitlen, c->has_src, c->fh, c->line, c->tok);
        }
    }
    return out;
}

void *ucis_Open(const char *file)
{
    if (failing("ucis_Open")) return NULL;
    if (file) {
        for (int i = nfiles - 1; i >= 0; i--)
            if (!strcmp(files[i].name, file)) { o[files[i].db - 1].open++; return H(files[i].db); }
        return NULL;
    }
    mk('D', no + 1, 0, NULL)->open = 1;
    return H(no);
}
int ucis_Write(void *db, const char *file, void *scope, int recurse, unsigned ct)
{
    int d = DB(db, "ucis_Write db");
    if (failing("ucis_Write")) return refusal();
    if (d < 0 || !file) return -1;
    if (U(scope, "SIXT", "ucis_Write scope") < 0) return -1;
    if (nfiles < 200) { snprintf(files[nfiles].name, 300, "%s", file); files[nfiles++].db = d; }
    o[d - 1].weight = scope ? U(scope, "SIXT", "") : 0;      /* what was written last, for the dump */
    o[d - 1].source = recurse; o[d - 1].type = ct;
    free(o[d - 1].name2); o[d - 1].name2 = dup_(file);
    return 0;
}
int ucis_Close(void *db)
{
    int d = DB(db, "ucis_Close db");
    if (failing("ucis_Close")) return refusal();
    if (d < 0) return -1;
    o[d - 1].open--;
    return 0;
}
void *ucis_CreateHistoryNode(void *db, void *parent, char *l, char *ph, int kind)
{
    int d = DB(db, "ucis_CreateHistoryNode db"), p = U(parent, "H", "ucis_CreateHistoryNode parent");
    if (failing("ucis_CreateHistoryNode") || d < 0 || p < 0 || !l) return NULL;
    Obj *x = mk('H', d, p, l);
    x->name2 = dup_(ph); x->hkind = kind;
    return H(no);
}
void *ucis_CreateScope(void *db, void *parent, const char *n, Src *s, int w, int source, uint64_t type, int flags)
{
    int d = DB(db, "ucis_CreateScope db"), p = U(parent, "SIXT", "ucis_CreateScope parent");
    if (failing("ucis_CreateScope") || d < 0 || p < 0) return NULL;
    Obj *x = mk('S', d, p, n);
    x->weight = w; x->source = source; x->type = type; x->flags = flags;
    src(s, &x->has_src, &x->fh, &x->line, &x->tok);
    return H(no);
}
void *ucis_CreateInstance(void *db, void *parent, const char *n, Src *s, int w, int source, uint64_t type, void *du,
                          int flags)
{
    int d = DB(db, "ucis_CreateInstance db"), p = U(parent, "SIXT", "ucis_CreateInstance parent"),
        u = U(du, "S", "ucis_CreateInstance du");
    if (failing("ucis_CreateInstance") || d < 0 || p < 0 || u <= 0) return NULL;
    Obj *x = mk('I', d, p, n);
    x->weight = w; x->source = source; x->type = type; x->flags = flags; x->du = u;
    src(s, &x->has_src, &x->fh, &x->line, &x->tok);
    return H(no);
}
void *ucis_CreateCross(void *db, void *parent, const char *n, Src *s, int w, int source, int np, void **pts)
{
    int d = DB(db, "ucis_CreateCross db"), p = U(parent, "S", "ucis_CreateCross parent");
    if (failing("ucis_CreateCross") || d < 0 || p <= 0) return NULL;
    int *v = calloc(np + 1, sizeof *v);
    for (int i = 0; i < np; i++) if ((v[i] = U(pts[i], "S", "ucis_CreateCross points")) <= 0) return NULL;
    Obj *x = mk('X', d, p, n);
    x->weight = w; x->source = source; x->type = 0x8000; x->npts = np; x->pts = v;
    src(s, &x->has_src, &x->fh, &x->line, &x->tok);
    return H(no);
}
int ucis_CreateNextCover(void *db, void *parent, const char *n, Cov *data, Src *s)
{
    int d = DB(db, "ucis_CreateNextCover db"), p = U(parent, "SIXT", "ucis_CreateNextCover parent");
    if (failing("ucis_CreateNextCover") || d < 0 || p <= 0 || !data) return -1;
    Obj *x = &o[p - 1];
    x->c = realloc(x->c, (x->nc + 1) * sizeof *x->c);
    Item *c = &x->c[x->nc];
    memset(c, 0, sizeof *c);
    c->name = dup_(n); c->c = *data;
    src(s, &c->has_src, &c->fh, &c->line, &c->tok);
    return x->nc++;
}
void *ucis_CreateToggle(void *db, void *parent, const char *n, const char *canon, unsigned flags, int tm, int tt, int td)
{
    int d = DB(db, "ucis_CreateToggle db"), p = U(parent, "SIXT", "ucis_CreateToggle parent");
    if (failing("ucis_CreateToggle") || d < 0 || p < 0) return NULL;
    Obj *x = mk('T', d, p, n);
    x->type = 1; x->name2 = dup_(canon); x->flags = flags; x->tm = tm; x->tt = tt; x->td_ = td;
    return H(no);
}
static void prop(void *db, void *ob, int idx, int pr, int isstr, int iv, const char *sv)
{
    int d = DB(db, "property db"), i = U(ob, "DSIXTH", "property object");
    if (d < 0 || i <= 0) return;
    Obj *x = &o[i - 1];
    Prop *p = NULL;
    for (int k = 0; k < x->np; k++)
        if (x->p[k].idx == idx && x->p[k].prop == pr && x->p[k].isstr == isstr) p = &x->p[k];
    if (!p) { x->p = realloc(x->p, (x->np + 1) * sizeof *x->p); p = &x->p[x->np++]; }
    p->idx = idx; p->prop = pr; p->isstr = isstr; p->iv = iv; p->sv = dup_(sv);
}
void ucis_SetIntProperty(void *db, void *ob, int idx, int pr, int v) { prop(db, ob, idx, pr, 0, v, NULL); }
void ucis_SetStringProperty(void *db, void *ob, int idx, int pr, const char *v) { prop(db, ob, idx, pr, 1, 0, v); }
void *ucis_CreateFileHandle(void *db, const char *f, const char *wd)
{
    int d = DB(db, "ucis_CreateFileHandle db");
    if (failing("ucis_CreateFileHandle") || d < 0) return NULL;
    mk('F', d, 0, f)->name2 = dup_(wd);
    return H(no);
}
const char *ucis_GetFileName(void *db, void *fh)
{
    int d = DB(db, "ucis_GetFileName db"), f = U(fh, "F", "ucis_GetFileName handle");
    if (d < 0 || f <= 0) return NULL;
    return o[f - 1].name;
}
void ucis_RegisterErrorHandler(void *cb, void *ud) { err_cb = (void (*)(void *, Err *))cb; err_ud = ud; }
int ucis_SetTestData(void *db, void *hn, TD *t)
{
    int d = DB(db, "ucis_SetTestData db"), h = U(hn, "H", "ucis_SetTestData node");
    if (failing("ucis_SetTestData") || d < 0 || h <= 0 || !t) return -1;
    TD *x = &o[h - 1].td;
    *x = *t;
    x->timeunit = dup_(t->timeunit); x->runcwd = dup_(t->runcwd); x->seed = dup_(t->seed); x->cmd = dup_(t->cmd);
    x->args = dup_(t->args); x->date = dup_(t->date); x->user = dup_(t->user); x->toolcat = dup_(t->toolcat);
    o[h - 1].has_td = 1;
    return 0;
}
int ucis_GetTestData(void *db, void *hn, TD *t)
{
    int d = DB(db, "ucis_GetTestData db"), h = U(hn, "H", "ucis_GetTestData node");
    if (failing("ucis_GetTestData") || d < 0 || h <= 0 || !t || !o[h - 1].has_td) return -1;
    *t = o[h - 1].td;
    return 0;
}
static void *iter(int d, int owner, int hist, uint32_t mask)
{
    if (nit == 20000) abort();
    its[nit] = (It){d, owner, 0, hist, 0, mask};
    return (void *)(uintptr_t)(BASE * 2 + (uint64_t)(++nit) * 64);
}
static It *IT(void *h, const char *who)
{
    if (!h) return NULL;
    uint64_t v = (uint64_t)(uintptr_t)h;
    if (v < BASE * 2 || (v - BASE * 2) % 64 || (v - BASE * 2) / 64 > (uint64_t)nit || v == BASE * 2) {
        bad(who); return NULL; }
    It *i = &its[(v - BASE * 2) / 64 - 1];
    if (i->freed) { bad(who); return NULL; }
    return i;
}
static void *scan(void *h, const char *who)
{
    It *i = IT(h, who);
    if (!i) return NULL;
    for (; i->pos < no; ) {
        Obj *x = &o[i->pos++];
        if (x->db != i->db) continue;
        if (i->hist) {
            if (x->kind == 'H' && (i->mask == 0 || (uint32_t)x->hkind == i->mask)) return H(i->pos);
        } else if (strchr("SIXT", x->kind) && x->parent == i->owner && ((uint32_t)x->type & i->mask))
            return H(i->pos);
    }
    return NULL;
}
void *ucis_HistoryIterate(void *db, void *hn, uint32_t kind)
{
    int d = DB(db, "ucis_HistoryIterate db");
    if (failing("ucis_HistoryIterate") || d < 0 || U(hn, "H", "ucis_HistoryIterate node") < 0) return NULL;
    return iter(d, 0, 1, kind);
}
void *ucis_HistoryScan(void *db, void *it) { DB(db, "ucis_HistoryScan db"); return scan(it, "ucis_HistoryScan iterator"); }
void *ucis_ScopeIterate(void *db, void *sc, uint32_t mask)
{
    int d = DB(db, "ucis_ScopeIterate db"), s = U(sc, "SIXT", "ucis_ScopeIterate scope");
    if (failing("ucis_ScopeIterate") || d < 0 || s < 0) return NULL;
    return iter(d, s, 0, mask);
}
void *ucis_ScopeScan(void *db, void *it) { DB(db, "ucis_ScopeScan db"); return scan(it, "ucis_ScopeScan iterator"); }
void ucis_FreeIterator(void *db, void *it)
{
    DB(db, "ucis_FreeIterator db");
    It *i = IT(it, "ucis_FreeIterator iterator");
    if (i) i->freed = 1;
}
int ucis_GetScopeSourceInfo(void *db, void *sc, Src *s)
{
    int d = DB(db, "ucis_GetScopeSourceInfo db"), x = U(sc, "SIXT", "ucis_GetScopeSourceInfo scope");
    if (failing("ucis_GetScopeSourceInfo") || d < 0 || x <= 0 || !s) return -1;
    Obj *b = &o[x - 1];
    s->fh = b->has_src && b->fh > 0 ? H(b->fh) : NULL; s->line = b->has_src ? b->line : 0; s->token = b->has_src ? b->tok : 0;
    return 0;
}
