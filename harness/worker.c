/* Worker around the real libmbus: executes one command per input line and writes one JSON line
 * of observations per command.  All system calls the library makes on its devices are diverted
 * (ld --wrap) to a deterministic virtual device layer; all of its allocations are counted. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <termios.h>
#include <time.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <mbus/mbus.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define HAVE_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                              void (*)(const volatile void *));

#ifdef HAVE_MSAN
#define CHKMEM(p, n) __msan_check_mem_is_initialized((p), (n))
#else
#define CHKMEM(p, n) ((void)0)
#endif

/* ------------------------------------------------------------------ output */
static char OUT[64u << 20];            /* fixed: the monitors must not allocate while the library runs */
static size_t outlen;
static void oput(const char *s, size_t n)
{
    if (outlen + n + 1 > sizeof OUT) _exit(99);
    memcpy(OUT + outlen, s, n);
    outlen += n;
    OUT[outlen] = 0;
}
static void ofmt(const char *f, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    oput(b, n);
}
static const char HX[] = "0123456789abcdef";
static void ohex(const void *p, size_t n)
{
    const unsigned char *c = p;
    CHKMEM(p, n);
    oput("\"", 1);
    for (size_t i = 0; i < n; i++) {
        char b[2] = { HX[c[i] >> 4], HX[c[i] & 15] };
        oput(b, 2);
    }
    oput("\"", 1);
}
static void ostr(const char *s)          /* hex of a C string, null for NULL */
{
    if (!s) { oput("null", 4); return; }
    ohex(s, strlen(s));
}
static void odbl(double d)
{
    CHKMEM(&d, sizeof d);
    if (isnan(d)) ofmt("\"nan\"");
    else if (isinf(d)) ofmt(d > 0 ? "\"inf\"" : "\"-inf\"");
    else if (d == 0) ofmt(signbit(d) ? "-0.0" : "0.0");
    else ofmt("%.17g", d);
}
static void olong(long long v) { CHKMEM(&v, sizeof v); ofmt("%lld", v); }

/* ------------------------------------------------------------------ allocation monitor */
static int in_lib;                 /* inside a library call */
static long oom_at = -1;           /* fail the n-th allocation from now (1 = next) */
static int oom_sticky, oom_hit;
static long n_lib_alloc;
#define TBL (1u << 17)
static const volatile void *tbl[TBL];
static long live;                  /* library allocations currently live */
static unsigned hp(const volatile void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (TBL - 1); }
static void mhook(const volatile void *p, size_t n)
{
    (void)n;
    if (!in_lib || !p) return;
    unsigned h = hp(p);
    for (unsigned i = 0; i < TBL; i++, h = (h + 1) & (TBL - 1))
        if (!tbl[h] || tbl[h] == (void *)1) { tbl[h] = p; live++; return; }
}
static void fhook(const volatile void *p)
{
    if (!p) return;
    unsigned h = hp(p);
    for (unsigned i = 0; i < TBL; i++, h = (h + 1) & (TBL - 1)) {
        if (!tbl[h]) return;
        if (tbl[h] == p) { tbl[h] = (void *)1; live--; return; }
    }
}
static void live_reset(void) { if (live != 0 || 1) memset((void *)tbl, 0, sizeof tbl); live = 0; }

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
int __real_vasprintf(char **, const char *, va_list);
static int oom_now(void)
{
    if (!in_lib) return 0;
    n_lib_alloc++;
    if (oom_at < 0) return 0;
    if (n_lib_alloc == oom_at || (oom_sticky && n_lib_alloc > oom_at)) { oom_hit++; errno = ENOMEM; return 1; }
    return 0;
}
void *__wrap_malloc(size_t n) { return oom_now() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return oom_now() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return oom_now() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return oom_now() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return oom_now() ? NULL : __real_strndup(s, n); }
int __wrap_vasprintf(char **s, const char *f, va_list ap)
{
    if (oom_now()) { return -1; }
    return __real_vasprintf(s, f, ap);
}
int __wrap_asprintf(char **s, const char *f, ...)
{
    va_list ap;
    if (oom_now()) return -1;
    va_start(ap, f);
    int r = __real_vasprintf(s, f, ap);
    va_end(ap);
    return r;
}

static int capfd;                   /* everything the library prints goes here */
#define LIB(stmt) do { in_lib = 1; stmt; in_lib = 0; } while (0)

static void cap_reset(void)
{
    fflush(stdout);
    if (ftruncate(capfd, 0)) {}
    lseek(capfd, 0, SEEK_SET);
}
static void cap_dump(void)          /* emit captured text as hex */
{
    static char b[1 << 20];
    fflush(stdout);
    ssize_t n = pread(capfd, b, sizeof b, 0);
    if (n < 0) n = 0;
    ohex(b, (size_t)n);
}

/* ------------------------------------------------------------------ helpers */
static int hv(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
/* exact-size heap copy of the bytes written in hex ("-" = empty) */
static unsigned char *unhex(const char *s, size_t *n)
{
    size_t l = strcmp(s, "-") ? strlen(s) / 2 : 0;
    unsigned char *b = __real_malloc(l ? l : 1);
    for (size_t i = 0; i < l; i++) b[i] = (unsigned char)(hv(s[2 * i]) * 16 + hv(s[2 * i + 1]));
    if (!l) { free(b); b = __real_malloc(0); }
    *n = l;
    return b;
}
static char *unhexs(const char *s)     /* exact-size NUL-terminated string */
{
    size_t l = strcmp(s, "-") ? strlen(s) / 2 : 0;
    char *b = __real_malloc(l + 1);
    for (size_t i = 0; i < l; i++) b[i] = (char)(hv(s[2 * i]) * 16 + hv(s[2 * i + 1]));
    b[l] = 0;
    return b;
}
static int has(const char *flags, int c) { return strchr(flags, c) != NULL; }

static void dump_fields(mbus_frame *f)
{
    size_t ds = f->data_size;
    CHKMEM(&ds, sizeof ds);
    ofmt("{\"type\":%d,\"s1\":%d,\"l1\":%d,\"l2\":%d,\"s2\":%d,\"c\":%d,\"a\":%d,\"ci\":%d,\"cs\":%d,\"stop\":%d,\"ds\":%zu,\"data\":",
         f->type, f->start1, f->length1, f->length2, f->start2, f->control, f->address,
         f->control_information, f->checksum, f->stop, ds);
    ohex(f->data, ds <= MBUS_FRAME_DATA_LENGTH ? ds : 0);
    int t, d;
    LIB(t = mbus_frame_type(f));
    LIB(d = mbus_frame_direction(f));
    ofmt(",\"ft\":%d,\"dir\":%d,\"nx\":%d}", t, d, f->next != NULL);
}

static void dump_norm(mbus_record *r)
{
    if (!r) { ofmt("null"); return; }
    ofmt("{\"num\":%d,\"v\":", r->is_numeric ? 1 : 0);
    if (r->is_numeric) odbl(r->value.real_val);
    else { ostr(r->value.str_val.value); ofmt(",\"sz\":"); olong(r->value.str_val.size); }
    ofmt(",\"unit\":"); ostr(r->unit);
    ofmt(",\"fn\":"); ostr(r->function_medium);
    ofmt(",\"q\":"); ostr(r->quantity);
    ofmt(",\"st\":"); olong(r->storage_number);
    ofmt(",\"ta\":"); olong(r->tariff);
    ofmt(",\"dev\":"); olong(r->device);
    ofmt("}");
}

static void dump_records(mbus_frame_data *d, const char *fl)
{
    mbus_data_record *r;
    size_t n = 0;
    ofmt("[");
    for (r = d->data_var.record; r; r = r->next) {
        if (n++) ofmt(",");
        mbus_data_information_block *dib = &r->drh.dib;
        mbus_value_information_block *vib = &r->drh.vib;
        size_t nd = dib->ndife, nv = vib->nvife;
        CHKMEM(&nd, sizeof nd); CHKMEM(&nv, sizeof nv);
        ofmt("{\"dif\":%d,\"nd\":%zu,\"dife\":", dib->dif, nd);
        ohex(dib->dife, nd > 10 ? 10 : nd);
        ofmt(",\"vif\":%d,\"nv\":%zu,\"vife\":", vib->vif, nv);
        ohex(vib->vife, nv > 10 ? 10 : nv);
        ofmt(",\"cust\":");
        ohex(vib->custom_vif, strnlen((char *)vib->custom_vif, sizeof vib->custom_vif));
        ofmt(",\"dl\":%zu,\"data\":", r->data_len);
        ohex(r->data, r->data_len <= sizeof r->data ? r->data_len : sizeof r->data);
        if (has(fl, 'a')) {
            const char *s; long v; int dv;
            LIB(s = mbus_data_record_function(r)); ofmt(",\"fn\":"); ostr(s);
            LIB(v = mbus_data_record_storage_number(r)); ofmt(",\"st\":"); olong(v);
            LIB(v = mbus_data_record_tariff(r)); ofmt(",\"ta\":"); olong(v);
            LIB(dv = mbus_data_record_device(r)); ofmt(",\"dev\":"); olong(dv);
            LIB(s = mbus_data_record_unit(r)); ofmt(",\"unit\":"); ostr(s);
            LIB(s = mbus_data_record_value(r)); ofmt(",\"val\":"); ostr(s);
        }
        if (has(fl, 'n')) {
            mbus_record *nr;
            LIB(nr = mbus_parse_variable_record(r));
            ofmt(",\"nr\":"); dump_norm(nr);
            LIB(mbus_record_free(nr));
        }
        if (has(fl, 'm')) {
            double rv = 0; char *sv = NULL; int ss = 0, rr;
            LIB(rr = mbus_variable_value_decode(r, &rv, &sv, &ss));
            ofmt(",\"vd\":[%d,", rr);
            if (rr == 0) { odbl(rv); ofmt(","); ostr(sv); ofmt(",%d", sv ? ss : 0); } else ofmt("0,null,0");
            ofmt("]");
            free(sv);
        }
        ofmt("}");
    }
    ofmt("]");
    CHKMEM(&d->data_var.nrecords, sizeof(size_t));
    ofmt(",\"nrec\":%zu,\"more\":%d", d->data_var.nrecords, d->data_var.more_records_follow);
}

static void dump_decode(mbus_frame *f, const char *fl)
{
    mbus_frame_data *d;
    LIB(d = mbus_frame_data_new());
    if (!d) { ofmt("{\"r\":\"nomem\"}"); return; }
    int r;
    d->data_var.nrecords = 3, d->data_var.more_records_follow = 1;  /* as an earlier telegram would have left them */
    LIB(r = mbus_frame_data_parse(f, d));
    ofmt("{\"r\":%d", r);
    if (r == 0) {
        ofmt(",\"type\":%d,\"err\":%d", d->type, d->type == MBUS_DATA_TYPE_ERROR ? d->error : 0);
        if (d->type == MBUS_DATA_TYPE_VARIABLE) {
            ofmt(",\"hdr\":"); ohex(&d->data_var.header, sizeof d->data_var.header);
            ofmt(",\"recs\":"); dump_records(d, fl);
            const char *s;
            LIB(s = mbus_decode_manufacturer(d->data_var.header.manufacturer[0], d->data_var.header.manufacturer[1]));
            ofmt(",\"man\":"); ostr(s);
            LIB(s = mbus_data_variable_medium_lookup(d->data_var.header.medium));
            ofmt(",\"med\":"); ostr(s);
            LIB(s = mbus_data_product_name(&d->data_var.header));
            ofmt(",\"prod\":"); ostr(s);
        }
        if (d->type == MBUS_DATA_TYPE_FIXED) {
            mbus_data_fixed *x = &d->data_fix;
            ofmt(",\"fix\":"); ohex(x, sizeof *x);
            const char *s;
            LIB(s = mbus_data_fixed_medium(x)); ofmt(",\"med\":"); ostr(s);
            LIB(s = mbus_data_fixed_unit(x->cnt1_type)); ofmt(",\"u1\":"); ostr(s);
            LIB(s = mbus_data_fixed_unit(x->cnt2_type)); ofmt(",\"u2\":"); ostr(s);
            LIB(s = mbus_data_fixed_function(x->status)); ofmt(",\"fn\":"); ostr(s);
            mbus_record *nr;
            LIB(nr = mbus_parse_fixed_record((char)x->status, (char)x->cnt1_type, x->cnt1_val));
            ofmt(",\"n1\":"); dump_norm(nr); LIB(mbus_record_free(nr));
            LIB(nr = mbus_parse_fixed_record((char)x->status, (char)x->cnt2_type, x->cnt2_val));
            ofmt(",\"n2\":"); dump_norm(nr); LIB(mbus_record_free(nr));
        }
        if (d->type == MBUS_DATA_TYPE_ERROR) {
            const char *s;
            LIB(s = mbus_data_error_lookup(d->error));
            ofmt(",\"etext\":"); ostr(s);
        }
        if (has(fl, 'x')) {
            char *x;
            LIB(x = mbus_frame_data_xml(d));
            ofmt(",\"xml\":"); ostr(x); free(x);
        }
        if (has(fl, 'N')) {
            char *x;
            LIB(x = mbus_frame_data_xml_normalized(d));
            ofmt(",\"nxml\":"); ostr(x); free(x);
        }
        if (has(fl, 'p')) {
            LIB(mbus_frame_data_print(d));
            if (d->type == MBUS_DATA_TYPE_VARIABLE) {
                LIB(mbus_data_variable_header_print(&d->data_var.header));
                LIB(mbus_data_variable_print(&d->data_var));
            }
            if (d->type == MBUS_DATA_TYPE_FIXED) LIB(mbus_data_fixed_print(&d->data_fix));
        }
        if (has(fl, 'L')) {             /* listings: the whole data, the header alone, the kind's own function */
            cap_reset(); LIB(mbus_frame_data_print(d)); ofmt(",\"ltxt\":"); cap_dump();
            cap_reset();
            if (d->type == MBUS_DATA_TYPE_VARIABLE) { LIB(mbus_data_variable_print(&d->data_var)); ofmt(",\"lown\":"); cap_dump(); cap_reset(); LIB(mbus_data_variable_header_print(&d->data_var.header)); }
            else if (d->type == MBUS_DATA_TYPE_FIXED) { LIB(mbus_data_fixed_print(&d->data_fix)); ofmt(",\"lown\":"); cap_dump(); }
            else { LIB(mbus_data_error_print(d->error)); ofmt(",\"lown\":"); cap_dump(); }
            ofmt(",\"lhead\":"); cap_dump();
        }
        if (has(fl, 'i')) {
            /* pack the decoded form into a fresh frame that has nothing of the original payload */
            mbus_frame *g;
            LIB(g = mbus_frame_new(MBUS_FRAME_TYPE_LONG));
            if (g) {
                g->control = f->control; g->address = f->address;
                g->control_information = f->control_information;
                int pr;
                LIB(pr = mbus_frame_internal_pack(g, d));
                ofmt(",\"ip\":{\"r\":%d,\"ds\":%zu,\"ci\":%d,\"data\":", pr, g->data_size, g->control_information);
                if (pr == 0 && g->data_size <= MBUS_FRAME_DATA_LENGTH) ohex(g->data, g->data_size); else ofmt("null");
                ofmt("}");
                LIB(mbus_frame_free(g));
            }
        }
    }
    ofmt("}");
    LIB(mbus_frame_data_free(d));
}

static void dump_msg(mbus_frame *f, int r, const char *fl)
{
    ofmt("{\"r\":%d", r);
    if (r == 0) {
        ofmt(",\"f\":"); dump_fields(f);
        if (has(fl, 'v')) { int v; LIB(v = mbus_frame_verify(f)); ofmt(",\"ver\":%d", v); }
        if (has(fl, 'd')) { ofmt(",\"dec\":"); dump_decode(f, fl); }
        if (has(fl, 'z')) { char *x; LIB(x = mbus_frame_xml(f)); ofmt(",\"fxml\":"); ostr(x); free(x); }
        if (has(fl, 's')) { char *s; LIB(s = mbus_frame_get_secondary_address(f)); ofmt(",\"sa\":"); ostr(s); }
        if (has(fl, 'p') || has(fl, 'P')) {
            cap_reset();
            int pr;
            LIB(pr = mbus_frame_print(f));
            ofmt(",\"pr\":%d", pr);
            if (has(fl, 'P')) { ofmt(",\"ptxt\":"); cap_dump(); }
        }
        if (has(fl, 'k')) {
            unsigned char *b = __real_malloc(300);
            int n;
            LIB(n = mbus_frame_pack(f, b, 300));
            ofmt(",\"pk\":%d,\"pkb\":", n);
            ohex(b, n > 0 && n <= 300 ? n : 0);
            free(b);
        }
    }
    ofmt("}");
}

/* ------------------------------------------------------------------ views */
static unsigned long long fnv(unsigned long long h, const void *p, size_t n)
{
    const unsigned char *b = p;
    while (n--) h = (h ^ *b++) * 1099511628211ULL;
    return h;
}
static unsigned long long frame_hash(mbus_frame *f)
{
    unsigned long long h = 1469598103934665603ULL;
    unsigned char x[10] = { f->start1, f->length1, f->length2, f->start2, f->control, f->address, f->control_information, f->checksum, f->stop, (unsigned char)f->type };
    size_t ds = f->data_size;
    h = fnv(h, x, sizeof x); h = fnv(h, &ds, sizeof ds); h = fnv(h, f->data, ds <= 252 ? ds : 252);
    h = fnv(h, &f->timestamp, sizeof f->timestamp);
    void *nx = f->next; return fnv(h, &nx, sizeof nx);
}
static unsigned long long data_hash(mbus_frame_data *d)
{
    unsigned long long h = 1469598103934665603ULL;
    h = fnv(h, &d->type, sizeof d->type);
    if (d->type == MBUS_DATA_TYPE_FIXED) return fnv(h, &d->data_fix, sizeof d->data_fix);
    if (d->type != MBUS_DATA_TYPE_VARIABLE) return fnv(h, &d->error, sizeof d->error);
    h = fnv(h, &d->data_var.header, sizeof d->data_var.header);
    h = fnv(h, &d->data_var.nrecords, sizeof d->data_var.nrecords);
    h = fnv(h, &d->data_var.more_records_follow, sizeof d->data_var.more_records_follow);
    for (mbus_data_record *r = d->data_var.record; r; r = r->next) {
        void *self = r;
        h = fnv(h, &self, sizeof self);
        h = fnv(h, &r->drh.dib.dif, 1); h = fnv(h, &r->drh.dib.ndife, sizeof r->drh.dib.ndife);
        h = fnv(h, r->drh.dib.dife, r->drh.dib.ndife <= 10 ? r->drh.dib.ndife : 10);
        h = fnv(h, &r->drh.vib.vif, 1); h = fnv(h, &r->drh.vib.nvife, sizeof r->drh.vib.nvife);
        h = fnv(h, r->drh.vib.vife, r->drh.vib.nvife <= 10 ? r->drh.vib.nvife : 10);
        h = fnv(h, r->drh.vib.custom_vif, strnlen((char *)r->drh.vib.custom_vif, sizeof r->drh.vib.custom_vif));
        h = fnv(h, &r->data_len, sizeof r->data_len); h = fnv(h, r->data, r->data_len <= sizeof r->data ? r->data_len : 0);
        h = fnv(h, &r->timestamp, sizeof r->timestamp);
    }
    return h;
}
static void views(mbus_frame *f, const char *ops)
{
    mbus_frame_data *d; int dr, r; char *x; long v; const char *s;
    f->timestamp = 1700000000;
    LIB(d = mbus_frame_data_new());
    if (!d) return;
    LIB(dr = mbus_frame_data_parse(f, d));
    for (const char *o = ops; *o; o++) {
        if (o != ops) ofmt(",");
        unsigned long long f0 = frame_hash(f), d0 = dr == 0 ? data_hash(d) : 0;
        ofmt("[\"%c\",", *o);
        if (strchr("XNDHAnmI", *o) && dr != 0) ofmt("0");
        else switch (*o) {
        case 'V': LIB(r = mbus_frame_verify(f)); ofmt("%d", r); break;
        case 'T': { int a, b; LIB(a = mbus_frame_type(f)); LIB(b = mbus_frame_direction(f)); ofmt("%d", a * 100 + b); break; }
        case 'Z': LIB(x = mbus_frame_xml(f)); ostr(x); free(x); break;
        case 'S': LIB(x = mbus_frame_get_secondary_address(f)); ostr(x); break;
        case 'P': cap_reset(); LIB(mbus_frame_print(f)); cap_dump(); break;
        case 'K': { unsigned char *b = __real_malloc(300); LIB(r = mbus_frame_pack(f, b, 300)); ohex(b, r > 0 && r <= 300 ? (size_t)r : 0); free(b); break; }
        case 'X': LIB(x = mbus_frame_data_xml(d)); ostr(x); free(x); break;
        case 'N': LIB(x = mbus_frame_data_xml_normalized(d)); ostr(x); free(x); break;
        case 'D': cap_reset(); LIB(mbus_frame_data_print(d)); cap_dump(); break;
        case 'H': cap_reset(); if (d->type == MBUS_DATA_TYPE_VARIABLE) LIB(mbus_data_variable_header_print(&d->data_var.header)); cap_dump(); break;
        case 'Y': { mbus_frame_data *e; LIB(e = mbus_frame_data_new()); LIB(r = mbus_frame_data_parse(f, e)); ofmt("%d", r); LIB(mbus_frame_data_free(e)); break; }
        case 'A': case 'n': case 'm':
            ofmt("[");
            if (d->type == MBUS_DATA_TYPE_VARIABLE) for (mbus_data_record *q = d->data_var.record; q; q = q->next) {
                if (q != d->data_var.record) ofmt(",");
                if (*o == 'A') {
                    ofmt("[");
                    LIB(v = mbus_data_record_storage_number(q)); olong(v); ofmt(",");
                    LIB(v = mbus_data_record_tariff(q)); olong(v); ofmt(",");
                    LIB(r = mbus_data_record_device(q)); olong(r); ofmt(",");
                    LIB(s = mbus_data_record_function(q)); ostr(s); ofmt(",");
                    LIB(s = mbus_data_record_unit(q)); ostr(s); ofmt(",");
                    LIB(s = mbus_data_record_value(q)); ostr(s); ofmt("]");
                } else if (*o == 'n') {
                    mbus_record *nr; LIB(nr = mbus_parse_variable_record(q)); dump_norm(nr); LIB(mbus_record_free(nr));
                } else {
                    double rv = 0; char *sv = NULL; int ss = 0;
                    LIB(r = mbus_variable_value_decode(q, &rv, &sv, &ss));
                    ofmt("[%d,", r); if (r == 0) { odbl(rv); ofmt(","); ostr(sv); } else ofmt("0,0"); ofmt("]");
                    free(sv);
                }
            }
            ofmt("]");
            break;
        case 'I': {
            mbus_frame *g; LIB(g = mbus_frame_new(MBUS_FRAME_TYPE_LONG));
            if (g) { g->control = f->control; g->address = f->address; g->control_information = f->control_information;
                LIB(r = mbus_frame_internal_pack(g, d)); if (r == 0 && g->data_size <= 252) ohex(g->data, g->data_size); else ofmt("%d", r); LIB(mbus_frame_free(g)); }
            else ofmt("0");
            break; }
        default: ofmt("0");
        }
        unsigned long long f1 = frame_hash(f), d1 = dr == 0 ? data_hash(d) : 0;
        ofmt(",%d,%d]", f0 == f1, d0 == d1);
    }
    LIB(mbus_frame_data_free(d));
}

/* ------------------------------------------------------------------ virtual devices */
enum { IT_DATA, IT_EINTR, IT_SILENCE, IT_EOF, IT_ERR, IT_PAUSE };
typedef struct { int kind, err; unsigned char *b; size_t n, off; } item;
#define MAXQ 65536
#define MAXREP 4096
typedef struct { int prim; unsigned char id[8]; int nt; unsigned char *t[16]; size_t tl[16]; int cur, fcb, sel, acks; } slave;
/* everything that belongs to one line; sessions may use two lines with a handle each */
static struct line {
    item rxq[MAXQ];
    int rxh, rxt;
    char *rep[MAXREP]; int nrep, irep;
    char *repall;          /* answer to every telegram once the list is used up */
    char *wrs[MAXREP]; int nwrs, iwrs;
    int dev_serial;             /* device kind of the session */
    int fds[64], nfds_;         /* currently open virtual fds (0 closed, 1 tty, 2 socket) */
    int rcvtimeo_set, nonblock, istty, echo_on;
    struct termios vtio;
    long long vus;              /* virtual time */
    int gai_n, gai_err, gai_live;
    struct { char name[16]; long k, seen; int err; } flt[32]; int nflt;
    slave sl[512]; int nsl; int collmode;      /* population */
    unsigned char txb[1024]; size_t txn;
    long telegrams;
    mbus_handle *hdl; mbus_frame *fr[8];
} lines[2], *L = lines;
#define rxq (L->rxq)
#define rxh (L->rxh)
#define rxt (L->rxt)
#define rep (L->rep)
#define nrep (L->nrep)
#define repall (L->repall)
#define irep (L->irep)
#define wrs (L->wrs)
#define nwrs (L->nwrs)
#define iwrs (L->iwrs)
#define dev_serial (L->dev_serial)
#define fds (L->fds)
#define nfds_ (L->nfds_)
#define rcvtimeo_set (L->rcvtimeo_set)
#define nonblock (L->nonblock)
#define istty (L->istty)
#define echo_on (L->echo_on)
#define vtio (L->vtio)
#define vus (L->vus)
#define gai_n (L->gai_n)
#define gai_err (L->gai_err)
#define gai_live (L->gai_live)
#define flt (L->flt)
#define nflt (L->nflt)
#define sl (L->sl)
#define nsl (L->nsl)
#define collmode (L->collmode)
#define txb (L->txb)
#define txn (L->txn)
#define telegrams (L->telegrams)
#define VFD (700 + 100 * (int)(L - lines))
static long steps, steplimit = 400000;
static sigjmp_buf runaway;
static int armed;
static int nev; static long maxev = 200000;

static void ev0(const char *k) { if (nev++) ofmt(","); ofmt("[\"%s\"", k); }
static void ev1(void) { ofmt("]"); if (nev > maxev) siglongjmp(runaway, 2); }
static int vfd(int fd) { return fd >= VFD && fd < VFD + 64; }
static int fdopen_(int fd) { return vfd(fd) && fds[fd - VFD]; }
static int bad(const char *what, int fd)
{
    ev0("badfd"); ofmt(",\"%s\",%d", what, fd); ev1();
    errno = EBADF;
    return -1;
}
static void tick(void) { if (++steps > steplimit) siglongjmp(runaway, 1); }
static int fault(const char *n)
{
    for (int i = 0; i < nflt; i++)
        if (!strcmp(flt[i].name, n) && ++flt[i].seen == flt[i].k) {
            ev0("fault"); ofmt(",\"%s\",%d", n, flt[i].err); ev1();
            errno = flt[i].err;
            return 1;
        }
    return 0;
}
static void hang(const char *w) { ev0("hang"); ofmt(",\"%s\"", w); ev1(); siglongjmp(runaway, 3); }
static void rxpush(int kind, const unsigned char *b, size_t n, int err)
{
    if (rxt >= MAXQ) return;
    item *q = &rxq[rxt++];
    q->kind = kind; q->err = err; q->off = 0; q->n = n; q->b = NULL;
    if (n) { int il = in_lib; in_lib = 0; q->b = __real_malloc(n); memcpy(q->b, b, n); in_lib = il; }
}
static void items(const char *spec)           /* d<hex>,i,a,z,e<errno> separated by ',' */
{
    int il = in_lib; in_lib = 0;     /* the peer, not the library, owns these */
    char *s = __real_strdup(spec), *save = NULL, *t;
    for (t = strtok_r(s, ",", &save); t; t = strtok_r(NULL, ",", &save)) {
        if (t[0] == 'd') { size_t n; unsigned char *b = unhex(t + 1, &n); if (n) rxpush(IT_DATA, b, n, 0); free(b); }
        else if (t[0] == 'i') rxpush(IT_EINTR, NULL, 0, 0);
        else if (t[0] == 'a') rxpush(IT_SILENCE, NULL, 0, 0);
        else if (t[0] == 'p') rxpush(IT_PAUSE, NULL, 0, 0);
        else if (t[0] == 'z') rxpush(IT_EOF, NULL, 0, 0);
        else if (t[0] == 'e') rxpush(IT_ERR, NULL, 0, atoi(t + 1));
    }
    free(s);
    in_lib = il;
}
static void pop(void) { if (rxh < rxt) { free(rxq[rxh].b); rxq[rxh].b = NULL; rxh++; } }

static ssize_t vread(int fd, void *buf, size_t n, int peek, int dontwait)
{
    tick();
    if (!fdopen_(fd)) return bad("read", fd);
    if (fault("read")) return -1;
    if (n == 0) return 0;
    int tty = fds[fd - VFD] == 1;
    if (rxh < rxt) {
        item *q = &rxq[rxh];
        switch (q->kind) {
        case IT_DATA: {
            size_t m = q->n - q->off;
            if (m > n) m = n;
            memcpy(buf, q->b + q->off, m);
            if (!peek) {
                ev0("r"); ofmt(","); ohex(q->b + q->off, m); ev1();
                q->off += m;
                if (q->off == q->n) pop();
            }
            vus += 1000;
            return (ssize_t)m; }
        case IT_EINTR: pop(); ev0("ri"); ev1(); errno = EINTR; return -1;
        case IT_ERR: { int e = q->err; pop(); ev0("re"); ofmt(",%d", e); ev1(); errno = e; return -1; }
        case IT_EOF:
            if (!tty) { ev0("rz"); ev1(); return 0; }
            pop(); break;
        case IT_SILENCE: pop(); break;
        case IT_PAUSE: q->err = 1; break;      /* silent until the operation is over */
        }
    }
    /* silence */
    if (tty) {
        if (!nonblock && !dontwait && vtio.c_cc[VMIN] > 0) hang("read on a silent serial line with VMIN>0");
        vus += 100000LL * vtio.c_cc[VTIME];
        ev0("rt"); ev1();
        if (nonblock && vtio.c_cc[VTIME] == 0 && vtio.c_cc[VMIN] > 0) { errno = EAGAIN; return -1; }
        return 0;
    }
    if (!nonblock && !dontwait && !rcvtimeo_set) hang("read on a silent socket without time-out");
    vus += 4000000;
    ev0("rt"); ev1();
    errno = EAGAIN;
    return -1;
}

static void peer_telegram(const unsigned char *t, size_t n);
static void tx_byte(unsigned char c)
{
    if (txn < sizeof txb) txb[txn++] = c;
    for (;;) {
        size_t need;
        if (txn == 0) return;
        if (txb[0] == 0xE5) need = 1;
        else if (txb[0] == 0x10) need = 5;
        else if (txb[0] == 0x68) need = txn < 2 ? 2 : (size_t)txb[1] + 6;
        else need = 1;
        if (txn < need || (txb[0] == 0x68 && txn < 2)) return;
        if (txb[0] == 0x68 && txn == 2 && need > 2) return;
        peer_telegram(txb, need);
        memmove(txb, txb + need, txn - need);
        txn -= need;
    }
}
static ssize_t vwrite(int fd, const void *buf, size_t n, int nosig)
{
    tick();
    if (!fdopen_(fd)) return bad("write", fd);
    if (n > 1u << 20) { ev0("badlen"); ofmt(",%lld", (long long)n); ev1(); errno = EFAULT; return -1; }
    size_t m = n;
    int tty = fds[fd - VFD] == 1;
    if (iwrs < nwrs) {
        char *w = wrs[iwrs++];
        if (w[0] == 's') { m = (size_t)atoi(w + 1); if (m > n) m = n; }
        if (w[0] == 'e') {
            int e = atoi(w + 1);
            ev0("we"); ofmt(",%d,", e); ohex(buf, n); ev1();
            if (e == EPIPE && !tty && !nosig) {
                struct sigaction sa;
                sigaction(SIGPIPE, NULL, &sa);
                if (sa.sa_handler == SIG_DFL) { ev0("sigpipe"); ev1(); }
            }
            errno = e;
            return -1;
        }
    }
    ev0("w"); ofmt(","); ohex(buf, m); ofmt(",%zu", n); ev1();
    for (size_t i = 0; i < m; i++) tx_byte(((const unsigned char *)buf)[i]);
    return (ssize_t)m;
}

/* ---- bus population */
static int nib_match(int want, int got) { return want == 0xF || want == got; }
static int sel_match(const slave *s, const unsigned char *p)
{
    for (int i = 0; i < 4; i++)
        if (!nib_match(p[i] & 15, s->id[i] & 15) || !nib_match(p[i] >> 4, s->id[i] >> 4)) return 0;
    if (!((p[4] == 0xFF && p[5] == 0xFF) || (p[4] == s->id[4] && p[5] == s->id[5]))) {
        /* byte-wise wildcards of the two manufacturer bytes */
        if (!((p[4] == 0xFF || p[4] == s->id[4]) && (p[5] == 0xFF || p[5] == s->id[5]))) return 0;
    }
    if (p[6] != 0xFF && p[6] != s->id[6]) return 0;
    if (p[7] != 0xFF && p[7] != s->id[7]) return 0;
    return 1;
}
static int frame_ok(const unsigned char *t, size_t n)
{
    unsigned s = 0;
    if (n == 1) return t[0] == 0xE5;
    if (n == 5 && t[0] == 0x10) return ((t[1] + t[2]) & 255) == t[3] && t[4] == 0x16;
    if (n < 9 || t[0] != 0x68 || t[3] != 0x68 || t[1] != t[2] || (size_t)t[1] + 6 != n || t[n - 1] != 0x16) return 0;
    for (size_t i = 4; i < n - 2; i++) s += t[i];
    return (s & 255) == t[n - 2];
}
static void peer_telegram(const unsigned char *t, size_t n)
{
    telegrams++;
    ev0("tg"); ofmt(","); ohex(t, n); ofmt(",%d", frame_ok(t, n)); ev1();
    if (echo_on) rxpush(IT_DATA, t, n, 0);
    if (irep < nrep) { items(rep[irep++]); return; }
    if (repall) { items(repall); return; }
    if (!nsl || !frame_ok(t, n)) return;
    int c = n == 5 ? t[1] : t[4], a = n == 5 ? t[2] : t[5];
    int who[512], kind[512], nw = 0;   /* kind 0 = ACK, else telegram index+1 */
    for (int i = 0; i < nsl; i++) {
        slave *s = &sl[i];
        int mine = a == s->prim || a == 0xFE || a == 0xFF || (a == 0xFD && s->sel);
        int resp = 0, k = 0;
        if (n == 5 && c == 0x40) {
            if (a == 0xFD) { if (s->sel) { s->fcb = -1; s->cur = -1; resp = 1; s->sel = 0; } }
            else if (mine) { s->fcb = -1; s->cur = -1; resp = 1; }
        } else if (n == 5 && (c == 0x5B || c == 0x7B)) {
            if (mine && s->nt) {
                int fcb = (c >> 5) & 1;
                if (s->fcb != fcb || s->cur < 0) s->cur = (s->cur + 1) % s->nt;
                s->fcb = fcb;
                resp = 1; k = s->cur + 1;
            }
        } else if (n > 5 && (c == 0x53 || c == 0x73)) {
            if ((t[6] == 0x52 || t[6] == 0x56) && a == 0xFD) {
                if (n == 17 && sel_match(s, t + 7)) { s->sel = 1; s->fcb = -1; s->cur = -1; resp = 1; }
                else s->sel = 0;
            } else if (mine) {
                resp = 1;
                if (t[6] == 0x51 && n == 12 && t[7] == 0x01 && t[8] == 0x7A) s->prim = t[9];
            }
        }
        if (resp && a != 0xFF) { who[nw] = i; kind[nw++] = k; }
    }
    if (nw == 0) return;
    if (nw == 1) {
        slave *s = &sl[who[0]];
        static const unsigned char ack = 0xE5;
        if (kind[0] == 0) rxpush(IT_DATA, &ack, 1, 0);
        else rxpush(IT_DATA, s->t[kind[0] - 1], s->tl[kind[0] - 1], 0);
        return;
    }
    unsigned char m[300]; size_t ml = 0;
    memset(m, 0xFF, sizeof m);
    if (kind[0] == 0) {                       /* colliding ACKs */
        if (collmode == 0) { for (int i = 0; i < nw && i < 8; i++) m[ml++] = 0xE5; }
        else if (collmode == 1) m[ml++] = 0xC1;
        else if (collmode == 2) { m[ml++] = 0xE5; }
        else { m[ml++] = 0x00; m[ml++] = 0xE5; }
    } else {                                  /* colliding data: wired-AND, never a valid frame */
        for (int i = 0; i < nw; i++) {
            unsigned char *b = sl[who[i]].t[kind[i] - 1]; size_t l = sl[who[i]].tl[kind[i] - 1];
            for (size_t j = 0; j < l; j++) m[j] &= b[j];
            if (l > ml) ml = l;
        }
        m[1] = (unsigned char)(ml - 6); m[2] = m[1]; m[3] = 0x68; m[0] = 0x68;
        m[ml - 1] = 0x17;
        if (collmode == 3) m[2] ^= 1;
    }
    rxpush(IT_DATA, m, ml, 0);
}

/* ---- wrapped calls */
#define DECL(ret, name, ...) ret __real_##name(__VA_ARGS__)
DECL(int, close, int); DECL(ssize_t, read, int, void *, size_t); DECL(ssize_t, write, int, const void *, size_t);
DECL(int, isatty, int); DECL(int, tcgetattr, int, struct termios *); DECL(int, tcsetattr, int, int, const struct termios *);
DECL(time_t, time, time_t *); DECL(int, clock_gettime, clockid_t, struct timespec *);
DECL(int, gettimeofday, struct timeval *, void *);

static int newfd(int kind)
{
    for (int i = 0; i < 64; i++) if (!fds[i]) { fds[i] = kind; nfds_++; return VFD + i; }
    errno = EMFILE; return -1;
}
static int vopen(const char *p, int fl)
{
    tick();
    if (fault("open")) return -1;
    int fd = newfd(1);
    ev0("open"); ofmt(","); ostr(p); ofmt(",%d,%d", fl, fd); ev1();
    nonblock = (fl & O_NONBLOCK) != 0;
    memset(&vtio, 0, sizeof vtio);
    vtio.c_cc[VMIN] = 1; vtio.c_cflag = CS7 | B1200; vtio.c_lflag = ICANON | ECHO | ISIG; vtio.c_iflag = ICRNL | IXON; vtio.c_oflag = OPOST;
    return fd;
}
int __wrap_open(const char *p, int fl, ...) { if (armed) return vopen(p, fl); errno = EPERM; return -1; }
int __wrap_open64(const char *p, int fl, ...) { if (armed) return vopen(p, fl); errno = EPERM; return -1; }
int __wrap_openat(int d, const char *p, int fl, ...) { (void)d; if (armed) return vopen(p, fl); errno = EPERM; return -1; }
int __wrap_close(int fd)
{
    if (!armed) return __real_close(fd);
    tick();
    if (!fdopen_(fd)) return bad("close", fd);
    ev0("close"); ofmt(",%d", fd); ev1();
    fds[fd - VFD] = 0; nfds_--;
    return fault("close") ? -1 : 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return armed ? vread(fd, b, n, 0, 0) : __real_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return vread(fd, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return vread(fd, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return vread(fd, v[i].iov_base, v[i].iov_len, 0, 0); return 0; }
ssize_t __wrap_recvmsg(int fd, struct msghdr *h, int fl) { (void)fl; return __wrap_readv(fd, h->msg_iov, (int)h->msg_iovlen); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return armed ? vwrite(fd, b, n, 0) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return vwrite(fd, b, n, fl & MSG_NOSIGNAL); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return vwrite(fd, b, n, fl & MSG_NOSIGNAL); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
    unsigned char b[4096]; size_t n = 0;
    for (int i = 0; i < c; i++) { size_t m = v[i].iov_len; if (n + m > sizeof b) m = sizeof b - n; memcpy(b + n, v[i].iov_base, m); n += m; }
    return vwrite(fd, b, n, 0);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *h, int fl)
{
    unsigned char b[4096]; size_t n = 0;
    for (size_t i = 0; i < h->msg_iovlen; i++) { size_t m = h->msg_iov[i].iov_len; if (n + m > sizeof b) m = sizeof b - n; memcpy(b + n, h->msg_iov[i].iov_base, m); n += m; }
    return vwrite(fd, b, n, fl & MSG_NOSIGNAL);
}
static int vready(long tmo_ms)       /* 1 readable, 0 silent, -1 interrupted */
{
    tick();
    if (rxh < rxt) {
        switch (rxq[rxh].kind) {
        case IT_EINTR: pop(); errno = EINTR; return -1;
        case IT_SILENCE: pop(); vus += tmo_ms * 1000; return 0;
        case IT_PAUSE: rxq[rxh].err = 1; vus += tmo_ms > 0 ? tmo_ms * 1000 : 0; return 0;
        default: return 1;
        }
    }
    if (tmo_ms < 0) hang("poll without time-out on a silent peer");
    vus += tmo_ms * 1000;
    return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int tmo)
{
    if (!armed || n == 0) { vus += tmo > 0 ? tmo * 1000LL : 0; return 0; }
    if (!fdopen_(p[0].fd)) { p[0].revents = POLLNVAL; bad("poll", p[0].fd); return 1; }
    p[0].revents = p[0].events & POLLOUT;
    if (p[0].revents) return 1;
    int r = vready(tmo);
    if (r == 1) p[0].revents |= p[0].events & POLLIN;
    return r;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    int fd = -1;
    if (!armed) return 0;
    if (e) FD_ZERO(e);
    if (r) for (int i = 0; i < n; i++) if (FD_ISSET(i, r)) fd = i;
    if (fd < 0) { if (w) return 1; if (t) vus += t->tv_sec * 1000000LL + t->tv_usec; return 0; }
    int x = vready(t ? t->tv_sec * 1000 + t->tv_usec / 1000 : -1);
    if (x != 1) FD_ZERO(r);
    return x;
}
int __wrap_tcgetattr(int fd, struct termios *t) { if (!fdopen_(fd)) return bad("tcgetattr", fd); if (fault("tcgetattr")) return -1; *t = vtio; return 0; }
int __wrap_tcsetattr(int fd, int how, const struct termios *t)
{
    tick();
    if (!fdopen_(fd)) return bad("tcsetattr", fd);
    if (fault("tcsetattr")) return -1;
    CHKMEM(&t->c_iflag, sizeof t->c_iflag); CHKMEM(&t->c_cflag, sizeof t->c_cflag); CHKMEM(&t->c_lflag, sizeof t->c_lflag);
    vtio = *t;
    ev0("tc"); ofmt(",%d,%u,%u,%u,%u,%u,%u,%u,%u", how, (unsigned)cfgetispeed(t), (unsigned)cfgetospeed(t), (unsigned)t->c_iflag,
        (unsigned)t->c_oflag, (unsigned)t->c_cflag, (unsigned)t->c_lflag, (unsigned)t->c_cc[VMIN], (unsigned)t->c_cc[VTIME]); ev1();
    return 0;
}
int __wrap_tcdrain(int fd) { tick(); if (!fdopen_(fd)) return bad("tcdrain", fd); ev0("drain"); ev1(); return fault("tcdrain") ? -1 : 0; }
int __wrap_tcflush(int fd, int q)
{
    tick();
    if (!fdopen_(fd)) return bad("tcflush", fd);
    ev0("flush"); ofmt(",%d", q); ev1();
    if (q == TCIFLUSH || q == TCIOFLUSH) while (rxh < rxt && rxq[rxh].kind == IT_DATA) pop();
    return 0;
}
int __wrap_isatty(int fd)
{
    if (!armed) return __real_isatty(fd);
    if (!fdopen_(fd)) { if (fd != -1) bad("isatty", fd); errno = EBADF; return 0; }
    if (fds[fd - VFD] == 1 && istty) return 1;
    errno = ENOTTY; return 0;
}
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; va_start(ap, rq); int *p = va_arg(ap, int *); va_end(ap);
    if (!fdopen_(fd)) return bad("ioctl", fd);
    if (rq == FIONREAD && p) { *p = 0; if (rxh < rxt && rxq[rxh].kind == IT_DATA) *p = (int)(rxq[rxh].n - rxq[rxh].off); return 0; }
    ev0("ioctl"); ev1();
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!fdopen_(fd)) return bad("fcntl", fd);
    if (cmd == F_SETFL) nonblock = (a & O_NONBLOCK) != 0;
    if (cmd == F_GETFL) return O_RDWR | (nonblock ? O_NONBLOCK : 0);
    return 0;
}
static int sock_family;     /* of the socket created last */
int __wrap_socket(int d, int t, int p)
{
    (void)p;
    tick();
    if (fault("socket")) return -1;
    int fd = newfd(2);
    sock_family = d;
    ev0("socket"); ofmt(",%d,%d", t, fd); ev1();
    rcvtimeo_set = 0; nonblock = (t & SOCK_NONBLOCK) != 0;
    return fd;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    tick();
    if (!fdopen_(fd)) return bad("connect", fd);
    int port = -1;
    if (a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in)) port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    if (a->sa_family == AF_INET6 && l >= sizeof(struct sockaddr_in6)) port = ntohs(((const struct sockaddr_in6 *)a)->sin6_port);
    int which = a->sa_family == AF_INET && l >= sizeof(struct sockaddr_in) ? (int)(ntohl(((const struct sockaddr_in *)a)->sin_addr.s_addr) - 0x7f000001) : -1;
    if (a->sa_family == AF_INET6 && l >= sizeof(struct sockaddr_in6)) which = ((const struct sockaddr_in6 *)a)->sin6_addr.s6_addr[15];
    ev0("connect"); ofmt(",%d,%d,%d", fd, port, which); ev1();
    if (a->sa_family != sock_family) { errno = EAFNOSUPPORT; return -1; }
    return fault("connect") ? -1 : 0;
}
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l)
{
    tick();
    if (!fdopen_(fd)) return bad("setsockopt", fd);
    long s = 0, u = 0;
    if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
        CHKMEM(v, sizeof(struct timeval));
        s = ((const struct timeval *)v)->tv_sec; u = ((const struct timeval *)v)->tv_usec;
    }
    if (fault("setsockopt")) return -1;
    ev0("so"); ofmt(",%d,%d,%ld,%ld", fd, o, s, u); ev1();
    if (lv == SOL_SOCKET && o == SO_RCVTIMEO) rcvtimeo_set = s > 0 || u > 0;
    return 0;
}
int __wrap_getsockopt(int fd, int lv, int o, void *v, socklen_t *l) { (void)lv; (void)o; if (!fdopen_(fd)) return bad("getsockopt", fd); if (v && l && *l >= 4) memset(v, 0, *l); return 0; }
int __wrap_shutdown(int fd, int h) { (void)h; if (!fdopen_(fd)) return bad("shutdown", fd); return 0; }

static struct sockaddr_in gsa[8]; static struct sockaddr_in6 gsa6[8]; static int gai_six;   /* bit i: address i is of the IPv6 family */
static struct addrinfo *gfree[64]; static int ngfree;
int __wrap_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **res)
{
    int save = in_lib; in_lib = 0;
    tick();
    ev0("gai"); ofmt(","); ostr(host); ofmt(","); ostr(port); ofmt(",%d", h ? h->ai_socktype : -1); ev1();
    if (fault("getaddrinfo")) { in_lib = save; return gai_err ? gai_err : EAI_NONAME; }
    struct addrinfo *a = calloc((size_t)gai_n, sizeof *a);
    int fam = h ? h->ai_family : AF_UNSPEC, k = 0;
    for (int i = 0; i < gai_n; i++) {
        int six = gai_six >> i & 1;
        if (fam != AF_UNSPEC && (fam == AF_INET6) != six) continue;     /* as asked for */
        if (six) {
            memset(&gsa6[i], 0, sizeof gsa6[i]);
            gsa6[i].sin6_family = AF_INET6; gsa6[i].sin6_port = htons((uint16_t)(port ? atoi(port) : 0));
            gsa6[i].sin6_addr.s6_addr[0] = 0xfd; gsa6[i].sin6_addr.s6_addr[15] = (unsigned char)i;
            a[k].ai_addr = (struct sockaddr *)&gsa6[i]; a[k].ai_addrlen = sizeof gsa6[i];
        } else {
            gsa[i].sin_family = AF_INET;
            gsa[i].sin_port = htons((uint16_t)(port ? atoi(port) : 0));
            gsa[i].sin_addr.s_addr = htonl(0x7f000001 + (unsigned)i);
            a[k].ai_addr = (struct sockaddr *)&gsa[i]; a[k].ai_addrlen = sizeof gsa[i];
        }
        a[k].ai_family = six ? AF_INET6 : AF_INET; a[k].ai_socktype = h ? h->ai_socktype : SOCK_STREAM;
        if (k) a[k - 1].ai_next = &a[k];
        k++;
    }
    if (!k) { free(a); in_lib = save; return EAI_NONAME; }
    gai_live++;
    if (ngfree < 64) gfree[ngfree++] = a;
    *res = a;
    in_lib = save;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a)
{
    for (int i = 0; i < ngfree; i++)
        if (gfree[i] == a) { gfree[i] = gfree[--ngfree]; gai_live--; free(a); return; }
    bad("freeaddrinfo", 0);
}
struct hostent *__wrap_gethostbyname(const char *n)
{
    static char ad[4] = { 127, 0, 0, 1 }; static char *al[2] = { ad, NULL }; static char *none[1]; static struct hostent h;
    (void)n;
    if (fault("gethostbyname")) return NULL;
    h.h_name = "v"; h.h_aliases = none; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = al;
    return &h;
}
time_t __wrap_time(time_t *t) { time_t v = armed ? (time_t)(1700000000 + vus / 1000000) : (time_t)1600000000; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!armed) return __real_clock_gettime(c, t); tick(); t->tv_sec = 1700000000 + vus / 1000000; t->tv_nsec = (vus % 1000000) * 1000; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!armed) return __real_gettimeofday(t, z); tick(); t->tv_sec = 1700000000 + vus / 1000000; t->tv_usec = vus % 1000000; return 0; }
int __wrap_usleep(useconds_t u) { tick(); vus += u; return 0; }
unsigned __wrap_sleep(unsigned s) { tick(); vus += s * 1000000LL; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; tick(); vus += t->tv_sec * 1000000LL + t->tv_nsec / 1000; return 0; }

/* ------------------------------------------------------------------ sessions */
static void run_nest(void);
static void cb_send(unsigned char src, const char *b, size_t n) { int s = in_lib; in_lib = 0; ev0("cs"); ofmt(",%d,", src); ohex(b, n); ev1(); run_nest(); in_lib = s; }
static void cb_recv(unsigned char src, const char *b, size_t n) { int s = in_lib; in_lib = 0; ev0("cr"); ofmt(",%d,", src); ohex(b, n); ev1(); run_nest(); in_lib = s; }
static void cbh(mbus_handle *h) { if (h != L->hdl) { ev0("otherhandle"); ev1(); } }
static void cb_prog(mbus_handle *h, const char *m) { int s = in_lib; in_lib = 0; cbh(h); ev0("prog"); ofmt(","); ostr(m); ev1(); run_nest(); in_lib = s; }
static void cb_found(mbus_handle *h, mbus_frame *f)
{
    int s = in_lib; in_lib = 0;
    cbh(h);
    ev0("found"); ofmt(",%d,", f->type); ohex(f->data, f->data_size <= 252 ? f->data_size : 0); ev1();
    run_nest();
    in_lib = s;
}
static void dump_chain(mbus_frame *f)
{
    int n = 0;
    ofmt("[");
    for (; f && n < 600; f = f->next, n++) {
        if (n) ofmt(",");
        ofmt("{\"type\":%d,\"c\":%d,\"a\":%d,\"ci\":%d,\"ds\":%zu,\"ts\":%lld,\"data\":", f->type, f->control, f->address, f->control_information,
             f->data_size, (long long)f->timestamp);
        ohex(f->data, f->data_size <= 252 ? f->data_size : 0);
        ofmt("}");
    }
    ofmt("]");
}

static void ses_reset(void)
{
    for (int k = 0; k < 2; k++) {
        L = &lines[k];
        while (rxh < rxt) pop();
        rxh = rxt = 0;
        for (int i = 0; i < nrep; i++) free(rep[i]);
        free(repall); repall = NULL;
        for (int i = 0; i < nwrs; i++) free(wrs[i]);
        for (int i = 0; i < nsl; i++) for (int j = 0; j < sl[i].nt; j++) free(sl[i].t[j]);
        nrep = irep = nwrs = iwrs = nsl = nflt = 0;
        memset(fds, 0, sizeof fds); nfds_ = 0; rcvtimeo_set = nonblock = echo_on = 0; istty = 1;
        vus = 0; gai_n = 1; gai_six = 0; gai_err = 0; gai_live = 0; txn = 0; telegrams = 0; collmode = 0;
        L->hdl = NULL; memset(L->fr, 0, sizeof L->fr);
    }
    L = lines;
    steps = 0; nev = 0; ngfree = 0;
    steplimit = 400000;
}

static char **TOK; static int NTOK, captok;
#define A(i) (p + (i) < NTOK ? TOK[p + (i)] : "-")
#define AI(i) atol(A(i))

#define h (L->hdl)
#define fr (L->fr)
static volatile int ses_at, ses_over;
#define MAXNEST 64
static struct { int from, to; } nests[MAXNEST];
static int nnest, inest, innest;
static void ses_ops(int p, int end);
/* an application that serves a second bus from within the callbacks of the first */
static void run_nest(void)
{
    if (innest || L != lines || inest >= nnest || ses_over) return;
    int a = armed, s = in_lib, at = ses_at, k = inest++;
    innest = 1; in_lib = armed = 0;
    L = &lines[1];
    ev0("line"); ofmt(",1"); ev1();
    ses_ops(nests[k].from, nests[k].to);
    L = &lines[0];
    ev0("line"); ofmt(",0"); ev1();
    innest = 0; armed = a; in_lib = s; ses_at = at;
}

static void ses_ops(int p, int end)
{
    for (; p < end; ) {
        const char *o = TOK[p];
        long rv = 0; int isret = 1; mbus_frame *chain = NULL; int haschain = 0;
        ses_at = p;
        if (!strcmp(o, "line")) {           /* go on with line N and its handle */
            L = &lines[AI(1) & 1];
            ev0("line"); ofmt(",%d", (int)(L - lines)); ev1();
            isret = 0; p += 2;
        } else if (!strcmp(o, "ctx")) {
            dev_serial = !strcmp(A(1), "ser");
            in_lib = 1; armed = 1;
            h = dev_serial ? mbus_context_serial("/dev/vbus") : mbus_context_tcp("vhost", (uint16_t)AI(2));
            in_lib = 0; armed = 0;
            rv = h != NULL; p += 3;
            if (!h) { p = end; ses_over |= L == lines ? 1 : 2; for (int i = 0; i < 8; i++) { LIB(mbus_frame_free(fr[i])); fr[i] = NULL; } }   /* as a caller would, give up */
        } else if (!strcmp(o, "nest")) {    /* nest K t1 .. tK: the next callback of line 0 does this on line 1 */
            if (nnest < MAXNEST) { nests[nnest].from = p + 2; nests[nnest].to = p + 2 + (int)AI(1); nnest++; }
            isret = 0; p += 2 + (int)AI(1);
        } else if (!strcmp(o, "nested")) {  /* what no callback has done yet */
            while (inest < nnest && !ses_over) run_nest();
            isret = 0; p += 1;
        } else if (!strcmp(o, "cb")) {
            int m = (int)AI(1);
            if (h) {
                LIB(mbus_register_send_event(h, m & 1 ? cb_send : NULL));
                LIB(mbus_register_recv_event(h, m & 1 ? cb_recv : NULL));
                LIB(mbus_register_scan_progress(h, m & 2 ? cb_prog : NULL));
                LIB(mbus_register_found_event(h, m & 4 ? cb_found : NULL));
            }
            isret = 0; p += 2;
        } else if (!strcmp(o, "rx")) { items(A(1)); isret = 0; p += 2; }
        else if (!strcmp(o, "rep")) { if (nrep < MAXREP) rep[nrep++] = __real_strdup(A(1)); isret = 0; p += 2; }
        else if (!strcmp(o, "repall")) { free(repall); repall = __real_strdup(A(1)); isret = 0; p += 2; }
        else if (!strcmp(o, "wr")) { if (nwrs < MAXREP) wrs[nwrs++] = __real_strdup(A(1)); isret = 0; p += 2; }
        else if (!strcmp(o, "fault")) {
            if (nflt < 32) { snprintf(flt[nflt].name, 16, "%s", A(1)); flt[nflt].k = AI(2); flt[nflt].err = (int)AI(3); flt[nflt].seen = 0; nflt++; }
            isret = 0; p += 4;
        } else if (!strcmp(o, "gai")) { gai_n = (int)AI(1) % 100; gai_six = (int)AI(1) / 100; isret = 0; p += 2; }
        else if (!strcmp(o, "tty")) { istty = (int)AI(1); isret = 0; p += 2; }
        else if (!strcmp(o, "echo")) { echo_on = (int)AI(1); isret = 0; p += 2; }
        else if (!strcmp(o, "steps")) { steplimit = AI(1); isret = 0; p += 2; }
        else if (!strcmp(o, "coll")) { collmode = (int)AI(1); isret = 0; p += 2; }
        else if (!strcmp(o, "slave")) {     /* slave PRIM IDHEX N T1 .. TN */
            slave *s = &sl[nsl < 511 ? nsl++ : 511];
            memset(s, 0, sizeof *s);
            s->prim = (int)AI(1); s->fcb = -1; s->cur = -1;
            size_t n; unsigned char *b = unhex(A(2), &n); if (n == 8) memcpy(s->id, b, 8); free(b);
            int nt = (int)AI(3); if (nt > 16) nt = 16;
            for (int i = 0; i < nt; i++) { s->t[i] = unhex(A(4 + i), &s->tl[i]); }
            s->nt = nt;
            isret = 0; p += 4 + nt;
        } else if (!strcmp(o, "deb")) { LIB(mbus_parse_set_debug((int)AI(1))); isret = 0; p += 2; }
        else if (!strcmp(o, "fparse")) {    /* fill slot with a previous message */
            int s = (int)AI(1) & 7; size_t n; unsigned char *b = unhex(A(2), &n);
            if (!fr[s]) LIB(fr[s] = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
            if (fr[s]) LIB(rv = mbus_parse(fr[s], b, n));
            free(b); p += 3;
        } else if (!strcmp(o, "ffree")) { int s = (int)AI(1) & 7; LIB(mbus_frame_free(fr[s])); fr[s] = NULL; isret = 0; p += 2; }
        else if (!strcmp(o, "free")) { armed = 1; LIB(mbus_context_free(h)); armed = 0; h = NULL; isret = 0; p += 1; }
        else if (!strcmp(o, "peek")) { ev0("rxleft"); long n = 0; for (int i = rxh; i < rxt; i++) if (rxq[i].kind == IT_DATA) n += (long)(rxq[i].n - rxq[i].off); ofmt(",%ld", n); ev1(); isret = 0; p += 1; }
        else if (!strcmp(o, "drop")) { while (rxh < rxt) pop(); isret = 0; p += 1; }
        else {
            int s;
            armed = 1;
            if (rxh < rxt && rxq[rxh].kind == IT_PAUSE && rxq[rxh].err) pop();
            ev0("call"); ofmt(",\"%s\"", o); ev1();
            if (!strcmp(o, "conn")) { LIB(rv = mbus_connect(h)); p += 1; }
            else if (!strcmp(o, "disc")) { LIB(rv = mbus_disconnect(h)); p += 1; }
            else if (!strcmp(o, "opt")) { LIB(rv = mbus_context_set_option(h, (mbus_context_option)AI(1), AI(2))); p += 3; }
            else if (!strcmp(o, "tmo")) { LIB(rv = mbus_tcp_set_timeout_set(atof(A(1)))); p += 2; }
            else if (!strcmp(o, "sbaud")) { LIB(rv = mbus_serial_set_baudrate(h, AI(1))); p += 2; }
            else if (!strcmp(o, "recv") || !strcmp(o, "lrecv")) {
                s = (int)AI(1) & 7;
                if (!fr[s]) LIB(fr[s] = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
                LIB(rv = mbus_recv_frame(h, fr[s]));
                chain = fr[s]; haschain = 1; p += 2;
            } else if (!strcmp(o, "send")) {   /* send TYPE CTRL ADDR CI DATAHEX [DS] */
                mbus_frame *g; size_t n; unsigned char *b = unhex(A(5), &n);
                LIB(g = mbus_frame_new(MBUS_FRAME_TYPE_LONG));
                if (g) {
                    g->type = (int)AI(1); g->start1 = g->start2 = 0x68; if (AI(1) == MBUS_FRAME_TYPE_SHORT) g->start1 = 0x10; if (AI(1) == MBUS_FRAME_TYPE_ACK) g->start1 = 0xE5;
                    g->stop = 0x16;
                    g->control = (unsigned char)AI(2); g->address = (unsigned char)AI(3); g->control_information = (unsigned char)AI(4);
                    memcpy(g->data, b, n > 252 ? 252 : n);
                    g->data_size = AI(6) >= 0 ? (size_t)AI(6) : n;
                    LIB(rv = mbus_send_frame(h, g));
                    LIB(mbus_frame_free(g));
                }
                free(b); p += 7;
            } else if (!strcmp(o, "send2")) {  /* a chain of two short frames */
                mbus_frame *g, *g2;
                LIB(g = mbus_frame_new(MBUS_FRAME_TYPE_SHORT)); LIB(g2 = mbus_frame_new(MBUS_FRAME_TYPE_SHORT));
                if (g && g2) { g->control = g2->control = 0x5B; g->address = (unsigned char)AI(1); g2->address = (unsigned char)AI(2); g->next = g2;
                    LIB(rv = mbus_send_frame(h, g)); LIB(mbus_frame_free(g)); }
                p += 3;
            } else if (!strcmp(o, "nullsend")) { LIB(rv = mbus_send_frame(h, NULL)); p += 1; }
            else if (!strcmp(o, "nohandle")) { mbus_frame *g; LIB(g = mbus_frame_new(MBUS_FRAME_TYPE_ACK)); LIB(rv = mbus_send_frame(NULL, g)); LIB(mbus_frame_free(g)); p += 1; }
            else if (!strcmp(o, "nullrecv")) { LIB(rv = mbus_recv_frame(h, NULL)); p += 1; }
            else if (!strcmp(o, "req")) {
                s = (int)AI(2) & 7;
                if (!fr[s]) LIB(fr[s] = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
                LIB(rv = mbus_sendrecv_request(h, (int)AI(1), fr[s], (int)AI(3)));
                chain = fr[s]; haschain = 1; p += 4;
            }
            else if (!strcmp(o, "reqf")) { LIB(rv = mbus_send_request_frame(h, (int)AI(1))); p += 2; }
            else if (!strcmp(o, "ping")) { LIB(rv = mbus_send_ping_frame(h, (int)AI(1), (char)AI(2))); p += 3; }
            else if (!strcmp(o, "sud")) { size_t n; unsigned char *b = unhex(A(2), &n); LIB(rv = mbus_send_user_data_frame(h, (int)AI(1), AI(3) == 2 ? NULL : b, AI(3) == 1 ? 300 : n)); free(b); p += 4; }
            else if (!strcmp(o, "sudn")) { size_t n = (size_t)AI(2); unsigned char *b = __real_malloc(n ? n : 1); memset(b, 0x5A, n); LIB(rv = mbus_send_user_data_frame(h, (int)AI(1), b, n)); free(b); p += 3; }
            else if (!strcmp(o, "appreset")) { LIB(rv = mbus_send_application_reset_frame(h, (int)AI(1), (int)AI(2))); p += 3; }
            else if (!strcmp(o, "baud")) { LIB(rv = mbus_send_switch_baudrate_frame(h, (int)AI(1), AI(2))); p += 3; }
            else if (!strcmp(o, "setaddr")) { LIB(rv = mbus_set_primary_address(h, (int)AI(1), (int)AI(2))); p += 3; }
            else if (!strcmp(o, "selsend")) { char *m = unhexs(A(1)); LIB(rv = mbus_send_select_frame(h, m)); free(m); p += 2; }
            else if (!strcmp(o, "selnull")) { LIB(rv = mbus_send_select_frame(h, NULL)); p += 1; }
            else if (!strcmp(o, "sel")) { char *m = unhexs(A(1)); LIB(rv = mbus_select_secondary_address(h, m)); free(m); p += 2; }
            else if (!strcmp(o, "probe")) {
                char *m = unhexs(A(1)); char *out = __real_malloc(17); memset(out, 0, 17);
                LIB(rv = mbus_probe_secondary_address(h, m, out));
                if (rv == 1) { ev0("match"); ofmt(","); ostr(out); ev1(); }
                free(m); free(out); p += 2;
            }
            else if (!strcmp(o, "scan")) {
                char *m = unhexs(A(2));
                cap_reset();
                LIB(rv = mbus_scan_2nd_address_range(h, (int)AI(1), m));
                armed = 0; ev0("out"); ofmt(","); cap_dump(); ev1();
                free(m); p += 3;
            }
            else if (!strcmp(o, "purge")) { LIB(rv = mbus_purge_frames(h)); p += 1; }
            else if (!strcmp(o, "rsp") || !strcmp(o, "rss")) {   /* read slave, primary / secondary */
                mbus_address ad; memset(&ad, 0, sizeof ad);
                char *m = NULL;
                if (!strcmp(o, "rsp")) { ad.is_primary = 1; ad.primary = (int)AI(1); } else { ad.is_primary = 0; m = unhexs(A(1)); ad.secondary = m; }
                s = (int)AI(2) & 7;
                if (!fr[s]) LIB(fr[s] = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
                LIB(rv = mbus_read_slave(h, &ad, fr[s]));
                chain = fr[s]; haschain = 1; free(m); p += 3;
            }
            else { armed = 0; fprintf(stderr, "bad op %s\n", o); _exit(98); }
            armed = 0;
        }
        if (isret) {
            CHKMEM(&rv, sizeof rv);
            ev0("ret"); ofmt(",\"%s\",%ld", o, rv);
            if (haschain) { ofmt(","); dump_chain(chain); }
            ev1();
        }
    }
}

static void ses(int p)
{
    int code;
    cap_reset();
    ofmt("{\"ev\":[");
    size_t r;
    (void)r;
    if ((code = sigsetjmp(runaway, 1)) != 0) {
        in_lib = 0; armed = 0;
        ofmt("%s[\"runaway\",%d,%d]],\"bal\":0,\"steps\":%ld}", nev ? "," : "", code, ses_at, steps);
        live_reset();
        return;
    }
    ses_at = p; ses_over = nnest = inest = innest = 0;
    ses_ops(p, NTOK);
    /* the caller's clean-up */
    struct line *last = L;
    armed = 1;
    for (int k = 0; k < 2; k++) {
        L = k ? last : &lines[last == lines];
        for (int i = 0; i < 8; i++) if (fr[i]) { LIB(mbus_frame_free(fr[i])); fr[i] = NULL; }
        if (h) {
            int open = nfds_;
            ev0("call"); ofmt(",\"cleanup\""); ev1();
            if (open) LIB(mbus_disconnect(h));
            LIB(mbus_context_free(h));
            h = NULL;
        }
    }
    armed = 0;
    long left = 0;
    for (int i = rxh; i < rxt; i++) if (rxq[i].kind == IT_DATA) left += (long)(rxq[i].n - rxq[i].off);
    ofmt("],\"bal\":%ld,\"fds\":%d,\"gai\":%d,\"left\":%ld,\"steps\":%ld,\"tgs\":%ld,\"vus\":%lld}", live, nfds_, gai_live, left, steps, telegrams, vus);
    live_reset();
}
#undef h
#undef fr

/* ------------------------------------------------------------------ commands */
static mbus_frame *mk(const char *hexs, int *r)
{
    mbus_frame *f;
    LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
    if (!f) { *r = -99; return NULL; }
    size_t n; unsigned char *b = unhex(hexs, &n);
    LIB(*r = mbus_parse(f, b, n));
    free(b);
    return f;
}

#include "args.h"

static void run_cmd(int p)
{
    const char *c = TOK[p];
    if (!strcmp(c, "oom")) {                 /* oom K STICKY cmd... */
        oom_at = AI(1); oom_sticky = (int)AI(2); oom_hit = 0; n_lib_alloc = 0;
        ofmt("{\"x\":");
        run_cmd(p + 3);
        ofmt(",\"hit\":%d,\"n\":%ld}", oom_hit, n_lib_alloc);
        oom_at = -1; oom_sticky = 0;
        return;
    }
    if (!strcmp(c, "rep")) {                 /* rep N cmd... : the same N times; the first observation and the first different one */
        long n = AI(1), k;
        size_t o0 = outlen, l0, at;
        ofmt("{\"x\":");
        at = outlen;
        run_cmd(p + 2);
        l0 = outlen - at;
        for (k = 2; k <= n; k++) {
            size_t q = outlen;
            run_cmd(p + 2);
            if (outlen - q != l0 || memcmp(OUT + at, OUT + q, l0)) {
                char *d = __real_malloc(outlen - q + 1); size_t dl = outlen - q;
                memcpy(d, OUT + q, dl);
                outlen = q; ofmt(",\"dev\":"); oput(d, dl);
                free(d);
                break;
            }
            outlen = q;
        }
        (void)o0;
        ofmt(",\"n\":%ld}", k - 1);
        return;
    }
    if (!strcmp(c, "seq")) {                 /* seq cmd... ;; cmd... : one observation per part */
        int end = NTOK, first = 1;
        ofmt("{\"o\":[");
        for (int i = p + 1; i < end;) {
            int j = i;
            while (j < end && strcmp(TOK[j], ";;")) j++;
            NTOK = j;
            if (!first) ofmt(",");
            first = 0;
            run_cmd(i);
            NTOK = end;
            i = j + 1;
        }
        ofmt("]}");
        return;
    }
    if (!strcmp(c, "ses")) { ses(p + 1); ses_reset(); return; }
    ofmt("{\"o\":");
    if (!strcmp(c, "msg")) {
        int r; const char *fl = A(1);
        if (has(fl, 'D')) LIB(mbus_parse_set_debug(1));
        mbus_frame *f = mk(A(2), &r);
        if (f) { dump_msg(f, r, fl); LIB(mbus_frame_free(f)); } else ofmt("null");
        if (has(fl, 'D')) LIB(mbus_parse_set_debug(0));
    } else if (!strcmp(c, "views")) {        /* views OPS HEX: the operations in that order on one frame and its decoded data */
        int r; mbus_frame *f = mk(A(2), &r);
        ofmt("{\"r\":%d,\"v\":[", r);
        if (f && r == 0) views(f, A(1));
        ofmt("]}");
        if (f) LIB(mbus_frame_free(f));
    } else if (!strcmp(c, "errs")) {         /* errs HEX: result and latest error text of each step */
        size_t n; unsigned char *b = unhex(A(1), &n); mbus_frame *f; mbus_frame_data *d; int r; char *x; int room = (int)AI(2);
        LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_ANY)); LIB(d = mbus_frame_data_new());
        if (f && d) {
            LIB(mbus_error_reset()); LIB(r = mbus_parse(f, b, n)); ofmt("[[\"parse\",%d,", r); ostr(mbus_error_str()); ofmt("]");
            if (r == 0) {
                LIB(mbus_error_reset()); LIB(r = mbus_frame_data_parse(f, d)); ofmt(",[\"data\",%d,", r); ostr(mbus_error_str()); ofmt("]");
                LIB(mbus_error_reset()); LIB(x = mbus_frame_xml(f)); ofmt(",[\"xml\",%d,", x ? 0 : -1); ostr(mbus_error_str()); ofmt("]"); free(x);
                LIB(mbus_error_reset()); LIB(x = mbus_frame_get_secondary_address(f)); ofmt(",[\"sec\",%d,", x ? 0 : -1); ostr(mbus_error_str()); ofmt("]");
                unsigned char *o = __real_malloc((size_t)room + 1);
                LIB(mbus_error_reset()); LIB(r = mbus_frame_pack(f, o, (size_t)room)); ofmt(",[\"pack\",%d,", r); ostr(mbus_error_str()); ofmt("]"); free(o);
                if (n > 2) f->checksum ^= 1; else f->start1 ^= 1;
                LIB(mbus_error_reset()); LIB(r = mbus_frame_verify(f)); ofmt(",[\"verify\",%d,", r); ostr(mbus_error_str()); ofmt("]");
            }
            char *big = __real_malloc(70000); memset(big, 'e', 69999); big[69999] = 0;
            LIB(mbus_error_str_set(big)); char *es = mbus_error_str(); size_t el = strlen(es), k = 0; while (k < el && es[k] == 'e') k++;
            ofmt(",[\"set\",%d,", k == el && el > 0 ? 0 : -1); ostr("x"); ofmt("]"); free(big);
            LIB(mbus_error_str_set("a message")); ofmt(",[\"set2\",0,"); ostr(mbus_error_str()); ofmt("]");
            LIB(mbus_error_reset()); ofmt(",[\"reset\",0,"); ostr(mbus_error_str()); ofmt("]]");
        } else ofmt("[]");
        free(b); LIB(mbus_frame_data_free(d)); LIB(mbus_frame_free(f));
    } else if (!strcmp(c, "hist") || !strcmp(c, "histn")) {   /* hist FLAGS h1 .. hn: all into one object; decode each (histn: which heads a chain) */
        const char *fl = A(1);
        int r = 0, dr;
        mbus_frame *other = c[4] ? mk("681B1B6808017278563412A5110107550000000C13483819000C13020000007B16", &dr) : NULL;
        mbus_frame *f;
        LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
        ofmt("[");
        if (f) for (int i = 2; p + i < NTOK; i++) {
            if (i > 2) ofmt(",");
            size_t n; unsigned char *b = unhex(A(i), &n);
            if (other) f->next = other;
            LIB(r = mbus_parse(f, b, n));
            free(b);
            dump_msg(f, r, fl);
            f->next = NULL;
        }
        ofmt("]");
        LIB(mbus_frame_free(f));
        if (other) LIB(mbus_frame_free(other));
    } else if (!strcmp(c, "inter")) {        /* inter FLAGS h1 .. hn: parse all first, then decode all */
        const char *fl = A(1);
        mbus_frame *fs[16]; int rs[16]; int n = 0;
        for (int i = 2; p + i < NTOK && n < 16; i++, n++) fs[n] = mk(A(i), &rs[n]);
        ofmt("[");
        for (int i = 0; i < n; i++) { if (i) ofmt(","); if (fs[i]) dump_msg(fs[i], rs[i], fl); else ofmt("null"); }
        ofmt("]");
        for (int i = 0; i < n; i++) if (fs[i]) LIB(mbus_frame_free(fs[i]));
    } else if (!strcmp(c, "chain")) {        /* chain h1 .. hn -> mbus_frame_xml of the linked frames */
        mbus_frame *head = NULL, *last = NULL; int ok = 1;
        ofmt("{\"p\":[");
        for (int i = 1; p + i < NTOK; i++) {
            int r; mbus_frame *f = mk(A(i), &r);
            ofmt("%s%d", i > 1 ? "," : "", r);
            if (!f) { ok = 0; continue; }
            f->timestamp = 1700000000 + i;
            if (!head) head = f; else last->next = f;
            last = f;
        }
        ofmt("],\"ok\":%d,\"xml\":", ok);
        char *x = NULL;
        if (head) LIB(x = mbus_frame_xml(head));
        ostr(x); free(x);
        ofmt("}");
        if (head) LIB(mbus_frame_free(head));
    } else if (!strcmp(c, "pchain")) {       /* pchain h1 .. hn -> mbus_frame_print of the linked frames */
        mbus_frame *head = NULL, *last = NULL; int bad = 0, pr = -99;
        for (int i = 1; p + i < NTOK; i++) {
            int r; mbus_frame *f = mk(A(i), &r);
            if (!f || r) bad++;
            if (!f) continue;
            if (!head) head = f; else last->next = f;
            last = f;
        }
        cap_reset();
        if (head) LIB(pr = mbus_frame_print(head));
        ofmt("{\"bad\":%d,\"pr\":%d,\"ptxt\":", bad, pr); cap_dump(); ofmt("}");
        if (head) LIB(mbus_frame_free(head));
    } else if (!strcmp(c, "longchain")) {    /* longchain HEX N: N telegrams linked as a readout does, then freed */
        mbus_frame *head = NULL, *last = NULL; long n = atol(A(2)), i; int r = 0, bad = 0;
        for (i = 0; i < n; i++) {
            mbus_frame *f;
            if (n < 50000) f = mk(A(1), &r);
            else if ((f = mbus_frame_new(MBUS_FRAME_TYPE_ANY))) {   /* too many for the allocation table: untracked */
                if (head) memcpy(f, head, sizeof *f); else { mbus_frame *g = mk(A(1), &r); memcpy(f, g, sizeof *f); LIB(mbus_frame_free(g)); }
                f->next = NULL;
            }
            if (!f) break;
            if (r) bad++;
            if (!head) head = f; else last->next = f;
            last = f;
        }
        ofmt("{\"n\":%ld,\"bad\":%d", i, bad);
        if (head) { LIB(r = mbus_frame_free(head)); ofmt(",\"r\":%d", r); }
        ofmt("}");
    } else if (!strcmp(c, "par")) {          /* verdicts of many messages, fresh frame each */
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            int r, v = -99; mbus_frame *f = mk(A(i), &r);
            if (i > 1) ofmt(",");
            if (!f) { ofmt("null"); continue; }
            if (r == 0) {
                LIB(v = mbus_frame_verify(f));
                int dir; LIB(dir = mbus_frame_direction(f));
                ofmt("[%d,%d,%d,%d,%d,%d,%d,", r, v, f->type, f->control, f->address, f->control_information, dir);
                ohex(f->data, f->data_size <= MBUS_FRAME_DATA_LENGTH ? f->data_size : 0); ofmt("]");
            } else ofmt("[%d]", r);
            LIB(mbus_frame_free(f));
        }
        ofmt("]");
    } else if (!strcmp(c, "pre")) {          /* returns for every prefix 1..n into one fresh frame each */
        size_t n; unsigned char *b = unhex(A(1), &n);
        ofmt("[");
        for (size_t l = 1; l <= n; l++) {
            mbus_frame *f; int r;
            unsigned char *q = __real_malloc(l); memcpy(q, b, l);
            LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
            if (!f) { free(q); break; }
            LIB(r = mbus_parse(f, q, l));
            ofmt("%s%d", l > 1 ? "," : "", r);
            LIB(mbus_frame_free(f)); free(q);
        }
        ofmt("]");
        free(b);
    } else if (!strcmp(c, "feed")) {         /* reader loop driven by the counts: [[len,ret]...] on one frame */
        size_t n, have = 0; unsigned char *b = unhex(A(1), &n); int r = 1; mbus_frame *f;
        LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_ANY));
        ofmt("[");
        for (int it = 0; f && r > 0 && have + (size_t)r <= n && it < 600; it++) {
            have += (size_t)r;
            unsigned char *q = __real_malloc(have); memcpy(q, b, have);
            LIB(r = mbus_parse(f, q, have));
            free(q);
            ofmt("%s[%zu,%d]", it ? "," : "", have, r);
        }
        ofmt("]");
        LIB(mbus_frame_free(f)); free(b);
    } else if (!strcmp(c, "pack")) {         /* pack TYPE CTRL ADDR CI BUFSIZE DATA [DS]  */
        mbus_frame *f; size_t n; unsigned char *b = unhex(A(6), &n);
        int ty = (int)AI(1);
        LIB(f = mbus_frame_new(ty));
        if (f) {
            f->type = ty; f->control = (unsigned char)AI(2); f->address = (unsigned char)AI(3); f->control_information = (unsigned char)AI(4);
            memcpy(f->data, b, n > 252 ? 252 : n); f->data_size = n;
            if (p + 7 < NTOK) f->data_size = (size_t)AI(7);
            size_t bs = (size_t)AI(5); unsigned char *o = __real_malloc(bs ? bs : 1);
            int r;
            LIB(r = mbus_frame_pack(f, o, bs));
            ofmt("{\"r\":%d,\"b\":", r); ohex(o, r > 0 && (size_t)r <= bs ? r : 0);
            free(o);
            cap_reset();
            LIB(r = mbus_frame_print(f));
            ofmt(",\"pr\":%d,\"ptxt\":", r); cap_dump();
            ofmt("}");
            LIB(mbus_frame_free(f));
        } else ofmt("null");
        free(b);
    } else if (!strcmp(c, "dump")) {         /* dump KIND HEX : hex dump helpers */
        size_t n; unsigned char *b = unhex(A(2), &n); int k = (int)AI(1);
        cap_reset();
        if (k == 0) LIB(mbus_hex_dump("LBL", (char *)b, n));
        if (k == 1) LIB(mbus_dump_recv_event(1, (char *)b, n));
        if (k == 2) LIB(mbus_dump_send_event(1, (char *)b, n));
        cap_dump(); free(b);
    } else if (!strcmp(c, "be")) {           /* bcd encode SIZE VAL ... pairs */
        ofmt("[");
        for (int i = 1; p + i + 1 < NTOK; i += 2) {
            size_t s = (size_t)AI(i); unsigned char *o = __real_malloc(s ? s : 1); memset(o, 0xA5, s);
            int r; LIB(r = mbus_data_bcd_encode(o, s, (int)strtoll(A(i + 1), NULL, 10)));
            ofmt("%s[%d,", i > 1 ? "," : "", r); ohex(o, s);
            long long v; LIB(v = mbus_data_bcd_decode(o, s)); ofmt(","); olong(v); ofmt("]"); free(o);
        }
        ofmt("]");
    } else if (!strcmp(c, "ie")) {
        ofmt("[");
        for (int i = 1; p + i + 1 < NTOK; i += 2) {
            size_t s = (size_t)AI(i); unsigned char *o = __real_malloc(s ? s : 1); memset(o, 0xA5, s);
            int r; LIB(r = mbus_data_int_encode(o, s, (int)strtoll(A(i + 1), NULL, 10)));
            ofmt("%s[%d,", i > 1 ? "," : "", r); ohex(o, s); ofmt("]"); free(o);
        }
        ofmt("]");
    } else if (!strcmp(c, "bd")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            size_t n; unsigned char *b = unhex(A(i), &n); long long v, w;
            LIB(v = mbus_data_bcd_decode(b, n)); LIB(w = mbus_data_bcd_decode_hex(b, n));
            ofmt("%s[", i > 1 ? "," : ""); olong(v); ofmt(","); olong(w); ofmt("]"); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "id")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            size_t n; unsigned char *b = unhex(A(i), &n); int a = 0; long l = 0; long long q = 0; int r1, r2, r3;
            if (n <= sizeof(int)) LIB(r1 = mbus_data_int_decode(b, n, &a)); LIB(r2 = mbus_data_long_decode(b, n, &l)); LIB(r3 = mbus_data_long_long_decode(b, n, &q));
            ofmt("%s[%d,", i > 1 ? "," : "", r1); olong(r1 ? 0 : a); ofmt(",%d,", r2); olong(r2 ? 0 : l); ofmt(",%d,", r3); olong(r3 ? 0 : q); ofmt("]"); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "fl")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) { size_t n; unsigned char *b = unhex(A(i), &n); float f; LIB(f = mbus_data_float_decode(b)); if (i > 1) ofmt(","); odbl(f); free(b); }
        ofmt("]");
    } else if (!strcmp(c, "tm")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            size_t n; unsigned char *b = unhex(A(i), &n); struct tm t; memset(&t, 0, sizeof t);
            LIB(mbus_data_tm_decode(&t, b, n));
            ofmt("%s[%d,%d,%d,%d,%d,%d]", i > 1 ? "," : "", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "sd")) {
        size_t n; unsigned char *b = unhex(A(1), &n); unsigned char *o = __real_malloc(n + 1); memset(o, 0x41, n + 1);
        LIB(mbus_data_str_decode(o, b, n)); ohex(o, n + 1); free(o); free(b);
    } else if (!strcmp(c, "bi")) {           /* bi MAXLEN HEX */
        size_t m = (size_t)AI(1), n; unsigned char *b = unhex(A(2), &n); unsigned char *o = __real_malloc(m ? m : 1); memset(o, 0, m);
        LIB(mbus_data_bin_decode(o, b, n, m)); ostr((char *)o); free(o); free(b);
    } else if (!strcmp(c, "mand")) {         /* all given 2-byte manufacturer codes */
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            size_t n; unsigned char *b = unhex(A(i), &n); const char *s; LIB(s = mbus_decode_manufacturer(b[0], b[1]));
            if (i > 1) ofmt(","); ostr(s); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "prods")) {        /* prods LO HI MEDIUM ID3 SEED : [[manufacturer, version, name], ...] of all headers with a product name */
        unsigned x = (unsigned)AI(5) | 1; int first = 1;
        ofmt("[");
        for (long m = AI(1); m < AI(2); m++) for (int v = 0; v < 256; v++) {
            mbus_data_variable_header hd; unsigned char *q = (unsigned char *)&hd; const char *s;
            for (size_t i = 0; i < sizeof hd; i++) { x = x * 1103515245u + 12345u; q[i] = (unsigned char)(x >> 16); }
            hd.manufacturer[0] = (unsigned char)m; hd.manufacturer[1] = (unsigned char)(m >> 8); hd.version = (unsigned char)v; hd.medium = (unsigned char)AI(3); hd.id_bcd[3] = (unsigned char)AI(4);
            LIB(s = mbus_data_product_name(&hd));
            if (!s || *s) { ofmt("%s[%ld,%d,", first ? "" : ",", m, v); ostr(s); ofmt("]"); first = 0; }
        }
        ofmt("]");
    } else if (!strcmp(c, "manid")) {        /* manid STRHEX ... : [id, enc_r, enc_bytes] */
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            char *s = unhexs(A(i)); unsigned int v; LIB(v = mbus_manufacturer_id(s));
            int r = -99; unsigned char o[2] = { 0xA5, 0xA5 };
            if (strlen(s) >= 3) LIB(r = mbus_data_manufacturer_encode(o, (unsigned char *)s));
            ofmt("%s[%u,%d,", i > 1 ? "," : "", v, r); ohex(o, 2); ofmt("]"); free(s);
        }
        ofmt("]");
    } else if (!strcmp(c, "xenc")) {         /* xenc MAXLEN STRHEX */
        size_t m = (size_t)AI(1); char *s = unhexs(A(2)); unsigned char *o = __real_malloc(m ? m : 1); memset(o, 0x7e, m);
        int r; LIB(r = mbus_str_xml_encode(o, (unsigned char *)s, m));
        size_t l = strnlen((char *)o, m);
        ofmt("{\"r\":%d,\"t\":%d,\"s\":", r, l < m); ohex(o, l); ofmt("}"); free(o); free(s);
    } else if (!strcmp(c, "isec")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) { char *s = unhexs(A(i)); int r; LIB(r = mbus_is_secondary_address(s)); ofmt("%s%d", i > 1 ? "," : "", r); free(s); }
        ofmt("]");
    } else if (!strcmp(c, "iprim")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) { int r; LIB(r = mbus_is_primary_address(atoi(A(i)))); ofmt("%s%d", i > 1 ? "," : "", r); }
        ofmt("]");
    } else if (!strcmp(c, "selp")) {
        ofmt("[");
        for (int i = 1; p + i < NTOK; i++) {
            char *s = unhexs(A(i)); mbus_frame *f; int r = -99, n = 0; unsigned char *b = __real_malloc(300);
            LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_LONG));
            if (f) { LIB(r = mbus_frame_select_secondary_pack(f, s)); if (r == 0) LIB(n = mbus_frame_pack(f, b, 300)); }
            ofmt("%s[%d,%d,", i > 1 ? "," : "", r, n); ohex(b, n > 0 && n <= 300 ? n : 0); ofmt("]");
            LIB(mbus_frame_free(f)); free(s); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "ipk")) {          /* ipk HDRHEX12 DIF:VIF:NDIFE:NVIFE:CUSTLEN:DATALEN ... : pack decoded records built by hand */
        mbus_frame_data *fd; mbus_frame *f; int r = -99; size_t n; unsigned char *b = unhex(A(1), &n);
        LIB(fd = mbus_frame_data_new()); LIB(f = mbus_frame_new(MBUS_FRAME_TYPE_LONG));
        fd->type = MBUS_DATA_TYPE_VARIABLE; memcpy(&fd->data_var.header, b, 12); free(b);
        for (int i = 2; p + i < NTOK; i++) {
            unsigned q[6] = {0}; mbus_data_record *rec;
            sscanf(A(i), "%u:%u:%u:%u:%u:%u", q, q + 1, q + 2, q + 3, q + 4, q + 5);
            LIB(rec = mbus_data_record_new());
            rec->drh.dib.dif = q[0]; rec->drh.vib.vif = q[1]; rec->drh.dib.ndife = q[2]; rec->drh.vib.nvife = q[3];
            for (unsigned k = 0; k < q[2]; k++) rec->drh.dib.dife[k] = (k + 1 < q[2] ? 0x80 : 0) | (k & 15);
            for (unsigned k = 0; k < q[3]; k++) rec->drh.vib.vife[k] = (k + 1 < q[3] ? 0x80 : 0) | (k & 15);
            for (unsigned k = 0; k < q[4] && k < sizeof rec->drh.vib.custom_vif - 1; k++) rec->drh.vib.custom_vif[k] = 'a' + k % 26;
            for (unsigned k = 0; k < q[5] && k < sizeof rec->data; k++) rec->data[k] = k + 1;
            rec->data_len = q[5];
            LIB(mbus_data_record_append(&fd->data_var, rec));
        }
        LIB(r = mbus_frame_internal_pack(f, fd));
        ofmt("{\"r\":%d,\"n\":%zu,\"b\":", r, f->data_size); ohex(f->data, f->data_size <= MBUS_FRAME_DATA_LENGTH ? f->data_size : 0); ofmt("}");
        LIB(mbus_frame_free(f)); LIB(mbus_frame_data_free(fd));
    } else if (!strcmp(c, "h2b")) {          /* h2b DSTLEN SRCHEX */
        size_t dl = (size_t)AI(1), n, r; unsigned char *s = unhex(A(2), &n); unsigned char *o = __real_malloc(dl); if (dl) memset(o, 0xA5, dl);
        LIB(r = mbus_hex2bin(o, dl, s, n));
        ofmt("{\"r\":%zu,\"b\":", r); ohex(o, r <= dl ? r : 0); ofmt("}"); free(o); free(s);
    } else if (!strcmp(c, "vib")) {          /* vib VIF VIFEHEX CUSTHEX VALUE */
        mbus_value_information_block v; memset(&v, 0, sizeof v);
        size_t n; unsigned char *b = unhex(A(2), &n); v.vif = (unsigned char)AI(1); memcpy(v.vife, b, n > 10 ? 10 : n); v.nvife = n; free(b);
        b = unhex(A(3), &n); memcpy(v.custom_vif, b, n > sizeof v.custom_vif - 1 ? sizeof v.custom_vif - 1 : n); free(b);
        char *u = NULL, *q = NULL; double o = 0; int r; const char *s;
        LIB(r = mbus_vib_unit_normalize(&v, atof(A(4)), &u, &o, &q));
        ofmt("{\"r\":%d,\"u\":", r); ostr(r ? NULL : u); ofmt(",\"q\":"); ostr(r ? NULL : q); ofmt(",\"v\":"); odbl(r ? 0 : o);
        free(u); free(q);
        LIB(s = mbus_vib_unit_lookup(&v)); ofmt(",\"t\":"); ostr(s); ofmt("}");
    } else if (!strcmp(c, "vifn")) {         /* vifn CODE VALUE */
        char *u = NULL, *q = NULL; double o = 0; int r; const char *s;
        LIB(r = mbus_vif_unit_normalize((int)AI(1), atof(A(2)), &u, &o, &q));
        ofmt("{\"r\":%d,\"u\":", r); ostr(u); ofmt(",\"q\":"); ostr(q); ofmt(",\"v\":"); odbl(o); free(u); free(q);
        LIB(s = mbus_vif_unit_lookup((unsigned char)AI(1))); ofmt(",\"t\":"); ostr(s); ofmt("}");
    } else if (!strcmp(c, "fix")) {          /* fix STATUS UNIT HEX4 ... triples */
        ofmt("[");
        for (int i = 1; p + i + 2 < NTOK; i += 3) {
            size_t n; unsigned char *b = unhex(A(i + 2), &n); mbus_record *r; const char *s;
            LIB(r = mbus_parse_fixed_record((char)AI(i), (char)AI(i + 1), b));
            ofmt("%s{\"n\":", i > 1 ? "," : ""); dump_norm(r); LIB(mbus_record_free(r));
            LIB(s = mbus_data_fixed_unit((int)AI(i + 1))); ofmt(",\"u\":"); ostr(s);
            LIB(s = mbus_data_fixed_function((int)AI(i))); ofmt(",\"fn\":"); ostr(s); ofmt("}"); free(b);
        }
        ofmt("]");
    } else if (!strcmp(c, "lut")) {          /* lut KIND n ... */
        const char *k = A(1), *s = NULL;
        ofmt("[");
        for (int i = 2; p + i < NTOK; i++) {
            long v = AI(i);
            if (i > 2) ofmt(",");
            if (!strcmp(k, "medium")) { LIB(s = mbus_data_variable_medium_lookup((unsigned char)v)); ostr(s); }
            else if (!strcmp(k, "error")) { LIB(s = mbus_data_error_lookup((int)v)); ostr(s); }
            else if (!strcmp(k, "prefix")) { LIB(s = mbus_unit_prefix((int)v)); ostr(s); }
            else if (!strcmp(k, "dlen")) { int l; LIB(l = mbus_dif_datalength_lookup((unsigned char)v)); ofmt("%d", l); }
            else if (!strcmp(k, "errxml")) { char *x; LIB(x = mbus_data_error_xml((int)v)); ostr(x); free(x); }
            else if (!strcmp(k, "sdata")) { mbus_slave_data *d; LIB(d = mbus_slave_data_get((size_t)v)); ofmt("%d", d != NULL); }
        }
        ofmt("]");
    } else if (!strcmp(c, "fmed")) {         /* fmed T1 T2 ... pairs -> fixed medium text */
        ofmt("[");
        for (int i = 1; p + i + 1 < NTOK; i += 2) {
            mbus_data_fixed x; memset(&x, 0, sizeof x); const char *s;
            x.cnt1_type = (unsigned char)AI(i); x.cnt2_type = (unsigned char)AI(i + 1);
            LIB(s = mbus_data_fixed_medium(&x)); if (i > 1) ofmt(","); ostr(s);
        }
        ofmt("]");
    } else if (!strcmp(c, "null")) {         /* NULL arguments are refused, not dereferenced */
        int a; char *s;
        LIB(a = mbus_parse(NULL, NULL, 0)); ofmt("[%d", a);
        LIB(a = mbus_frame_pack(NULL, NULL, 0)); ofmt(",%d", a);
        LIB(s = mbus_frame_xml(NULL)); ofmt(",%d", s != NULL);
        LIB(s = mbus_frame_data_xml(NULL)); ofmt(",%d", s != NULL);
        LIB(s = mbus_frame_data_xml_normalized(NULL)); ofmt(",%d", s != NULL);
        LIB(s = mbus_frame_get_secondary_address(NULL)); ofmt(",%d", s != NULL);
        LIB(a = mbus_frame_free(NULL)); ofmt(",%d", a);
        LIB(mbus_record_free(NULL)); LIB(mbus_context_free(NULL)); LIB(mbus_frame_data_free(NULL));
        LIB(a = mbus_connect(NULL)); ofmt(",%d", a);
        LIB(a = mbus_disconnect(NULL)); ofmt(",%d", a);
        LIB(a = mbus_recv_frame(NULL, NULL)); ofmt(",%d]", a);
    } else if (!strcmp(c, "arg")) {          /* arg K HEX [V]: call K of args.h without one of its arguments; HEX is the message of the frame */
        int r; mbus_frame *f = mk(A(2), &r); mbus_frame_data *d; mbus_handle *h; const char *name = "";
        ses_reset();
        armed = 1; ofmt("{\"ev\":[0"); nev = 1;
        LIB(d = mbus_frame_data_new());
        if (f && d) LIB(r = mbus_frame_data_parse(f, d));
        LIB(h = mbus_context_tcp("vhost", 1));
        LIB(r = mbus_connect(h));
        ofmt(",0],\"pre\":%d,\"during\":[0", r);
        long v = -98;
        if (f && d && d->data_var.record && !sigsetjmp(runaway, 1)) v = arg_call((int)AI(1), (int)AI(3), f, d, h, &name);
        ofmt(",0],\"r\":"); olong(v); ofmt(",\"name\":"); ostr(name);
        ofmt(",\"f\":"); dump_fields(f);
        ofmt(",\"after\":[0");
        LIB(mbus_disconnect(h)); LIB(mbus_context_free(h));
        LIB(mbus_frame_data_free(d)); LIB(mbus_frame_free(f));
        int open_ = 0; armed = 0;
        for (size_t i = 0; i < sizeof fds / sizeof fds[0]; i++) open_ += fds[i] != 0;
        ofmt(",0],\"fds\":%d}", open_);
    } else {
        ofmt("\"unknown\"");
    }
    ofmt(",\"bal\":%ld}", live);
    live_reset();
}

#ifndef LIBFUZZER
int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0; ssize_t n;
    if (argc < 3) return 97;
    FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
    if (!in || !out) return 97;
    capfd = memfd_create("cap", 0);
    static char sob[1 << 16];
    fflush(stdout);
    dup2(capfd, 1); dup2(capfd, 2);
    setvbuf(stdout, sob, _IOFBF, sizeof sob);
    signal(SIGPIPE, SIG_DFL);
    setenv("TZ", getenv("VERIF_TZ") ? getenv("VERIF_TZ") : "XST-5:45", 1); tzset();
    ses_reset();
    { time_t t = 0; struct tm *m = localtime(&t); char b[64]; strftime(b, sizeof b, "%c", m); mktime(m); gmtime(&t); (void)asctime(m); printf("%s %f", b, 1.5); fflush(stdout); }
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
    while ((n = getline(&line, &cap, in)) > 0) {
        while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
        NTOK = 0;
        char *save = NULL;
        for (char *t = strtok_r(line, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
            if (NTOK + 1 >= captok) { captok = captok ? captok * 2 : 1024; TOK = realloc(TOK, sizeof *TOK * (size_t)captok); }
            TOK[NTOK++] = t;
        }
        if (!NTOK) continue;
        outlen = 0;
        fflush(stdout);
        if (lseek(capfd, 0, SEEK_CUR) > 1 << 22) cap_reset();
        run_cmd(0);
        oput("\n", 1);
        if (fwrite(OUT, 1, outlen, out) != outlen) return 96;
        fflush(out);
    }
    fclose(out);
    return 0;
}
#endif
