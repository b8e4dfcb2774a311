/* Coverage-guided driver: the first byte chooses how the rest becomes telegrams. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "mbus/mbus.h"

static void use_frame(mbus_frame *f, int debug)
{
    char *x;
    unsigned char buf[300];
    mbus_frame_data *d;
    mbus_data_record *r;
    mbus_frame_verify(f);
    mbus_frame_type(f);
    mbus_frame_direction(f);
    mbus_frame_get_secondary_address(f);
    if (debug) mbus_frame_print(f);
    x = mbus_frame_xml(f);
    free(x);
    d = mbus_frame_data_new();
    if (mbus_frame_data_parse(f, d) == 0) {
        x = mbus_frame_data_xml(d); free(x);
        x = mbus_frame_data_xml_normalized(d); free(x);
        if (debug) mbus_frame_data_print(d);
        for (r = d->type == MBUS_DATA_TYPE_VARIABLE ? d->data_var.record : NULL; r; r = r->next) {
            double v; char *s = NULL; int n = 0;
            mbus_data_record_storage_number(r); mbus_data_record_tariff(r); mbus_data_record_device(r);
            mbus_data_record_function(r); mbus_data_record_unit(r); mbus_data_record_value(r);
            if (mbus_variable_value_decode(r, &v, &s, &n) == 0) free(s);
            mbus_record *nr = mbus_parse_variable_record(r);
            if (nr) mbus_record_free(nr);
        }
        if (d->type == MBUS_DATA_TYPE_FIXED) {
            mbus_record *nr = mbus_parse_fixed_record(d->data_fix.status, d->data_fix.cnt1_type, d->data_fix.cnt1_val);
            if (nr) mbus_record_free(nr);
        }
        mbus_frame *g = mbus_frame_new(MBUS_FRAME_TYPE_LONG);
        g->control_information = f->control_information;
        mbus_frame_internal_pack(g, d);
        mbus_frame_free(g);
    }
    mbus_frame_data_free(d);
    mbus_frame_pack(f, buf, sizeof buf);
}

static unsigned char *exact(const uint8_t *p, size_t n)
{
    unsigned char *q = malloc(n ? n : 1);
    memcpy(q, p, n);
    if (!n) { free(q); q = malloc(0); }
    return q;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static int init;
    if (!init) {
        init = 1;
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
    }
    if (size < 2) return 0;
    uint8_t mode = data[0];
    data++; size--;
    mbus_parse_set_debug(mode & 0x40 ? 1 : 0);
    if ((mode & 7) == 0) {                       /* raw bytes, repeatedly, into one frame object */
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY);
        size_t off = 0;
        while (off < size) {
            size_t n = (mode & 8) && size - off > 1 ? (size_t)data[off++] : size - off;
            if (n > size - off) n = size - off;
            unsigned char *q = exact(data + off, n);
            int r = mbus_parse(f, q, n);
            free(q);
            if (r == 0) use_frame(f, mode & 0x20);
            off += n ? n : 1;
        }
        mbus_frame_free(f);
        return 0;
    }
    /* payloads in otherwise valid frames, linked when the mode asks for it */
    mbus_frame *head = NULL, *last = NULL;
    size_t off = 0;
    int k = 0;
    while (off < size && k++ < 4) {
        size_t n = size - off;
        if ((mode & 8) && n > 1) { n = data[off++]; if (n > size - off) n = size - off; }
        if (n > 252) n = 252;
        unsigned char b[300];
        size_t i, m = 0;
        b[m++] = 0x68; b[m++] = n + 3; b[m++] = n + 3; b[m++] = 0x68;
        b[m++] = "\x08\x18\x28\x38\x53\x73\x08\x08"[mode >> 4 & 3];
        b[m++] = 1;
        b[m++] = (mode & 7) == 1 ? 0x73 : (mode & 7) == 2 ? 0x70 : 0x72;
        if ((mode & 7) >= 6) {                   /* records behind a fixed header */
            static const unsigned char hd[12] = { 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 1, 7, 0x55, 0, 0, 0 };
            if (n > 240) n = 240;
            memcpy(b + m, hd, 12); m += 12;
            memcpy(b + m, data + off, n); m += n;
            b[1] = b[2] = n + 15;
        } else { memcpy(b + m, data + off, n); m += n; }
        unsigned char cs = 0;
        for (i = 4; i < m; i++) cs += b[i];
        b[m++] = cs; b[m++] = 0x16;
        unsigned char *q = exact(b, m);
        mbus_frame *f = mbus_frame_new(MBUS_FRAME_TYPE_ANY);
        if (mbus_parse(f, q, m) != 0) { free(q); mbus_frame_free(f); break; }
        free(q);
        if (head) last->next = f; else head = f;
        last = f;
        off += n ? n : 1;
        if (!(mode & 8)) break;
    }
    if (head) use_frame(head, mode & 0x20);
    mbus_frame_free(head);
    return 0;
}
