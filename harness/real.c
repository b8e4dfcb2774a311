/* Drives the unmodified library over the kernel's own sockets and terminals: real {tcp HOST PORT SEC | ser DEV} op...
   One JSON line per operation: name, result, milliseconds, frames. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <time.h>
#include <mbus/mbus.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static char found[64][40]; static int nfound;
static void on_found(mbus_handle *h, mbus_frame *f) { char *a = mbus_frame_get_secondary_address(f); if (a && nfound < 64) snprintf(found[nfound++], 40, "%s", a); }
static void frames(mbus_frame *f)
{
    printf(",\"fr\":[");
    for (mbus_frame *i = f; i; i = i->next) {
        printf("%s[%d,%d,%d,%d,\"", i == f ? "" : ",", i->type, i->control, i->address, i->control_information);
        for (size_t j = 0; j < i->data_size; j++) printf("%02x", i->data[j]);
        printf("\"]");
    }
    printf("]");
}
static size_t unhex(const char *s, unsigned char *b) { size_t n = 0; unsigned v; while (sscanf(s, "%2x", &v) == 1 && n < 300) { b[n++] = v; s += 2; } return n; }

int main(int c, char **v)
{
    mbus_handle *h;
    int p = 1, base;
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (c < 3) return 2;
    base = nfds();
    if (!strcmp(v[p], "tcp")) { h = mbus_context_tcp(v[2], atoi(v[3])); mbus_tcp_set_timeout_set(atof(v[4])); p = 5; }
    else { h = mbus_context_serial(v[2]); p = 3; }
    if (!h) return 2;
    mbus_register_found_event(h, on_found);
    while (p < c) {
        const char *o = v[p++];
        double t = now();
        int rv = -99;
        mbus_frame *f = NULL;
        nfound = 0;
        printf("{\"op\":\"%s\"", o);
        if (!strcmp(o, "conn")) rv = mbus_connect(h);
        else if (!strcmp(o, "disc")) rv = mbus_disconnect(h);
        else if (!strcmp(o, "opt")) { rv = mbus_context_set_option(h, atoi(v[p]), atoi(v[p + 1])); p += 2; }
        else if (!strcmp(o, "req")) { f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); rv = mbus_sendrecv_request(h, atoi(v[p]), f, atoi(v[p + 1])); p += 2; }
        else if (!strcmp(o, "recv")) { f = mbus_frame_new(MBUS_FRAME_TYPE_ANY); rv = mbus_recv_frame(h, f); }
        else if (!strcmp(o, "ping")) { rv = mbus_send_ping_frame(h, atoi(v[p]), atoi(v[p + 1])); p += 2; }
        else if (!strcmp(o, "reqf")) rv = mbus_send_request_frame(h, atoi(v[p++]));
        else if (!strcmp(o, "sel")) rv = mbus_select_secondary_address(h, v[p++]);
        else if (!strcmp(o, "probe")) { char m[32] = ""; rv = mbus_probe_secondary_address(h, v[p++], m); printf(",\"match\":\"%s\"", m); }
        else if (!strcmp(o, "scan")) rv = mbus_scan_2nd_address_range(h, 0, v[p++]);
        else if (!strcmp(o, "purge")) rv = mbus_purge_frames(h);
        else if (!strcmp(o, "sbaud")) rv = mbus_serial_set_baudrate(h, atol(v[p++]));
        else if (!strcmp(o, "setaddr")) { rv = mbus_set_primary_address(h, atoi(v[p]), atoi(v[p + 1])); p += 2; }
        else if (!strcmp(o, "sud")) { unsigned char b[300]; size_t n = unhex(v[p + 1], b); rv = mbus_send_user_data_frame(h, atoi(v[p]), b, n); p += 2; }
        else if (!strcmp(o, "sleep")) { usleep(atoi(v[p++]) * 1000); rv = 0; }
        else return 2;
        printf(",\"rv\":%d,\"ms\":%.0f", rv, now() - t);
        if (f) { if (rv == 0) frames(f); while (f) { mbus_frame *n = f->next; f->next = NULL; mbus_frame_free(f); f = n; } }
        printf(",\"found\":[");
        for (int i = 0; i < nfound; i++) printf("%s\"%s\"", i ? "," : "", found[i]);
        printf("]}\n");
    }
    mbus_context_free(h);
    printf("{\"op\":\"end\",\"fds\":%d}\n", nfds() - base);
    return 0;
}
