// drive [setting=value]... command...   settings: t d strict op all limit inv inl dft alloc mask grain ; commands: f:FILE.ivf  n:K(next packets only)  flush drain hold close
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include "dav1d/dav1d.h"
#include <sys/mman.h>
extern void *__libc_malloc(size_t), *__libc_memalign(size_t, size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static int lib, guard; static long n_lib, oom = -1, n_live, live0;
static int full(void) { return lib && n_lib++ == oom; }
static void *got(void *p) { if (p) __atomic_fetch_add(&n_live, 1, __ATOMIC_RELAXED); return p; }
void *malloc(size_t n) { return full() ? NULL : got(__libc_malloc(n)); }
void *calloc(size_t a, size_t n) { return got(__libc_calloc(a, n)); }
void *realloc(void *p, size_t n) { return p ? __libc_realloc(p, n) : malloc(n); }
void free(void *p) { if (p) __atomic_fetch_sub(&n_live, 1, __ATOMIC_RELAXED); __libc_free(p); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { if (full()) return ENOMEM; *p = got(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
static int n_alloc, n_rel, n_pool, n_ud, n_udrel; static int fail_at = -1;
static int my_alloc(Dav1dPicture *p, void *ck) {
    if (n_alloc == fail_at) { n_alloc++; return DAV1D_ERR(ENOMEM); }
    int hbd = p->p.bpc > 8, aw = (p->p.w + 127) & ~127, ah = (p->p.h + 127) & ~127;
    size_t ys = (size_t)aw << hbd, us = ys, sz = ys * ah;
    uint8_t *b = aligned_alloc(64, sz * 3 + 4096); memset(b, 0x55, sz * 3 + 4096);
    p->data[0] = b; p->data[1] = p->p.layout ? b + sz : NULL; p->data[2] = p->p.layout ? b + 2 * sz : NULL;
    p->stride[0] = ys; p->stride[1] = us; p->allocator_data = b; n_alloc++; (void)ck; return 0;
}
static void my_rel(Dav1dPicture *p, void *ck) { if (ck != (void*)&n_pool) printf("cookie mismatch\n"); n_rel++; memset(p->allocator_data, 0xAA, 128); free(p->allocator_data); }
static void kept(const uint8_t *b, void *c) { (void)b; (void)c; n_udrel++; }
static void nofree(const uint8_t *b, void *c) { (void)c; n_udrel++; free((void*)b); }
static unsigned crc(unsigned h, const uint8_t *p, int n) { for (int i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u; return h; }
static unsigned pix(const Dav1dPicture *p) {
    unsigned h = 2166136261u; int hbd = p->p.bpc > 8;
    for (int k = 0; k < (p->p.layout ? 3 : 1); k++) {
        int w = p->p.w, hh = p->p.h;
        if (k && p->p.layout != DAV1D_PIXEL_LAYOUT_I444) w = (w + 1) >> 1;
        if (k && p->p.layout == DAV1D_PIXEL_LAYOUT_I420) hh = (hh + 1) >> 1;
        for (int y = 0; y < hh; y++) h = crc(h, (uint8_t*)p->data[k] + y * p->stride[!!k], w << hbd);
    }
    return h;
}
static Dav1dPicture held[256]; static int n_held, hold;
static void show(Dav1dPicture *p, const char *w) {
    printf("%s %dx%d bpc=%d lay=%d ts=%lld type=%d show=%d crc=%08x", w, p->p.w, p->p.h, p->p.bpc, p->p.layout, (long long)p->m.timestamp, p->frame_hdr->frame_type, p->frame_hdr->show_frame, pix(p));
    if (p->content_light) printf(" cll=%d/%d", p->content_light->max_content_light_level, p->content_light->max_frame_average_light_level);
    if (p->mastering_display) printf(" mdcv=%u/%u", p->mastering_display->max_luminance, p->mastering_display->min_luminance);
    for (size_t i = 0; i < p->n_itut_t35; i++) printf(" t35=%02x:%zu:%02x", p->itut_t35[i].country_code, p->itut_t35[i].payload_size, p->itut_t35[i].payload[0]);
    if (p->m.user_data.data) printf(" ud=%02x", p->m.user_data.data[0]);
    printf(" sp=%d\n", p->frame_hdr->spatial_id);
}
static int take(Dav1dContext *c) {
    Dav1dPicture p; memset(&p, 0, sizeof p);
    lib = 1; int r = dav1d_get_picture(c, &p); lib = 0;
    if (r == 0) { show(&p, "pic"); enum Dav1dEventFlags fl = 0; dav1d_get_event_flags(c, &fl); if (fl) printf("events %d\n", fl);
        if (hold && n_held < 256) held[n_held++] = p; else dav1d_picture_unref(&p); }
    else if (r != DAV1D_ERR(EAGAIN)) { Dav1dDataProps q; memset(&q, 0, sizeof q); dav1d_get_decode_error_data_props(c, &q); printf("err %d ts=%lld ud=%02x\n", r, (long long)q.timestamp, q.user_data.data ? q.user_data.data[0] : 0); dav1d_data_props_unref(&q);
        memset(&q, 0, sizeof q); dav1d_get_decode_error_data_props(c, &q); if (q.timestamp != INT64_MIN) printf("props twice\n"); dav1d_data_props_unref(&q); }
    return r;
}
static void feed(Dav1dContext *c, const char *fn, int from, int to) {
    FILE *f = fopen(fn, "rb"); if (!f) { printf("no %s\n", fn); exit(9); }
    uint8_t h[32]; if (fread(h, 1, 32, f) != 32) exit(9);
    for (int k = 0; fread(h, 1, 12, f) == 12; k++) {
        unsigned sz = h[0] | h[1] << 8 | h[2] << 16 | (unsigned)h[3] << 24;
        uint8_t *b = malloc(sz ? sz : 1); if (fread(b, 1, sz, f) != sz) exit(9);
        if (k < from || k >= to || !sz) { free(b); continue; }
        Dav1dData d; memset(&d, 0, sizeof d);
        if (guard) { size_t m = ((size_t)sz + 4095) & ~(size_t)4095; uint8_t *g = mmap(NULL, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(g + m, 4096, PROT_NONE); memcpy(g + m - sz, b, sz); free(b); dav1d_data_wrap(&d, g + m - sz, sz, kept, NULL); }
        else dav1d_data_wrap(&d, b, sz, nofree, b); n_ud++; d.m.timestamp = k + 1;
        uint8_t *u = malloc(1); *u = k + 1; dav1d_data_wrap_user_data(&d, u, nofree, u); n_ud++;
        int guard = 0;
        do { lib = 1; int r = dav1d_send_data(c, &d); lib = 0;
            if (r < 0 && r != DAV1D_ERR(EAGAIN)) { printf("send %d at %d\n", r, k); Dav1dDataProps q; memset(&q, 0, sizeof q); dav1d_get_decode_error_data_props(c, &q); printf("props ts=%lld\n", (long long)q.timestamp); dav1d_data_props_unref(&q); dav1d_data_unref(&d); }
            take(c);
        } while (d.sz > 0 && ++guard < 1000);
        if (guard >= 1000) printf("stuck\n");
    }
    fclose(f);
}
int main(int argc, char **argv) {
    Dav1dSettings s; dav1d_default_settings(&s); s.n_threads = 1; s.max_frame_delay = 1; s.logger.callback = NULL; s.strict_std_compliance = 0;
    Dav1dContext *c = NULL; int from = 0, to = 1 << 30; setvbuf(stdout, NULL, _IONBF, 0);
    for (int i = 1; i < argc; i++) {
        char *a = argv[i], *v = strchr(a, '='); long x = v ? strtol(v + 1, NULL, 0) : 0;
#define S(n) (v && !strncmp(a, n "=", sizeof(n)))
        if (S("t")) s.n_threads = x; else if (S("d")) s.max_frame_delay = x; else if (S("strict")) s.strict_std_compliance = x; else if (S("op")) s.operating_point = x; else if (S("all")) s.all_layers = x;
        else if (S("limit")) s.frame_size_limit = x; else if (S("inv")) s.output_invisible_frames = x; else if (S("inl")) s.inloop_filters = x; else if (S("dft")) s.decode_frame_type = x;
        else if (S("oom")) oom = x; else if (S("guard")) guard = x; else if (S("grain")) s.apply_grain = x; else if (S("mask")) dav1d_set_cpu_flags_mask(x); else if (S("fail")) fail_at = x; else if (S("from")) from = x; else if (S("to")) to = x; else if (S("hold")) hold = x;
        else if (S("alloc")) { s.allocator.cookie = &n_pool; s.allocator.alloc_picture_callback = my_alloc; s.allocator.release_picture_callback = my_rel; }
        else {
            if (!c) { int r = dav1d_open(&c, &s); if (r) { printf("open %d\n", r); return 3; } }
            if (!strncmp(a, "f:", 2)) feed(c, a + 2, from, to);
            else if (!strcmp(a, "flush")) { dav1d_flush(c); printf("flushed\n"); }
            else if (!strcmp(a, "drain")) { int g = 0, r; do r = take(c); while (r != DAV1D_ERR(EAGAIN) && ++g < 100); }
            else if (!strcmp(a, "close")) { dav1d_close(&c); printf("closed\n"); }
            else if (!strcmp(a, "held")) for (int k = 0; k < n_held; k++) show(&held[k], "held");
            else if (!strcmp(a, "drop")) { for (int k = 0; k < n_held; k++) dav1d_picture_unref(&held[k]); n_held = 0; }
            else if (!strcmp(a, "live")) { long l = n_live; printf("memory %s\n", !live0 ? "noted" : l > live0 + 1 ? "grown" : "as before"); live0 = l; }
            else if (!strcmp(a, "counts")) printf("alloc %d rel %d bufs %d bufrel %d\n", n_alloc, n_rel, n_ud, n_udrel);
            else { printf("what? %s\n", a); return 2; }
        }
    }
    if (c) dav1d_close(&c);
    return 0;
}
