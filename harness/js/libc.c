/* libc stand-in for the wasm build: an allocator that keeps accounts */
#include <stdlib.h>
#include <string.h>
void *memcpy(void *d, const void *s, size_t n) {
    for (size_t i = 0; i < n; i++) ((volatile unsigned char *)d)[i] = ((const unsigned char *)s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    volatile unsigned char *a = d;
    const unsigned char *b = s;
    if ((size_t)a < (size_t)b)
        for (size_t i = 0; i < n; i++) a[i] = b[i];
    else
        while (n--) a[n] = b[n];
    return d;
}
void *memset(void *d, int c, size_t n) {
    for (size_t i = 0; i < n; i++) ((volatile unsigned char *)d)[i] = (unsigned char)c;
    return d;
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}

#define MAGIC 0x51A110C8u
#define DEAD 0xDEADB10Cu
#define TAILWORD 0x7A11C0DEu
struct hdr { /* 16 bytes */
    unsigned magic, size, room;
    struct hdr *next;
};
extern unsigned char __heap_base;
static struct hdr *freelist;
static size_t brk_, live_blocks, live_bytes, bad_frees, overruns, total;
static const size_t LIMIT = 64u << 20;
__attribute__((export_name("vp_live_blocks"))) unsigned vp_live_blocks(void) { return live_blocks; }
__attribute__((export_name("vp_live_bytes"))) unsigned vp_live_bytes(void) { return live_bytes; }
__attribute__((export_name("vp_bad_frees"))) unsigned vp_bad_frees(void) { return bad_frees; }
__attribute__((export_name("vp_overruns"))) unsigned vp_overruns(void) { return overruns; }
__attribute__((export_name("vp_total"))) unsigned vp_total(void) { return total; }

__attribute__((export_name("malloc"))) void *malloc(size_t n) {
    if (n > LIMIT || live_bytes + n > LIMIT) return NULL;
    size_t room = (n + 4 + 7) & ~(size_t)7; /* blocks are 8-aligned, as emscripten's may be */
    struct hdr **p = &freelist, *h = NULL;
    for (; *p; p = &(*p)->next)
        if ((*p)->room >= room && (*p)->room <= 2 * room + 64) {
            h = *p;
            *p = h->next;
            break;
        }
    if (!h) {
        if (!brk_) brk_ = ((size_t)&__heap_base + 15) & ~(size_t)15;
        size_t end = brk_ + sizeof(struct hdr) + room;
        size_t have = __builtin_wasm_memory_size(0) * 65536ul;
        if (end > have && __builtin_wasm_memory_grow(0, (end - have + 65535) / 65536) == (size_t)-1) return NULL;
        h = (struct hdr *)brk_;
        brk_ = end;
        h->room = room;
    }
    h->magic = MAGIC;
    h->size = n;
    unsigned char *d = (unsigned char *)(h + 1);
    memset(d, 0xA5, h->room);
    unsigned t = TAILWORD;
    memcpy(d + n, &t, 4);
    live_blocks++;
    live_bytes += n;
    total++;
    return d;
}
__attribute__((export_name("free"))) void free(void *p) {
    if (!p) return;
    struct hdr *h = (struct hdr *)p - 1;
    if (h->magic != MAGIC) {
        bad_frees++;
        return;
    }
    unsigned t = TAILWORD;
    if (memcmp((char *)p + h->size, &t, 4)) overruns++;
    h->magic = DEAD;
    live_blocks--;
    live_bytes -= h->size;
    memset(p, 0xDD, h->room);
    h->next = freelist;
    freelist = h;
}
void *calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) return NULL;
    void *p = malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
