/* reference side of the Python check: the C library behind a flat interface */
#include "spot.h"
#include <stdlib.h>
#include <string.h>
struct Spot *ref_new(void) {
    set_allocators(malloc, free);
    return calloc(1, sizeof(struct Spot));
}
int ref_init(struct Spot *s, double q, int low, int disc, double level, unsigned long cap) { return spot_init(s, q, low, disc, level, cap); }
int ref_fit(struct Spot *s, double const *x, unsigned long n) { return spot_fit(s, x, n); }
int ref_step(struct Spot *s, double x) { return spot_step(s, x); }
double ref_quantile(struct Spot *s, double q) { return spot_quantile(s, q); }
double ref_probability(struct Spot *s, double z) { return spot_probability(s, z); }
void ref_free(struct Spot *s) {
    spot_free(s);
    free(s);
}
void ref_error(int code, char *buf, unsigned long n) {
    memset(buf, 0, n);
    libspot_error(code, buf, n);
}
void ref_version(char *buf, unsigned long n) { libspot_version(buf, n); }
unsigned long ref_size(void) { return sizeof(struct Spot); }
/* q level at et gamma sigma e e2 min max last */
void ref_doubles(struct Spot const *s, double *o) {
    o[0] = s->q, o[1] = s->level, o[2] = s->anomaly_threshold, o[3] = s->excess_threshold;
    o[4] = s->tail.gamma, o[5] = s->tail.sigma, o[6] = s->tail.peaks.e, o[7] = s->tail.peaks.e2;
    o[8] = s->tail.peaks.min, o[9] = s->tail.peaks.max, o[10] = s->tail.peaks.container.last_erased_data;
}
/* discard low Nt n cursor capacity filled */
void ref_ints(struct Spot const *s, unsigned long *o) {
    o[0] = (unsigned long)s->discard_anomalies, o[1] = (unsigned long)s->low, o[2] = s->Nt, o[3] = s->n;
    o[4] = s->tail.peaks.container.cursor, o[5] = s->tail.peaks.container.capacity, o[6] = (unsigned long)s->tail.peaks.container.filled;
}
unsigned long ref_window(struct Spot const *s, double *o, unsigned long room) {
    unsigned long n = s->tail.peaks.container.filled ? s->tail.peaks.container.capacity : s->tail.peaks.container.cursor;
    for (unsigned long i = 0; i < n && i < room; i++) o[i] = s->tail.peaks.container.data[i];
    return n;
}
/* the counters of a very long stream */
void ref_age(struct Spot *s, unsigned long n, unsigned long nt) { s->n = n, s->Nt = nt; }
