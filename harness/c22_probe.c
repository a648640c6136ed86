/* layout of the public structures and constants; compiled against both headers */
#include VP_HEADER
#include <stddef.h>
#include <stdio.h>
#define O(f) printf(#f " %lu %lu\n", (unsigned long)offsetof(struct Spot, f), (unsigned long)sizeof(((struct Spot *)0)->f))
#define E(c) printf(#c " %d\n", (int)(c))
static void *mal(__SIZE_TYPE__ n) { extern void *malloc(__SIZE_TYPE__); return malloc(n); }
static void fre(void *p) { extern void free(void *); free(p); }
int main(void) {
    O(q); O(level); O(discard_anomalies); O(low); O(anomaly_threshold); O(excess_threshold); O(Nt); O(n);
    O(tail.gamma); O(tail.sigma); O(tail.peaks.e); O(tail.peaks.e2); O(tail.peaks.min); O(tail.peaks.max);
    O(tail.peaks.container.cursor); O(tail.peaks.container.capacity); O(tail.peaks.container.last_erased_data);
    O(tail.peaks.container.filled); O(tail.peaks.container.data);
    printf("sizeof %lu\n", (unsigned long)sizeof(struct Spot));
    E(NORMAL); E(EXCESS); E(ANOMALY);
    E(ERR_MEMORY_ALLOCATION_FAILED); E(ERR_LEVEL_OUT_OF_BOUNDS); E(ERR_Q_OUT_OF_BOUNDS);
    E(ERR_EXCESS_THRESHOLD_IS_NAN); E(ERR_ANOMALY_THRESHOLD_IS_NAN); E(ERR_DATA_IS_NAN);
    /* a short deterministic session through the header */
    struct Spot s;
    double x[2000];
    unsigned long i;
    unsigned long long r = 88172645463325252ull;
    char buf[256];
    set_allocators(mal, fre);
    for (int low = 0; low < 2; low++) {
        printf("init %d\n", spot_init(&s, 1e-3, low, 1, 0.95, 60));
        for (i = 0; i < 2000; i++) {
            r ^= r << 13; r ^= r >> 7; r ^= r << 17;
            x[i] = (double)(r >> 11) / 9007199254740992.0;
            x[i] = x[i] * x[i] * (1 + x[i]);
        }
        printf("fit %d\n", spot_fit(&s, x, 2000));
        for (i = 0; i < 2000; i++) printf("%d", spot_step(&s, x[1999 - i] * 1.1 - 0.02));
        printf("\n%a %a %lu %lu %a %a\n", s.anomaly_threshold, s.excess_threshold, s.n, s.Nt, spot_quantile(&s, 1e-4), spot_probability(&s, 2.0));
        spot_free(&s);
    }
    printf("%d %d %d\n", spot_init(&s, 0.1, 0, 1, 2.0, 5), spot_init(&s, 0.1, 0, 1, 0.99, 5), spot_init(&s, 0.001, 0, 1, 0.99, ~0ul));
    libspot_error(ERR_LEVEL_OUT_OF_BOUNDS, buf, 256); puts(buf);
    libspot_version(buf, 256); puts(buf);
    libspot_license(buf, 256); puts(buf);
    return 0;
}
