/* Full edit-distance table for one palette/bitmap class, from the pixel
 * strings and substitution costs of the code under test.  The recurrence is
 * the one specified in spec/Distance.tla (EditDist); C24 checks that the two,
 * and the project's own edit_distance(), agree.
 */
#include <stdint.h>
#include <stddef.h>
#include <omp.h>

static inline unsigned ed(const uint8_t *a, const uint8_t *b, int n,
                          const int32_t cost[16][16], int tr)
{
    unsigned p2 = 0, p1 = 0, cur;
    for (int k = 0; k < n; k++) {
        cur = p1 + cost[a[k]][b[k]];
        if (k > 0 && a[k] == b[k-1] && a[k-1] == b[k]) {
            unsigned t = p2 + tr;
            if (t < cur) cur = t;
        }
        p2 = p1; p1 = cur;
    }
    return p1;
}

/* pix: [noff][1<<bits][n]; out: [noff][1<<(2*bits)] */
void build(const uint8_t *pix, int noff, int bits, int n,
           const int32_t cost[16][16], int tr, uint16_t *out)
{
    size_t N = (size_t)1 << bits;
    for (int o = 0; o < noff; o++) {
        const uint8_t *P = pix + (size_t)o * N * n;
        uint16_t *T = out + (size_t)o * N * N;
        #pragma omp parallel for schedule(dynamic, 16)
        for (size_t a = 0; a < N; a++)
            for (size_t b = 0; b < N; b++)
                T[a * N + b] = ed(P + a * n, P + b * n, n, cost, tr);
    }
}
