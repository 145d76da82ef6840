/* enumeration of all strings over an alphabet, shortest first */
#ifndef VP_STRS_H
#define VP_STRS_H
static inline long strs_count(int k, int maxlen) { long n = 0, p = 1; for(int l = 0; l <= maxlen; l++) { n += p; p *= k; } return n; }
static inline int strs_get(long idx, const char *alpha, int k, char *out) {
	int l = 0; long p = 1;
	while(idx >= p) { idx -= p; p *= k; l++; }
	for(int i = l - 1; i >= 0; i--) { out[i] = alpha[idx % k]; idx /= k; }
	out[l] = 0;
	return l;
}
/* sizes around the marks where counters, buffers and indexes change: 2^k - 1 .. 2^k + 2 and 10^k - 1 .. 10^k + 2, from 2^lo up to 2^hi */
static inline int sizes_list(int lo, int hi, size_t *out) {
	int n = 0;
	for(int k = lo; k <= hi; k++) for(int d = -1; d <= 2; d++) out[n++] = ((size_t)1 << k) + d;
	for(size_t t = 10; t <= ((size_t)1 << hi); t *= 10) if(t >= ((size_t)1 << lo)) for(int d = -1; d <= 2; d++) out[n++] = t + d;
	return n;
}
static inline long sizes_count(int lo, int hi) { size_t o[512]; return sizes_list(lo, hi, o); }
static inline size_t sizes_get(int lo, int hi, long i) { size_t o[512]; sizes_list(lo, hi, o); return o[i]; }
/* counts of things released one by one: every number up to 300, then the marks above up to 2^17 + 2 */
static inline long counts_count(void) { return 301 + sizes_count(9, 17); }
static inline size_t counts_get(long i) { return i <= 300 ? (size_t)i : sizes_get(9, 17, i - 301); }
#endif
