/* half of the mutations move, drop, repeat or exchange pieces between angle brackets */
size_t LLVMFuzzerMutate(uint8_t *d, size_t n, size_t max);
static unsigned rnd(unsigned *s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }
size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed) {
    unsigned s = seed; if (rnd(&s) % 2 || n < 10) return LLVMFuzzerMutate(d, n, max);
    static uint8_t b[1 << 17]; size_t pos[512]; size_t k = 0; size_t skip = n > 2000 ? rnd(&s) % (n - 1000) : 1;
    for (size_t i = skip; i < n && k < 512; i++) if (d[i] == '<') pos[k++] = i;
    if (k < 3) return LLVMFuzzerMutate(d, n, max);
    size_t a = rnd(&s) % (k - 1), e = a + 1 + rnd(&s) % 4; if (e >= k) e = k - 1; if (e <= a) return LLVMFuzzerMutate(d, n, max);
    size_t from = pos[a], len = pos[e] - from, to = pos[rnd(&s) % k], o = 0;
    if (len > sizeof b / 2 || n > sizeof b / 2) return LLVMFuzzerMutate(d, n, max);
    switch (rnd(&s) % 4) {
    case 0: memmove(d + from, d + from + len, n - from - len); return n - len;                     /* drop */
    case 1: if (n + len > max) return n; memcpy(b, d + from, len); memmove(d + to + len, d + to, n - to); memcpy(d + to, b, len); return n + len; /* copy */
    case 2: { memcpy(b, d + from, len); memmove(d + from, d + from + len, n - from - len); size_t m = n - len; if (to > from) to = to >= from + len ? to - len : from; memmove(d + to + len, d + to, m - to); memcpy(d + to, b, len); return n; } /* move */
    default: { /* give one tag the name of another */
        size_t p = pos[rnd(&s) % k] + 1, q = pos[rnd(&s) % k] + 1; if (p < n && d[p] == '/') p++; if (q < n && d[q] == '/') q++;
        size_t pl = 0, ql = 0; while (p + pl < n && pl < 60 && d[p+pl] != '>' && d[p+pl] != ' ' && d[p+pl] != '/') pl++; while (q + ql < n && ql < 60 && d[q+ql] != '>' && d[q+ql] != ' ' && d[q+ql] != '/') ql++;
        if (n - pl + ql > max) return n; char nm[64]; memcpy(nm, d + q, ql); memmove(d + p + ql, d + p + pl, n - p - pl); memcpy(d + p, nm, ql); o = n - pl + ql; return o; }
    }
}
