/* A stand-in for the libsecp256k1-zkp functions that python-elementstx calls.
 *
 * The algebra is real (generators, Pedersen commitments, sums of blinding
 * factors; the group comes from the installed libsecp256k1).  Range proofs and
 * surjection proofs are idealised: they have the sizes and headers of the real
 * ones and carry authenticators instead of sigma protocols, so they verify
 * exactly if the statement they were made for is true.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <secp256k1.h>

#define API __attribute__((visibility("default")))
typedef unsigned char u8;
typedef unsigned __int128 u128;

/* ------------------------------------------------------------ control */
/* function ids, in the order of the NAMES table of shim.py */
enum { F_INFO, F_GPARSE, F_GGEN, F_GGENB, F_GSER, F_COMMIT, F_CSER, F_CPARSE, F_SUM, F_SIGN,
       F_REWIND, F_SALLOC, F_SDESTROY, F_SGEN, F_SVERIFY, F_SSIZE, F_SSER, F_N };
static long calls[F_N];
static int fault_fn = -1;
static long fault_at = -1;
static long illegal, live, badfree;
static long last_sign[6];

API void shim_reset(void) {
    memset(calls, 0, sizeof(calls));
    fault_fn = -1; fault_at = -1; illegal = 0; live = 0; badfree = 0;
    memset(last_sign, 0, sizeof(last_sign));
}
API void shim_fault(int fn, long at) { fault_fn = fn; fault_at = at; }
API long shim_calls(int fn) { return calls[fn]; }
API long shim_illegal(void) { return illegal; }
API long shim_live(void) { return live; }
API long shim_badfree(void) { return badfree; }

static int enter(int fn) {   /* 1: this call is made to fail */
    long k = __atomic_fetch_add(&calls[fn], 1, __ATOMIC_SEQ_CST);
    return fn == fault_fn && (fault_at < 0 || k == fault_at);
}
#define ARG(c) do { if (!(c)) { illegal++; return 0; } } while (0)

static const secp256k1_context *C(void) {
    static secp256k1_context *c;
    if (!c) c = secp256k1_context_create(SECP256K1_CONTEXT_SIGN | SECP256K1_CONTEXT_VERIFY);
    return c;
}

/* ------------------------------------------------------------ sha256 */
typedef struct { uint32_t h[8]; u8 b[64]; uint64_t n; } sha;
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
static void block(sha *s, const u8 *p) {
    uint32_t w[64], v[8]; int i;
    for (i = 0; i < 16; i++)
        w[i] = (uint32_t)p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
    for (; i < 64; i++)
        w[i] = w[i-16] + (ror(w[i-15],7) ^ ror(w[i-15],18) ^ w[i-15] >> 3) + w[i-7]
             + (ror(w[i-2],17) ^ ror(w[i-2],19) ^ w[i-2] >> 10);
    memcpy(v, s->h, 32);
    for (i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (ror(v[4],6) ^ ror(v[4],11) ^ ror(v[4],25))
                    + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
        uint32_t t2 = (ror(v[0],2) ^ ror(v[0],13) ^ ror(v[0],22))
                    + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        memmove(v + 1, v, 28); v[4] += t1; v[0] = t1 + t2;
    }
    for (i = 0; i < 8; i++) s->h[i] += v[i];
}
static void init(sha *s, const char *tag) {
    static const uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,
                                  0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(s->h, h, 32); s->n = 0;
    void upd(sha *, const void *, size_t);
    upd(s, tag, strlen(tag));
}
void upd(sha *s, const void *d, size_t n) {
    const u8 *p = d;
    while (n--) { s->b[s->n++ & 63] = *p++; if (!(s->n & 63)) block(s, s->b); }
}
static void fin(sha *s, u8 *o) {
    uint64_t bits = s->n * 8; u8 c = 0x80; int i;
    upd(s, &c, 1); c = 0;
    while ((s->n & 63) != 56) upd(s, &c, 1);
    for (i = 7; i >= 0; i--) { c = bits >> (8 * i); upd(s, &c, 1); }
    for (i = 0; i < 32; i++) o[i] = s->h[i/4] >> (24 - 8 * (i & 3));
}

/* ------------------------------------------------------------ field mod p */
typedef struct { uint64_t v[4]; } fe;   /* little endian, fully reduced */
static const fe FP = {{0xFFFFFFFEFFFFFC2FULL, ~0ULL, ~0ULL, ~0ULL}};
static int ge(const fe *a, const fe *b) {
    for (int i = 3; i >= 0; i--) if (a->v[i] != b->v[i]) return a->v[i] > b->v[i];
    return 1;
}
static void subp(fe *a) {
    u128 bw = 0;
    for (int i = 0; i < 4; i++) {
        u128 t = (u128)a->v[i] - FP.v[i] - (uint64_t)bw;
        a->v[i] = (uint64_t)t; bw = (t >> 64) & 1;
    }
}
static fe add(fe a, fe b) {
    fe r; u128 c = 0;
    for (int i = 0; i < 4; i++) { c += (u128)a.v[i] + b.v[i]; r.v[i] = (uint64_t)c; c >>= 64; }
    if (c || ge(&r, &FP)) subp(&r);
    return r;
}
static fe neg(fe a) {
    fe r; u128 bw = 0;
    if (!(a.v[0] | a.v[1] | a.v[2] | a.v[3])) return a;
    for (int i = 0; i < 4; i++) {
        u128 t = (u128)FP.v[i] - a.v[i] - (uint64_t)bw; r.v[i] = (uint64_t)t; bw = (t >> 64) & 1;
    }
    return r;
}
static fe mul(fe a, fe b) {
    uint64_t t[8] = {0}; fe r;
    for (int i = 0; i < 4; i++) {
        u128 c = 0;
        for (int j = 0; j < 4; j++) {
            c += (u128)a.v[i] * b.v[j] + t[i+j]; t[i+j] = (uint64_t)c; c >>= 64;
        }
        t[i+4] = (uint64_t)c;
    }
    u128 c = 0;
    for (int i = 0; i < 4; i++) {
        c += (u128)t[i+4] * 0x1000003D1ULL + t[i]; r.v[i] = (uint64_t)c; c >>= 64;
    }
    while (c) {
        u128 d = c * 0x1000003D1ULL; c = 0;
        for (int i = 0; i < 4; i++) { d += r.v[i]; r.v[i] = (uint64_t)d; d >>= 64; }
        c = d;
    }
    while (ge(&r, &FP)) subp(&r);
    return r;
}
static fe small(uint64_t x) { fe r = {{x, 0, 0, 0}}; return r; }
static fe rd(const u8 *b) {   /* not reduced */
    fe r;
    for (int i = 0; i < 4; i++) {
        r.v[3-i] = 0;
        for (int j = 0; j < 8; j++) r.v[3-i] = r.v[3-i] << 8 | b[8*i+j];
    }
    return r;
}
static void wr(u8 *b, fe a) {
    for (int i = 0; i < 32; i++) b[i] = a.v[3 - i/8] >> (56 - 8 * (i & 7));
}
static int eq(fe a, fe b) { return !memcmp(&a, &b, sizeof a); }
static fe power(fe a, fe e) {
    fe r = small(1);
    for (int i = 255; i >= 0; i--) {
        r = mul(r, r);
        if (e.v[i/64] >> (i & 63) & 1) r = mul(r, a);
    }
    return r;
}
static fe invert(fe a) { fe e = FP; e.v[0] -= 2; return power(a, e); }
static int root(fe a, fe *r) {
    static const fe e = {{0xFFFFFFFFBFFFFF0CULL, ~0ULL, ~0ULL, 0x3FFFFFFFFFFFFFFFULL}};
    *r = power(a, e);
    return eq(mul(*r, *r), a);
}
static int square(fe a) { fe r; return root(a, &r); }
static fe curve(fe x) { return add(mul(mul(x, x), x), small(7)); }

/* ------------------------------------------------------------ points */
typedef struct { int inf; secp256k1_pubkey p; } pt;

static int from_xy(pt *o, const u8 *xy) {
    u8 b[65]; b[0] = 4; memcpy(b + 1, xy, 64); o->inf = 0;
    return secp256k1_ec_pubkey_parse(C(), &o->p, b, 65);
}
static void to_xy(u8 *xy, const pt *p) {
    u8 b[65]; size_t n = 65;
    secp256k1_ec_pubkey_serialize(C(), b, &n, &p->p, SECP256K1_EC_UNCOMPRESSED);
    memcpy(xy, b + 1, 64);
}
static int zero32(const u8 *k) { for (int i = 0; i < 32; i++) if (k[i]) return 0; return 1; }
static int scalar_ok(const u8 *k) { return zero32(k) || secp256k1_ec_seckey_verify(C(), k); }
static pt mulg(const u8 *k) {
    pt r; r.inf = zero32(k);
    if (!r.inf && !secp256k1_ec_pubkey_create(C(), &r.p, k)) abort();
    return r;
}
static pt mulp(const u8 *k, pt a) {
    if (zero32(k)) a.inf = 1;
    if (!a.inf && !secp256k1_ec_pubkey_tweak_mul(C(), &a.p, k)) abort();
    return a;
}
static pt addp(pt a, pt b) {
    pt r; const secp256k1_pubkey *l[2] = {&a.p, &b.p};
    if (a.inf) return b;
    if (b.inf) return a;
    r.inf = !secp256k1_ec_pubkey_combine(C(), &r.p, l, 2);
    return r;
}
static pt map(const u8 *t32) {
    static const u8 cc[32] = {0x0a,0x2d,0x2b,0xa9,0x35,0x07,0xf1,0xdf,0x23,0x37,0x70,0xc2,0xa7,0x97,
        0x96,0x2c,0xc6,0x1f,0x6d,0x15,0xda,0x14,0xec,0xd4,0x7d,0x8d,0x27,0xae,0x1c,0xd5,0xf8,0x52};
    static const u8 dd[32] = {0x85,0x16,0x95,0xd4,0x9a,0x83,0xf8,0xef,0x91,0x9b,0xb8,0x61,0x53,0xcb,
        0xcb,0x16,0x63,0x0f,0xb6,0x8a,0xed,0x0a,0x76,0x6a,0x3e,0xc6,0x93,0xd6,0x8e,0x6a,0xfa,0x40};
    fe t = rd(t32), w, x[3], y; u8 xy[64]; pt r; int i;
    if (ge(&t, &FP)) subp(&t);
    w = mul(mul(rd(cc), t), invert(add(mul(t, t), small(8))));
    x[0] = add(rd(dd), neg(mul(t, w)));
    x[1] = neg(add(x[0], small(1)));
    x[2] = add(small(1), invert(mul(w, w)));
    for (i = 0; i < 3; i++) if (root(curve(x[i]), &y)) break;
    if (i == 3) abort();
    if (t.v[0] & 1) y = neg(y);
    wr(xy, x[i]); wr(xy + 32, y);
    if (!from_xy(&r, xy)) abort();
    return r;
}
static pt generator(const u8 *asset) {
    sha s; u8 h[32]; pt a;
    init(&s, "1st generation: "); upd(&s, asset, 32); fin(&s, h); a = map(h);
    init(&s, "2nd generation: "); upd(&s, asset, 32); fin(&s, h);
    return addp(a, map(h));
}
static int parse33(pt *o, const u8 *in, int base) {
    fe x = rd(in + 1), y; u8 xy[64];
    if ((in[0] & 0xfe) != base || ge(&x, &FP) || !root(curve(x), &y)) return 0;
    if (in[0] & 1) y = neg(y);      /* root() is itself a square */
    wr(xy, x); wr(xy + 32, y);
    return from_xy(o, xy);
}
static void ser33(u8 *o, const pt *p, int base) {
    u8 xy[64]; to_xy(xy, p);
    o[0] = base | !square(rd(xy + 32)); memcpy(o + 1, xy, 32);
}

/* ------------------------------------------------------------ generators, commitments */
API int secp256k1_generator_parse(const void *c, u8 *gen, const u8 *in) {
    pt p;
    if (enter(F_GPARSE)) return 0;
    ARG(c && gen && in);
    if (!parse33(&p, in, 10)) return 0;
    to_xy(gen, &p);
    return 1;
}
API int secp256k1_generator_generate(const void *c, u8 *gen, const u8 *key) {
    pt p;
    if (enter(F_GGEN)) return 0;
    ARG(c && gen && key);
    p = generator(key); to_xy(gen, &p);
    return 1;
}
API int secp256k1_generator_generate_blinded(const void *c, u8 *gen, const u8 *key, const u8 *b) {
    pt p;
    if (enter(F_GGENB)) return 0;
    ARG(c && gen && key && b);
    if (!scalar_ok(b)) return 0;
    p = addp(generator(key), mulg(b));
    if (p.inf) return 0;
    to_xy(gen, &p);
    return 1;
}
API int secp256k1_generator_serialize(const void *c, u8 *out, const u8 *gen) {
    pt p;
    if (enter(F_GSER)) return 0;
    ARG(c && out && gen && from_xy(&p, gen));
    ser33(out, &p, 10);
    return 1;
}
static void be64(u8 *b, uint64_t v) { for (int i = 0; i < 8; i++) b[i] = v >> (56 - 8 * i); }
static uint64_t rd64(const u8 *b) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[i]; return v; }
static int commit_to(u8 *out33, const u8 *blind, uint64_t value, const u8 *gen) {
    pt g, p; u8 k[32] = {0};
    if (!scalar_ok(blind) || !from_xy(&g, gen)) return 0;
    be64(k + 24, value);
    p = addp(mulg(blind), mulp(k, g));
    if (p.inf) return 0;
    ser33(out33, &p, 8);
    return 1;
}
API int secp256k1_pedersen_commit(const void *c, u8 *commit, const u8 *blind, uint64_t value,
                                  const u8 *gen) {
    if (enter(F_COMMIT)) return 0;
    ARG(c && commit && blind && gen);
    memset(commit, 0, 64);
    return commit_to(commit, blind, value, gen);
}
API int secp256k1_pedersen_commitment_serialize(const void *c, u8 *out, const u8 *commit) {
    if (enter(F_CSER)) return 0;
    ARG(c && out && commit);
    memcpy(out, commit, 33);
    return 1;
}
API int secp256k1_pedersen_commitment_parse(const void *c, u8 *commit, const u8 *in) {
    pt p;
    if (enter(F_CPARSE)) return 0;
    ARG(c && commit && in);
    if (!parse33(&p, in, 8)) return 0;
    memset(commit, 0, 64); memcpy(commit, in, 33);
    return 1;
}
/* scalars: r += s, with the zero scalar allowed */
static void sadd(u8 *r, const u8 *s) {
    if (zero32(s)) return;
    if (zero32(r)) { memcpy(r, s, 32); return; }
    if (!secp256k1_ec_seckey_tweak_add(C(), r, s)) memset(r, 0, 32);
}
API int secp256k1_pedersen_blind_generator_blind_sum(const void *c, const uint64_t *value,
        const u8 *const *gblind, u8 *const *blind, size_t n_total, size_t n_inputs) {
    u8 sum[32] = {0};
    if (enter(F_SUM)) return 0;
    ARG(c && (n_total == 0 || (value && gblind && blind)) && n_total > n_inputs);
    for (size_t i = 0; i < n_total; i++) {
        u8 t[32] = {0};
        if (!scalar_ok(gblind[i]) || !scalar_ok(blind[i])) return 0;
        be64(t + 24, value[i]);
        if (zero32(gblind[i])) memset(t, 0, 32);
        if (!zero32(t) && !secp256k1_ec_seckey_tweak_mul(C(), t, gblind[i])) abort();
        if (i != n_total - 1) sadd(t, blind[i]);
        /* the last output's own factor is what makes the sum vanish */
        if (i < n_inputs && !zero32(t) && !secp256k1_ec_seckey_negate(C(), t)) abort();
        sadd(sum, t);
    }
    if (!zero32(sum) && !secp256k1_ec_seckey_negate(C(), sum)) abort();
    memcpy(blind[n_total - 1], sum, 32);
    return 1;
}

/* ------------------------------------------------------------ range proofs */
static int getheader(const u8 *p, size_t n, size_t *off, int *exp, int *man, uint64_t *scale,
                     uint64_t *min, uint64_t *max) {
    int nz, hm;
    *exp = -1; *man = 0; *off = 0; *scale = 1;
    if (n < 65 || (p[0] & 128)) return 0;
    nz = p[0] & 64; hm = p[0] & 32;
    if (nz) {
        *exp = p[0] & 31; ++*off;
        if (*exp > 18) return 0;
        *man = p[1] + 1;
        if (*man > 64) return 0;
        *max = ~0ULL >> (64 - *man);
    } else *max = 0;
    ++*off;
    for (int i = 0; i < *exp; i++) {
        if (*max > ~0ULL / 10) return 0;
        *max *= 10; *scale *= 10;
    }
    *min = 0;
    if (hm) { *min = rd64(p + *off); *off += 8; }
    if (*max > ~0ULL - *min) return 0;
    *max += *min;
    return 1;
}
API int secp256k1_rangeproof_info(const void *c, int *exp, int *man, uint64_t *min, uint64_t *max,
                                  const u8 *p, size_t n) {
    size_t off; uint64_t scale;
    if (enter(F_INFO)) return 0;
    ARG(c && exp && man && min && max && p);
    return getheader(p, n, &off, exp, man, &scale, min, max);
}
static void stream(u8 *buf, size_t n, const char *tag, const u8 *key, size_t klen) {
    u8 h[32]; sha s; uint32_t ctr = 0;
    for (size_t i = 0; i < n; i++) {
        if (!(i & 31)) {
            init(&s, tag); upd(&s, key, klen); upd(&s, &ctr, 4); fin(&s, h); ctr++;
        }
        buf[i] ^= h[i & 31];
    }
}
static void mac(u8 *o, const char *tag, const u8 *nonce, const u8 *body, size_t n, const u8 *commit,
                const u8 *extra, size_t elen, const u8 *gen, const u8 *head, size_t hlen) {
    sha s; uint64_t l = elen;
    init(&s, tag); upd(&s, nonce, 32); upd(&s, commit, 33); upd(&s, &l, 8);
    if (elen) upd(&s, extra, elen);
    upd(&s, gen, 64); upd(&s, head, hlen); upd(&s, body, n);
    fin(&s, o);
}
static const u8 PUBLIC[32] = "idealised proof system";

/* body: public authenticator 32, owner authenticator 32, then encrypted
 * blind 32, value 8, message length 2, message, zeros */
API int secp256k1_rangeproof_sign(const void *c, u8 *proof, size_t *plen, uint64_t min_value,
        const u8 *commit, const u8 *blind, const u8 *nonce, int exp, int min_bits, uint64_t value,
        const u8 *msg, size_t mlen, const u8 *extra, size_t elen, const u8 *gen) {
    uint64_t v, scale = 1; int rings, man, npub; size_t len, need; u8 check[33], key[64]; u8 *b;
    int forced = enter(F_SIGN);
    last_sign[0] = *plen; last_sign[1] = min_value; last_sign[2] = exp; last_sign[3] = min_bits;
    last_sign[4] = mlen; last_sign[5] = elen;
    if (forced) return 0;
    ARG(c && proof && plen && commit && blind && nonce && (msg || !mlen) && (extra || !elen) && gen);
    if (*plen < 65 || min_value > value || min_bits > 64 || min_bits < 0 || exp < -1 || exp > 18)
        return 0;
    if (min_value == ~0ULL) exp = -1;
    if (exp >= 0) {
        int max_bits = min_value ? __builtin_clzll(min_value) : 64;
        if (min_bits > max_bits) min_bits = max_bits;
        if (min_bits > 61 || value > INT64_MAX) exp = 0;
        v = value - min_value;
        uint64_t v2 = min_bits ? (~0ULL >> (64 - min_bits)) : 0;
        int i;
        for (i = 0; i < exp && v2 <= ~0ULL / 10; i++) { v /= 10; v2 *= 10; }
        exp = i;
        v2 = v;
        for (i = 0; i < exp; i++) { v2 *= 10; scale *= 10; }
        min_value = value - v2;
        man = v ? 64 - __builtin_clzll(v) : 1;
        if (min_bits > man) man = min_bits;
        rings = (man + 1) >> 1;
        npub = 4 * rings - ((man & 1) ? 2 : 0);
    } else {
        exp = 0; min_value = value; v = 0; man = 0; rings = 1; npub = 2; exp = -1;
    }
    if (mlen > 0 && mlen > 128u * (rings - 1)) return 0;
    if (!scalar_ok(blind)) return 0;
    len = 0;
    need = 1 + (man > 0) + (min_value ? 8 : 0) + 32 * (npub + rings - 1) + 32 + ((rings + 6) >> 3);
    if (*plen < need) return 0;
    memset(proof, 0, need);
    proof[len++] = (man > 0 ? 64 | exp : 0) | (min_value ? 32 : 0);
    if (man > 0) proof[len++] = man - 1;
    if (min_value) { be64(proof + len, min_value); len += 8; }
    b = proof + len;
    if (need - len < 32 + 32 + 32 + 8 + 2 + mlen) return 0;
    memcpy(b + 64, blind, 32); be64(b + 96, value); b[104] = mlen >> 8; b[105] = mlen;
    if (mlen) memcpy(b + 106, msg, mlen);
    memcpy(key, nonce, 32); memcpy(key + 32, commit, 32);
    stream(b + 64, need - len - 64, "range stream", key, 64);
    mac(b + 32, "owner", nonce, b + 64, need - len - 64, commit, extra, elen, gen, proof, len);
    mac(b, "public", PUBLIC, b + 32, need - len - 32, commit, extra, elen, gen, proof, len);
    /* a commitment that is not opened by (blind, value) has no proof */
    if (!commit_to(check, blind, value, gen) || memcmp(check, commit, 33)) b[0] ^= 0x80;
    *plen = need;
    return 1;
}
API void shim_last_sign(long *o) { memcpy(o, last_sign, sizeof(last_sign)); }

API int secp256k1_rangeproof_verify(const void *c, uint64_t *min, uint64_t *max, const u8 *commit,
        const u8 *p, size_t n, const u8 *extra, size_t elen, const u8 *gen) {
    size_t off; int exp, man; uint64_t scale; u8 m[32];
    (void)c;
    if (!getheader(p, n, &off, &exp, &man, &scale, min, max) || n < off + 106) return 0;
    mac(m, "public", PUBLIC, p + off + 32, n - off - 32, commit, extra, elen, gen, p, off);
    return !memcmp(m, p + off, 32);
}
API int secp256k1_rangeproof_rewind(const void *c, u8 *blind, uint64_t *value, u8 *msg,
        size_t *outlen, const u8 *nonce, uint64_t *min, uint64_t *max, const u8 *commit,
        const u8 *p, size_t n, const u8 *extra, size_t elen, const u8 *gen) {
    size_t off, mlen, room; int exp, man; uint64_t scale; u8 m[32], key[64], check[33]; u8 *b;
    if (enter(F_REWIND)) return 0;
    ARG(c && blind && value && commit && p && min && max && (msg || !outlen) && nonce
        && (extra || !elen) && gen);
    if (!secp256k1_rangeproof_verify(c, min, max, commit, p, n, extra, elen, gen)) return 0;
    getheader(p, n, &off, &exp, &man, &scale, min, max);
    mac(m, "owner", nonce, p + off + 64, n - off - 64, commit, extra, elen, gen, p, off);
    if (memcmp(m, p + off + 32, 32)) return 0;
    b = malloc(n);
    memcpy(b, p + off, n - off);
    memcpy(key, nonce, 32); memcpy(key + 32, commit, 32);
    stream(b + 64, n - off - 64, "range stream", key, 64);
    memcpy(blind, b + 64, 32); *value = rd64(b + 96); mlen = b[104] << 8 | b[105];
    if (!commit_to(check, blind, *value, gen) || memcmp(check, commit, 33)) { free(b); return 0; }
    if (outlen) {
        room = man ? 128u * ((man + 1) / 2 - 1) : 0;
        if (*outlen > room) *outlen = room;
        memset(msg, 0, *outlen);
        memcpy(msg, b + 106, mlen < *outlen ? mlen : *outlen);
    }
    free(b);
    return 1;
}

/* ------------------------------------------------------------ surjection proofs */
#define MAGIC 0x5a17a11e
typedef struct { uint32_t magic; size_t n; u8 used[32]; u8 mac[32]; int made; } surj;

static int bits(const surj *p) {
    int k = 0;
    for (size_t i = 0; i < p->n; i++) k += p->used[i/8] >> (i & 7) & 1;
    return k;
}
#define MAXSEEDS 64
static u8 seeds[MAXSEEDS][32]; static int nseeds;
/* seeds of the last surjection proofs, oldest first; how many there were since the last call */
API int shim_seeds(u8 *out) {
    int n = nseeds;
    nseeds = 0;
    if (n > MAXSEEDS) return -1;
    memcpy(out, seeds, 32 * n);
    return n;
}
API int secp256k1_surjectionproof_allocate_initialized(const void *c, surj **out, size_t *index,
        const u8 *tags, size_t n, size_t use, const u8 *otag, size_t max_iter, const u8 *seed) {
    surj *p; int iter;
    if (enter(F_SALLOC)) { *out = NULL; return 0; }
    ARG(c && out && index && tags && otag && seed);
    *out = NULL;
    ARG(n <= 256 && use <= n);
    memcpy(seeds[nseeds++ % MAXSEEDS], seed, 32);
    p = calloc(1, sizeof *p);
    p->magic = MAGIC; p->n = n;
    for (iter = 1; iter <= (int)max_iter; iter++) {
        int hit = 0; size_t k = 0; uint32_t ctr = 0;
        memset(p->used, 0, 32);
        while (k < use) {
            sha s; u8 h[32]; size_t i;
            init(&s, "select"); upd(&s, seed, 32); upd(&s, &iter, 4); upd(&s, &ctr, 4); fin(&s, h);
            ctr++;
            i = rd64(h) % n;
            if (p->used[i/8] >> (i & 7) & 1) continue;
            p->used[i/8] |= 1 << (i & 7); k++;
            if (!memcmp(tags + 32 * i, otag, 32)) { hit = 1; *index = i; }
        }
        if (hit) { *out = p; __atomic_fetch_add(&live, 1, __ATOMIC_SEQ_CST); return iter; }
    }
    free(p);
    return 0;
}
API void secp256k1_surjectionproof_destroy(surj *p) {
    enter(F_SDESTROY);
    if (!p) return;
    if (p->magic != MAGIC) { badfree++; return; }
    p->magic = 0;
    __atomic_fetch_sub(&live, 1, __ATOMIC_SEQ_CST);
    free(p);
}
static void surj_mac(u8 *o, const surj *p, const u8 *in, size_t n, const u8 *outg) {
    sha s; init(&s, "surjection"); upd(&s, &p->n, sizeof p->n); upd(&s, p->used, 32);
    upd(&s, in, 64 * n); upd(&s, outg, 64); fin(&s, o);
}
API int secp256k1_surjectionproof_generate(const void *c, surj *p, const u8 *in, size_t n,
        const u8 *outg, size_t index, const u8 *ib, const u8 *ob) {
    pt a, b, s; u8 d[32], t[64];
    if (enter(F_SGEN)) return 0;
    ARG(c && p && in && outg && ib && ob && p->magic == MAGIC);
    if (!scalar_ok(ib) || !scalar_ok(ob)) return 0;
    if (p->n != n || index >= n || !(p->used[index/8] >> (index & 7) & 1)) return 0;
    surj_mac(p->mac, p, in, n, outg);
    /* out = in + (ob - ib) G ? */
    memcpy(d, ib, 32);
    if (!zero32(d) && !secp256k1_ec_seckey_negate(C(), d)) abort();
    sadd(d, ob);
    if (!from_xy(&a, in + 64 * index) || !from_xy(&b, outg)) return 0;
    s = addp(a, mulg(d));
    if (s.inf) return 0;
    to_xy(t, &s);
    if (memcmp(t, outg, 64)) p->mac[0] ^= 1;
    p->made = 1;
    return 1;
}
API int secp256k1_surjectionproof_verify(const void *c, const surj *p, const u8 *in, size_t n,
                                         const u8 *outg) {
    u8 m[32];
    if (enter(F_SVERIFY)) return 0;
    ARG(c && p && in && outg && p->magic == MAGIC);
    if (p->n != n || !p->made || !bits(p)) return 0;
    surj_mac(m, p, in, n, outg);
    return !memcmp(m, p->mac, 32);
}
API int secp256k1_surjectionproof_serialized_size(const void *c, const surj *p) {
    if (enter(F_SSIZE)) return 0;
    ARG(c && p && p->magic == MAGIC);
    return 2 + (p->n + 7) / 8 + 32 * (1 + bits(p));
}
API int secp256k1_surjectionproof_serialize(const void *c, u8 *out, size_t *len, const surj *p) {
    size_t need;
    if (enter(F_SSER)) return 0;
    ARG(c && out && len && p && p->magic == MAGIC);
    need = 2 + (p->n + 7) / 8 + 32 * (1 + bits(p));
    if (*len < need) return 0;
    out[0] = p->n; out[1] = p->n >> 8;
    memcpy(out + 2, p->used, (p->n + 7) / 8);
    memset(out + 2 + (p->n + 7) / 8, 0, need - 2 - (p->n + 7) / 8);
    stream(out + 2 + (p->n + 7) / 8, need - 2 - (p->n + 7) / 8, "surj fill", p->mac, 32);
    memcpy(out + need - 32, p->mac, 32);
    *len = need;
    return 1;
}
/* check a serialized proof against the generators */
API int shim_surjection_check(const u8 *ser, size_t len, const u8 *in, size_t n, const u8 *outg) {
    surj p; size_t bl; u8 m[32];
    memset(&p, 0, sizeof p);
    if (len < 2) return 0;
    p.n = ser[0] | ser[1] << 8; bl = (p.n + 7) / 8;
    if (p.n > 256 || p.n != n || len < 2 + bl) return 0;
    memcpy(p.used, ser + 2, bl);
    if (len != 2 + bl + 32 * (1 + bits(&p)) || !bits(&p)) return 0;
    surj_mac(m, &p, in, n, outg);
    if (memcmp(m, ser + len - 32, 32)) return 0;
    {   /* the filler is part of the encoding */
        u8 *t = calloc(1, len); int ok;
        stream(t, len - 2 - bl, "surj fill", m, 32);
        ok = !memcmp(t, ser + 2 + bl, len - 2 - bl - 32);
        free(t);
        return ok;
    }
}
