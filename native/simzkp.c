/* simzkp: the simulated secp256k1-zkp library.
 *
 * secp256k1-zkp is not installed in the sandbox, so the confidential half of
 * python-elementstx cannot run at all.  This file re-implements, from the
 * published algorithms, the part of the secp256k1-zkp C ABI that
 * elementstx.core.secp256k1 binds (generators, Pedersen commitments, range
 * proofs with rewind, surjection proofs).  It is linked against the system
 * libsecp256k1, whose plain API stays reachable through the same dlopen handle.
 *
 * It is at the same time the native-call seam of the simulator:
 *   - every exported zkp function counts its calls,
 *   - sim_fail_at(fn, n) makes the n-th next call of that function report failure
 *     (return 0 without touching its outputs),
 *   - surjection proof allocations are tracked (double frees and leaks are counted).
 *
 * The code favours plainness over speed and is not constant time.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned __int128 u128;
typedef struct { uint64_t d[4]; } n256;      /* little endian limbs */

#define EXPORT __attribute__((visibility("default")))
#ifdef SIM_NO_ZKP          /* a plain libsecp256k1, without the zkp functions */
#define ZKP __attribute__((visibility("hidden"),unused))
#else
#define ZKP EXPORT
#endif

/* ------------------------------------------------------------------ sha256 */
typedef struct { uint32_t s[8]; uint8_t buf[64]; uint64_t bytes; } sha256_t;
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define ROR(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void sha_block(uint32_t *s, const uint8_t *p) {
    uint32_t w[64], a,b,c,d,e,f,g,h; int i;
    for (i=0;i<16;i++) w[i]=((uint32_t)p[4*i]<<24)|((uint32_t)p[4*i+1]<<16)|((uint32_t)p[4*i+2]<<8)|p[4*i+3];
    for (;i<64;i++) { uint32_t x=w[i-15],y=w[i-2];
        w[i]=w[i-16]+(ROR(x,7)^ROR(x,18)^(x>>3))+w[i-7]+(ROR(y,17)^ROR(y,19)^(y>>10)); }
    a=s[0];b=s[1];c=s[2];d=s[3];e=s[4];f=s[5];g=s[6];h=s[7];
    for (i=0;i<64;i++) {
        uint32_t t1=h+(ROR(e,6)^ROR(e,11)^ROR(e,25))+((e&f)^(~e&g))+K256[i]+w[i];
        uint32_t t2=(ROR(a,2)^ROR(a,13)^ROR(a,22))+((a&b)^(a&c)^(b&c));
        h=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;
    }
    s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e;s[5]+=f;s[6]+=g;s[7]+=h;
}
static void sha_init(sha256_t *h) {
    static const uint32_t iv[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(h->s,iv,32); h->bytes=0;
}
static void sha_write(sha256_t *h, const void *data, size_t len) {
    const uint8_t *p=data; size_t fill=h->bytes&63;
    h->bytes+=len;
    while (len) {
        size_t n=64-fill; if (n>len) n=len;
        memcpy(h->buf+fill,p,n); p+=n; len-=n; fill+=n;
        if (fill==64) { sha_block(h->s,h->buf); fill=0; }
    }
}
static void sha_fin(sha256_t *h, uint8_t *out) {
    uint8_t pad[72]={0x80}; uint64_t bits=h->bytes*8; size_t n=((h->bytes&63)<56?56:120)-(h->bytes&63); int i;
    for (i=0;i<8;i++) pad[n+i]=bits>>(56-8*i);
    sha_write(h,pad,n+8);
    for (i=0;i<8;i++) { out[4*i]=h->s[i]>>24; out[4*i+1]=h->s[i]>>16; out[4*i+2]=h->s[i]>>8; out[4*i+3]=h->s[i]; }
}
static void hmac(const uint8_t *key32, const uint8_t *m, size_t n, int extra, const uint8_t *m2, size_t n2, uint8_t *out) {
    uint8_t k[64]; sha256_t h; int i; uint8_t e=(uint8_t)extra;
    memset(k,0,64); memcpy(k,key32,32);
    for (i=0;i<64;i++) k[i]^=0x36;
    sha_init(&h); sha_write(&h,k,64); sha_write(&h,m,n);
    if (extra>=0) sha_write(&h,&e,1);
    if (n2) sha_write(&h,m2,n2);
    sha_fin(&h,out);
    for (i=0;i<64;i++) k[i]^=0x36^0x5c;
    sha_init(&h); sha_write(&h,k,64); sha_write(&h,out,32); sha_fin(&h,out);
}
typedef struct { uint8_t v[32], k[32]; int retry; } drbg;
static void drbg_init(drbg *r, const uint8_t *seed, size_t n) {
    memset(r->v,1,32); memset(r->k,0,32);
    hmac(r->k,r->v,32,0,seed,n,r->k); hmac(r->k,r->v,32,-1,0,0,r->v);
    hmac(r->k,r->v,32,1,seed,n,r->k); hmac(r->k,r->v,32,-1,0,0,r->v);
    r->retry=0;
}
static void drbg_gen(drbg *r, uint8_t *out) {
    if (r->retry) { hmac(r->k,r->v,32,0,0,0,r->k); hmac(r->k,r->v,32,-1,0,0,r->v); }
    hmac(r->k,r->v,32,-1,0,0,r->v);
    memcpy(out,r->v,32);
    r->retry=1;
}

/* ------------------------------------------------------------ 256-bit ints */
static const n256 P={{0xFFFFFFFEFFFFFC2FULL,~0ULL,~0ULL,~0ULL}};
static const n256 N={{0xBFD25E8CD0364141ULL,0xBAAEDCE6AF48A03BULL,0xFFFFFFFFFFFFFFFEULL,~0ULL}};
static const uint64_t NC[3]={0x402DA1732FC9BEBFULL,0x4551231950B75FC4ULL,1};   /* 2^256 - N */

static void rd(n256 *r, const uint8_t *b) { int i,j; for (i=0;i<4;i++) { uint64_t x=0; for (j=0;j<8;j++) x=(x<<8)|b[(3-i)*8+j]; r->d[i]=x; } }
static void wr(uint8_t *b, const n256 *a) { int i,j; for (i=0;i<4;i++) for (j=0;j<8;j++) b[(3-i)*8+j]=a->d[i]>>(56-8*j); }
static int cmp(const n256 *a, const n256 *b) { int i; for (i=3;i>=0;i--) if (a->d[i]!=b->d[i]) return a->d[i]<b->d[i]?-1:1; return 0; }
static int isz(const n256 *a) { return !(a->d[0]|a->d[1]|a->d[2]|a->d[3]); }
static uint64_t addr_(n256 *r, const n256 *a, const n256 *b) { u128 c=0; int i; for (i=0;i<4;i++) { c+=(u128)a->d[i]+b->d[i]; r->d[i]=(uint64_t)c; c>>=64; } return (uint64_t)c; }
static uint64_t subr_(n256 *r, const n256 *a, const n256 *b) { u128 t; uint64_t br=0; int i; for (i=0;i<4;i++) { t=(u128)a->d[i]-b->d[i]-br; r->d[i]=(uint64_t)t; br=(uint64_t)(t>>64)&1; } return br; }
static void addm(n256 *r, const n256 *a, const n256 *b, const n256 *m) { uint64_t c=addr_(r,a,b); if (c||cmp(r,m)>=0) subr_(r,r,m); }
static void subm(n256 *r, const n256 *a, const n256 *b, const n256 *m) { if (subr_(r,a,b)) addr_(r,r,m); }
static void mulw(uint64_t *t, const n256 *a, const n256 *b) {
    int i,j; memset(t,0,64);
    for (i=0;i<4;i++) { u128 c=0; for (j=0;j<4;j++) { c+=(u128)a->d[i]*b->d[j]+t[i+j]; t[i+j]=(uint64_t)c; c>>=64; } t[i+4]=(uint64_t)c; }
}
static void fmul(n256 *r, const n256 *a, const n256 *b) {
    uint64_t t[8]; u128 c=0; uint64_t hi; int i; const uint64_t K=0x1000003D1ULL;
    mulw(t,a,b);
    for (i=0;i<4;i++) { c+=(u128)t[i+4]*K+t[i]; r->d[i]=(uint64_t)c; c>>=64; }
    hi=(uint64_t)c;
    c=(u128)hi*K;
    for (i=0;i<4;i++) { c+=r->d[i]; r->d[i]=(uint64_t)c; c>>=64; }
    if (c) { c=K; for (i=0;i<4;i++) { c+=r->d[i]; r->d[i]=(uint64_t)c; c>>=64; } }
    if (cmp(r,&P)>=0) subr_(r,r,&P);
}
#define fsqr(r,a) fmul(r,a,a)
#define fadd(r,a,b) addm(r,a,b,&P)
#define fsub(r,a,b) subm(r,a,b,&P)
static void fneg(n256 *r, const n256 *a) { n256 z={{0,0,0,0}}; fsub(r,&z,a); }
static void fpow(n256 *r, const n256 *a, const n256 *e) {
    n256 x={{1,0,0,0}}, b=*a; int i;
    for (i=255;i>=0;i--) { fsqr(&x,&x); if ((e->d[i/64]>>(i%64))&1) fmul(&x,&x,&b); }
    *r=x;
}
static void finv(n256 *r, const n256 *a) { n256 e=P; e.d[0]-=2; fpow(r,a,&e); }
static int fsqrt(n256 *r, const n256 *a) {  /* exponent (p+1)/4 */
    static const n256 e={{0xFFFFFFFFBFFFFF0CULL,~0ULL,~0ULL,0x3FFFFFFFFFFFFFFFULL}};
    n256 t,s; fpow(&t,a,&e); fsqr(&s,&t); *r=t; return cmp(&s,a)==0;
}
static int fquad(const n256 *a) { n256 t; if (isz(a)) return 1; return fsqrt(&t,a); }
static int fset(n256 *r, const uint8_t *b) { rd(r,b); return cmp(r,&P)<0; }
static int sset(n256 *r, const uint8_t *b) { rd(r,b); if (cmp(r,&N)>=0) { subr_(r,r,&N); return 1; } return 0; }
static void smul(n256 *r, const n256 *a, const n256 *b) {
    uint64_t t[8]; int k;
    mulw(t,a,b);
    for (k=0;k<4;k++) {   /* t = lo + hi*NC, repeated until it fits 256 bits */
        uint64_t hi[4]={t[4],t[5],t[6],t[7]}, u[8]; int i,j;
        memset(u,0,sizeof u); memcpy(u,t,32);
        for (i=0;i<4;i++) { u128 c=0; for (j=0;j<3;j++) { if (i+j>7) break; c+=(u128)hi[i]*NC[j]+u[i+j]; u[i+j]=(uint64_t)c; c>>=64; }
            for (j=i+3;j<8&&c;j++) { c+=u[j]; u[j]=(uint64_t)c; c>>=64; } }
        memcpy(t,u,64);
    }
    memcpy(r->d,t,32);
    if (t[4]) { n256 nc={{NC[0],NC[1],NC[2],0}}; addr_(r,r,&nc); }
    while (cmp(r,&N)>=0) subr_(r,r,&N);
}
#define sadd(r,a,b) addm(r,a,b,&N)
static void sneg(n256 *r, const n256 *a) { n256 z={{0,0,0,0}}; subm(r,&z,a,&N); }
static void sinv(n256 *r, const n256 *a) {
    n256 e=N, x={{1,0,0,0}}, b=*a; int i; e.d[0]-=2;
    for (i=255;i>=0;i--) { smul(&x,&x,&x); if ((e.d[i/64]>>(i%64))&1) smul(&x,&x,&b); }
    *r=x;
}

/* ------------------------------------------------------------------- group */
typedef struct { n256 x,y; int inf; } ge;
typedef struct { n256 x,y,z; int inf; } gej;
static const ge G={{{0x59F2815B16F81798ULL,0x029BFCDB2DCE28D9ULL,0x55A06295CE870B07ULL,0x79BE667EF9DCBBACULL}},
                   {{0x9C47D08FFB10D4B8ULL,0xFD17B448A6855419ULL,0x5DA4FBFC0E1108A8ULL,0x483ADA7726A3C465ULL}},0};
static void j_set(gej *r, const ge *a) { r->x=a->x; r->y=a->y; memset(&r->z,0,32); r->z.d[0]=1; r->inf=a->inf; }
static void j_inf(gej *r) { memset(r,0,sizeof *r); r->inf=1; }
static void j_neg(gej *r, const gej *a) { *r=*a; fneg(&r->y,&a->y); }
static void j_dbl(gej *r, const gej *a) {
    n256 A,B,C,D,E,F,t;
    if (a->inf) { *r=*a; return; }
    fsqr(&A,&a->x); fsqr(&B,&a->y); fsqr(&C,&B);
    fadd(&D,&a->x,&B); fsqr(&D,&D); fsub(&D,&D,&A); fsub(&D,&D,&C); fadd(&D,&D,&D);
    fadd(&E,&A,&A); fadd(&E,&E,&A); fsqr(&F,&E);
    fmul(&t,&a->y,&a->z); fadd(&t,&t,&t);
    fsub(&r->x,&F,&D); fsub(&r->x,&r->x,&D);
    fsub(&D,&D,&r->x); fmul(&E,&E,&D);
    fadd(&C,&C,&C); fadd(&C,&C,&C); fadd(&C,&C,&C);
    fsub(&r->y,&E,&C); r->z=t; r->inf=0;
}
static void j_add(gej *r, const gej *a, const gej *b) {
    n256 z1,z2,u1,u2,s1,s2,h,i,hh,v,t; gej o;
    if (a->inf) { *r=*b; return; }
    if (b->inf) { *r=*a; return; }
    fsqr(&z1,&a->z); fsqr(&z2,&b->z);
    fmul(&u1,&a->x,&z2); fmul(&u2,&b->x,&z1);
    fmul(&s1,&a->y,&z2); fmul(&s1,&s1,&b->z);
    fmul(&s2,&b->y,&z1); fmul(&s2,&s2,&a->z);
    fsub(&h,&u2,&u1); fsub(&i,&s2,&s1);
    if (isz(&h)) { if (isz(&i)) { j_dbl(r,a); } else j_inf(r); return; }
    fsqr(&hh,&h); fmul(&v,&u1,&hh); fmul(&hh,&hh,&h);
    fmul(&o.z,&a->z,&b->z); fmul(&o.z,&o.z,&h);
    fsqr(&o.x,&i); fsub(&o.x,&o.x,&hh); fsub(&o.x,&o.x,&v); fsub(&o.x,&o.x,&v);
    fsub(&t,&v,&o.x); fmul(&o.y,&i,&t); fmul(&t,&s1,&hh); fsub(&o.y,&o.y,&t);
    o.inf=0; *r=o;
}
static void j_addge(gej *r, const gej *a, const ge *b) { gej t; j_set(&t,b); j_add(r,a,&t); }
static void j_toge(ge *r, const gej *a) {
    n256 zi,z2;
    if (a->inf) { memset(r,0,sizeof *r); r->inf=1; return; }
    finv(&zi,&a->z); fsqr(&z2,&zi); fmul(&r->x,&a->x,&z2); fmul(&z2,&z2,&zi); fmul(&r->y,&a->y,&z2); r->inf=0;
}
/* r = k*a */
static void j_mul(gej *r, const gej *a, const n256 *k) {
    gej t[16]; int i; gej acc;
    j_inf(&t[0]); t[1]=*a;
    for (i=2;i<16;i++) j_add(&t[i],&t[i-1],a);
    j_inf(&acc);
    for (i=63;i>=0;i--) {
        int w=(k->d[i/16]>>((i%16)*4))&15;
        if (!acc.inf) { j_dbl(&acc,&acc); j_dbl(&acc,&acc); j_dbl(&acc,&acc); j_dbl(&acc,&acc); }
        if (w) j_add(&acc,&acc,&t[w]);
    }
    *r=acc;
}
static gej gtab[64][16];
__attribute__((constructor)) static void gtab_init(void) {
    gej b; int i,j; j_set(&b,&G);
    for (i=0;i<64;i++) { j_inf(&gtab[i][0]); for (j=1;j<16;j++) j_add(&gtab[i][j],&gtab[i][j-1],&b); j_dbl(&b,&b);j_dbl(&b,&b);j_dbl(&b,&b);j_dbl(&b,&b); }
}
static void j_gen(gej *r, const n256 *k) {
    int i; gej acc; j_inf(&acc);
    for (i=0;i<64;i++) { int w=(k->d[i/16]>>((i%16)*4))&15; if (w) j_add(&acc,&acc,&gtab[i][w]); }
    *r=acc;
}
/* r = na*a + ng*G */
static void ecmult(gej *r, const gej *a, const n256 *na, const n256 *ng) { gej t,u; j_mul(&t,a,na); j_gen(&u,ng); j_add(r,&t,&u); }
static void pecmult(gej *r, const n256 *sec, uint64_t v, const ge *gen) { n256 k={{v,0,0,0}}; gej g; j_set(&g,gen); ecmult(r,&g,&k,sec); }
static void ser_pub(uint8_t *o, const gej *a) { ge t; j_toge(&t,a); o[0]=2+(t.y.d[0]&1); wr(o+1,&t.x); }
static void ser_quad(uint8_t *o, const ge *a) { o[0]=!fquad(&a->y); wr(o+1,&a->x); }
static int set_xquad(ge *r, const n256 *x) {
    n256 t,seven={{7,0,0,0}}; fsqr(&t,x); fmul(&t,&t,x); fadd(&t,&t,&seven); r->x=*x; r->inf=0; return fsqrt(&r->y,&t);
}

/* ------------------------------------------------- the simulator's control */
enum { F_INFO, F_GPARSE, F_GGEN, F_GGENB, F_GSER, F_PCOMMIT, F_PSER, F_PPARSE, F_BSUM, F_RSIGN, F_RREWIND,
       F_SALLOC, F_SDESTROY, F_SGEN, F_SVERIFY, F_SSIZE, F_SSER, F_CTXNEW, F_CTXRAND, F_COUNT };
static const char *fnames[F_COUNT]={
 "rangeproof_info","generator_parse","generator_generate","generator_generate_blinded","generator_serialize",
 "pedersen_commit","pedersen_commitment_serialize","pedersen_commitment_parse","pedersen_blind_generator_blind_sum",
 "rangeproof_sign","rangeproof_rewind","surjectionproof_allocate_initialized","surjectionproof_destroy",
 "surjectionproof_generate","surjectionproof_verify","surjectionproof_serialized_size","surjectionproof_serialize",
 "context_create","context_randomize"};
static uint64_t calls[F_COUNT], fired[F_COUNT]; static int64_t fail_in[F_COUNT];   /* <0: off */
static uint64_t bad_args;      /* calls whose context pointer was not one we know / was NULL */
#define MAXLIVE 4096
static void *live[MAXLIVE]; static int nlive; static uint64_t bad_free;
static void sim_bad_ctx_reset(void); static int fail_style;
EXPORT void sim_reset(void) { int i; for (i=0;i<F_COUNT;i++) { calls[i]=fired[i]=0; fail_in[i]=-1; } bad_free=0; bad_args=0; fail_style=0; sim_bad_ctx_reset(); for (i=0;i<nlive;i++) free(live[i]); nlive=0; }
EXPORT int sim_nfuncs(void) { return F_COUNT; }
EXPORT const char *sim_fname(int i) { return fnames[i]; }
EXPORT uint64_t sim_calls(int i) { return calls[i]; }
EXPORT uint64_t sim_fired(int i) { return fired[i]; }
EXPORT void sim_fail_at(int i, int64_t n) { fail_in[i]=n; }
static int fail_style; static __thread int late;   /* 1: a failing function has filled its outputs already */
EXPORT void sim_fail_style(int v) { fail_style=v; }
EXPORT int sim_live_proofs(void) { return nlive; }
EXPORT uint64_t sim_bad_frees(void) { return bad_free; }
EXPORT uint64_t sim_bad_args(void) { return bad_args; }
/* contexts made through this library, with the capabilities they were made for */
#define MAXCTX 256
static struct { void *p; unsigned flags; int seeded; } ctxs[MAXCTX]; static int nctx;
static uint64_t bad_ctx;      /* zkp calls on a context that is unknown, not randomised, or lacks sign/verify */
static void sim_bad_ctx_reset(void) { bad_ctx=0; }
EXPORT uint64_t sim_bad_ctx(void) { return bad_ctx; }
EXPORT int sim_nctx(void) { return nctx; }
EXPORT int sim_ctx_ready(const void *p) { int i; for (i=0;i<nctx;i++) if (ctxs[i].p==p) return ctxs[i].seeded?(int)(ctxs[i].flags&0x300):0; return -1; }
static int fails(int f) {
    calls[f]++;
    if (fail_in[f]==0) { fail_in[f]=-1; fired[f]++; return 1; }
    if (fail_in[f]>0) fail_in[f]--;
    return 0;
}
EXPORT void *secp256k1_context_create(unsigned flags) {
    static void *(*real)(unsigned); void *r;
    if (!real) *(void**)&real=dlsym(RTLD_NEXT,"secp256k1_context_create");
    if (fails(F_CTXNEW)) return NULL;
    r=real(flags);
    if (r&&nctx<MAXCTX) { ctxs[nctx].p=r; ctxs[nctx].flags=flags; ctxs[nctx].seeded=0; nctx++; }
    return r;
}
EXPORT int secp256k1_context_randomize(void *ctx, const unsigned char *seed) {
    static int (*real)(void*,const unsigned char*); int i,r;
    if (!real) *(void**)&real=dlsym(RTLD_NEXT,"secp256k1_context_randomize");
    if (fails(F_CTXRAND)) return 0;
    r=real(ctx,seed);
    for (i=0;i<nctx;i++) if (ctxs[i].p==ctx&&r&&seed) ctxs[i].seeded=1;
    return r;
}
__attribute__((unused)) static int enter(int f, const void *ctx) {
    calls[f]++;
    if (!ctx) bad_args++;
    if (sim_ctx_ready(ctx)!=0x300) bad_ctx++;
    late=0;
    if (fail_in[f]==0) { fail_in[f]=-1; fired[f]++; if (fail_style&&f!=F_SALLOC) { late=1; return 1; } return 0; }
    if (fail_in[f]>0) fail_in[f]--;
    return 1;
}
__attribute__((constructor)) static void ctl_init(void) { int i; for (i=0;i<F_COUNT;i++) fail_in[i]=-1; }

/* -------------------------------------------------------------- generators */
static void svdw(ge *r, const n256 *t) {
    static const n256 c={{0x7d8d27ae1cd5f852ULL,0xc61f6d15da14ecd4ULL,0x233770c2a797962cULL,0x0a2d2ba93507f1dfULL}};
    static const n256 d={{0x3ec693d68e6afa40ULL,0x630fb68aed0a766aULL,0x919bb86153cbcb16ULL,0x851695d49a83f8efULL}};
    n256 one={{1,0,0,0}}, eight={{8,0,0,0}}, seven={{7,0,0,0}}, w,wd,x1,x2,x3,x,y,v; int k;
    fmul(&w,&c,t); fsqr(&wd,t); fadd(&wd,&wd,&eight); finv(&v,&wd); fmul(&w,&w,&v);
    fmul(&x1,t,&w); fsub(&x1,&d,&x1);
    fadd(&x2,&x1,&one); fneg(&x2,&x2);
    if (isz(&w)) x3=one; else { fsqr(&x3,&w); finv(&x3,&x3); fadd(&x3,&x3,&one); }
    for (k=0;k<3;k++) {
        x=k==0?x1:k==1?x2:x3;
        fsqr(&v,&x); fmul(&v,&v,&x); fadd(&v,&v,&seven);
        if (fsqrt(&y,&v)) break;
    }
    if (t->d[0]&1) fneg(&y,&y);
    r->x=x; r->y=y; r->inf=0;
}
static void gen_save(uint8_t *o, const ge *g) { wr(o,&g->x); wr(o+32,&g->y); }
/* like upstream: no check that the bytes are a point of the curve (a caller that goes on after a failed call gets no second chance here) */
static int gen_load(ge *g, const uint8_t *i) { rd(&g->x,i); rd(&g->y,i+32); g->inf=0; if (cmp(&g->x,&P)>=0) subr_(&g->x,&g->x,&P); if (cmp(&g->y,&P)>=0) subr_(&g->y,&g->y,&P); return 1; }
static int gen_make(uint8_t *out, const uint8_t *key, const uint8_t *blind) {
    gej acc; ge a; n256 t,b; sha256_t h; uint8_t d[32]; int k;
    j_inf(&acc);
    if (blind) { if (sset(&b,blind)) return 0; j_gen(&acc,&b); }
    for (k=0;k<2;k++) {
        sha_init(&h); sha_write(&h,k?"2nd generation: ":"1st generation: ",16); sha_write(&h,key,32); sha_fin(&h,d);
        if (!fset(&t,d)) return 0;
        svdw(&a,&t); j_addge(&acc,&acc,&a);
    }
    if (acc.inf) return 0;
    j_toge(&a,&acc); gen_save(out,&a);
    return 1;
}
ZKP int secp256k1_generator_generate(const void *ctx, uint8_t *gen, const uint8_t *key) { if (!enter(F_GGEN,ctx)) return 0; return gen_make(gen,key,0)&&!late; }
ZKP int secp256k1_generator_generate_blinded(const void *ctx, uint8_t *gen, const uint8_t *key, const uint8_t *blind) { if (!enter(F_GGENB,ctx)) return 0; return gen_make(gen,key,blind)&&!late; }
ZKP int secp256k1_generator_serialize(const void *ctx, uint8_t *out, const uint8_t *gen) {
    ge g; if (!enter(F_GSER,ctx)) return 0;
    gen_load(&g,gen); out[0]=11^fquad(&g.y); wr(out+1,&g.x); return !late;
}
ZKP int secp256k1_generator_parse(const void *ctx, uint8_t *gen, const uint8_t *in) {
    ge g; n256 x; if (!enter(F_GPARSE,ctx)) return 0;
    if ((in[0]&0xFE)!=10||!fset(&x,in+1)||!set_xquad(&g,&x)) return 0;
    if (in[0]&1) fneg(&g.y,&g.y);
    gen_save(gen,&g); return !late;
}

/* ---------------------------------------------------------------- pedersen */
static void com_save(uint8_t *o, const ge *g) { memset(o,0,64); o[0]=9^fquad(&g->y); wr(o+1,&g->x); }
static int com_load(ge *g, const uint8_t *in) { n256 x; if ((in[0]&0xFE)!=8||!fset(&x,in+1)||!set_xquad(g,&x)) return 0; if (in[0]&1) fneg(&g->y,&g->y); return 1; }
ZKP int secp256k1_pedersen_commit(const void *ctx, uint8_t *commit, const uint8_t *blind, uint64_t value, const uint8_t *gen) {
    ge g; gej r; n256 b;
    if (!enter(F_PCOMMIT,ctx)) return 0;
    if (!gen_load(&g,gen)||sset(&b,blind)) return 0;
    pecmult(&r,&b,value,&g);
    if (r.inf) return 0;
    j_toge(&g,&r); com_save(commit,&g); return !late;
}
ZKP int secp256k1_pedersen_commitment_serialize(const void *ctx, uint8_t *out, const uint8_t *commit) { if (!enter(F_PSER,ctx)) return 0; memcpy(out,commit,33); return !late; }
ZKP int secp256k1_pedersen_commitment_parse(const void *ctx, uint8_t *commit, const uint8_t *in) {
    ge g; if (!enter(F_PPARSE,ctx)) return 0;
    if (!com_load(&g,in)) return 0;
    com_save(commit,&g); return !late;
}
ZKP int secp256k1_pedersen_blind_generator_blind_sum(const void *ctx, const uint64_t *value, const uint8_t *const *gblind, uint8_t *const *blind, size_t ntot, size_t nin) {
    n256 sum={{0,0,0,0}}, a, t={{0,0,0,0}}; size_t i;
    if (!enter(F_BSUM,ctx)) return 0;
    if (!(ntot>nin)) return 0;
    for (i=0;i<ntot;i++) {
        n256 v={{value[i],0,0,0}};
        if (sset(&t,gblind[i])) return 0;
        smul(&a,&v,&t);
        if (sset(&t,blind[i])) return 0;
        sadd(&a,&a,&t);
        if (i<nin) sneg(&a,&a);
        sadd(&sum,&sum,&a);
    }
    sneg(&sum,&sum); sadd(&t,&t,&sum); wr(blind[ntot-1],&t);
    return !late;
}

/* --------------------------------------------------------------- borromean */
static void bhash(uint8_t *out, const uint8_t *m, const uint8_t *e, size_t elen, uint32_t ring, uint32_t pos) {
    sha256_t h; uint8_t b[8]; int i; for (i=0;i<4;i++) { b[i]=ring>>(24-8*i); b[4+i]=pos>>(24-8*i); }
    sha_init(&h); sha_write(&h,e,elen); sha_write(&h,m,32); sha_write(&h,b,8); sha_fin(&h,out);
}
static int bverify(n256 *ev, const uint8_t *e0, const n256 *s, const gej *pubs, const size_t *rs, size_t nr, const uint8_t *m) {
    sha256_t h; size_t i,j,c=0; uint8_t tmp[33], hh[32]; n256 en; int ov; gej r;
    sha_init(&h);
    for (i=0;i<nr;i++) {
        bhash(hh,m,e0,32,i,0); ov=sset(&en,hh);
        for (j=0;j<rs[i];j++) {
            if (ov||isz(&s[c])||isz(&en)||pubs[c].inf) return 0;
            if (ev) ev[c]=en;
            ecmult(&r,&pubs[c],&en,&s[c]);
            if (r.inf) return 0;
            ser_pub(tmp,&r);
            if (j!=rs[i]-1) { bhash(hh,m,tmp,33,i,j+1); ov=sset(&en,hh); } else sha_write(&h,tmp,33);
            c++;
        }
    }
    sha_write(&h,m,32); sha_fin(&h,hh);
    return memcmp(hh,e0,32)==0;
}
static int bsign(uint8_t *e0, n256 *s, const gej *pubs, const n256 *k, const n256 *sec, const size_t *rs, const size_t *si, size_t nr, const uint8_t *m) {
    sha256_t h; size_t i,j,c=0; uint8_t tmp[33],hh[32]; n256 en; gej r;
    sha_init(&h);
    for (i=0;i<nr;i++) {
        j_gen(&r,&k[i]); if (r.inf) return 0; ser_pub(tmp,&r);
        for (j=si[i]+1;j<rs[i];j++) {
            bhash(hh,m,tmp,33,i,j); if (sset(&en,hh)||isz(&en)) return 0;
            ecmult(&r,&pubs[c+j],&en,&s[c+j]); if (r.inf) return 0; ser_pub(tmp,&r);
        }
        sha_write(&h,tmp,33); c+=rs[i];
    }
    sha_write(&h,m,32); sha_fin(&h,e0);
    c=0;
    for (i=0;i<nr;i++) {
        bhash(hh,m,e0,32,i,0); if (sset(&en,hh)||isz(&en)) return 0;
        for (j=0;j<si[i];j++) {
            ecmult(&r,&pubs[c+j],&en,&s[c+j]); if (r.inf) return 0; ser_pub(tmp,&r);
            bhash(hh,m,tmp,33,i,j+1); if (sset(&en,hh)||isz(&en)) return 0;
        }
        smul(&s[c+j],&en,&sec[i]); sneg(&s[c+j],&s[c+j]); sadd(&s[c+j],&s[c+j],&k[i]);
        if (isz(&s[c+j])) return 0;
        c+=rs[i];
    }
    return 1;
}

/* -------------------------------------------------------------- rangeproof */
static int clz64(uint64_t x) { return x?__builtin_clzll(x):64; }
static void pub_expand(gej *pubs, int exp, const size_t *rs, size_t nr, const ge *gen) {
    gej b,t; size_t i,j,np=0; j_set(&b,gen); j_neg(&b,&b); if (exp<0) exp=0;
    while (exp--) { j_dbl(&t,&b); j_dbl(&b,&t); j_dbl(&b,&b); j_add(&b,&b,&t); }
    for (i=0;i<nr;i++) {
        for (j=1;j<rs[i];j++) j_add(&pubs[np+j],&pubs[np+j-1],&b);
        if (i<nr-1) { j_dbl(&b,&b); j_dbl(&b,&b); }
        np+=rs[i];
    }
}
static int genrand(n256 *sec, n256 *s, uint8_t *msg, const size_t *rs, size_t nr, const uint8_t *nonce, const ge *commit, const uint8_t *proof, size_t len, const ge *gen) {
    uint8_t seed[32+33+33+10], tmp[32]; drbg r; n256 acc={{0,0,0,0}}; int ov,ret=1,b; size_t i,j,np=0;
    memcpy(seed,nonce,32); ser_quad(seed+32,commit); ser_quad(seed+65,gen); memcpy(seed+98,proof,len);
    drbg_init(&r,seed,98+len);
    for (i=0;i<nr;i++) {
        if (i<nr-1) {
            drbg_gen(&r,tmp);
            do { drbg_gen(&r,tmp); ov=sset(&sec[i],tmp); } while (ov||isz(&sec[i]));
            sadd(&acc,&acc,&sec[i]);
        } else { sneg(&acc,&acc); sec[i]=acc; }
        for (j=0;j<rs[i];j++) {
            drbg_gen(&r,tmp);
            if (msg) for (b=0;b<32;b++) { tmp[b]^=msg[(i*4+j)*32+b]; msg[(i*4+j)*32+b]=tmp[b]; }
            ov=sset(&s[np],tmp); ret&=!(ov||isz(&s[np])); np++;
        }
    }
    return ret;
}
static int params(uint64_t *v, size_t *nr, size_t *rs, size_t *np, size_t *si, uint64_t *minv, int *man, uint64_t *scale, int *exp, int *minb, uint64_t value) {
    size_t i; *nr=1; rs[0]=1; si[0]=0; *scale=1; *man=0; *np=0;
    if (*minv==UINT64_MAX) *exp=-1;
    if (*exp>=0) {
        int maxb; uint64_t v2;
        if ((*minv&&value>INT64_MAX)||(value&&*minv>=INT64_MAX)) return 0;
        maxb=*minv?clz64(*minv):64;
        if (*minb>maxb) *minb=maxb;
        if (*minb>61||value>INT64_MAX) *exp=0;
        *v=value-*minv;
        v2=*minb?(UINT64_MAX>>(64-*minb)):0;
        for (i=0;(int)i<*exp&&v2<=UINT64_MAX/10;i++) { *v/=10; v2*=10; }
        *exp=i;
        v2=*v;
        for (i=0;(int)i<*exp;i++) { v2*=10; *scale*=10; }
        *minv=value-v2;
        *man=*v?64-clz64(*v):1;
        if (*minb>*man) *man=*minb;
        *nr=(*man+1)>>1;
        for (i=0;i<*nr;i++) { rs[i]=((i<*nr-1)|(!(*man&1)))?4:2; *np+=rs[i]; si[i]=(*v>>(i*2))&3; }
    } else { *exp=0; *minv=value; *v=0; *np=2; }
    return 1;
}
ZKP int secp256k1_rangeproof_sign(const void *ctx, uint8_t *proof, size_t *plen, uint64_t minv, const uint8_t *commit_, const uint8_t *blind, const uint8_t *nonce,
    int exp, int minb, uint64_t value, const uint8_t *msg, size_t mlen, const uint8_t *extra, size_t elen, const uint8_t *gen_) {
    gej pubs[128]; n256 s[128],sec[32],k[32],st; sha256_t h; uint8_t prep[4096],tmp[33],*signs; uint64_t v,scale; int man; size_t nr,rs[32],si[32],np,len=0,i; ge commit,gen;
    if (!enter(F_RSIGN,ctx)) return 0;
    if (!gen_load(&gen,gen_)||!com_load(&commit,commit_)) return 0;
    if (*plen<65||minv>value||minb>64||minb<0||exp<-1||exp>18) return 0;
    if (!params(&v,&nr,rs,&np,si,&minv,&man,&scale,&exp,&minb,value)) return 0;
    proof[len++]=(rs[0]>1?(64|exp):0)|(minv?32:0);
    if (rs[0]>1) proof[len++]=man-1;
    if (minv) { for (i=0;i<8;i++) proof[len+i]=minv>>((7-i)*8); len+=8; }
    if (mlen>0&&mlen>128*(nr-1)) return 0;
    if (*plen-len<32*(np+nr-1)+32+((nr+6)>>3)) return 0;
    sha_init(&h); ser_quad(tmp,&commit); sha_write(&h,tmp,33); ser_quad(tmp,&gen); sha_write(&h,tmp,33); sha_write(&h,proof,len);
    memset(prep,0,sizeof prep);
    if (msg) memcpy(prep,msg,mlen);
    if (rs[nr-1]>1) {
        size_t x=rs[nr-1]-1; x-=si[nr-1]==x; x=((nr-1)*4+x)*32;
        for (i=0;i<8;i++) { prep[8+i+x]=prep[16+i+x]=prep[24+i+x]=v>>(56-i*8); prep[i+x]=0; }
        prep[x]=128;
    }
    if (!genrand(sec,s,prep,rs,nr,nonce,&commit,proof,len,&gen)) return 0;
    for (i=0;i<nr;i++) { k[i]=s[i*4+si[i]]; memset(&s[i*4+si[i]],0,32); }
    { int ov=sset(&st,blind); sadd(&sec[nr-1],&sec[nr-1],&st); if (ov||isz(&sec[nr-1])) return 0; }
    signs=&proof[len];
    for (i=0;i<(nr+6)>>3;i++) { signs[i]=0; len++; }
    np=0;
    for (i=0;i<nr;i++) {
        pecmult(&pubs[np],&sec[i],((uint64_t)si[i]*scale)<<(i*2),&gen);
        if (pubs[np].inf) return 0;
        if (i<nr-1) { ge c; j_toge(&c,&pubs[np]); ser_quad(tmp,&c); sha_write(&h,tmp,33); signs[i>>3]|=tmp[0]<<(i&7); memcpy(&proof[len],tmp+1,32); len+=32; }
        np+=rs[i];
    }
    pub_expand(pubs,exp,rs,nr,&gen);
    if (extra) sha_write(&h,extra,elen);
    sha_fin(&h,tmp);
    if (!bsign(&proof[len],s,pubs,k,sec,rs,si,nr,tmp)) return 0;
    len+=32;
    for (i=0;i<np;i++) { wr(&proof[len],&s[i]); len+=32; }
    *plen=len;
    return !late;
}
static int header(size_t *off, int *exp, int *man, uint64_t *scale, uint64_t *minv, uint64_t *maxv, const uint8_t *proof, size_t plen) {
    int i,hasmin;
    if (plen<65||(proof[*off]&128)) return 0;
    hasmin=proof[*off]&32; *exp=-1; *man=0;
    if (proof[*off]&64) {
        *exp=proof[*off]&31; *off+=1; if (*exp>18) return 0;
        *man=proof[*off]+1; if (*man>64) return 0;
        *maxv=UINT64_MAX>>(64-*man);
    } else *maxv=0;
    *off+=1; *scale=1;
    for (i=0;i<*exp;i++) { if (*maxv>UINT64_MAX/10) return 0; *maxv*=10; *scale*=10; }
    *minv=0;
    if (hasmin) { if (plen-*off<8) return 0; for (i=0;i<8;i++) *minv=(*minv<<8)|proof[*off+i]; *off+=8; }
    if (*maxv>UINT64_MAX-*minv) return 0;
    *maxv+=*minv;
    return 1;
}
ZKP int secp256k1_rangeproof_info(const void *ctx, int *exp, int *man, uint64_t *minv, uint64_t *maxv, const uint8_t *proof, size_t plen) {
    size_t off=0; uint64_t scale; if (!enter(F_INFO,ctx)) return 0;
    *exp=0; *man=0; *minv=0; *maxv=0;
    return header(&off,exp,man,&scale,minv,maxv,proof,plen);
}
static void xor32(uint8_t *x, const uint8_t *y) { int i; for (i=0;i<32;i++) x[i]^=y[i]; }
static int rewind_inner(n256 *blind, uint64_t *v, uint8_t *m, size_t *mlen, const n256 *ev, const n256 *s, const size_t *rs, size_t nr, const uint8_t *nonce, const ge *commit, const uint8_t *proof, size_t len, const ge *gen) {
    n256 so[128],sec[32],st,t; uint8_t prep[4096],tmp[32]; uint64_t value=0; size_t off,i,j,skip1,skip2,np; int b;
    memset(prep,0,sizeof prep);
    genrand(sec,so,prep,rs,nr,nonce,commit,proof,len,gen);
    *v=UINT64_MAX; memset(blind,0,32);
    if (nr==1&&rs[0]==1) {
        sneg(blind,&s[0]); sadd(blind,blind,&so[0]); sinv(&t,&ev[0]); smul(blind,blind,&t);
        *v=0; *mlen=0; return 1;
    }
    np=(nr-1)<<2;
    for (j=0;j<2;j++) {
        size_t x=np+rs[nr-1]-1-j;
        wr(tmp,&s[x]); xor32(tmp,&prep[x*32]);
        if ((tmp[0]&128)&&!memcmp(&tmp[16],&tmp[24],8)&&!memcmp(&tmp[8],&tmp[16],8)) {
            for (i=0;i<8;i++) value=(value<<8)+tmp[24+i];
            *v=value; memcpy(&prep[x*32],tmp,32); break;
        }
    }
    if (j>1) { *mlen=0; return 0; }
    skip1=rs[nr-1]-1-j; skip2=(value>>((nr-1)<<1))&3;
    if (skip1==skip2) { *mlen=0; return 0; }
    if (skip2>=rs[nr-1]) { *mlen=0; return 0; }
    skip1+=(nr-1)<<2; skip2+=(nr-1)<<2;
    sneg(&st,&s[skip2]); sadd(&st,&st,&so[skip2]); sinv(&t,&ev[skip2]); smul(&st,&st,&t);
    sneg(&sec[nr-1],&sec[nr-1]); sadd(blind,&st,&sec[nr-1]);
    if (!m||!*mlen) { *mlen=0; return 1; }
    off=0; np=0;
    for (i=0;i<nr;i++) {
        size_t x=(value>>(i<<1))&3;
        for (j=0;j<rs[i];j++) {
            if (np==skip1||np==skip2) { np++; continue; }
            if (x==j) { smul(&st,&sec[i],&ev[np]); sadd(&st,&st,&s[np]); } else st=s[np];
            wr(tmp,&st); xor32(tmp,&prep[np*32]);
            for (b=0;b<32&&off<*mlen;b++) m[off++]=tmp[b];
            np++;
        }
    }
    *mlen=off;
    return 1;
}
static int rverify(uint8_t *bout, uint64_t *vout, uint8_t *mout, size_t *mlen, const uint8_t *nonce, uint64_t *minv, uint64_t *maxv, const uint8_t *commit_, const uint8_t *proof, size_t plen, const uint8_t *extra, size_t elen, const uint8_t *gen_) {
    ge commit,gen,c; gej pubs[128],acc; n256 s[128],ev[128],fe; size_t rs[32],nr,np,i,off=0,post; int exp,man; uint64_t scale; uint8_t signs[31],m[33]; sha256_t h;
    if (!gen_load(&gen,gen_)||!com_load(&commit,commit_)) return 0;
    if (!header(&off,&exp,&man,&scale,minv,maxv,proof,plen)) return 0;
    post=off; nr=1; rs[0]=1; np=1;
    if (man) { nr=man>>1; for (i=0;i<nr;i++) rs[i]=4; np=(man>>1)<<2; if (man&1) { rs[nr]=2; np+=2; nr++; } }
    if (plen-off<32*(np+nr-1)+32+((nr+6)>>3)) return 0;
    sha_init(&h); ser_quad(m,&commit); sha_write(&h,m,33); ser_quad(m,&gen); sha_write(&h,m,33); sha_write(&h,proof,off);
    for (i=0;i<nr-1;i++) signs[i]=(proof[off+(i>>3)]>>(i&7))&1;
    off+=(nr+6)>>3;
    if ((nr-1)&7) if ((proof[off-1]>>((nr-1)&7))!=0) return 0;
    np=0; j_inf(&acc);
    if (*minv) { n256 kk={{*minv,0,0,0}}; gej gg; j_set(&gg,&gen); j_mul(&acc,&gg,&kk); }
    for (i=0;i<nr-1;i++) {
        if (!fset(&fe,&proof[off])||!set_xquad(&c,&fe)) return 0;
        if (signs[i]) fneg(&c.y,&c.y);
        sha_write(&h,&signs[i],1); sha_write(&h,&proof[off],32);
        j_set(&pubs[np],&c); j_addge(&acc,&acc,&c); off+=32; np+=rs[i];
    }
    if (!acc.inf) j_neg(&acc,&acc);
    j_addge(&pubs[np],&acc,&commit);
    if (pubs[np].inf) return 0;
    pub_expand(pubs,exp,rs,nr,&gen);
    np+=rs[nr-1];
    { const uint8_t *e0=&proof[off]; off+=32;
      for (i=0;i<np;i++) { if (sset(&s[i],&proof[off])) return 0; off+=32; }
      if (off!=plen) return 0;
      if (extra) sha_write(&h,extra,elen);
      sha_fin(&h,m);
      if (!bverify(ev,e0,s,pubs,rs,nr,m)) return 0; }
    if (nonce) {
        n256 bl; uint64_t vv;
        if (!rewind_inner(&bl,&vv,mout,mlen,ev,s,rs,nr,nonce,&commit,proof,post,&gen)) return 0;
        vv=vv*scale+*minv;
        pecmult(&acc,&bl,vv,&gen);
        if (acc.inf) return 0;
        j_neg(&acc,&acc); j_addge(&acc,&acc,&commit);
        if (!acc.inf) return 0;
        wr(bout,&bl); *vout=vv;
    }
    return 1;
}
ZKP int secp256k1_rangeproof_rewind(const void *ctx, uint8_t *bout, uint64_t *vout, uint8_t *mout, size_t *mlen, const uint8_t *nonce, uint64_t *minv, uint64_t *maxv,
    const uint8_t *commit, const uint8_t *proof, size_t plen, const uint8_t *extra, size_t elen, const uint8_t *gen) {
    if (!enter(F_RREWIND,ctx)) return 0;
    return rverify(bout,vout,mout,mlen,nonce,minv,maxv,commit,proof,plen,extra,elen,gen)&&!late;
}

/* -------------------------------------------------------------- surjection */
typedef struct { size_t n; uint8_t used[32]; uint8_t data[32*257]; } sproof;
static size_t used_n(const sproof *p) { size_t i,c=0; for (i=0;i<32;i++) c+=__builtin_popcount(p->used[i]); return c; }
typedef struct { uint8_t st[32]; size_t i; } csprng;
static size_t cs_next(csprng *r, size_t max) {
    size_t inc=max>256?2:1, range=max>256?0xffff:0xff, limit=((range+1)/max)*max;
    for (;;) { size_t v;
        if (r->i+inc>=32) { sha256_t h; sha_init(&h); sha_write(&h,r->st,32); sha_fin(&h,r->st); r->i=0; }
        v=r->st[r->i]; if (inc>1) v=(v<<8)+r->st[r->i+1];
        r->i+=inc;
        if (v<limit) return v%max; }
}
ZKP int secp256k1_surjectionproof_allocate_initialized(const void *ctx, sproof **out, size_t *idx, const uint8_t *tags, size_t n, size_t use, const uint8_t *otag, size_t maxit, const uint8_t *seed) {
    sproof *p; csprng r; size_t it=0;
    *out=NULL;
    if (!enter(F_SALLOC,ctx)) return 0;
    if (n>256||use>256||use>n||use==0) return 0;
    p=calloc(1,sizeof *p); if (!p) return 0;
    memcpy(r.st,seed,32); r.i=0; p->n=n;
    for (;;) {
        int has=0; size_t i;
        memset(p->used,0,32);
        for (i=0;i<use;i++) for (;;) {
            size_t x=cs_next(&r,n);
            if (!memcmp(tags+32*x,otag,32)) { *idx=x; has=1; }
            if (!((p->used[x/8]>>(x%8))&1)) { p->used[x/8]|=1<<(x%8); break; }
        }
        it++;
        if (has) { *out=p; if (nlive<MAXLIVE) live[nlive++]=p; return (int)it; }
        if (it>=maxit) { free(p); return 0; }
    }
}
static int is_live(const void *p) { int i; for (i=0;i<nlive;i++) if (live[i]==p) return 1; return 0; }
ZKP void secp256k1_surjectionproof_destroy(sproof *p) {
    int i; calls[F_SDESTROY]++;
    if (!p) return;
    for (i=0;i<nlive;i++) if (live[i]==p) { live[i]=live[--nlive]; free(p); return; }
    bad_free++;
}
static void s_msg(uint8_t *out, const uint8_t *in, size_t n, const uint8_t *o) {
    sha256_t h; size_t i; uint8_t b[33]; sha_init(&h);
    for (i=0;i<=n;i++) { const uint8_t *g=i<n?in+64*i:o; b[0]=2+(g[63]&1); memcpy(b+1,g,32); sha_write(&h,b,33); }
    sha_fin(&h,out);
}
static int s_pubs(gej *pubs, const sproof *p, const uint8_t *in, const uint8_t *o, size_t idx, size_t *ring) {
    size_t i,j=0; ge g,og; if (!gen_load(&og,o)) return 0;
    for (i=0;i<p->n;i++) if ((p->used[i/8]>>(i%8))&1) {
        if (!gen_load(&g,in+64*i)) return 0;
        fneg(&g.y,&g.y); j_set(&pubs[j],&g); j_addge(&pubs[j],&pubs[j],&og);
        if (ring&&i==idx) *ring=j;
        j++;
    }
    return 1;
}
ZKP int secp256k1_surjectionproof_generate(const void *ctx, sproof *p, const uint8_t *in, size_t n, const uint8_t *o, size_t idx, const uint8_t *ib, const uint8_t *ob) {
    n256 t,b,s[256],nonce; gej pubs[256]; size_t used,i,ring=0; uint8_t msg[32],si[36]; size_t rs[1],ix[1]; sha256_t h;
    if (!enter(F_SGEN,ctx)) return 0;
    if (!is_live(p)) { bad_args++; return 0; }
    if (sset(&t,ib)||sset(&b,ob)) return 0;
    if (cmp(&t,&b)==0&&!isz(&b)) return 0;
    sneg(&t,&t); sadd(&b,&b,&t);
    used=used_n(p);
    if (used>p->n||p->n!=n) return 0;
    if (!s_pubs(pubs,p,in,o,idx,&ring)) return 0;
    rs[0]=used; ix[0]=ring; s_msg(msg,in,n,o);
    wr(si+4,&b);
    for (i=0;i<used;i++) { si[0]=i; si[1]=i>>8; si[2]=i>>16; si[3]=i>>24; sha_init(&h); sha_write(&h,si,36); sha_fin(&h,si); if (sset(&s[i],si)) return 0; }
    nonce=s[ring]; memset(&s[ring],0,32);
    if (!bsign(p->data,s,pubs,&nonce,&b,rs,ix,1,msg)) return 0;
    for (i=0;i<used;i++) wr(&p->data[32+32*i],&s[i]);
    return !late;
}
static int s_verify(const sproof *p, const uint8_t *in, size_t n, const uint8_t *o) {
    n256 s[256]; gej pubs[256]; size_t used=used_n(p),i; uint8_t msg[32]; size_t rs[1];
    if (used==0||used>p->n||p->n!=n) return 0;
    if (!s_pubs(pubs,p,in,o,0,NULL)) return 0;
    for (i=0;i<used;i++) if (sset(&s[i],&p->data[32+32*i])) return 0;
    rs[0]=used; s_msg(msg,in,n,o);
    return bverify(NULL,p->data,s,pubs,rs,1,msg);
}
ZKP int secp256k1_surjectionproof_verify(const void *ctx, const sproof *p, const uint8_t *in, size_t n, const uint8_t *o) {
    if (!enter(F_SVERIFY,ctx)) return 0;
    if (!is_live(p)) { bad_args++; return 0; }
    return s_verify(p,in,n,o)&&!late;
}
ZKP size_t secp256k1_surjectionproof_serialized_size(const void *ctx, const sproof *p) { enter(F_SSIZE,ctx); if (!is_live(p)) { bad_args++; return 0; } return 2+(p->n+7)/8+32*(1+used_n(p)); }
ZKP int secp256k1_surjectionproof_serialize(const void *ctx, uint8_t *out, size_t *olen, const sproof *p) {
    size_t bm,sl;
    if (!enter(F_SSER,ctx)) return 0;
    if (!is_live(p)) { bad_args++; return 0; }
    bm=(p->n+7)/8; sl=32*(1+used_n(p));
    if (*olen<2+bm+sl) return 0;
    out[0]=p->n%256; out[1]=p->n/256; memcpy(out+2,p->used,bm); memcpy(out+2+bm,p->data,sl); *olen=2+bm+sl;
    return !late;
}

/* ------------------------------------ the simulated node's own verification
 * Not part of the secp256k1-zkp ABI and never subject to injected faults. */
EXPORT int node_rangeproof_verify(uint64_t *minv, uint64_t *maxv, const uint8_t *commit33, const uint8_t *proof, size_t plen, const uint8_t *extra, size_t elen, const uint8_t *gen33) {
    uint8_t g64[64],c64[64]; ge g; n256 x;
    if ((gen33[0]&0xFE)!=10||!fset(&x,gen33+1)||!set_xquad(&g,&x)) return 0;
    if (gen33[0]&1) fneg(&g.y,&g.y);
    gen_save(g64,&g);
    if (!com_load(&g,commit33)) return 0;
    com_save(c64,&g);
    return rverify(NULL,NULL,NULL,NULL,NULL,minv,maxv,c64,proof,plen,elen?extra:NULL,elen,g64);
}
static int parse33(ge *g, const uint8_t *in, int base) { n256 x; if ((in[0]&0xFE)!=base||!fset(&x,in+1)||!set_xquad(g,&x)) return 0; if (in[0]&1) fneg(&g->y,&g->y); return 1; }
EXPORT int node_surjection_verify(const uint8_t *ser, size_t len, const uint8_t *in33, size_t n, const uint8_t *out33) {
    static __thread sproof p; size_t bm,i; uint8_t *g,o64[64]; ge t; int r;
    memset(&p,0,sizeof p);
    if (len<2) return 0;
    p.n=ser[0]+256*(size_t)ser[1]; bm=(p.n+7)/8;
    if (p.n>256||len<2+bm) return 0;
    if (p.n%8&&(ser[2+bm-1]&(0xff<<(p.n%8))&0xff)) return 0;
    memcpy(p.used,ser+2,bm);
    if (len!=2+bm+32*(1+used_n(&p))) return 0;
    memcpy(p.data,ser+2+bm,len-2-bm);
    if (!parse33(&t,out33,10)) return 0;
    gen_save(o64,&t);
    g=malloc(64*(n+1));
    for (i=0;i<n;i++) { if (!parse33(&t,in33+33*i,10)) { free(g); return 0; } gen_save(g+64*i,&t); }
    r=s_verify(&p,g,n,o64); free(g); return r;
}
/* asset id (32 bytes) [, blind] -> 33-byte generator */
EXPORT int node_generator(uint8_t *out33, const uint8_t *asset, const uint8_t *blind) { uint8_t g[64]; ge t; if (!gen_make(g,asset,blind)) return 0; gen_load(&t,g); out33[0]=11^fquad(&t.y); wr(out33+1,&t.x); return 1; }
/* blind*G + value*gen33 -> 33-byte commitment */
EXPORT int node_commit(uint8_t *out33, const uint8_t *blind, uint64_t value, const uint8_t *gen33) {
    ge g; gej r; n256 b; if (!parse33(&g,gen33,10)||sset(&b,blind)) return 0;
    pecmult(&r,&b,value,&g); if (r.inf) return 0; j_toge(&g,&r); out33[0]=9^fquad(&g.y); wr(out33+1,&g.x); return 1;
}
/* sum(in) == sum(out)?  in/out: 33-byte Pedersen commitments */
EXPORT int node_tally(const uint8_t *in33, size_t n, const uint8_t *out33, size_t m) {
    gej acc,t; ge g; size_t i; j_inf(&acc);
    for (i=0;i<n;i++) { if (!parse33(&g,in33+33*i,8)) return 0; j_addge(&acc,&acc,&g); }
    for (i=0;i<m;i++) { if (!parse33(&g,out33+33*i,8)) return 0; j_set(&t,&g); j_neg(&t,&t); j_add(&acc,&acc,&t); }
    return acc.inf;
}
EXPORT int node_generator_valid(const uint8_t *in33) { ge g; return parse33(&g,in33,10); }
EXPORT int node_commit_valid(const uint8_t *in33) { ge g; return parse33(&g,in33,8); }
