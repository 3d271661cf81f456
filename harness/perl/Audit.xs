/* Verif::Audit: looks at Perl values the way the interpreter does. Not part of the code under test. */
#define PERL_NO_GET_CONTEXT
#include "EXTERN.h"
#include "perl.h"
#include "XSUB.h"
#include <malloc.h>
#include <dlfcn.h>

typedef struct { SV *sv; U32 strong; U32 weak; } ent_t;
typedef struct { ent_t *e; size_t n, cap; size_t *tab; size_t mask; } set_t;

static size_t find(set_t *s, SV *sv, int *isnew) {
    size_t i;
    if (s->n * 2 >= s->mask) {
        size_t m = s->mask ? s->mask * 2 + 1 : 1023, k;
        free(s->tab);
        s->tab = (size_t *)calloc(m + 1, sizeof(size_t));
        s->mask = m;
        for (k = 0; k < s->n; k++) {
            i = ((size_t)s->e[k].sv >> 3) * 0x9E3779B97F4A7C15ULL >> 20 & m;
            while (s->tab[i]) i = (i + 1) & m;
            s->tab[i] = k + 1;
        }
    }
    i = ((size_t)sv >> 3) * 0x9E3779B97F4A7C15ULL >> 20 & s->mask;
    while (s->tab[i]) {
        if (s->e[s->tab[i] - 1].sv == sv) { *isnew = 0; return s->tab[i] - 1; }
        i = (i + 1) & s->mask;
    }
    if (s->n == s->cap) {
        s->cap = s->cap ? s->cap * 2 : 256;
        s->e = (ent_t *)realloc(s->e, s->cap * sizeof(ent_t));
    }
    s->e[s->n].sv = sv;
    s->e[s->n].strong = s->e[s->n].weak = 0;
    s->tab[i] = ++s->n;
    *isnew = 1;
    return s->n - 1;
}

#define NOTE(...) do { if (!sv_len(err)) sv_setpvf(err, __VA_ARGS__); } while (0)

static int edge(pTHX_ set_t *s, SV *sv, int weak, SV *err, const char *where) {
    int isnew;
    size_t i;
    if (!sv) return 1;
    if (SvTYPE(sv) == (svtype)SVTYPEMASK) { NOTE("%s holds a freed scalar", where); return 0; }
    if (SvTYPE(sv) > SVt_PVIO) { NOTE("%s holds a scalar of type %d", where, (int)SvTYPE(sv)); return 0; }
    if (SvIMMORTAL(sv)) return 1;
    if (SvREFCNT(sv) == 0) { NOTE("%s holds a scalar without references", where); return 0; }
    i = find(s, sv, &isnew);
    if (weak) s->e[i].weak++; else s->e[i].strong++;
    return 1;
}

MODULE = Verif::Audit  PACKAGE = Verif::Audit
PROTOTYPES: DISABLE

SV *
audit(slack, ...)
    IV slack;
  PREINIT:
    /* slack: -1 when the count of references may exceed what is found; the roots are passed
       as references, and have one reference besides what is found plus the one by the argument */
    set_t s;
    SV *err;
    size_t k;
    int i;
  CODE:
    memset(&s, 0, sizeof s);
    err = newSVpvs("");
    for (i = 1; i < items; i++) {
        if (!SvROK(ST(i))) croak("audit: not a reference");
        if (!edge(aTHX_ &s, SvRV(ST(i)), 0, err, "the root")) goto done;
        { int nw; size_t r = find(&s, SvRV(ST(i)), &nw); s.e[r].strong++; }
    }
    for (k = 0; k < s.n; k++) {
        SV *sv = s.e[k].sv;
        switch (SvTYPE(sv)) {
        case SVt_PVAV: {
            AV *av = (AV *)sv;
            SSize_t j;
            if (!AvREAL(av)) NOTE("an array that does not own its elements");
            if (AvFILLp(av) > AvMAX(av)) { NOTE("an array filled beyond its end"); goto done; }
            for (j = 0; j <= AvFILLp(av); j++)
                if (!edge(aTHX_ &s, AvARRAY(av)[j], 0, err, "an array")) goto done;
            break;
        }
        case SVt_PVHV: {
            HV *hv = (HV *)sv;
            HE *he;
            STRLEN cnt = 0;
            hv_iterinit(hv);
            while ((he = hv_iternext(hv))) {
                cnt++;
                if (HeKLEN(he) >= 0 && HeKEY(he)[HeKLEN(he)] != 0) NOTE("a key without end");
                if (!HeVAL(he)) { NOTE("a hash without value"); continue; }
                if (!edge(aTHX_ &s, HeVAL(he), 0, err, "a hash")) goto done;
            }
            if (cnt != HvUSEDKEYS(hv)) NOTE("a hash of %d keys says %d", (int)cnt, (int)HvUSEDKEYS(hv));
            break;
        }
        case SVt_PVCV: case SVt_PVGV: case SVt_PVFM: case SVt_PVIO:
            NOTE("a scalar of type %d", (int)SvTYPE(sv));
            break;
        case SVt_REGEXP:
            break;
        default:
            if (SvROK(sv)) {
                if (!edge(aTHX_ &s, SvRV(sv), SvWEAKREF(sv) ? 1 : 0, err, "a reference")) goto done;
            } else if (SvPOK(sv)) {
                if (SvLEN(sv) && SvCUR(sv) >= SvLEN(sv)) NOTE("a string of %d bytes in %d", (int)SvCUR(sv), (int)SvLEN(sv));
                else if (SvLEN(sv) && SvPVX(sv)[SvCUR(sv)] != 0) NOTE("a string without end");
            }
        }
        if (k > 0 && SvTEMP(sv)) NOTE("a temporary scalar of type %d inside", (int)SvTYPE(sv));
    }
    for (k = 0; k < s.n; k++) {
        SV *sv = s.e[k].sv;
        U32 want = s.e[k].strong;
        if (SvREFCNT(sv) < want || (slack >= 0 && SvREFCNT(sv) > want + slack))
            NOTE("a scalar of type %d (flags %x) is held %d times and counts %d", (int)SvTYPE(sv), (unsigned)SvFLAGS(sv), (int)want, (int)SvREFCNT(sv));
    }
  done:
    free(s.e);
    free(s.tab);
    RETVAL = err;
  OUTPUT: RETVAL

SV *
exact(src)
    SV *src;
  PREINIT:
    STRLEN len;
    char *p, *q;
  CODE:
    /* a string in a block of exactly its size, so that reading beyond it is noticed */
    p = SvPV(src, len);
    RETVAL = newSV_type(SVt_PV);
    if (len) {
        q = (char *)malloc(len);
        memcpy(q, p, len);
        SvPV_set(RETVAL, q);
        SvLEN_set(RETVAL, len);
        SvCUR_set(RETVAL, len);
        SvPOK_on(RETVAL);
    } else sv_setpvs(RETVAL, "");
  OUTPUT: RETVAL

void
perturb(n)
    int n;
  CODE:
    mallopt(M_PERTURB, n); /* without effect on the sanitizer's malloc */

UV
svs()
  CODE:
    RETVAL = PL_sv_count;
  OUTPUT: RETVAL

UV
heap()
  PREINIT:
    static size_t (*f)(void);
    static int looked;
  CODE:
    if (!looked) { f = (size_t (*)(void))dlsym(RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes"); looked = 1; }
    if (f) RETVAL = f();
    else RETVAL = 0; /* glibc does not know exactly */
  OUTPUT: RETVAL

SV *
immortals()
  CODE:
    RETVAL = newSVpvf("%d %x %d | %x %s %d | %x %d | %x",
        (int)SvTYPE(&PL_sv_undef) * 0, (unsigned)(SvFLAGS(&PL_sv_undef) & (SVf_IOK|SVf_NOK|SVf_POK|SVf_ROK|SVf_READONLY|SVf_UTF8)), 0,
        (unsigned)(SvFLAGS(&PL_sv_yes) & ~(SVTYPEMASK|SVs_RMG|SVs_SMG|SVs_GMG)), SvPVX(&PL_sv_yes), (int)SvIVX(&PL_sv_yes),
        (unsigned)(SvFLAGS(&PL_sv_no) & ~(SVTYPEMASK|SVs_RMG|SVs_SMG|SVs_GMG)), (int)SvCUR(&PL_sv_no),
        (unsigned)(SvOBJECT(&PL_sv_undef) | SvOBJECT(&PL_sv_yes) | SvOBJECT(&PL_sv_no)));
  OUTPUT: RETVAL

UV
refcnt(r)
    SV *r;
  CODE:
    RETVAL = SvROK(r) ? SvREFCNT(SvRV(r)) : 0;
  OUTPUT: RETVAL

IV
readonly(r)
    SV *r;
  CODE:
    RETVAL = SvROK(r) && SvREADONLY(SvRV(r)) ? 1 : 0;
  OUTPUT: RETVAL

IV
isundef(r)
    SV *r;
  CODE:
    RETVAL = SvROK(r) && SvRV(r) == &PL_sv_undef ? 1 : 0;
  OUTPUT: RETVAL

UV
addr(r)
    SV *r;
  CODE:
    RETVAL = SvROK(r) ? PTR2UV(SvRV(r)) : 0;
  OUTPUT: RETVAL

SV *
immortal(r)
    SV *r;
  CODE:
    /* O, Y or N for a reference to the one undef, true or false, else nothing */
    RETVAL = !SvROK(r) ? newSVpvs("") : SvRV(r) == &PL_sv_undef ? newSVpvs("O") : SvRV(r) == &PL_sv_yes ? newSVpvs("Y")
        : SvRV(r) == &PL_sv_no ? newSVpvs("N") : newSVpvs("");
  OUTPUT: RETVAL

void
alias_push(av, r)
    AV *av;
    SV *r;
  CODE:
    av_push(av, SvREFCNT_inc(SvRV(r)));

void
alias_store(hv, k, r)
    HV *hv;
    SV *k;
    SV *r;
  CODE:
    if (!hv_store_ent(hv, k, SvREFCNT_inc(SvRV(r)), 0)) SvREFCNT_dec(SvRV(r));
