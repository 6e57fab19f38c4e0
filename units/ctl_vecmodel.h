/*
 * The content type vector of a control frame / reader / writer, by contract:
 * element i has length elen(i) and some data.  The tracked element gk has its
 * data in blobk, all others in blob.  S(i) is the sum of the encoded sizes of the first i elements
 * (axioms: S(0) = 0, S(i+1) = S(i) + 8 + elen(i), instantiated where used).
 */
#ifndef CTL_VECMODEL_H
#define CTL_VECMODEL_H
size_t __CPROVER_uninterpreted_elen(size_t);
size_t __CPROVER_uninterpreted_S(size_t);
#define elen	__CPROVER_uninterpreted_elen
#define S	__CPROVER_uninterpreted_S
static size_t gk, gj;
static uint8_t blob[8], blobk[8];
#define NMAX ((size_t)1 << 40)		/* at most 2^40 content types: more do not fit in memory */
static inline void S_def(size_t i) { ASSUME(S(0) == 0 && S(i + 1) == S(i) + 8 + elen(i)); }
#endif
