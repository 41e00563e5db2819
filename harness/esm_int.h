/* Access to the block symbolic factorisation. */
typedef struct { int ncblk, nc, nblok, nodenbr, check, ocheck, *rang, *perm, *peri, *fcol, *lcol; int (*blok)[4]; double nnz[2]; } FaxRes;
int faxrun (SCOTCH_Graph *, const char *, FaxRes *, int base); void faxexit (FaxRes *);
