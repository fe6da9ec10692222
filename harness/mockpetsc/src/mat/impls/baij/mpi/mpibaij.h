#ifndef MOCK_MATIMPL_H
#define MOCK_MATIMPL_H
#include <petscksp.h>
/* as in PETSc, both storage types begin with the same members */
#define SEQAIJHEADER(datatype) PetscInt nz, maxnz, *diag, nonzerorowcnt, *i, *j; datatype *a
typedef struct { SEQAIJHEADER(MatScalar); double aijonly; } Mat_SeqAIJ;
typedef struct { SEQAIJHEADER(MatScalar); PetscInt mbs, nbs, bs2; } Mat_SeqBAIJ;
struct _p_Mat { void *data; void *mock; };
#endif
