#pragma once
#include <petsc/private/matimpl.h>
#include <petscksp.h>
#define VF_SEQAIJ_HEADER \
  PetscBool roworiented; PetscInt nonew, nounused; PetscBool singlemalloc; PetscInt maxnz, *imax, *ilen, *ipre; PetscBool free_imax_ilen; \
  PetscInt reallocs, rmax; PetscBool keepnonzeropattern, ignorezeroentries, free_ij, free_a; Mat_CompressedRow compressedrow; \
  PetscInt nz, *i, *j, *diag, nonzerorowcnt; PetscBool free_diag; MatScalar *a;
typedef struct { VF_SEQAIJ_HEADER } Mat_SeqAIJ;
typedef struct { VF_SEQAIJ_HEADER } Mat_SeqBAIJ;
