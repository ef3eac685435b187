// Access to the objects of the PETSc model (models/petsc.cpp).
#pragma once
#include <petscmat.h>
#include <petscvec.h>
namespace vtpetsc {
void emit(Mat A, long q);
void emit(Vec v, long q);
extern void (*solve)(Mat, Vec, Vec);  // called in place of solving a linear system
void set(Vec v, PetscInt i, double x);
}
