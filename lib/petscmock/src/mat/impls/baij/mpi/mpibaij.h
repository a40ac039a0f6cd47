#include "../../aij/mpi/mpiaij.h"
