// PETSc in the forked workers: MPI as an isolated singleton, set up on first use in each process
#pragma once
#include <petscmat.h>
#include <cstdlib>
namespace vf {
inline void petscOnce() {
	static bool mpi = false;
	if(!mpi) {
		mpi = true; setenv("OMPI_MCA_orte_create_session_dirs","0",1); setenv("OMPI_MCA_btl","self",1); setenv("OMPI_MCA_pml","ob1",1); setenv("OMPI_MCA_ess_singleton_isolated","1",1); setenv("OMPI_MCA_mca_base_component_show_load_errors","0",1);
		int pr; if(MPI_Init_thread(nullptr, nullptr, MPI_THREAD_SINGLE, &pr)) abort();
	}
	PetscBool on; PetscInitialized(&on);
	if(!on) { PetscOptionsSetValue(nullptr, "-no_signal_handler", "1"); PetscOptionsSetValue(nullptr, "-options_left", "0"); if(PetscInitializeNoArguments()) abort(); if(!getenv("VF_PETSC_TRACE")) PetscPushErrorHandler(PetscReturnErrorHandler, nullptr); }
	PetscOptionsClear(nullptr);
}
}
