// Analysis stand-in for <mpi.h>: the processes are interpreted in turns (see models/mpi.cpp).
#pragma once
extern "C" {
typedef int MPI_Comm;
typedef long MPI_Datatype;  // class * 1000 + size
typedef long MPI_Op;
typedef long MPI_Request;
typedef int MPI_Errhandler;
struct MPI_Status {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    long bytes;
};
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_DATATYPE_NULL 0L
#define MPI_IN_PLACE ((void*)1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_SUCCESS 0
#define MPI_REQUEST_NULL 0L
#define MPI_TYPECLASS_INTEGER 1
#define MPI_TYPECLASS_REAL 2
#define MPI_TYPECLASS_COMPLEX 3
#define MPI_INT 1004L
#define MPI_UNSIGNED_LONG 1008L
#define MPI_UNSIGNED 1004L
#define MPI_LONG 1008L
#define MPI_CHAR 1001L
#define MPI_BYTE 1001L
#define MPI_CXX_BOOL 1001L
#define MPI_DOUBLE 2008L
#define MPI_CXX_DOUBLE_COMPLEX 3016L
#define MPI_C_DOUBLE_COMPLEX 3016L
#define MPI_MAX 1L
#define MPI_MIN 2L
#define MPI_SUM 3L
#define MPI_LOR 4L
#define MPI_LAND 5L
#define MPI_PROD 6L
typedef void MPI_User_function(void*, void*, int*, MPI_Datatype*);
int MPI_Init(int*, char***);
int MPI_Initialized(int*);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Type_match_size(int, int, MPI_Datatype*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*);
int MPI_Op_free(MPI_Op*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
double MPI_Wtime();
int MPI_Error_string(int, char*, int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
}
// for the PETSc headers
#define OMPI_MAJOR_VERSION 4
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#define MPI_MAX_ERROR_STRING 256
#define MPI_COMM_NULL (-1)
typedef long MPI_Aint;
typedef long MPI_Count;
typedef long MPI_Offset;
typedef int MPI_Info;
typedef int MPI_Win;
typedef int MPI_Group;
typedef int MPI_File;
#define MPI_FLOAT 2004L
#define MPI_LONG_LONG 1008L
#define MPI_LONG_LONG_INT 1008L
#define MPI_2INT 1008L
#define MPI_SHORT 1002L
