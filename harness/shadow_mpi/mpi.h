// Stand-in for MPI: requests which complete when the harness says so; see rt/mpi.cpp.
#pragma once

struct vf_mpi_request;
typedef vf_mpi_request* MPI_Request;

struct MPI_Status
{
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    unsigned long long count;
};

#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)

extern "C"
{
    int MPI_Testsome(int n, MPI_Request r[], int* outcount, int indices[], MPI_Status s[]);
    int MPI_Waitsome(int n, MPI_Request r[], int* outcount, int indices[], MPI_Status s[]);
    int MPI_Testany(int n, MPI_Request r[], int* index, int* flag, MPI_Status* s);
    int MPI_Testall(int n, MPI_Request r[], int* flag, MPI_Status s[]);
    int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s);
    int MPI_Wait(MPI_Request* r, MPI_Status* s);
    int MPI_Request_get_status(MPI_Request r, int* flag, MPI_Status* s);
}
