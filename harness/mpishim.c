/* Preloaded into the MPI program: delays messages, and may make sends synchronous, both of which MPI allows. */
#include <mpi.h>
#include <stdlib.h>
#include <unistd.h>
static unsigned long long z, n;
static int slow = -1;
static void nap(int kind)
{
    const char *s = getenv("VERIF_MPI_SEED"), *d = getenv("VERIF_MPI_DELAY");
    if (!s || !d) return;
    int rank; PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
    if (!n++) { z = strtoull(s, 0, 10) * 977 + rank * 31 + 7; const char* w = getenv("VERIF_MPI_SLOW"); if (w) slow = atoi(w); }
    z = z * 6364136223846793005ull + 1442695040888963407ull;
    unsigned us = (unsigned)((z >> 33) % (unsigned long long)(atoi(d) + 1));
    if ((z >> 20) % 3 == 0 || rank == slow) usleep(rank == slow ? us * 4 : us);
}
static int synchronous(void) { const char* s = getenv("VERIF_MPI_SYNC"); return s && *s == '1'; }
int MPI_Send(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m) { nap(0); return synchronous() ? PMPI_Ssend(b, c, t, d, tag, m) : PMPI_Send(b, c, t, d, tag, m); }
int MPI_Isend(const void* b, int c, MPI_Datatype t, int d, int tag, MPI_Comm m, MPI_Request* r) { nap(0); return synchronous() ? PMPI_Issend(b, c, t, d, tag, m, r) : PMPI_Isend(b, c, t, d, tag, m, r); }
int MPI_Recv(void* b, int c, MPI_Datatype t, int s, int tag, MPI_Comm m, MPI_Status* st) { nap(1); return PMPI_Recv(b, c, t, s, tag, m, st); }
int MPI_Probe(int s, int tag, MPI_Comm m, MPI_Status* st) { nap(1); return PMPI_Probe(s, tag, m, st); }
int MPI_Barrier(MPI_Comm m) { nap(1); return PMPI_Barrier(m); }
int MPI_Finalize(void) { nap(1); return PMPI_Finalize(); }
