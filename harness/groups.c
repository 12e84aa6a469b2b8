/* C10: divide the processes into groups, solve a small problem in each group, look at the whole, divide again.
   groups G1 G2 ...   (0: end_divide_parallel) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "config.h"
#include <check.h>
#include <mpiglue.h>
#include <mpi_utils.h>
#include <matrices.h>
#include <eigensolver.h>
#include <maxwell.h>

static void eps(symmetric_matrix *e, symmetric_matrix *ei, const real r[3], void *data) {
  double c = 3 + *(int *) data, v = 2.5 + c * (1 + cos(6.283185307179586 * r[0]) * cos(6.283185307179586 * r[1]));
  memset(e, 0, sizeof *e);
  e->m00 = e->m11 = v; e->m22 = v + 1;
  maxwell_sym_matrix_invert(ei, e);
}
static int meps(symmetric_matrix *a, symmetric_matrix *b, real n[3], real d1, real d2, real d3, real tol, const real r[3], void *data) {
  (void) a; (void) b; (void) n; (void) d1; (void) d2; (void) d3; (void) tol; (void) r; (void) data;
  return 0;
}

#define NB 4
static void solve(int kind, double *out) {
  int lN, Ns, aN, i, it, mesh[3] = {1, 1, 1}, tot;
  real R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, k[3] = {0.21, 0.13, 0.05}, ev[NB];
  maxwell_data *d = create_maxwell_data(6, 5, 2, &lN, &Ns, &aN, NB, NB);
  evectmatrix Y, W[3];
  update_maxwell_data_k(d, k, R[0], R[1], R[2]);
  set_maxwell_dielectric(d, mesh, R, R, eps, meps, &kind);
  Y = create_evectmatrix(60, 2, NB, lN, Ns, aN);
  for (i = 0; i < 3; ++i) W[i] = create_evectmatrix(60, 2, NB, lN, Ns, aN);
  srand(17 + kind + Ns);
  for (i = 0; i < Y.n * NB; ++i) ASSIGN_SCALAR(Y.data[i], rand() * 1.0 / RAND_MAX - 0.5, rand() * 1.0 / RAND_MAX - 0.5);
  eigensolver(Y, ev, maxwell_operator, d, NULL, NULL, maxwell_preconditioner2, d, NULL, NULL, W, 3, 1e-14, &it, EIGS_DEFAULT_FLAGS & ~EIGS_VERBOSE);
  for (i = 0; i < NB; ++i) out[i] = sqrt(ev[i]);
  mpi_allreduce(&lN, &tot, 1, int, MPI_INT, MPI_SUM, mpb_comm);
  out[NB] = tot;
  out[NB + 1] = d->eps_inv_mean;
  for (it = 0; it < 2; ++it) {   /* a single plane wave, found wherever it is stored */
    int t = (it ? 41 : 7) - Ns;
    double kd[3];
    for (i = 0; i < Y.n * NB; ++i) ASSIGN_SCALAR(Y.data[i], 0.001, 0);
    if (t >= 0 && t < lN) ASSIGN_SCALAR(Y.data[(2 * t + 1) * NB + 2], 0.5, 0.25);
    maxwell_dominant_planewave(d, Y, 3, kd);
    for (i = 0; i < 3; ++i) out[NB + 2 + 3 * it + i] = kd[i];
  }
  for (i = 0; i < 3; ++i) destroy_evectmatrix(W[i]);
  destroy_evectmatrix(Y);
  destroy_maxwell_data(d);
}

int main(int argc, char **argv) {
  int s, rank, crank, csize, gsz, grk, sum, one;
  MPI_Init(&argc, &argv);
  rank = my_global_rank();
  for (s = 1; s < argc; ++s) {
    int G = atoi(argv[s]), g = 0, i;
    double v[NB + 8], w[NB + 8];
    char line[1000];
    if (G > 0) g = divide_parallel_processes(G); else end_divide_parallel();
    MPI_Comm_rank(mpb_comm, &crank);
    MPI_Comm_size(mpb_comm, &csize);
    solve(g % 3, v);
    begin_global_communications();
    MPI_Comm_size(mpb_comm, &gsz);
    MPI_Comm_rank(mpb_comm, &grk);
    mpi_allreduce(&grk, &sum, 1, int, MPI_INT, MPI_SUM, mpb_comm);
    one = mpi_is_master();
    mpi_allreduce_1(&one, int, MPI_INT, MPI_SUM, mpb_comm);
    solve(2, w);   /* all together */
    end_global_communications();
    solve(g % 3, w + 0);   /* and in the group again: w is overwritten */
    one += mpi_is_master() == (crank == 0);
    sprintf(line, "step %d rank %d group %d of %d crank %d csize %d sums", s - 1, rank, g, G, crank, csize);
    for (i = 0; i < NB + 8; ++i) sprintf(line + strlen(line), " %.10f", v[i]);
    for (i = 0; i < NB + 8; ++i) sprintf(line + strlen(line), " %.10f", w[i]);
    sprintf(line + strlen(line), " %d %d %d %d\n", one, gsz, grk, sum);
    fputs(line, stdout);
    fflush(stdout);
  }
  end_divide_parallel();
  MPI_Finalize();
  return 0;
}
