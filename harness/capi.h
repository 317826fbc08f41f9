/* The functions of the C interface as a C translation unit that includes heffte.h sees them (filled in by capi.c). */
#ifndef VERIF_CAPI_H
#define VERIF_CAPI_H
#include <mpi.h>
#include "heffte_c_defines.h"
typedef struct {
    int (*set_default)(int, heffte_plan_options*);
    int (*create)(int, int const*, int const*, int const*, int const*, int const*, int const*, MPI_Comm, heffte_plan_options const*, heffte_plan*);
    int (*create_r2c)(int, int const*, int const*, int const*, int const*, int const*, int const*, int, MPI_Comm, heffte_plan_options const*, heffte_plan*);
    int (*destroy)(heffte_plan);
    int (*size_inbox)(heffte_plan), (*size_outbox)(heffte_plan), (*size_workspace)(heffte_plan), (*get_backend)(heffte_plan), (*is_r2c)(heffte_plan);
    /* input and output types: real to complex, complex to complex; [0] single, [1] double precision */
    void (*fwd_real[2])(heffte_plan, void const*, void*, int);
    void (*fwd_cplx[2])(heffte_plan, void const*, void*, int);
    void (*bwd_real[2])(heffte_plan, void const*, void*, int);
    void (*bwd_cplx[2])(heffte_plan, void const*, void*, int);
    void (*fwd_real_buf[2])(heffte_plan, void const*, void*, void*, int);
    void (*fwd_cplx_buf[2])(heffte_plan, void const*, void*, void*, int);
    void (*bwd_real_buf[2])(heffte_plan, void const*, void*, void*, int);
    void (*bwd_cplx_buf[2])(heffte_plan, void const*, void*, void*, int);
    int scale_none, scale_full, scale_symmetric, alltoallv, p2p_plined, p2p, success;
    int backend[3]; /* stock, FFTW, MKL; -1: not enabled */
} capi_table;
#ifdef __cplusplus
extern "C"
#endif
capi_table const *capi(void);
#endif
