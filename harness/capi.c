/* heffte.h used from C */
#include "heffte.h"
#include "capi.h"
static void f0(heffte_plan p, void const *i, void *o, int s){ heffte_forward_s2c(p, (float const*)i, o, s); }
static void f1(heffte_plan p, void const *i, void *o, int s){ heffte_forward_d2z(p, (double const*)i, o, s); }
static void b0(heffte_plan p, void const *i, void *o, int s){ heffte_backward_c2s(p, i, (float*)o, s); }
static void b1(heffte_plan p, void const *i, void *o, int s){ heffte_backward_z2d(p, i, (double*)o, s); }
static void f0b(heffte_plan p, void const *i, void *o, void *w, int s){ heffte_forward_s2c_buffered(p, (float const*)i, o, w, s); }
static void f1b(heffte_plan p, void const *i, void *o, void *w, int s){ heffte_forward_d2z_buffered(p, (double const*)i, o, w, s); }
static void b0b(heffte_plan p, void const *i, void *o, void *w, int s){ heffte_backward_c2s_buffered(p, i, (float*)o, w, s); }
static void b1b(heffte_plan p, void const *i, void *o, void *w, int s){ heffte_backward_z2d_buffered(p, i, (double*)o, w, s); }
static int create(int b, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, MPI_Comm c, heffte_plan_options const *o, heffte_plan *p){ return heffte_plan_create(b, il, ih, io, ol, oh, oo, c, o, p); }
static int create_r2c(int b, int const *il, int const *ih, int const *io, int const *ol, int const *oh, int const *oo, int d, MPI_Comm c, heffte_plan_options const *o, heffte_plan *p){ return heffte_plan_create_r2c(b, il, ih, io, ol, oh, oo, d, c, o, p); }
static int destroy(heffte_plan p){ return heffte_plan_destroy(p); }
static int q_in(heffte_plan p){ return heffte_size_inbox(p); }
static int q_out(heffte_plan p){ return heffte_size_outbox(p); }
static int q_work(heffte_plan p){ return heffte_size_workspace(p); }
static int q_be(heffte_plan p){ return heffte_get_backend(p); }
static int q_r2c(heffte_plan p){ return heffte_is_r2c(p); }
capi_table const *capi(void){
    static capi_table const t = { heffte_set_default_options, create, create_r2c, destroy, q_in, q_out, q_work, q_be, q_r2c,
        {f0, f1}, {heffte_forward_c2c, heffte_forward_z2z}, {b0, b1}, {heffte_backward_c2c, heffte_backward_z2z},
        {f0b, f1b}, {heffte_forward_c2c_buffered, heffte_forward_z2z_buffered}, {b0b, b1b}, {heffte_backward_c2c_buffered, heffte_backward_z2z_buffered},
        Heffte_SCALE_NONE, Heffte_SCALE_FULL, Heffte_SCALE_SYMMETRIC, Heffte_RESHAPE_ALGORITHM_ALLTOALLV, Heffte_RESHAPE_ALGORITHM_P2P_PLINED, Heffte_RESHAPE_ALGORITHM_P2P, Heffte_SUCCESS,
        { Heffte_BACKEND_STOCK,
        #ifdef Heffte_ENABLE_FFTW
            Heffte_BACKEND_FFTW,
        #else
            -1,
        #endif
        #ifdef Heffte_ENABLE_MKL
            Heffte_BACKEND_MKL
        #else
            -1
        #endif
        } };
    return &t;
}
