! Fortran side of P19, compiled once per back end with the names of the generated module given as macros:
! -DMOD -DC2C -DR2C -DSC_NONE -DSC_FULL -DSC_SYM.  Every procedure is a plain use of the public interface of the module.
module fdriver
  use MOD
  use, intrinsic :: iso_c_binding
  implicit none
contains

#define NEWPROC(NAME,REASSIGN,TYP,DIRDECL,DIRARG) \
subroutine NAME(h, kind, b, r2cdir, comm, reorder, alg, pencils) bind(C); \
  type(C_PTR), intent(inout) :: h; integer(C_INT), value :: kind, r2cdir, comm, reorder, alg, pencils; integer(C_INT), intent(in) :: b(18); \
  type(TYP), pointer :: p; logical :: lr, lp; integer :: fcomm; \
  if (.not. c_associated(h)) then; allocate(p); else; call c_f_pointer(h, p); end if; \
  lr = reorder /= 0; lp = pencils /= 0; fcomm = comm; \
  select case(kind); \
  case(0); p = TYP(b(1),b(2),b(3),b(4),b(5),b(6),b(10),b(11),b(12),b(13),b(14),b(15) DIRARG, fcomm); \
  case(1); p = TYP(b(1),b(2),b(3),b(4),b(5),b(6),b(7),b(8),b(9),b(10),b(11),b(12),b(13),b(14),b(15),b(16),b(17),b(18) DIRARG, fcomm); \
  case default; p = TYP(b(1),b(2),b(3),b(4),b(5),b(6),b(7),b(8),b(9),b(10),b(11),b(12),b(13),b(14),b(15),b(16),b(17),b(18) DIRARG, fcomm, lr, alg, lp); \
  end select; \
  h = c_loc(p); \
end subroutine

NEWPROC(fx_c2c_new,0,C2C,,)
#define COMMA ,
NEWPROC(fx_r2c_new,0,R2C,,COMMA r2cdir)

#define OBJ(TYP,SIZES,RELEASE,DROP,ALIAS) \
subroutine SIZES(h, q, f) bind(C); \
  type(C_PTR), value :: h; integer(C_LONG_LONG), intent(out) :: q(4); real(C_DOUBLE), intent(out) :: f(3); type(TYP), pointer :: p; \
  call c_f_pointer(h, p); \
  q(1) = p%size_inbox(); q(2) = p%size_outbox(); q(3) = p%size_workspace(); q(4) = p%size_comm_buffers(); \
  f(1) = p%get_scale_factor(SC_NONE); f(2) = p%get_scale_factor(SC_FULL); f(3) = p%get_scale_factor(SC_SYM); \
end subroutine; \
subroutine RELEASE(h) bind(C); \
  type(C_PTR), value :: h; type(TYP), pointer :: p; \
  call c_f_pointer(h, p); call p%release(); \
end subroutine; \
subroutine DROP(h) bind(C); \
  type(C_PTR), value :: h; type(TYP), pointer :: p; \
  call c_f_pointer(h, p); deallocate(p); \
end subroutine; \
function ALIAS(h) result(r) bind(C); \
  type(C_PTR), value :: h; type(C_PTR) :: r; type(TYP), pointer :: p, q; \
  call c_f_pointer(h, p); allocate(q); q = p; r = c_loc(q); \
end function

OBJ(C2C,fx_c2c_sizes,fx_c2c_release,fx_c2c_drop,fx_c2c_alias)
OBJ(R2C,fx_r2c_sizes,fx_r2c_release,fx_r2c_drop,fx_r2c_alias)

#define RUNPROC(NAME,TYP,DIR,TIN,TOUT,TW) \
subroutine NAME(h, ov, batch, in, nin, out, nout, work, nwork, sc) bind(C); \
  type(C_PTR), value :: h, in, out, work; integer(C_INT), value :: ov, batch, sc; integer(C_SIZE_T), value :: nin, nout, nwork; \
  type(TYP), pointer :: p; TIN, pointer, contiguous :: a(:); TOUT, pointer, contiguous :: b(:); TW, pointer, contiguous :: w(:); \
  call c_f_pointer(h, p); call c_f_pointer(in, a, [nin]); call c_f_pointer(out, b, [nout]); call c_f_pointer(work, w, [nwork]); \
  select case(ov); \
  case(0); call p%DIR(a, b, sc); \
  case(1); call p%DIR(a, b); \
  case(2); call p%DIR(a, b, w, sc); \
  case(3); call p%DIR(a, b, w); \
  case(4); call p%DIR(batch, a, b, w, sc); \
  case(5); call p%DIR(batch, a, b, w); \
  case(6); call p%DIR(batch, a, b, sc); \
  case(7); call p%DIR(batch, a, b); \
  end select; \
end subroutine

#define RF real(C_FLOAT)
#define RD real(C_DOUBLE)
#define CF complex(C_FLOAT_COMPLEX)
#define CD complex(C_DOUBLE_COMPLEX)
RUNPROC(fx_c2c_fwd_rf,C2C,forward,RF,CF,CF)
RUNPROC(fx_c2c_fwd_cf,C2C,forward,CF,CF,CF)
RUNPROC(fx_c2c_fwd_rd,C2C,forward,RD,CD,CD)
RUNPROC(fx_c2c_fwd_cd,C2C,forward,CD,CD,CD)
RUNPROC(fx_c2c_bwd_rf,C2C,backward,CF,RF,CF)
RUNPROC(fx_c2c_bwd_cf,C2C,backward,CF,CF,CF)
RUNPROC(fx_c2c_bwd_rd,C2C,backward,CD,RD,CD)
RUNPROC(fx_c2c_bwd_cd,C2C,backward,CD,CD,CD)
RUNPROC(fx_r2c_fwd_rf,R2C,forward,RF,CF,CF)
RUNPROC(fx_r2c_fwd_rd,R2C,forward,RD,CD,CD)
RUNPROC(fx_r2c_bwd_rf,R2C,backward,CF,RF,CF)
RUNPROC(fx_r2c_bwd_rd,R2C,backward,CD,RD,CD)

! the values of the constants of the module
function fx_scale(i) result(r) bind(C)
  integer(C_INT), value :: i; integer(C_INT) :: r
  select case(i)
  case(0); r = SC_NONE
  case(1); r = SC_FULL
  case default; r = SC_SYM
  end select
end function
end module
