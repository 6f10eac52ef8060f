! runs the problems read from the input through the upwind class of one of the Fortran programs
program driver
  use upwind_mod
  implicit none
  type(upwind_type) :: up
  integer, parameter :: dp = kind(1.d0)
  real(dp) :: v(3), l(3), dt
  integer :: n(3), steps, usef, vtk, ios, i, k, nt
  character(len=32) :: nm
  k = 0
  do
    read(*, *, iostat=ios) v, l, n, dt, steps, usef, vtk
    if (ios /= 0) exit
    call upwind_new(up, v, l, n)
    nt = size(up % f)
    write(*, '(a)', advance='no') 'init'
    do i = 1, nt
      write(*, '(1x,es26.17e3)', advance='no') up % f(i)
    enddo
    write(*, *)
    if (usef == 1) read(*, *) up % f(1:n(1)*n(2)*n(3))
    do i = 1, steps
      call upwind_advect(up, dt)
    enddo
    write(*, '(a)', advance='no') 'field'
    do i = 1, nt
      write(*, '(1x,es26.17e3)', advance='no') up % f(i)
    enddo
    write(*, *)
    flush(6)
    if (vtk == 1) then
      write(nm, '(a,i0,a)') 'case', k, '.vtk'
      call upwind_saveVTK(up, trim(nm))
    endif
    call upwind_del(up)
    write(*, '(a)') 'after'
    flush(6)
    k = k + 1
  enddo
end program
