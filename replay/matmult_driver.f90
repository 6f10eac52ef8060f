program driver
  use matmult_mod
  implicit none
  integer, parameter :: dp = kind(1.d0)
  real(dp), allocatable :: a(:, :), b(:, :), c(:, :), a0(:, :), b0(:, :)
  integer :: n, m, l, ios, kind_
  do
    read(*, *, iostat=ios) kind_, n, m, l
    if (ios /= 0) exit
    allocate(a(n, m), b(m, l), c(n, l), a0(n, m), b0(m, l))
    if (kind_ == 2) then
      a = -7; b = -9
      call initmat(a, b)
      call put(a, n*m); call put(b, m*l); write(*, *)
    else
      read(*, *) a, b
      a0 = a; b0 = b; c = -12345.678d0
      if (kind_ == 0) call matmult0(a, b, c)
      if (kind_ == 1) call matmult1(a, b, c)
      call put(c, n*l)
      if (any(a /= a0) .or. any(b /= b0)) write(*, '(a)', advance='no') ' changed'
      write(*, *)
    endif
    flush(6)
    deallocate(a, b, c, a0, b0)
  enddo
contains
  subroutine put(x, k)
    integer, intent(in) :: k
    real(dp), intent(in) :: x(k)
    integer :: i
    do i = 1, k
      write(*, '(1x,es26.17e3)', advance='no') x(i)
    enddo
  end subroutine
end program
