! one type of field: VT type of the elements, SFX code, DM rank, SHP shape of a pointer
subroutine PASTE(do_)(op)
  character(len=*), intent(in) :: op
  VT, pointer :: p SHP
  VT, pointer :: q SHP
  integer :: k
  nullify(p)
  g_meta = GMM_NULL_METADATA
  select case (op)
  case ('create')
    call to_meta()
    if (g_user) then
#if DM == 1
      allocate(p(g_ub(1,1):g_ub(2,1)))
#elif DM == 2
      allocate(p(g_ub(1,1):g_ub(2,1), g_ub(1,2):g_ub(2,2)))
#elif DM == 3
      allocate(p(g_ub(1,1):g_ub(2,1), g_ub(1,2):g_ub(2,2), g_ub(1,3):g_ub(2,3)))
#else
      allocate(p(g_ub(1,1):g_ub(2,1), g_ub(1,2):g_ub(2,2), g_ub(1,3):g_ub(2,3), g_ub(1,4):g_ub(2,4)))
#endif
      p = reshape([(TOVT(g_v + k - 1), k = 1, size(p))], shape(p))
      q => p
    endif
    if (g_argflags) then
      k = g_meta%a%flags; g_meta%a%flags = 0
      g_r = gmm_create(trim(g_name), p, g_meta, k)
    else
      g_r = gmm_create(trim(g_name), p, g_meta)
    endif
  case ('get')
    g_r = gmm_get(trim(g_name), p, g_meta)
  case ('write')
    g_r = gmm_get(trim(g_name), p)
    if (g_r == 0 .and. associated(p)) p = reshape([(TOVT(g_v + k - 1), k = 1, size(p))], shape(p))
  end select
  g_assoc = associated(p)
  g_dm = DM; g_n = 0
  if (g_assoc .and. g_r == 0) then
    do k = 1, DM
      g_bounds(1, k) = lbound(p, k); g_bounds(2, k) = ubound(p, k)
    enddo
    g_n = min(size(p), MAXC)
    g_cont(1:g_n) = TOR8(reshape(p, [size(p)]))
  endif
end subroutine
#undef VT
#undef PASTE
#undef DM
#undef SHP
#undef TOVT
#undef TOR8
