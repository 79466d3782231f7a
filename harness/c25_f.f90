! Generated once: C entry points which call the Fortran module of the library
module vf_shim
  use iso_c_binding
  use moordyn
  implicit none
contains

  subroutine cstr(p, n, s)
    integer(c_int), value :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n), intent(out) :: s
    integer :: i
    do i = 1, n
      s(i:i) = p(i)
    end do
  end subroutine cstr

  integer(c_int) function f_NCoupledDOF(h, n) bind(c, name='f_NCoupledDOF')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_NCoupledDOF = MD_NCoupledDOF(h, n)
  end function f_NCoupledDOF

  integer(c_int) function f_ExternalWaveKinInit(h, n) bind(c, name='f_ExternalWaveKinInit')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_ExternalWaveKinInit = MD_ExternalWaveKinInit(h, n)
  end function f_ExternalWaveKinInit

  integer(c_int) function f_ExternalWaveKinGetN(h, n) bind(c, name='f_ExternalWaveKinGetN')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_ExternalWaveKinGetN = MD_ExternalWaveKinGetN(h, n)
  end function f_ExternalWaveKinGetN

  integer(c_int) function f_GetNumberBodies(h, n) bind(c, name='f_GetNumberBodies')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetNumberBodies = MD_GetNumberBodies(h, n)
  end function f_GetNumberBodies

  integer(c_int) function f_GetNumberRods(h, n) bind(c, name='f_GetNumberRods')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetNumberRods = MD_GetNumberRods(h, n)
  end function f_GetNumberRods

  integer(c_int) function f_GetNumberPoints(h, n) bind(c, name='f_GetNumberPoints')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetNumberPoints = MD_GetNumberPoints(h, n)
  end function f_GetNumberPoints

  integer(c_int) function f_GetNumberLines(h, n) bind(c, name='f_GetNumberLines')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetNumberLines = MD_GetNumberLines(h, n)
  end function f_GetNumberLines

  integer(c_int) function f_GetBodyID(h, n) bind(c, name='f_GetBodyID')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetBodyID = MD_GetBodyID(h, n)
  end function f_GetBodyID

  integer(c_int) function f_GetBodyType(h, n) bind(c, name='f_GetBodyType')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetBodyType = MD_GetBodyType(h, n)
  end function f_GetBodyType

  integer(c_int) function f_GetRodID(h, n) bind(c, name='f_GetRodID')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetRodID = MD_GetRodID(h, n)
  end function f_GetRodID

  integer(c_int) function f_GetRodType(h, n) bind(c, name='f_GetRodType')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetRodType = MD_GetRodType(h, n)
  end function f_GetRodType

  integer(c_int) function f_GetRodN(h, n) bind(c, name='f_GetRodN')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetRodN = MD_GetRodN(h, n)
  end function f_GetRodN

  integer(c_int) function f_GetRodNumberNodes(h, n) bind(c, name='f_GetRodNumberNodes')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetRodNumberNodes = MD_GetRodNumberNodes(h, n)
  end function f_GetRodNumberNodes

  integer(c_int) function f_GetPointID(h, n) bind(c, name='f_GetPointID')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetPointID = MD_GetPointID(h, n)
  end function f_GetPointID

  integer(c_int) function f_GetPointType(h, n) bind(c, name='f_GetPointType')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetPointType = MD_GetPointType(h, n)
  end function f_GetPointType

  integer(c_int) function f_GetPointNAttached(h, n) bind(c, name='f_GetPointNAttached')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetPointNAttached = MD_GetPointNAttached(h, n)
  end function f_GetPointNAttached

  integer(c_int) function f_GetLineID(h, n) bind(c, name='f_GetLineID')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetLineID = MD_GetLineID(h, n)
  end function f_GetLineID

  integer(c_int) function f_GetLineN(h, n) bind(c, name='f_GetLineN')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetLineN = MD_GetLineN(h, n)
  end function f_GetLineN

  integer(c_int) function f_GetLineNumberNodes(h, n) bind(c, name='f_GetLineNumberNodes')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_GetLineNumberNodes = MD_GetLineNumberNodes(h, n)
  end function f_GetLineNumberNodes

  integer(c_int) function f_IsLineConstantEA(h, n) bind(c, name='f_IsLineConstantEA')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_IsLineConstantEA = MD_IsLineConstantEA(h, n)
  end function f_IsLineConstantEA

  integer(c_int) function f_IsLinePressBend(h, n) bind(c, name='f_IsLinePressBend')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(out) :: n
    f_IsLinePressBend = MD_IsLinePressBend(h, n)
  end function f_IsLinePressBend

  integer(c_int) function f_GetAverageDepth(h, v) bind(c, name='f_GetAverageDepth')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetAverageDepth = MD_GetAverageDepth(h, v)
  end function f_GetAverageDepth

  integer(c_int) function f_GetMinDepth(h, v) bind(c, name='f_GetMinDepth')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetMinDepth = MD_GetMinDepth(h, v)
  end function f_GetMinDepth

  integer(c_int) function f_GetLineConstantEA(h, v) bind(c, name='f_GetLineConstantEA')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetLineConstantEA = MD_GetLineConstantEA(h, v)
  end function f_GetLineConstantEA

  integer(c_int) function f_GetLineUnstretchedLength(h, v) bind(c, name='f_GetLineUnstretchedLength')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetLineUnstretchedLength = MD_GetLineUnstretchedLength(h, v)
  end function f_GetLineUnstretchedLength

  integer(c_int) function f_GetLineFairTen(h, v) bind(c, name='f_GetLineFairTen')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetLineFairTen = MD_GetLineFairTen(h, v)
  end function f_GetLineFairTen

  integer(c_int) function f_GetLineMaxTen(h, v) bind(c, name='f_GetLineMaxTen')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(out) :: v
    f_GetLineMaxTen = MD_GetLineMaxTen(h, v)
  end function f_GetLineMaxTen

  integer(c_int) function f_SetLineConstantEA(h, v) bind(c, name='f_SetLineConstantEA')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout) :: v
    f_SetLineConstantEA = MD_SetLineConstantEA(h, v)
  end function f_SetLineConstantEA

  integer(c_int) function f_SetLineUnstretchedLength(h, v) bind(c, name='f_SetLineUnstretchedLength')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout) :: v
    f_SetLineUnstretchedLength = MD_SetLineUnstretchedLength(h, v)
  end function f_SetLineUnstretchedLength

  integer(c_int) function f_SetLineUnstretchedLengthVel(h, v) bind(c, name='f_SetLineUnstretchedLengthVel')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout) :: v
    f_SetLineUnstretchedLengthVel = MD_SetLineUnstretchedLengthVel(h, v)
  end function f_SetLineUnstretchedLengthVel

  integer(c_int) function f_SetVerbosity(h, v) bind(c, name='f_SetVerbosity')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(inout) :: v
    f_SetVerbosity = MD_SetVerbosity(h, v)
  end function f_SetVerbosity

  integer(c_int) function f_SetLogLevel(h, v) bind(c, name='f_SetLogLevel')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(inout) :: v
    f_SetLogLevel = MD_SetLogLevel(h, v)
  end function f_SetLogLevel

  integer(c_int) function f_SetLinePressBend(h, v) bind(c, name='f_SetLinePressBend')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), intent(inout) :: v
    f_SetLinePressBend = MD_SetLinePressBend(h, v)
  end function f_SetLinePressBend

  integer(c_int) function f_GetBodyPos(h, v) bind(c, name='f_GetBodyPos')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetBodyPos = MD_GetBodyPos(h, v)
  end function f_GetBodyPos

  integer(c_int) function f_GetBodyAngle(h, v) bind(c, name='f_GetBodyAngle')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetBodyAngle = MD_GetBodyAngle(h, v)
  end function f_GetBodyAngle

  integer(c_int) function f_GetBodyVel(h, v) bind(c, name='f_GetBodyVel')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetBodyVel = MD_GetBodyVel(h, v)
  end function f_GetBodyVel

  integer(c_int) function f_GetBodyAngVel(h, v) bind(c, name='f_GetBodyAngVel')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetBodyAngVel = MD_GetBodyAngVel(h, v)
  end function f_GetBodyAngVel

  integer(c_int) function f_GetBodyForce(h, v) bind(c, name='f_GetBodyForce')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(6)
    f_GetBodyForce = MD_GetBodyForce(h, v)
  end function f_GetBodyForce

  integer(c_int) function f_GetBodyM(h, v) bind(c, name='f_GetBodyM')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(36)
    f_GetBodyM = MD_GetBodyM(h, v)
  end function f_GetBodyM

  integer(c_int) function f_GetRodForce(h, v) bind(c, name='f_GetRodForce')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(6)
    f_GetRodForce = MD_GetRodForce(h, v)
  end function f_GetRodForce

  integer(c_int) function f_GetRodM(h, v) bind(c, name='f_GetRodM')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(36)
    f_GetRodM = MD_GetRodM(h, v)
  end function f_GetRodM

  integer(c_int) function f_GetPointPos(h, v) bind(c, name='f_GetPointPos')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetPointPos = MD_GetPointPos(h, v)
  end function f_GetPointPos

  integer(c_int) function f_GetPointVel(h, v) bind(c, name='f_GetPointVel')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetPointVel = MD_GetPointVel(h, v)
  end function f_GetPointVel

  integer(c_int) function f_GetPointForce(h, v) bind(c, name='f_GetPointForce')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(3)
    f_GetPointForce = MD_GetPointForce(h, v)
  end function f_GetPointForce

  integer(c_int) function f_GetPointM(h, v) bind(c, name='f_GetPointM')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: v(9)
    f_GetPointM = MD_GetPointM(h, v)
  end function f_GetPointM

  integer(c_int) function f_ExternalWaveKinGetCoordinates(h, n, v) bind(c, name='f_ExternalWaveKinGetCoordinates')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    real(c_double), intent(inout), target :: v(n)
    f_ExternalWaveKinGetCoordinates = MD_ExternalWaveKinGetCoordinates(h, v)
  end function f_ExternalWaveKinGetCoordinates

  integer(c_int) function f_SetLinePressInt(h, n, v) bind(c, name='f_SetLinePressInt')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    real(c_double), intent(inout), target :: v(n)
    f_SetLinePressInt = MD_SetLinePressInt(h, v)
  end function f_SetLinePressInt

  integer(c_int) function f_GetRodNodePos(h, i, v) bind(c, name='f_GetRodNodePos')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetRodNodePos = MD_GetRodNodePos(h, i, v)
  end function f_GetRodNodePos

  integer(c_int) function f_GetRodNodeVel(h, i, v) bind(c, name='f_GetRodNodeVel')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetRodNodeVel = MD_GetRodNodeVel(h, i, v)
  end function f_GetRodNodeVel

  integer(c_int) function f_GetLineNodePos(h, i, v) bind(c, name='f_GetLineNodePos')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodePos = MD_GetLineNodePos(h, i, v)
  end function f_GetLineNodePos

  integer(c_int) function f_GetLineNodeVel(h, i, v) bind(c, name='f_GetLineNodeVel')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeVel = MD_GetLineNodeVel(h, i, v)
  end function f_GetLineNodeVel

  integer(c_int) function f_GetLineNodeForce(h, i, v) bind(c, name='f_GetLineNodeForce')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeForce = MD_GetLineNodeForce(h, i, v)
  end function f_GetLineNodeForce

  integer(c_int) function f_GetLineNodeTen(h, i, v) bind(c, name='f_GetLineNodeTen')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeTen = MD_GetLineNodeTen(h, i, v)
  end function f_GetLineNodeTen

  integer(c_int) function f_GetLineNodeBendStiff(h, i, v) bind(c, name='f_GetLineNodeBendStiff')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeBendStiff = MD_GetLineNodeBendStiff(h, i, v)
  end function f_GetLineNodeBendStiff

  integer(c_int) function f_GetLineNodeWeight(h, i, v) bind(c, name='f_GetLineNodeWeight')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeWeight = MD_GetLineNodeWeight(h, i, v)
  end function f_GetLineNodeWeight

  integer(c_int) function f_GetLineNodeDrag(h, i, v) bind(c, name='f_GetLineNodeDrag')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeDrag = MD_GetLineNodeDrag(h, i, v)
  end function f_GetLineNodeDrag

  integer(c_int) function f_GetLineNodeFroudeKrilov(h, i, v) bind(c, name='f_GetLineNodeFroudeKrilov')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeFroudeKrilov = MD_GetLineNodeFroudeKrilov(h, i, v)
  end function f_GetLineNodeFroudeKrilov

  integer(c_int) function f_GetLineNodeSeabedForce(h, i, v) bind(c, name='f_GetLineNodeSeabedForce')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(3)
    f_GetLineNodeSeabedForce = MD_GetLineNodeSeabedForce(h, i, v)
  end function f_GetLineNodeSeabedForce

  integer(c_int) function f_GetLineNodeM(h, i, v) bind(c, name='f_GetLineNodeM')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(inout), target :: v(9)
    f_GetLineNodeM = MD_GetLineNodeM(h, i, v)
  end function f_GetLineNodeM

  integer(c_int) function f_GetLineNodeCurv(h, i, v) bind(c, name='f_GetLineNodeCurv')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    real(c_double), intent(out) :: v
    f_GetLineNodeCurv = MD_GetLineNodeCurv(h, i, v)
  end function f_GetLineNodeCurv

  type(c_ptr) function f_GetWaves(h) bind(c, name='f_GetWaves')
    type(c_ptr), value, intent(in) :: h
    f_GetWaves = MD_GetWaves(h)
  end function f_GetWaves

  type(c_ptr) function f_GetSeafloor(h) bind(c, name='f_GetSeafloor')
    type(c_ptr), value, intent(in) :: h
    f_GetSeafloor = MD_GetSeafloor(h)
  end function f_GetSeafloor

  type(c_ptr) function f_GetBody(h, i) bind(c, name='f_GetBody')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    f_GetBody = MD_GetBody(h, i)
  end function f_GetBody

  type(c_ptr) function f_GetRod(h, i) bind(c, name='f_GetRod')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    f_GetRod = MD_GetRod(h, i)
  end function f_GetRod

  type(c_ptr) function f_GetPoint(h, i) bind(c, name='f_GetPoint')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    f_GetPoint = MD_GetPoint(h, i)
  end function f_GetPoint

  type(c_ptr) function f_GetLine(h, i) bind(c, name='f_GetLine')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    f_GetLine = MD_GetLine(h, i)
  end function f_GetLine

  integer(c_int) function f_SetLogFile(h, n, p) bind(c, name='f_SetLogFile')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SetLogFile = MD_SetLogFile(h, s)
  end function f_SetLogFile

  integer(c_int) function f_Save(h, n, p) bind(c, name='f_Save')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_Save = MD_Save(h, s)
  end function f_Save

  integer(c_int) function f_Load(h, n, p) bind(c, name='f_Load')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_Load = MD_Load(h, s)
  end function f_Load

  integer(c_int) function f_SaveVTK(h, n, p) bind(c, name='f_SaveVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SaveVTK = MD_SaveVTK(h, s)
  end function f_SaveVTK

  integer(c_int) function f_SaveBodyVTK(h, n, p) bind(c, name='f_SaveBodyVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SaveBodyVTK = MD_SaveBodyVTK(h, s)
  end function f_SaveBodyVTK

  integer(c_int) function f_UseBodyVTK(h, n, p) bind(c, name='f_UseBodyVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_UseBodyVTK = MD_UseBodyVTK(h, s)
  end function f_UseBodyVTK

  integer(c_int) function f_SaveRodVTK(h, n, p) bind(c, name='f_SaveRodVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SaveRodVTK = MD_SaveRodVTK(h, s)
  end function f_SaveRodVTK

  integer(c_int) function f_SavePointVTK(h, n, p) bind(c, name='f_SavePointVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SavePointVTK = MD_SavePointVTK(h, s)
  end function f_SavePointVTK

  integer(c_int) function f_SaveLineVTK(h, n, p) bind(c, name='f_SaveLineVTK')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_SaveLineVTK = MD_SaveLineVTK(h, s)
  end function f_SaveLineVTK

  type(c_ptr) function f_Create(n, p) bind(c, name='f_Create')
    integer(c_int), value, intent(in) :: n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    s = ' '
    call cstr(p, n, s)
    f_Create = MD_Create(s)
  end function f_Create

  integer(c_int) function f_Log(h, lev, n, p) bind(c, name='f_Log')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: lev, n
    character(kind=c_char), intent(in) :: p(*)
    character(len=n + 5) :: s
    integer(c_int) :: l
    l = lev
    s = ' '
    call cstr(p, n, s)
    f_Log = MD_Log(h, l, s)
  end function f_Log

  integer(c_int) function f_Init(h, n, x, xd, noic) bind(c, name='f_Init')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n, noic
    real(c_double), intent(inout), target :: x(n), xd(n)
    if (noic /= 0) then
      f_Init = MD_Init_NoIC(h, x, xd)
    else
      f_Init = MD_Init(h, x, xd)
    end if
  end function f_Init

  integer(c_int) function f_Step(h, n, x, xd, f, t, dt) bind(c, name='f_Step')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    real(c_double), intent(inout), target :: x(n), xd(n), f(n)
    real(c_double), intent(inout) :: t, dt
    f_Step = MD_Step(h, x, xd, f, t, dt)
  end function f_Step

  integer(c_int) function f_Close(h) bind(c, name='f_Close')
    type(c_ptr), value, intent(in) :: h
    f_Close = MD_Close(h)
  end function f_Close

  integer(c_int) function f_ExternalWaveKinSet(h, n, u, ud, t) bind(c, name='f_ExternalWaveKinSet')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    real(c_double), intent(inout), target :: u(n), ud(n)
    real(c_double), value, intent(in) :: t
    f_ExternalWaveKinSet = MD_ExternalWaveKinSet(h, u, ud, t)
  end function f_ExternalWaveKinSet

  integer(c_int) function f_GetFASTtens(h, n, a, b, c, d) bind(c, name='f_GetFASTtens')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: n
    real(c_double), intent(inout), target :: a(n), b(n), c(n), d(n)
    integer(c_int) :: nn
    nn = n
    f_GetFASTtens = MD_GetFASTtens(h, nn, a, b, c, d)
  end function f_GetFASTtens

  integer(c_int) function f_GetWavesKin(h, x, y, z, u, ud, zeta, pdyn, sf) bind(c, name='f_GetWavesKin')
    type(c_ptr), value, intent(in) :: h, sf
    real(c_double), value, intent(in) :: x, y, z
    real(c_double), intent(inout), target :: u(3), ud(3)
    real(c_double), intent(out) :: zeta, pdyn
    f_GetWavesKin = MD_GetWavesKin(h, x, y, z, 0.0_c_double, u, ud, zeta, pdyn, sf)
  end function f_GetWavesKin

  integer(c_int) function f_GetDepthAt(h, x, y, d) bind(c, name='f_GetDepthAt')
    type(c_ptr), value, intent(in) :: h
    real(c_double), value, intent(in) :: x, y
    real(c_double), intent(out) :: d
    f_GetDepthAt = MD_GetDepthAt(h, x, y, d)
  end function f_GetDepthAt

  integer(c_int) function f_GetBodyState(h, r, rd) bind(c, name='f_GetBodyState')
    type(c_ptr), value, intent(in) :: h
    real(c_double), intent(inout), target :: r(6), rd(6)
    f_GetBodyState = MD_GetBodyState(h, r, rd)
  end function f_GetBodyState

  integer(c_int) function f_GetPointAttached(h, i, l, e) bind(c, name='f_GetPointAttached')
    type(c_ptr), value, intent(in) :: h
    integer(c_int), value, intent(in) :: i
    type(c_ptr), intent(out) :: l
    integer(c_int), intent(out) :: e
    f_GetPointAttached = MD_GetPointAttached(h, i, l, e)
  end function f_GetPointAttached

end module vf_shim
