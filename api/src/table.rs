// Generated by gen/gen_api.py from the public API of /repo. Do not edit.
use crate::support::*;
use directx_math::*;
use directx_math::collision::*;

unsafe extern "C" fn t0(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMConvertToRadians(v::<f32>(a,0))); }) } // XMConvertToRadians
unsafe extern "C" fn t1(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMConvertToDegrees(v::<f32>(a,0))); }) } // XMConvertToDegrees
unsafe extern "C" fn t2(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAllTrue(v::<u32>(a,0))); }) } // XMComparisonAllTrue
unsafe extern "C" fn t3(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAnyTrue(v::<u32>(a,0))); }) } // XMComparisonAnyTrue
unsafe extern "C" fn t4(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAllFalse(v::<u32>(a,0))); }) } // XMComparisonAllFalse
unsafe extern "C" fn t5(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAnyFalse(v::<u32>(a,0))); }) } // XMComparisonAnyFalse
unsafe extern "C" fn t6(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonMixed(v::<u32>(a,0))); }) } // XMComparisonMixed
unsafe extern "C" fn t7(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAllInBounds(v::<u32>(a,0))); }) } // XMComparisonAllInBounds
unsafe extern "C" fn t8(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMComparisonAnyOutOfBounds(v::<u32>(a,0))); }) } // XMComparisonAnyOutOfBounds
unsafe extern "C" fn t9(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,4,directx_math::XMVectorSetBinaryConstant(v::<u32>(a,0), v::<u32>(a,1), v::<u32>(a,2), v::<u32>(a,3))); }) } // XMVectorSetBinaryConstant
unsafe extern "C" fn t10(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSplatConstant(v::<i32>(a,0), v::<u32>(a,1))); }) } // XMVectorSplatConstant
unsafe extern "C" fn t11(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSplatConstantInt(v::<i32>(a,0))); }) } // XMVectorSplatConstantInt
unsafe extern "C" fn t12(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorZero()); }) } // XMVectorZero
unsafe extern "C" fn t13(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,4,directx_math::XMVectorSet(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMVectorSet
unsafe extern "C" fn t14(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,4,directx_math::XMVectorSetInt(v::<u32>(a,0), v::<u32>(a,1), v::<u32>(a,2), v::<u32>(a,3))); }) } // XMVectorSetInt
unsafe extern "C" fn t15(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReplicate(v::<f32>(a,0))); }) } // XMVectorReplicate
unsafe extern "C" fn t16(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReplicatePtr(r::<f32>(a,0))); }) } // XMVectorReplicatePtr
unsafe extern "C" fn t17(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReplicateInt(v::<u32>(a,0))); }) } // XMVectorReplicateInt
unsafe extern "C" fn t18(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorTrueInt()); }) } // XMVectorTrueInt
unsafe extern "C" fn t19(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorFalseInt()); }) } // XMVectorFalseInt
unsafe extern "C" fn t20(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSplatX(v::<XMVECTOR>(a,0))); }) } // XMVectorSplatX
unsafe extern "C" fn t21(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSplatY(v::<XMVECTOR>(a,0))); }) } // XMVectorSplatY
unsafe extern "C" fn t22(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSplatZ(v::<XMVECTOR>(a,0))); }) } // XMVectorSplatZ
unsafe extern "C" fn t23(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSplatW(v::<XMVECTOR>(a,0))); }) } // XMVectorSplatW
unsafe extern "C" fn t24(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorSplatOne()); }) } // XMVectorSplatOne
unsafe extern "C" fn t25(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorSplatInfinity()); }) } // XMVectorSplatInfinity
unsafe extern "C" fn t26(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorSplatQNaN()); }) } // XMVectorSplatQNaN
unsafe extern "C" fn t27(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorSplatEpsilon()); }) } // XMVectorSplatEpsilon
unsafe extern "C" fn t28(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMVectorSplatSignMask()); }) } // XMVectorSplatSignMask
unsafe extern "C" fn t29(a: Args) -> u32 { guard(|| { w::<f32>(a,2,directx_math::XMVectorGetByIndex(v::<XMVECTOR>(a,0), v::<usize>(a,1))); }) } // XMVectorGetByIndex
unsafe extern "C" fn t30(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMVectorGetX(v::<XMVECTOR>(a,0))); }) } // XMVectorGetX
unsafe extern "C" fn t31(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMVectorGetY(v::<XMVECTOR>(a,0))); }) } // XMVectorGetY
unsafe extern "C" fn t32(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMVectorGetZ(v::<XMVECTOR>(a,0))); }) } // XMVectorGetZ
unsafe extern "C" fn t33(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMVectorGetW(v::<XMVECTOR>(a,0))); }) } // XMVectorGetW
unsafe extern "C" fn t34(a: Args) -> u32 { guard(|| { directx_math::XMVectorGetXPtr(m::<f32>(a,0), v::<XMVECTOR>(a,1)); }) } // XMVectorGetXPtr
unsafe extern "C" fn t35(a: Args) -> u32 { guard(|| { directx_math::XMVectorGetYPtr(m::<f32>(a,0), v::<XMVECTOR>(a,1)); }) } // XMVectorGetYPtr
unsafe extern "C" fn t36(a: Args) -> u32 { guard(|| { directx_math::XMVectorGetZPtr(m::<f32>(a,0), v::<XMVECTOR>(a,1)); }) } // XMVectorGetZPtr
unsafe extern "C" fn t37(a: Args) -> u32 { guard(|| { directx_math::XMVectorGetWPtr(m::<f32>(a,0), v::<XMVECTOR>(a,1)); }) } // XMVectorGetWPtr
unsafe extern "C" fn t38(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVectorGetIntByIndex(v::<XMVECTOR>(a,0), v::<usize>(a,1))); }) } // XMVectorGetIntByIndex
unsafe extern "C" fn t39(a: Args) -> u32 { guard(|| { w::<u32>(a,1,directx_math::XMVectorGetIntX(v::<XMVECTOR>(a,0))); }) } // XMVectorGetIntX
unsafe extern "C" fn t40(a: Args) -> u32 { guard(|| { w::<u32>(a,1,directx_math::XMVectorGetIntY(v::<XMVECTOR>(a,0))); }) } // XMVectorGetIntY
unsafe extern "C" fn t41(a: Args) -> u32 { guard(|| { w::<u32>(a,1,directx_math::XMVectorGetIntZ(v::<XMVECTOR>(a,0))); }) } // XMVectorGetIntZ
unsafe extern "C" fn t42(a: Args) -> u32 { guard(|| { w::<u32>(a,1,directx_math::XMVectorGetIntW(v::<XMVECTOR>(a,0))); }) } // XMVectorGetIntW
unsafe extern "C" fn t43(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorSetByIndex(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<usize>(a,2))); }) } // XMVectorSetByIndex
unsafe extern "C" fn t44(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetX(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMVectorSetX
unsafe extern "C" fn t45(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetY(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMVectorSetY
unsafe extern "C" fn t46(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetZ(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMVectorSetZ
unsafe extern "C" fn t47(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetW(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMVectorSetW
unsafe extern "C" fn t48(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorSetIntByIndex(v::<XMVECTOR>(a,0), v::<u32>(a,1), v::<usize>(a,2))); }) } // XMVectorSetIntByIndex
unsafe extern "C" fn t49(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetIntX(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorSetIntX
unsafe extern "C" fn t50(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetIntY(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorSetIntY
unsafe extern "C" fn t51(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetIntZ(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorSetIntZ
unsafe extern "C" fn t52(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSetIntW(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorSetIntW
unsafe extern "C" fn t53(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorSwizzle(v::<XMVECTOR>(a,0), v::<u32>(a,1), v::<u32>(a,2), v::<u32>(a,3), v::<u32>(a,4))); }) } // XMVectorSwizzle
unsafe extern "C" fn t54(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,6,directx_math::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<u32>(a,2), v::<u32>(a,3), v::<u32>(a,4), v::<u32>(a,5))); }) } // XMVectorPermute
unsafe extern "C" fn t55(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,4,directx_math::XMVectorSelectControl(v::<u32>(a,0), v::<u32>(a,1), v::<u32>(a,2), v::<u32>(a,3))); }) } // XMVectorSelectControl
unsafe extern "C" fn t56(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorSelect(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorSelect
unsafe extern "C" fn t57(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMergeXY(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMergeXY
unsafe extern "C" fn t58(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMergeZW(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMergeZW
unsafe extern "C" fn t59(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorShiftLeft(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<u32>(a,2))); }) } // XMVectorShiftLeft
unsafe extern "C" fn t60(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorRotateLeft(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorRotateLeft
unsafe extern "C" fn t61(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorRotateRight(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMVectorRotateRight
unsafe extern "C" fn t62(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,7,directx_math::XMVectorInsert(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<u32>(a,2), v::<u32>(a,3), v::<u32>(a,4), v::<u32>(a,5), v::<u32>(a,6))); }) } // XMVectorInsert
unsafe extern "C" fn t63(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorEqual
unsafe extern "C" fn t64(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorEqualR(m::<u32>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorEqualR
unsafe extern "C" fn t65(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorEqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorEqualInt
unsafe extern "C" fn t66(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorEqualIntR(m::<u32>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorEqualIntR
unsafe extern "C" fn t67(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorNearEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorNearEqual
unsafe extern "C" fn t68(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorNotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorNotEqual
unsafe extern "C" fn t69(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorNotEqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorNotEqualInt
unsafe extern "C" fn t70(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorGreater(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorGreater
unsafe extern "C" fn t71(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorGreaterR(m::<u32>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorGreaterR
unsafe extern "C" fn t72(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorGreaterOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorGreaterOrEqual
unsafe extern "C" fn t73(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorGreaterOrEqualR(m::<u32>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorGreaterOrEqualR
unsafe extern "C" fn t74(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorLess(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorLess
unsafe extern "C" fn t75(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorLessOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorLessOrEqual
unsafe extern "C" fn t76(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorInBounds(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorInBounds
unsafe extern "C" fn t77(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorInBoundsR(m::<u32>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorInBoundsR
unsafe extern "C" fn t78(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorIsNaN(v::<XMVECTOR>(a,0))); }) } // XMVectorIsNaN
unsafe extern "C" fn t79(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorIsInfinite(v::<XMVECTOR>(a,0))); }) } // XMVectorIsInfinite
unsafe extern "C" fn t80(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMin(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMin
unsafe extern "C" fn t81(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMax(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMax
unsafe extern "C" fn t82(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorRound(v::<XMVECTOR>(a,0))); }) } // XMVectorRound
unsafe extern "C" fn t83(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorTruncate(v::<XMVECTOR>(a,0))); }) } // XMVectorTruncate
unsafe extern "C" fn t84(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorFloor(v::<XMVECTOR>(a,0))); }) } // XMVectorFloor
unsafe extern "C" fn t85(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorCeiling(v::<XMVECTOR>(a,0))); }) } // XMVectorCeiling
unsafe extern "C" fn t86(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorClamp(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorClamp
unsafe extern "C" fn t87(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSaturate(v::<XMVECTOR>(a,0))); }) } // XMVectorSaturate
unsafe extern "C" fn t88(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorAndInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorAndInt
unsafe extern "C" fn t89(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorAndCInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorAndCInt
unsafe extern "C" fn t90(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorOrInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorOrInt
unsafe extern "C" fn t91(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorNorInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorNorInt
unsafe extern "C" fn t92(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorXorInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorXorInt
unsafe extern "C" fn t93(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorNegate(v::<XMVECTOR>(a,0))); }) } // XMVectorNegate
unsafe extern "C" fn t94(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorAdd(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorAdd
unsafe extern "C" fn t95(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSum(v::<XMVECTOR>(a,0))); }) } // XMVectorSum
unsafe extern "C" fn t96(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorAddAngles(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorAddAngles
unsafe extern "C" fn t97(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSubtract(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorSubtract
unsafe extern "C" fn t98(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorSubtractAngles(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorSubtractAngles
unsafe extern "C" fn t99(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMultiply(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMultiply
unsafe extern "C" fn t100(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorMultiplyAdd(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorMultiplyAdd
unsafe extern "C" fn t101(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorDivide(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorDivide
unsafe extern "C" fn t102(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorNegativeMultiplySubtract(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorNegativeMultiplySubtract
unsafe extern "C" fn t103(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorScale(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMVectorScale
unsafe extern "C" fn t104(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReciprocalEst(v::<XMVECTOR>(a,0))); }) } // XMVectorReciprocalEst
unsafe extern "C" fn t105(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReciprocal(v::<XMVECTOR>(a,0))); }) } // XMVectorReciprocal
unsafe extern "C" fn t106(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSqrtEst(v::<XMVECTOR>(a,0))); }) } // XMVectorSqrtEst
unsafe extern "C" fn t107(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSqrt(v::<XMVECTOR>(a,0))); }) } // XMVectorSqrt
unsafe extern "C" fn t108(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReciprocalSqrtEst(v::<XMVECTOR>(a,0))); }) } // XMVectorReciprocalSqrtEst
unsafe extern "C" fn t109(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorReciprocalSqrt(v::<XMVECTOR>(a,0))); }) } // XMVectorReciprocalSqrt
unsafe extern "C" fn t110(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorExp2(v::<XMVECTOR>(a,0))); }) } // XMVectorExp2
unsafe extern "C" fn t111(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorExp(v::<XMVECTOR>(a,0))); }) } // XMVectorExp
unsafe extern "C" fn t112(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorPow(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorPow
unsafe extern "C" fn t113(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorAbs(v::<XMVECTOR>(a,0))); }) } // XMVectorAbs
unsafe extern "C" fn t114(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorMod(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorMod
unsafe extern "C" fn t115(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorModAngles(v::<XMVECTOR>(a,0))); }) } // XMVectorModAngles
unsafe extern "C" fn t116(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSin(v::<XMVECTOR>(a,0))); }) } // XMVectorSin
unsafe extern "C" fn t117(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorCos(v::<XMVECTOR>(a,0))); }) } // XMVectorCos
unsafe extern "C" fn t118(a: Args) -> u32 { guard(|| { directx_math::XMVectorSinCos(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2)); }) } // XMVectorSinCos
unsafe extern "C" fn t119(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorTan(v::<XMVECTOR>(a,0))); }) } // XMVectorTan
unsafe extern "C" fn t120(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSinH(v::<XMVECTOR>(a,0))); }) } // XMVectorSinH
unsafe extern "C" fn t121(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorCosH(v::<XMVECTOR>(a,0))); }) } // XMVectorCosH
unsafe extern "C" fn t122(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorTanH(v::<XMVECTOR>(a,0))); }) } // XMVectorTanH
unsafe extern "C" fn t123(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorASin(v::<XMVECTOR>(a,0))); }) } // XMVectorASin
unsafe extern "C" fn t124(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorACos(v::<XMVECTOR>(a,0))); }) } // XMVectorACos
unsafe extern "C" fn t125(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorATan(v::<XMVECTOR>(a,0))); }) } // XMVectorATan
unsafe extern "C" fn t126(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorATan2(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorATan2
unsafe extern "C" fn t127(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorSinEst(v::<XMVECTOR>(a,0))); }) } // XMVectorSinEst
unsafe extern "C" fn t128(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorCosEst(v::<XMVECTOR>(a,0))); }) } // XMVectorCosEst
unsafe extern "C" fn t129(a: Args) -> u32 { guard(|| { directx_math::XMVectorSinCosEst(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2)); }) } // XMVectorSinCosEst
unsafe extern "C" fn t130(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorTanEst(v::<XMVECTOR>(a,0))); }) } // XMVectorTanEst
unsafe extern "C" fn t131(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorASinEst(v::<XMVECTOR>(a,0))); }) } // XMVectorASinEst
unsafe extern "C" fn t132(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorACosEst(v::<XMVECTOR>(a,0))); }) } // XMVectorACosEst
unsafe extern "C" fn t133(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVectorATanEst(v::<XMVECTOR>(a,0))); }) } // XMVectorATanEst
unsafe extern "C" fn t134(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVectorATan2Est(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVectorATan2Est
unsafe extern "C" fn t135(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorLerp(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2))); }) } // XMVectorLerp
unsafe extern "C" fn t136(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVectorLerpV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVectorLerpV
unsafe extern "C" fn t137(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorHermite(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<f32>(a,4))); }) } // XMVectorHermite
unsafe extern "C" fn t138(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorHermiteV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4))); }) } // XMVectorHermiteV
unsafe extern "C" fn t139(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorCatmullRom(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<f32>(a,4))); }) } // XMVectorCatmullRom
unsafe extern "C" fn t140(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorCatmullRomV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4))); }) } // XMVectorCatmullRomV
unsafe extern "C" fn t141(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorBaryCentric(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<f32>(a,3), v::<f32>(a,4))); }) } // XMVectorBaryCentric
unsafe extern "C" fn t142(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMVectorBaryCentricV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4))); }) } // XMVectorBaryCentricV
unsafe extern "C" fn t143(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2Equal(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Equal
unsafe extern "C" fn t144(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector2EqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2EqualR
unsafe extern "C" fn t145(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2EqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2EqualInt
unsafe extern "C" fn t146(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector2EqualIntR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2EqualIntR
unsafe extern "C" fn t147(a: Args) -> u32 { guard(|| { w::<bool>(a,3,directx_math::XMVector2NearEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector2NearEqual
unsafe extern "C" fn t148(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2NotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2NotEqual
unsafe extern "C" fn t149(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2NotEqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2NotEqualInt
unsafe extern "C" fn t150(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2Greater(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Greater
unsafe extern "C" fn t151(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector2GreaterR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2GreaterR
unsafe extern "C" fn t152(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2GreaterOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2GreaterOrEqual
unsafe extern "C" fn t153(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector2GreaterOrEqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2GreaterOrEqualR
unsafe extern "C" fn t154(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2Less(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Less
unsafe extern "C" fn t155(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2LessOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2LessOrEqual
unsafe extern "C" fn t156(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector2InBounds(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2InBounds
unsafe extern "C" fn t157(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector2IsNaN(v::<XMVECTOR>(a,0))); }) } // XMVector2IsNaN
unsafe extern "C" fn t158(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector2IsInfinite(v::<XMVECTOR>(a,0))); }) } // XMVector2IsInfinite
unsafe extern "C" fn t159(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2Dot(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Dot
unsafe extern "C" fn t160(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2Cross(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Cross
unsafe extern "C" fn t161(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2LengthSq(v::<XMVECTOR>(a,0))); }) } // XMVector2LengthSq
unsafe extern "C" fn t162(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2ReciprocalLengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector2ReciprocalLengthEst
unsafe extern "C" fn t163(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2ReciprocalLength(v::<XMVECTOR>(a,0))); }) } // XMVector2ReciprocalLength
unsafe extern "C" fn t164(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2LengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector2LengthEst
unsafe extern "C" fn t165(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2Length(v::<XMVECTOR>(a,0))); }) } // XMVector2Length
unsafe extern "C" fn t166(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2NormalizeEst(v::<XMVECTOR>(a,0))); }) } // XMVector2NormalizeEst
unsafe extern "C" fn t167(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2Normalize(v::<XMVECTOR>(a,0))); }) } // XMVector2Normalize
unsafe extern "C" fn t168(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector2ClampLength(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMVector2ClampLength
unsafe extern "C" fn t169(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector2ClampLengthV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector2ClampLengthV
unsafe extern "C" fn t170(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2Reflect(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2Reflect
unsafe extern "C" fn t171(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector2Refract(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2))); }) } // XMVector2Refract
unsafe extern "C" fn t172(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector2RefractV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector2RefractV
unsafe extern "C" fn t173(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector2Orthogonal(v::<XMVECTOR>(a,0))); }) } // XMVector2Orthogonal
unsafe extern "C" fn t174(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2AngleBetweenNormalsEst(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2AngleBetweenNormalsEst
unsafe extern "C" fn t175(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2AngleBetweenNormals(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2AngleBetweenNormals
unsafe extern "C" fn t176(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2AngleBetweenVectors(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector2AngleBetweenVectors
unsafe extern "C" fn t177(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector2LinePointDistance(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector2LinePointDistance
unsafe extern "C" fn t178(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,4,directx_math::XMVector2IntersectLine(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // XMVector2IntersectLine
unsafe extern "C" fn t179(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2Transform(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector2Transform
unsafe extern "C" fn t180(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2TransformCoord(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector2TransformCoord
unsafe extern "C" fn t181(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector2TransformNormal(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector2TransformNormal
unsafe extern "C" fn t182(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3Equal(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Equal
unsafe extern "C" fn t183(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector3EqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3EqualR
unsafe extern "C" fn t184(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3EqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3EqualInt
unsafe extern "C" fn t185(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector3EqualIntR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3EqualIntR
unsafe extern "C" fn t186(a: Args) -> u32 { guard(|| { w::<bool>(a,3,directx_math::XMVector3NearEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector3NearEqual
unsafe extern "C" fn t187(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3NotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3NotEqual
unsafe extern "C" fn t188(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3NotEqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3NotEqualInt
unsafe extern "C" fn t189(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3Greater(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Greater
unsafe extern "C" fn t190(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector3GreaterR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3GreaterR
unsafe extern "C" fn t191(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3GreaterOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3GreaterOrEqual
unsafe extern "C" fn t192(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector3GreaterOrEqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3GreaterOrEqualR
unsafe extern "C" fn t193(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3Less(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Less
unsafe extern "C" fn t194(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3LessOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3LessOrEqual
unsafe extern "C" fn t195(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector3InBounds(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3InBounds
unsafe extern "C" fn t196(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector3IsNaN(v::<XMVECTOR>(a,0))); }) } // XMVector3IsNaN
unsafe extern "C" fn t197(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector3IsInfinite(v::<XMVECTOR>(a,0))); }) } // XMVector3IsInfinite
unsafe extern "C" fn t198(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3Dot(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Dot
unsafe extern "C" fn t199(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3Cross(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Cross
unsafe extern "C" fn t200(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3LengthSq(v::<XMVECTOR>(a,0))); }) } // XMVector3LengthSq
unsafe extern "C" fn t201(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3ReciprocalLengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector3ReciprocalLengthEst
unsafe extern "C" fn t202(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3ReciprocalLength(v::<XMVECTOR>(a,0))); }) } // XMVector3ReciprocalLength
unsafe extern "C" fn t203(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3LengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector3LengthEst
unsafe extern "C" fn t204(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3Length(v::<XMVECTOR>(a,0))); }) } // XMVector3Length
unsafe extern "C" fn t205(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3NormalizeEst(v::<XMVECTOR>(a,0))); }) } // XMVector3NormalizeEst
unsafe extern "C" fn t206(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3Normalize(v::<XMVECTOR>(a,0))); }) } // XMVector3Normalize
unsafe extern "C" fn t207(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector3ClampLength(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMVector3ClampLength
unsafe extern "C" fn t208(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector3ClampLengthV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector3ClampLengthV
unsafe extern "C" fn t209(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3Reflect(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Reflect
unsafe extern "C" fn t210(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector3Refract(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2))); }) } // XMVector3Refract
unsafe extern "C" fn t211(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector3RefractV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector3RefractV
unsafe extern "C" fn t212(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector3Orthogonal(v::<XMVECTOR>(a,0))); }) } // XMVector3Orthogonal
unsafe extern "C" fn t213(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3AngleBetweenNormalsEst(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3AngleBetweenNormalsEst
unsafe extern "C" fn t214(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3AngleBetweenNormals(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3AngleBetweenNormals
unsafe extern "C" fn t215(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3AngleBetweenVectors(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3AngleBetweenVectors
unsafe extern "C" fn t216(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector3LinePointDistance(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector3LinePointDistance
unsafe extern "C" fn t217(a: Args) -> u32 { guard(|| { directx_math::XMVector3ComponentsFromNormal(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3)); }) } // XMVector3ComponentsFromNormal
unsafe extern "C" fn t218(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3Rotate(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3Rotate
unsafe extern "C" fn t219(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3InverseRotate(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector3InverseRotate
unsafe extern "C" fn t220(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3Transform(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector3Transform
unsafe extern "C" fn t221(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3TransformCoord(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector3TransformCoord
unsafe extern "C" fn t222(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector3TransformNormal(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector3TransformNormal
unsafe extern "C" fn t223(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,10,directx_math::XMVector3Project(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5), v::<f32>(a,6), v::<XMMATRIX>(a,7), r::<XMMATRIX>(a,8), r::<XMMATRIX>(a,9))); }) } // XMVector3Project
unsafe extern "C" fn t224(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,10,directx_math::XMVector3Unproject(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5), v::<f32>(a,6), v::<XMMATRIX>(a,7), r::<XMMATRIX>(a,8), r::<XMMATRIX>(a,9))); }) } // XMVector3Unproject
unsafe extern "C" fn t225(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4Equal(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4Equal
unsafe extern "C" fn t226(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector4EqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4EqualR
unsafe extern "C" fn t227(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4EqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4EqualInt
unsafe extern "C" fn t228(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector4EqualIntR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4EqualIntR
unsafe extern "C" fn t229(a: Args) -> u32 { guard(|| { w::<bool>(a,3,directx_math::XMVector4NearEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector4NearEqual
unsafe extern "C" fn t230(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4NotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4NotEqual
unsafe extern "C" fn t231(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4NotEqualInt(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4NotEqualInt
unsafe extern "C" fn t232(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4Greater(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4Greater
unsafe extern "C" fn t233(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector4GreaterR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4GreaterR
unsafe extern "C" fn t234(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4GreaterOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4GreaterOrEqual
unsafe extern "C" fn t235(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMVector4GreaterOrEqualR(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4GreaterOrEqualR
unsafe extern "C" fn t236(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4Less(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4Less
unsafe extern "C" fn t237(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4LessOrEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4LessOrEqual
unsafe extern "C" fn t238(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMVector4InBounds(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4InBounds
unsafe extern "C" fn t239(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector4IsNaN(v::<XMVECTOR>(a,0))); }) } // XMVector4IsNaN
unsafe extern "C" fn t240(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMVector4IsInfinite(v::<XMVECTOR>(a,0))); }) } // XMVector4IsInfinite
unsafe extern "C" fn t241(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4Dot(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4Dot
unsafe extern "C" fn t242(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector4Cross(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector4Cross
unsafe extern "C" fn t243(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4LengthSq(v::<XMVECTOR>(a,0))); }) } // XMVector4LengthSq
unsafe extern "C" fn t244(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4ReciprocalLengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector4ReciprocalLengthEst
unsafe extern "C" fn t245(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4ReciprocalLength(v::<XMVECTOR>(a,0))); }) } // XMVector4ReciprocalLength
unsafe extern "C" fn t246(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4LengthEst(v::<XMVECTOR>(a,0))); }) } // XMVector4LengthEst
unsafe extern "C" fn t247(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4Length(v::<XMVECTOR>(a,0))); }) } // XMVector4Length
unsafe extern "C" fn t248(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4NormalizeEst(v::<XMVECTOR>(a,0))); }) } // XMVector4NormalizeEst
unsafe extern "C" fn t249(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4Normalize(v::<XMVECTOR>(a,0))); }) } // XMVector4Normalize
unsafe extern "C" fn t250(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector4ClampLength(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMVector4ClampLength
unsafe extern "C" fn t251(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector4ClampLengthV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector4ClampLengthV
unsafe extern "C" fn t252(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4Reflect(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4Reflect
unsafe extern "C" fn t253(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector4Refract(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2))); }) } // XMVector4Refract
unsafe extern "C" fn t254(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMVector4RefractV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMVector4RefractV
unsafe extern "C" fn t255(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMVector4Orthogonal(v::<XMVECTOR>(a,0))); }) } // XMVector4Orthogonal
unsafe extern "C" fn t256(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4AngleBetweenNormalsEst(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4AngleBetweenNormalsEst
unsafe extern "C" fn t257(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4AngleBetweenNormals(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4AngleBetweenNormals
unsafe extern "C" fn t258(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4AngleBetweenVectors(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMVector4AngleBetweenVectors
unsafe extern "C" fn t259(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMVector4Transform(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMVector4Transform
unsafe extern "C" fn t260(a: Args) -> u32 { guard(|| { w::<XMVector>(a,4,XMVector::set(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMVector::set
unsafe extern "C" fn t261(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMConvertVectorIntToFloat(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMConvertVectorIntToFloat
unsafe extern "C" fn t262(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMConvertVectorFloatToInt(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMConvertVectorFloatToInt
unsafe extern "C" fn t263(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMConvertVectorUIntToFloat(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMConvertVectorUIntToFloat
unsafe extern "C" fn t264(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMConvertVectorFloatToUInt(v::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // XMConvertVectorFloatToUInt
unsafe extern "C" fn t265(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadInt2(r::<[u32; 2]>(a,0))); }) } // XMLoadInt2
unsafe extern "C" fn t266(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadFloat2(r::<XMFLOAT2>(a,0))); }) } // XMLoadFloat2
unsafe extern "C" fn t267(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadInt3(r::<[u32; 3]>(a,0))); }) } // XMLoadInt3
unsafe extern "C" fn t268(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadFloat3(r::<XMFLOAT3>(a,0))); }) } // XMLoadFloat3
unsafe extern "C" fn t269(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadFloat3A(r::<Align16<XMFLOAT3>>(a,0))); }) } // XMLoadFloat3A
unsafe extern "C" fn t270(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadInt4(r::<[u32; 4]>(a,0))); }) } // XMLoadInt4
unsafe extern "C" fn t271(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadFloat4(r::<XMFLOAT4>(a,0))); }) } // XMLoadFloat4
unsafe extern "C" fn t272(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMLoadFloat4A(r::<Align16<XMFLOAT4>>(a,0))); }) } // XMLoadFloat4A
unsafe extern "C" fn t273(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMLoadFloat3x3(r::<XMFLOAT3X3>(a,0))); }) } // XMLoadFloat3x3
unsafe extern "C" fn t274(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMLoadFloat4x3(r::<XMFLOAT4X3>(a,0))); }) } // XMLoadFloat4x3
unsafe extern "C" fn t275(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMLoadFloat3x4(r::<XMFLOAT3X4>(a,0))); }) } // XMLoadFloat3x4
unsafe extern "C" fn t276(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMLoadFloat4x4(r::<XMFLOAT4X4>(a,0))); }) } // XMLoadFloat4x4
unsafe extern "C" fn t277(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMLoadFloat4x4A(r::<Align16<XMFLOAT4X4>>(a,0))); }) } // XMLoadFloat4x4A
unsafe extern "C" fn t278(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat(m::<f32>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat
unsafe extern "C" fn t279(a: Args) -> u32 { guard(|| { directx_math::XMStoreInt2(m::<[u32; 2]>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreInt2
unsafe extern "C" fn t280(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat2(m::<XMFLOAT2>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat2
unsafe extern "C" fn t281(a: Args) -> u32 { guard(|| { directx_math::XMStoreInt3(m::<[u32; 3]>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreInt3
unsafe extern "C" fn t282(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat3(m::<XMFLOAT3>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat3
unsafe extern "C" fn t283(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat3A(m::<Align16<XMFLOAT3>>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat3A
unsafe extern "C" fn t284(a: Args) -> u32 { guard(|| { directx_math::XMStoreInt4(m::<[u32; 4]>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreInt4
unsafe extern "C" fn t285(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat4(m::<XMFLOAT4>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat4
unsafe extern "C" fn t286(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat4A(m::<Align16<XMFLOAT4>>(a,0), v::<XMVECTOR>(a,1)); }) } // XMStoreFloat4A
unsafe extern "C" fn t287(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat3x3(m::<XMFLOAT3X3>(a,0), v::<XMMATRIX>(a,1)); }) } // XMStoreFloat3x3
unsafe extern "C" fn t288(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat4x3(m::<XMFLOAT4X3>(a,0), v::<XMMATRIX>(a,1)); }) } // XMStoreFloat4x3
unsafe extern "C" fn t289(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat3x4(m::<XMFLOAT3X4>(a,0), v::<XMMATRIX>(a,1)); }) } // XMStoreFloat3x4
unsafe extern "C" fn t290(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat4x4(m::<XMFLOAT4X4>(a,0), v::<XMMATRIX>(a,1)); }) } // XMStoreFloat4x4
unsafe extern "C" fn t291(a: Args) -> u32 { guard(|| { directx_math::XMStoreFloat4x4A(m::<Align16<XMFLOAT4X4>>(a,0), v::<XMMATRIX>(a,1)); }) } // XMStoreFloat4x4A
unsafe extern "C" fn t292(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMQuaternionEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMQuaternionEqual
unsafe extern "C" fn t293(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMQuaternionNotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMQuaternionNotEqual
unsafe extern "C" fn t294(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMQuaternionIsNaN(v::<XMVECTOR>(a,0))); }) } // XMQuaternionIsNaN
unsafe extern "C" fn t295(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMQuaternionIsInfinite(v::<XMVECTOR>(a,0))); }) } // XMQuaternionIsInfinite
unsafe extern "C" fn t296(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMQuaternionIsIdentity(v::<XMVECTOR>(a,0))); }) } // XMQuaternionIsIdentity
unsafe extern "C" fn t297(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMQuaternionDot(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMQuaternionDot
unsafe extern "C" fn t298(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMQuaternionMultiply(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMQuaternionMultiply
unsafe extern "C" fn t299(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionLengthSq(v::<XMVECTOR>(a,0))); }) } // XMQuaternionLengthSq
unsafe extern "C" fn t300(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionReciprocalLength(v::<XMVECTOR>(a,0))); }) } // XMQuaternionReciprocalLength
unsafe extern "C" fn t301(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionLength(v::<XMVECTOR>(a,0))); }) } // XMQuaternionLength
unsafe extern "C" fn t302(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionNormalizeEst(v::<XMVECTOR>(a,0))); }) } // XMQuaternionNormalizeEst
unsafe extern "C" fn t303(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionNormalize(v::<XMVECTOR>(a,0))); }) } // XMQuaternionNormalize
unsafe extern "C" fn t304(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionConjugate(v::<XMVECTOR>(a,0))); }) } // XMQuaternionConjugate
unsafe extern "C" fn t305(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionInverse(v::<XMVECTOR>(a,0))); }) } // XMQuaternionInverse
unsafe extern "C" fn t306(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionLn(v::<XMVECTOR>(a,0))); }) } // XMQuaternionLn
unsafe extern "C" fn t307(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionExp(v::<XMVECTOR>(a,0))); }) } // XMQuaternionExp
unsafe extern "C" fn t308(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMQuaternionSlerp(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2))); }) } // XMQuaternionSlerp
unsafe extern "C" fn t309(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMQuaternionSlerpV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMQuaternionSlerpV
unsafe extern "C" fn t310(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMQuaternionSquad(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<f32>(a,4))); }) } // XMQuaternionSquad
unsafe extern "C" fn t311(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMQuaternionSquadV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4))); }) } // XMQuaternionSquadV
unsafe extern "C" fn t312(a: Args) -> u32 { guard(|| { directx_math::XMQuaternionSquadSetup(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), m::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), v::<XMVECTOR>(a,6)); }) } // XMQuaternionSquadSetup
unsafe extern "C" fn t313(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMQuaternionBaryCentric(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<f32>(a,3), v::<f32>(a,4))); }) } // XMQuaternionBaryCentric
unsafe extern "C" fn t314(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,5,directx_math::XMQuaternionBaryCentricV(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4))); }) } // XMQuaternionBaryCentricV
unsafe extern "C" fn t315(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,0,directx_math::XMQuaternionIdentity()); }) } // XMQuaternionIdentity
unsafe extern "C" fn t316(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMQuaternionRotationRollPitchYaw(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMQuaternionRotationRollPitchYaw
unsafe extern "C" fn t317(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionRotationRollPitchYawFromVector(v::<XMVECTOR>(a,0))); }) } // XMQuaternionRotationRollPitchYawFromVector
unsafe extern "C" fn t318(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMQuaternionRotationNormal(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMQuaternionRotationNormal
unsafe extern "C" fn t319(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMQuaternionRotationAxis(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMQuaternionRotationAxis
unsafe extern "C" fn t320(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMQuaternionRotationMatrix(v::<XMMATRIX>(a,0))); }) } // XMQuaternionRotationMatrix
unsafe extern "C" fn t321(a: Args) -> u32 { guard(|| { directx_math::XMQuaternionToAxisAngle(m::<XMVECTOR>(a,0), m::<f32>(a,1), v::<XMVECTOR>(a,2)); }) } // XMQuaternionToAxisAngle
unsafe extern "C" fn t322(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMPlaneEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneEqual
unsafe extern "C" fn t323(a: Args) -> u32 { guard(|| { w::<bool>(a,3,directx_math::XMPlaneNearEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMPlaneNearEqual
unsafe extern "C" fn t324(a: Args) -> u32 { guard(|| { w::<bool>(a,2,directx_math::XMPlaneNotEqual(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneNotEqual
unsafe extern "C" fn t325(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMPlaneIsNaN(v::<XMVECTOR>(a,0))); }) } // XMPlaneIsNaN
unsafe extern "C" fn t326(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMPlaneIsInfinite(v::<XMVECTOR>(a,0))); }) } // XMPlaneIsInfinite
unsafe extern "C" fn t327(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMPlaneDot(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneDot
unsafe extern "C" fn t328(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMPlaneDotCoord(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneDotCoord
unsafe extern "C" fn t329(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMPlaneDotNormal(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneDotNormal
unsafe extern "C" fn t330(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMPlaneNormalizeEst(v::<XMVECTOR>(a,0))); }) } // XMPlaneNormalizeEst
unsafe extern "C" fn t331(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMPlaneNormalize(v::<XMVECTOR>(a,0))); }) } // XMPlaneNormalize
unsafe extern "C" fn t332(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMPlaneIntersectLine(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMPlaneIntersectLine
unsafe extern "C" fn t333(a: Args) -> u32 { guard(|| { directx_math::XMPlaneIntersectPlane(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3)); }) } // XMPlaneIntersectPlane
unsafe extern "C" fn t334(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMPlaneTransform(v::<XMVECTOR>(a,0), v::<XMMATRIX>(a,1))); }) } // XMPlaneTransform
unsafe extern "C" fn t335(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMPlaneFromPointNormal(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMPlaneFromPointNormal
unsafe extern "C" fn t336(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,3,directx_math::XMPlaneFromPoints(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMPlaneFromPoints
unsafe extern "C" fn t337(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2,directx_math::XMFresnelTerm(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMFresnelTerm
unsafe extern "C" fn t338(a: Args) -> u32 { guard(|| { w::<bool>(a,3,directx_math::XMScalarNearEqual(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMScalarNearEqual
unsafe extern "C" fn t339(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarModAngle(v::<f32>(a,0))); }) } // XMScalarModAngle
unsafe extern "C" fn t340(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarSin(v::<f32>(a,0))); }) } // XMScalarSin
unsafe extern "C" fn t341(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarSinEst(v::<f32>(a,0))); }) } // XMScalarSinEst
unsafe extern "C" fn t342(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarCos(v::<f32>(a,0))); }) } // XMScalarCos
unsafe extern "C" fn t343(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarCosEst(v::<f32>(a,0))); }) } // XMScalarCosEst
unsafe extern "C" fn t344(a: Args) -> u32 { guard(|| { directx_math::XMScalarSinCos(m::<f32>(a,0), m::<f32>(a,1), v::<f32>(a,2)); }) } // XMScalarSinCos
unsafe extern "C" fn t345(a: Args) -> u32 { guard(|| { directx_math::XMScalarSinCosEst(m::<f32>(a,0), m::<f32>(a,1), v::<f32>(a,2)); }) } // XMScalarSinCosEst
unsafe extern "C" fn t346(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarASin(v::<f32>(a,0))); }) } // XMScalarASin
unsafe extern "C" fn t347(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarASinEst(v::<f32>(a,0))); }) } // XMScalarASinEst
unsafe extern "C" fn t348(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarACos(v::<f32>(a,0))); }) } // XMScalarACos
unsafe extern "C" fn t349(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMScalarACosEst(v::<f32>(a,0))); }) } // XMScalarACosEst
unsafe extern "C" fn t350(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMMatrixIsNaN(v::<XMMATRIX>(a,0))); }) } // XMMatrixIsNaN
unsafe extern "C" fn t351(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMMatrixIsInfinite(v::<XMMATRIX>(a,0))); }) } // XMMatrixIsInfinite
unsafe extern "C" fn t352(a: Args) -> u32 { guard(|| { w::<bool>(a,1,directx_math::XMMatrixIsIdentity(v::<XMMATRIX>(a,0))); }) } // XMMatrixIsIdentity
unsafe extern "C" fn t353(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixMultiply(v::<XMMATRIX>(a,0), r::<XMMATRIX>(a,1))); }) } // XMMatrixMultiply
unsafe extern "C" fn t354(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixMultiplyTranspose(v::<XMMATRIX>(a,0), r::<XMMATRIX>(a,1))); }) } // XMMatrixMultiplyTranspose
unsafe extern "C" fn t355(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixTranspose(v::<XMMATRIX>(a,0))); }) } // XMMatrixTranspose
unsafe extern "C" fn t356(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixInverse(o::<XMVECTOR>(a,0,1), v::<XMMATRIX>(a,2))); }) } // XMMatrixInverse
unsafe extern "C" fn t357(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixVectorTensorProduct(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMMatrixVectorTensorProduct
unsafe extern "C" fn t358(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1,directx_math::XMMatrixDeterminant(v::<XMMATRIX>(a,0))); }) } // XMMatrixDeterminant
unsafe extern "C" fn t359(a: Args) -> u32 { guard(|| { w::<bool>(a,4,directx_math::XMMatrixDecompose(m::<XMVECTOR>(a,0), m::<XMVECTOR>(a,1), m::<XMVECTOR>(a,2), v::<XMMATRIX>(a,3))); }) } // XMMatrixDecompose
unsafe extern "C" fn t360(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,0,directx_math::XMMatrixIdentity()); }) } // XMMatrixIdentity
unsafe extern "C" fn t361(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,16,directx_math::XMMatrixSet(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5), v::<f32>(a,6), v::<f32>(a,7), v::<f32>(a,8), v::<f32>(a,9), v::<f32>(a,10), v::<f32>(a,11), v::<f32>(a,12), v::<f32>(a,13), v::<f32>(a,14), v::<f32>(a,15))); }) } // XMMatrixSet
unsafe extern "C" fn t362(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixTranslation(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMMatrixTranslation
unsafe extern "C" fn t363(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixTranslationFromVector(v::<XMVECTOR>(a,0))); }) } // XMMatrixTranslationFromVector
unsafe extern "C" fn t364(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixScaling(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMMatrixScaling
unsafe extern "C" fn t365(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixScalingFromVector(v::<XMVECTOR>(a,0))); }) } // XMMatrixScalingFromVector
unsafe extern "C" fn t366(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixRotationX(v::<f32>(a,0))); }) } // XMMatrixRotationX
unsafe extern "C" fn t367(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixRotationY(v::<f32>(a,0))); }) } // XMMatrixRotationY
unsafe extern "C" fn t368(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixRotationZ(v::<f32>(a,0))); }) } // XMMatrixRotationZ
unsafe extern "C" fn t369(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixRotationRollPitchYaw(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMMatrixRotationRollPitchYaw
unsafe extern "C" fn t370(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixRotationRollPitchYawFromVector(v::<XMVECTOR>(a,0))); }) } // XMMatrixRotationRollPitchYawFromVector
unsafe extern "C" fn t371(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixRotationNormal(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMMatrixRotationNormal
unsafe extern "C" fn t372(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixRotationAxis(v::<XMVECTOR>(a,0), v::<f32>(a,1))); }) } // XMMatrixRotationAxis
unsafe extern "C" fn t373(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixRotationQuaternion(v::<XMVECTOR>(a,0))); }) } // XMMatrixRotationQuaternion
unsafe extern "C" fn t374(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,6,directx_math::XMMatrixTransformation2D(v::<XMVECTOR>(a,0), v::<f32>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<f32>(a,4), v::<XMVECTOR>(a,5))); }) } // XMMatrixTransformation2D
unsafe extern "C" fn t375(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,6,directx_math::XMMatrixTransformation(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5))); }) } // XMMatrixTransformation
unsafe extern "C" fn t376(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixAffineTransformation2D(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<f32>(a,2), v::<XMVECTOR>(a,3))); }) } // XMMatrixAffineTransformation2D
unsafe extern "C" fn t377(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixAffineTransformation(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // XMMatrixAffineTransformation
unsafe extern "C" fn t378(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1,directx_math::XMMatrixReflect(v::<XMVECTOR>(a,0))); }) } // XMMatrixReflect
unsafe extern "C" fn t379(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,2,directx_math::XMMatrixShadow(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // XMMatrixShadow
unsafe extern "C" fn t380(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixLookAtLH(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMMatrixLookAtLH
unsafe extern "C" fn t381(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixLookAtRH(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMMatrixLookAtRH
unsafe extern "C" fn t382(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixLookToLH(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMMatrixLookToLH
unsafe extern "C" fn t383(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,3,directx_math::XMMatrixLookToRH(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2))); }) } // XMMatrixLookToRH
unsafe extern "C" fn t384(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixPerspectiveLH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixPerspectiveLH
unsafe extern "C" fn t385(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixPerspectiveRH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixPerspectiveRH
unsafe extern "C" fn t386(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixPerspectiveFovLH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixPerspectiveFovLH
unsafe extern "C" fn t387(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixPerspectiveFovRH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixPerspectiveFovRH
unsafe extern "C" fn t388(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,6,directx_math::XMMatrixPerspectiveOffCenterLH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5))); }) } // XMMatrixPerspectiveOffCenterLH
unsafe extern "C" fn t389(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,6,directx_math::XMMatrixPerspectiveOffCenterRH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5))); }) } // XMMatrixPerspectiveOffCenterRH
unsafe extern "C" fn t390(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixOrthographicLH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixOrthographicLH
unsafe extern "C" fn t391(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,4,directx_math::XMMatrixOrthographicRH(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMMatrixOrthographicRH
unsafe extern "C" fn t392(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,16,XMMatrix::set(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3), v::<f32>(a,4), v::<f32>(a,5), v::<f32>(a,6), v::<f32>(a,7), v::<f32>(a,8), v::<f32>(a,9), v::<f32>(a,10), v::<f32>(a,11), v::<f32>(a,12), v::<f32>(a,13), v::<f32>(a,14), v::<f32>(a,15))); }) } // XMMatrix::set
unsafe extern "C" fn t393(a: Args) -> u32 { guard(|| { w::<f32>(a,1,directx_math::XMConvertHalfToFloat(v::<u16>(a,0))); }) } // XMConvertHalfToFloat
unsafe extern "C" fn t394(a: Args) -> u32 { guard(|| { w::<u16>(a,1,directx_math::XMConvertFloatToHalf(v::<f32>(a,0))); }) } // XMConvertFloatToHalf
unsafe extern "C" fn t395(a: Args) -> u32 { guard(|| { BoundingSphere::TransformMatrix(r::<BoundingSphere>(a,0), m::<BoundingSphere>(a,1), v::<XMMATRIX>(a,2)); }) } // BoundingSphere::TransformMatrix
unsafe extern "C" fn t396(a: Args) -> u32 { guard(|| { BoundingSphere::TransformDecomposed(r::<BoundingSphere>(a,0), m::<BoundingSphere>(a,1), v::<f32>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4)); }) } // BoundingSphere::TransformDecomposed
unsafe extern "C" fn t397(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingSphere::ContainsPoint(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingSphere::ContainsPoint
unsafe extern "C" fn t398(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,4,BoundingSphere::ContainsTriangle(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingSphere::ContainsTriangle
unsafe extern "C" fn t399(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingSphere::ContainsSphere(r::<BoundingSphere>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingSphere::ContainsSphere
unsafe extern "C" fn t400(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingSphere::ContainsBox(r::<BoundingSphere>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingSphere::ContainsBox
unsafe extern "C" fn t401(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingSphere::ContainsOrientedBox(r::<BoundingSphere>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingSphere::ContainsOrientedBox
unsafe extern "C" fn t402(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingSphere::ContainsFrustum(r::<BoundingSphere>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingSphere::ContainsFrustum
unsafe extern "C" fn t403(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingSphere::IntersectsSphere(r::<BoundingSphere>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingSphere::IntersectsSphere
unsafe extern "C" fn t404(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingSphere::IntersectsBox(r::<BoundingSphere>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingSphere::IntersectsBox
unsafe extern "C" fn t405(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingSphere::IntersectsOrientedBox(r::<BoundingSphere>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingSphere::IntersectsOrientedBox
unsafe extern "C" fn t406(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingSphere::IntersectsFrustum(r::<BoundingSphere>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingSphere::IntersectsFrustum
unsafe extern "C" fn t407(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingSphere::IntersectsTriangle(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingSphere::IntersectsTriangle
unsafe extern "C" fn t408(a: Args) -> u32 { guard(|| { w::<PlaneIntersectionType>(a,2,BoundingSphere::IntersectsPlane(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingSphere::IntersectsPlane
unsafe extern "C" fn t409(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingSphere::IntersectsRay(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), m::<f32>(a,3))); }) } // BoundingSphere::IntersectsRay
unsafe extern "C" fn t410(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,7,BoundingSphere::ContainedBy(r::<BoundingSphere>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), v::<XMVECTOR>(a,6))); }) } // BoundingSphere::ContainedBy
unsafe extern "C" fn t411(a: Args) -> u32 { guard(|| { BoundingSphere::CreateMerged(m::<BoundingSphere>(a,0), r::<BoundingSphere>(a,1), r::<BoundingSphere>(a,2)); }) } // BoundingSphere::CreateMerged
unsafe extern "C" fn t412(a: Args) -> u32 { guard(|| { BoundingSphere::CreateFromBoundingBox(m::<BoundingSphere>(a,0), r::<BoundingBox>(a,1)); }) } // BoundingSphere::CreateFromBoundingBox
unsafe extern "C" fn t413(a: Args) -> u32 { guard(|| { BoundingSphere::CreateFromBoundingOrientedBox(m::<BoundingSphere>(a,0), r::<BoundingOrientedBox>(a,1)); }) } // BoundingSphere::CreateFromBoundingOrientedBox
unsafe extern "C" fn t414(a: Args) -> u32 { guard(|| { BoundingSphere::CreateFromPoints(m::<BoundingSphere>(a,0), HostIter::new(a,1)); }) } // BoundingSphere::CreateFromPoints
unsafe extern "C" fn t415(a: Args) -> u32 { guard(|| { BoundingSphere::CreateFromFrustum(m::<BoundingSphere>(a,0), r::<BoundingFrustum>(a,1)); }) } // BoundingSphere::CreateFromFrustum
unsafe extern "C" fn t416(a: Args) -> u32 { guard(|| { BoundingBox::GetCorners(r::<BoundingBox>(a,0), m::<[XMFLOAT3; 8]>(a,1)); }) } // BoundingBox::GetCorners
unsafe extern "C" fn t417(a: Args) -> u32 { guard(|| { BoundingBox::TransformMatrix(r::<BoundingBox>(a,0), m::<BoundingBox>(a,1), v::<XMMATRIX>(a,2)); }) } // BoundingBox::TransformMatrix
unsafe extern "C" fn t418(a: Args) -> u32 { guard(|| { BoundingBox::TransformDecomposed(r::<BoundingBox>(a,0), m::<BoundingBox>(a,1), v::<f32>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4)); }) } // BoundingBox::TransformDecomposed
unsafe extern "C" fn t419(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingBox::ContainsPoint(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingBox::ContainsPoint
unsafe extern "C" fn t420(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,4,BoundingBox::ContainsTriangle(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingBox::ContainsTriangle
unsafe extern "C" fn t421(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingBox::ContainsSphere(r::<BoundingBox>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingBox::ContainsSphere
unsafe extern "C" fn t422(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingBox::ContainsBox(r::<BoundingBox>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingBox::ContainsBox
unsafe extern "C" fn t423(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingBox::ContainsOrientedBox(r::<BoundingBox>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingBox::ContainsOrientedBox
unsafe extern "C" fn t424(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingBox::ContainsFrustum(r::<BoundingBox>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingBox::ContainsFrustum
unsafe extern "C" fn t425(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingBox::IntersectsSphere(r::<BoundingBox>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingBox::IntersectsSphere
unsafe extern "C" fn t426(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingBox::IntersectsBox(r::<BoundingBox>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingBox::IntersectsBox
unsafe extern "C" fn t427(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingBox::IntersectsOrientedBox(r::<BoundingBox>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingBox::IntersectsOrientedBox
unsafe extern "C" fn t428(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingBox::IntersectsFrustum(r::<BoundingBox>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingBox::IntersectsFrustum
unsafe extern "C" fn t429(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingBox::IntersectsTriangle(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingBox::IntersectsTriangle
unsafe extern "C" fn t430(a: Args) -> u32 { guard(|| { w::<PlaneIntersectionType>(a,2,BoundingBox::IntersectsPlane(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingBox::IntersectsPlane
unsafe extern "C" fn t431(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingBox::IntersectsRay(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), m::<f32>(a,3))); }) } // BoundingBox::IntersectsRay
unsafe extern "C" fn t432(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,7,BoundingBox::ContainedBy(r::<BoundingBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), v::<XMVECTOR>(a,6))); }) } // BoundingBox::ContainedBy
unsafe extern "C" fn t433(a: Args) -> u32 { guard(|| { BoundingBox::CreateMerged(m::<BoundingBox>(a,0), r::<BoundingBox>(a,1), r::<BoundingBox>(a,2)); }) } // BoundingBox::CreateMerged
unsafe extern "C" fn t434(a: Args) -> u32 { guard(|| { BoundingBox::CreateFromSphere(m::<BoundingBox>(a,0), r::<BoundingSphere>(a,1)); }) } // BoundingBox::CreateFromSphere
unsafe extern "C" fn t435(a: Args) -> u32 { guard(|| { BoundingBox::CreateFromPoints(m::<BoundingBox>(a,0), HostIter::new(a,1)); }) } // BoundingBox::CreateFromPoints
unsafe extern "C" fn t436(a: Args) -> u32 { guard(|| { BoundingOrientedBox::TransformMatrix(r::<BoundingOrientedBox>(a,0), m::<BoundingOrientedBox>(a,1), v::<XMMATRIX>(a,2)); }) } // BoundingOrientedBox::TransformMatrix
unsafe extern "C" fn t437(a: Args) -> u32 { guard(|| { BoundingOrientedBox::TransformDecomposed(r::<BoundingOrientedBox>(a,0), m::<BoundingOrientedBox>(a,1), v::<f32>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4)); }) } // BoundingOrientedBox::TransformDecomposed
unsafe extern "C" fn t438(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingOrientedBox::ContainsPoint(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingOrientedBox::ContainsPoint
unsafe extern "C" fn t439(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,4,BoundingOrientedBox::ContainsTriangle(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingOrientedBox::ContainsTriangle
unsafe extern "C" fn t440(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingOrientedBox::ContainsSphere(r::<BoundingOrientedBox>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingOrientedBox::ContainsSphere
unsafe extern "C" fn t441(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingOrientedBox::ContainsBox(r::<BoundingOrientedBox>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingOrientedBox::ContainsBox
unsafe extern "C" fn t442(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingOrientedBox::ContainsOrientedBox(r::<BoundingOrientedBox>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingOrientedBox::ContainsOrientedBox
unsafe extern "C" fn t443(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingOrientedBox::ContainsFrustum(r::<BoundingOrientedBox>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingOrientedBox::ContainsFrustum
unsafe extern "C" fn t444(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingOrientedBox::IntersectsSphere(r::<BoundingOrientedBox>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingOrientedBox::IntersectsSphere
unsafe extern "C" fn t445(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingOrientedBox::IntersectsBox(r::<BoundingOrientedBox>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingOrientedBox::IntersectsBox
unsafe extern "C" fn t446(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingOrientedBox::IntersectsOrientedBox(r::<BoundingOrientedBox>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingOrientedBox::IntersectsOrientedBox
unsafe extern "C" fn t447(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingOrientedBox::IntersectsFrustum(r::<BoundingOrientedBox>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingOrientedBox::IntersectsFrustum
unsafe extern "C" fn t448(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingOrientedBox::IntersectsTriangle(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingOrientedBox::IntersectsTriangle
unsafe extern "C" fn t449(a: Args) -> u32 { guard(|| { w::<PlaneIntersectionType>(a,2,BoundingOrientedBox::IntersectsPlane(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingOrientedBox::IntersectsPlane
unsafe extern "C" fn t450(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingOrientedBox::IntersectsRay(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), m::<f32>(a,3))); }) } // BoundingOrientedBox::IntersectsRay
unsafe extern "C" fn t451(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,7,BoundingOrientedBox::ContainedBy(r::<BoundingOrientedBox>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), v::<XMVECTOR>(a,6))); }) } // BoundingOrientedBox::ContainedBy
unsafe extern "C" fn t452(a: Args) -> u32 { guard(|| { BoundingOrientedBox::CreateFromBoundingBox(m::<BoundingOrientedBox>(a,0), r::<BoundingBox>(a,1)); }) } // BoundingOrientedBox::CreateFromBoundingBox
unsafe extern "C" fn t453(a: Args) -> u32 { guard(|| { BoundingOrientedBox::CreateFromPoints(m::<BoundingOrientedBox>(a,0), HostIter::new(a,1)); }) } // BoundingOrientedBox::CreateFromPoints
unsafe extern "C" fn t454(a: Args) -> u32 { guard(|| { BoundingOrientedBox::GetCorners(r::<BoundingOrientedBox>(a,0), m::<[XMFLOAT3; 8]>(a,1)); }) } // BoundingOrientedBox::GetCorners
unsafe extern "C" fn t455(a: Args) -> u32 { guard(|| { BoundingFrustum::TransformMatrix(r::<BoundingFrustum>(a,0), m::<BoundingFrustum>(a,1), v::<XMMATRIX>(a,2)); }) } // BoundingFrustum::TransformMatrix
unsafe extern "C" fn t456(a: Args) -> u32 { guard(|| { BoundingFrustum::TransformDecomposed(r::<BoundingFrustum>(a,0), m::<BoundingFrustum>(a,1), v::<f32>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4)); }) } // BoundingFrustum::TransformDecomposed
unsafe extern "C" fn t457(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingFrustum::ContainsPoint(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingFrustum::ContainsPoint
unsafe extern "C" fn t458(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,4,BoundingFrustum::ContainsTriangle(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingFrustum::ContainsTriangle
unsafe extern "C" fn t459(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingFrustum::ContainsSphere(r::<BoundingFrustum>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingFrustum::ContainsSphere
unsafe extern "C" fn t460(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingFrustum::ContainsBox(r::<BoundingFrustum>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingFrustum::ContainsBox
unsafe extern "C" fn t461(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingFrustum::ContainsOrientedBox(r::<BoundingFrustum>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingFrustum::ContainsOrientedBox
unsafe extern "C" fn t462(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,2,BoundingFrustum::ContainsFrustum(r::<BoundingFrustum>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingFrustum::ContainsFrustum
unsafe extern "C" fn t463(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingFrustum::IntersectsSphere(r::<BoundingFrustum>(a,0), r::<BoundingSphere>(a,1))); }) } // BoundingFrustum::IntersectsSphere
unsafe extern "C" fn t464(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingFrustum::IntersectsBox(r::<BoundingFrustum>(a,0), r::<BoundingBox>(a,1))); }) } // BoundingFrustum::IntersectsBox
unsafe extern "C" fn t465(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingFrustum::IntersectsOrientedBox(r::<BoundingFrustum>(a,0), r::<BoundingOrientedBox>(a,1))); }) } // BoundingFrustum::IntersectsOrientedBox
unsafe extern "C" fn t466(a: Args) -> u32 { guard(|| { w::<bool>(a,2,BoundingFrustum::IntersectsFrustum(r::<BoundingFrustum>(a,0), r::<BoundingFrustum>(a,1))); }) } // BoundingFrustum::IntersectsFrustum
unsafe extern "C" fn t467(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingFrustum::IntersectsTriangle(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // BoundingFrustum::IntersectsTriangle
unsafe extern "C" fn t468(a: Args) -> u32 { guard(|| { w::<PlaneIntersectionType>(a,2,BoundingFrustum::IntersectsPlane(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1))); }) } // BoundingFrustum::IntersectsPlane
unsafe extern "C" fn t469(a: Args) -> u32 { guard(|| { w::<bool>(a,4,BoundingFrustum::IntersectsRay(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), m::<f32>(a,3))); }) } // BoundingFrustum::IntersectsRay
unsafe extern "C" fn t470(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,7,BoundingFrustum::ContainedBy(r::<BoundingFrustum>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), v::<XMVECTOR>(a,6))); }) } // BoundingFrustum::ContainedBy
unsafe extern "C" fn t471(a: Args) -> u32 { guard(|| { BoundingFrustum::CreateFromMatrix(m::<BoundingFrustum>(a,0), v::<XMMATRIX>(a,1), v::<bool>(a,2)); }) } // BoundingFrustum::CreateFromMatrix
unsafe extern "C" fn t472(a: Args) -> u32 { guard(|| { BoundingFrustum::GetPlanes(r::<BoundingFrustum>(a,0), o::<XMVECTOR>(a,1,2), o::<XMVECTOR>(a,3,4), o::<XMVECTOR>(a,5,6), o::<XMVECTOR>(a,7,8), o::<XMVECTOR>(a,9,10), o::<XMVECTOR>(a,11,12)); }) } // BoundingFrustum::GetPlanes
unsafe extern "C" fn t473(a: Args) -> u32 { guard(|| { BoundingFrustum::GetCorners(r::<BoundingFrustum>(a,0), m::<[XMFLOAT3; 8]>(a,1)); }) } // BoundingFrustum::GetCorners
unsafe extern "C" fn t474(a: Args) -> u32 { guard(|| { w::<bool>(a,6,directx_math::collision::triangle_tests::IntersectsRay(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), m::<f32>(a,5))); }) } // triangle_tests::IntersectsRay
unsafe extern "C" fn t475(a: Args) -> u32 { guard(|| { w::<bool>(a,6,directx_math::collision::triangle_tests::IntersectsTriangle(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5))); }) } // triangle_tests::IntersectsTriangle
unsafe extern "C" fn t476(a: Args) -> u32 { guard(|| { w::<PlaneIntersectionType>(a,4,directx_math::collision::triangle_tests::IntersectsPlane(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3))); }) } // triangle_tests::IntersectsPlane
unsafe extern "C" fn t477(a: Args) -> u32 { guard(|| { w::<ContainmentType>(a,9,directx_math::collision::triangle_tests::ContainedBy(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1), v::<XMVECTOR>(a,2), v::<XMVECTOR>(a,3), v::<XMVECTOR>(a,4), v::<XMVECTOR>(a,5), r::<XMVECTOR>(a,6), r::<XMVECTOR>(a,7), r::<XMVECTOR>(a,8))); }) } // triangle_tests::ContainedBy
unsafe extern "C" fn t478(a: Args) -> u32 { guard(|| { w::<f32>(a,2,directx_math::XMMin(v::<f32>(a,0), v::<f32>(a,1))); }) } // XMMin<f32>
unsafe extern "C" fn t479(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMMin(v::<u32>(a,0), v::<u32>(a,1))); }) } // XMMin<u32>
unsafe extern "C" fn t480(a: Args) -> u32 { guard(|| { w::<f32>(a,2,directx_math::XMMin(cmpcb(v::<f32>(a,0)), cmpcb(v::<f32>(a,1))).0); }) } // XMMin<caller type>
unsafe extern "C" fn t481(a: Args) -> u32 { guard(|| { w::<f32>(a,2,directx_math::XMMax(v::<f32>(a,0), v::<f32>(a,1))); }) } // XMMax<f32>
unsafe extern "C" fn t482(a: Args) -> u32 { guard(|| { w::<u32>(a,2,directx_math::XMMax(v::<u32>(a,0), v::<u32>(a,1))); }) } // XMMax<u32>
unsafe extern "C" fn t483(a: Args) -> u32 { guard(|| { w::<f32>(a,2,directx_math::XMMax(cmpcb(v::<f32>(a,0)), cmpcb(v::<f32>(a,1))).0); }) } // XMMax<caller type>
unsafe extern "C" fn t484(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) + v::<XMVector>(a,1)); }) } // XMVector::add
unsafe extern "C" fn t485(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) += v::<XMVector>(a,1); }) } // XMVector::add_assign
unsafe extern "C" fn t486(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) - v::<XMVector>(a,1)); }) } // XMVector::sub
unsafe extern "C" fn t487(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) -= v::<XMVector>(a,1); }) } // XMVector::sub_assign
unsafe extern "C" fn t488(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) * v::<XMVector>(a,1)); }) } // XMVector::mul
unsafe extern "C" fn t489(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) *= v::<XMVector>(a,1); }) } // XMVector::mul_assign
unsafe extern "C" fn t490(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) / v::<XMVector>(a,1)); }) } // XMVector::div
unsafe extern "C" fn t491(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) /= v::<XMVector>(a,1); }) } // XMVector::div_assign
unsafe extern "C" fn t492(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) + v::<XMMatrix>(a,1)); }) } // XMMatrix::add
unsafe extern "C" fn t493(a: Args) -> u32 { guard(|| { *m::<XMMatrix>(a,0) += v::<XMMatrix>(a,1); }) } // XMMatrix::add_assign
unsafe extern "C" fn t494(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) - v::<XMMatrix>(a,1)); }) } // XMMatrix::sub
unsafe extern "C" fn t495(a: Args) -> u32 { guard(|| { *m::<XMMatrix>(a,0) -= v::<XMMatrix>(a,1); }) } // XMMatrix::sub_assign
unsafe extern "C" fn t496(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) * v::<XMMatrix>(a,1)); }) } // XMMatrix::mul
unsafe extern "C" fn t497(a: Args) -> u32 { guard(|| { *m::<XMMatrix>(a,0) *= v::<XMMatrix>(a,1); }) } // XMMatrix::mul_assign
unsafe extern "C" fn t498(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<f32>(a,0) * v::<XMVector>(a,1)); }) } // f32*XMVector
unsafe extern "C" fn t499(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) * v::<f32>(a,1)); }) } // XMVector::mul<f32>
unsafe extern "C" fn t500(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) *= v::<f32>(a,1); }) } // XMVector::mul_assign<f32>
unsafe extern "C" fn t501(a: Args) -> u32 { guard(|| { w::<XMVector>(a,2, v::<XMVector>(a,0) / v::<f32>(a,1)); }) } // XMVector::div<f32>
unsafe extern "C" fn t502(a: Args) -> u32 { guard(|| { *m::<XMVector>(a,0) /= v::<f32>(a,1); }) } // XMVector::div_assign<f32>
unsafe extern "C" fn t503(a: Args) -> u32 { guard(|| { w::<XMVector>(a,1, -v::<XMVector>(a,0)); }) } // XMVector::neg
unsafe extern "C" fn t504(a: Args) -> u32 { guard(|| { w::<bool>(a,2, r::<XMVector>(a,0) == r::<XMVector>(a,1)); }) } // XMVector::eq
unsafe extern "C" fn t505(a: Args) -> u32 { guard(|| { { let d: &mut XMVECTOR = &mut *m::<XMVector>(a,0); let s: &XMVECTOR = &*r::<XMVector>(a,1); *d = *s; }; }) } // XMVector::deref_mut
unsafe extern "C" fn t506(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<f32>(a,0) * v::<XMMatrix>(a,1)); }) } // f32*XMMatrix
unsafe extern "C" fn t507(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) * v::<f32>(a,1)); }) } // XMMatrix::mul<f32>
unsafe extern "C" fn t508(a: Args) -> u32 { guard(|| { *m::<XMMatrix>(a,0) *= v::<f32>(a,1); }) } // XMMatrix::mul_assign<f32>
unsafe extern "C" fn t509(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) / v::<f32>(a,1)); }) } // XMMatrix::div<f32>
unsafe extern "C" fn t510(a: Args) -> u32 { guard(|| { *m::<XMMatrix>(a,0) /= v::<f32>(a,1); }) } // XMMatrix::div_assign<f32>
unsafe extern "C" fn t511(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,1, -v::<XMMatrix>(a,0)); }) } // XMMatrix::neg
unsafe extern "C" fn t512(a: Args) -> u32 { guard(|| { w::<bool>(a,2, r::<XMMatrix>(a,0) == r::<XMMatrix>(a,1)); }) } // XMMatrix::eq
unsafe extern "C" fn t513(a: Args) -> u32 { guard(|| { { let d: &mut XMMATRIX = &mut *m::<XMMatrix>(a,0); let s: &XMMATRIX = &*r::<XMMatrix>(a,1); *d = *s; }; }) } // XMMatrix::deref_mut
unsafe extern "C" fn t514(a: Args) -> u32 { guard(|| { w::<XMVector>(a,1, XMVector::from(r::<[f32; 4]>(a,0))); }) } // XMVector::from
unsafe extern "C" fn t515(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,1, XMMatrix::from(r::<[f32; 16]>(a,0))); }) } // XMMatrix::from<[f32; 16]>
unsafe extern "C" fn t516(a: Args) -> u32 { guard(|| { w::<[f32; 16]>(a,1, v::<XMMatrix>(a,0).into()); }) } // XMMatrix::into<[f32; 16]>
unsafe extern "C" fn t517(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,1, XMMatrix::from(r::<[[f32; 4]; 4]>(a,0))); }) } // XMMatrix::from<[[f32; 4]; 4]>
unsafe extern "C" fn t518(a: Args) -> u32 { guard(|| { w::<[[f32; 4]; 4]>(a,1, v::<XMMatrix>(a,0).into()); }) } // XMMatrix::into<[[f32; 4]; 4]>
unsafe extern "C" fn t519(a: Args) -> u32 { guard(|| { w::<XMFLOAT2>(a,1, XMFLOAT2::from(v::<[f32; 2]>(a,0))); }) } // XMFLOAT2::from<[f32; 2]>
unsafe extern "C" fn t520(a: Args) -> u32 { guard(|| { { let x: [f32; 2] = v::<XMFLOAT2>(a,0).into(); w::<[f32; 2]>(a,1, x) }; }) } // XMFLOAT2::into<[f32; 2]>
unsafe extern "C" fn t521(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT2 = <&XMFLOAT2>::from(r::<[f32; 2]>(a,0)); w::<XMFLOAT2>(a,1, *x) }; }) } // &XMFLOAT2::from<&[f32; 2]>
unsafe extern "C" fn t522(a: Args) -> u32 { guard(|| { { let x: &[f32; 2] = r::<XMFLOAT2>(a,0).into(); w::<[f32; 2]>(a,1, *x) }; }) } // &XMFLOAT2::into<&[f32; 2]>
unsafe extern "C" fn t523(a: Args) -> u32 { guard(|| { { let x: &[f32; 2] = r::<XMFLOAT2>(a,0).as_ref(); w::<[f32; 2]>(a,1, *x) }; }) } // XMFLOAT2::as_ref<[f32; 2]>
unsafe extern "C" fn t524(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 2] = m::<XMFLOAT2>(a,0).as_mut(); *x = v::<[f32; 2]>(a,1); }; }) } // XMFLOAT2::as_mut<[f32; 2]>
unsafe extern "C" fn t525(a: Args) -> u32 { guard(|| { w::<XMFLOAT3>(a,1, XMFLOAT3::from(v::<[f32; 3]>(a,0))); }) } // XMFLOAT3::from<[f32; 3]>
unsafe extern "C" fn t526(a: Args) -> u32 { guard(|| { { let x: [f32; 3] = v::<XMFLOAT3>(a,0).into(); w::<[f32; 3]>(a,1, x) }; }) } // XMFLOAT3::into<[f32; 3]>
unsafe extern "C" fn t527(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT3 = <&XMFLOAT3>::from(r::<[f32; 3]>(a,0)); w::<XMFLOAT3>(a,1, *x) }; }) } // &XMFLOAT3::from<&[f32; 3]>
unsafe extern "C" fn t528(a: Args) -> u32 { guard(|| { { let x: &[f32; 3] = r::<XMFLOAT3>(a,0).into(); w::<[f32; 3]>(a,1, *x) }; }) } // &XMFLOAT3::into<&[f32; 3]>
unsafe extern "C" fn t529(a: Args) -> u32 { guard(|| { { let x: &[f32; 3] = r::<XMFLOAT3>(a,0).as_ref(); w::<[f32; 3]>(a,1, *x) }; }) } // XMFLOAT3::as_ref<[f32; 3]>
unsafe extern "C" fn t530(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 3] = m::<XMFLOAT3>(a,0).as_mut(); *x = v::<[f32; 3]>(a,1); }; }) } // XMFLOAT3::as_mut<[f32; 3]>
unsafe extern "C" fn t531(a: Args) -> u32 { guard(|| { w::<XMFLOAT4>(a,1, XMFLOAT4::from(v::<[f32; 4]>(a,0))); }) } // XMFLOAT4::from<[f32; 4]>
unsafe extern "C" fn t532(a: Args) -> u32 { guard(|| { { let x: [f32; 4] = v::<XMFLOAT4>(a,0).into(); w::<[f32; 4]>(a,1, x) }; }) } // XMFLOAT4::into<[f32; 4]>
unsafe extern "C" fn t533(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4 = <&XMFLOAT4>::from(r::<[f32; 4]>(a,0)); w::<XMFLOAT4>(a,1, *x) }; }) } // &XMFLOAT4::from<&[f32; 4]>
unsafe extern "C" fn t534(a: Args) -> u32 { guard(|| { { let x: &[f32; 4] = r::<XMFLOAT4>(a,0).into(); w::<[f32; 4]>(a,1, *x) }; }) } // &XMFLOAT4::into<&[f32; 4]>
unsafe extern "C" fn t535(a: Args) -> u32 { guard(|| { { let x: &[f32; 4] = r::<XMFLOAT4>(a,0).as_ref(); w::<[f32; 4]>(a,1, *x) }; }) } // XMFLOAT4::as_ref<[f32; 4]>
unsafe extern "C" fn t536(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 4] = m::<XMFLOAT4>(a,0).as_mut(); *x = v::<[f32; 4]>(a,1); }; }) } // XMFLOAT4::as_mut<[f32; 4]>
unsafe extern "C" fn t537(a: Args) -> u32 { guard(|| { w::<XMINT2>(a,1, XMINT2::from(v::<[i32; 2]>(a,0))); }) } // XMINT2::from<[i32; 2]>
unsafe extern "C" fn t538(a: Args) -> u32 { guard(|| { { let x: [i32; 2] = v::<XMINT2>(a,0).into(); w::<[i32; 2]>(a,1, x) }; }) } // XMINT2::into<[i32; 2]>
unsafe extern "C" fn t539(a: Args) -> u32 { guard(|| { { let x: &XMINT2 = <&XMINT2>::from(r::<[i32; 2]>(a,0)); w::<XMINT2>(a,1, *x) }; }) } // &XMINT2::from<&[i32; 2]>
unsafe extern "C" fn t540(a: Args) -> u32 { guard(|| { { let x: &[i32; 2] = r::<XMINT2>(a,0).into(); w::<[i32; 2]>(a,1, *x) }; }) } // &XMINT2::into<&[i32; 2]>
unsafe extern "C" fn t541(a: Args) -> u32 { guard(|| { { let x: &[i32; 2] = r::<XMINT2>(a,0).as_ref(); w::<[i32; 2]>(a,1, *x) }; }) } // XMINT2::as_ref<[i32; 2]>
unsafe extern "C" fn t542(a: Args) -> u32 { guard(|| { { let x: &mut [i32; 2] = m::<XMINT2>(a,0).as_mut(); *x = v::<[i32; 2]>(a,1); }; }) } // XMINT2::as_mut<[i32; 2]>
unsafe extern "C" fn t543(a: Args) -> u32 { guard(|| { w::<XMINT3>(a,1, XMINT3::from(v::<[i32; 3]>(a,0))); }) } // XMINT3::from<[i32; 3]>
unsafe extern "C" fn t544(a: Args) -> u32 { guard(|| { { let x: [i32; 3] = v::<XMINT3>(a,0).into(); w::<[i32; 3]>(a,1, x) }; }) } // XMINT3::into<[i32; 3]>
unsafe extern "C" fn t545(a: Args) -> u32 { guard(|| { { let x: &XMINT3 = <&XMINT3>::from(r::<[i32; 3]>(a,0)); w::<XMINT3>(a,1, *x) }; }) } // &XMINT3::from<&[i32; 3]>
unsafe extern "C" fn t546(a: Args) -> u32 { guard(|| { { let x: &[i32; 3] = r::<XMINT3>(a,0).into(); w::<[i32; 3]>(a,1, *x) }; }) } // &XMINT3::into<&[i32; 3]>
unsafe extern "C" fn t547(a: Args) -> u32 { guard(|| { { let x: &[i32; 3] = r::<XMINT3>(a,0).as_ref(); w::<[i32; 3]>(a,1, *x) }; }) } // XMINT3::as_ref<[i32; 3]>
unsafe extern "C" fn t548(a: Args) -> u32 { guard(|| { { let x: &mut [i32; 3] = m::<XMINT3>(a,0).as_mut(); *x = v::<[i32; 3]>(a,1); }; }) } // XMINT3::as_mut<[i32; 3]>
unsafe extern "C" fn t549(a: Args) -> u32 { guard(|| { w::<XMINT4>(a,1, XMINT4::from(v::<[i32; 4]>(a,0))); }) } // XMINT4::from<[i32; 4]>
unsafe extern "C" fn t550(a: Args) -> u32 { guard(|| { { let x: [i32; 4] = v::<XMINT4>(a,0).into(); w::<[i32; 4]>(a,1, x) }; }) } // XMINT4::into<[i32; 4]>
unsafe extern "C" fn t551(a: Args) -> u32 { guard(|| { { let x: &XMINT4 = <&XMINT4>::from(r::<[i32; 4]>(a,0)); w::<XMINT4>(a,1, *x) }; }) } // &XMINT4::from<&[i32; 4]>
unsafe extern "C" fn t552(a: Args) -> u32 { guard(|| { { let x: &[i32; 4] = r::<XMINT4>(a,0).into(); w::<[i32; 4]>(a,1, *x) }; }) } // &XMINT4::into<&[i32; 4]>
unsafe extern "C" fn t553(a: Args) -> u32 { guard(|| { { let x: &[i32; 4] = r::<XMINT4>(a,0).as_ref(); w::<[i32; 4]>(a,1, *x) }; }) } // XMINT4::as_ref<[i32; 4]>
unsafe extern "C" fn t554(a: Args) -> u32 { guard(|| { { let x: &mut [i32; 4] = m::<XMINT4>(a,0).as_mut(); *x = v::<[i32; 4]>(a,1); }; }) } // XMINT4::as_mut<[i32; 4]>
unsafe extern "C" fn t555(a: Args) -> u32 { guard(|| { w::<XMUINT2>(a,1, XMUINT2::from(v::<[u32; 2]>(a,0))); }) } // XMUINT2::from<[u32; 2]>
unsafe extern "C" fn t556(a: Args) -> u32 { guard(|| { { let x: [u32; 2] = v::<XMUINT2>(a,0).into(); w::<[u32; 2]>(a,1, x) }; }) } // XMUINT2::into<[u32; 2]>
unsafe extern "C" fn t557(a: Args) -> u32 { guard(|| { { let x: &XMUINT2 = <&XMUINT2>::from(r::<[u32; 2]>(a,0)); w::<XMUINT2>(a,1, *x) }; }) } // &XMUINT2::from<&[u32; 2]>
unsafe extern "C" fn t558(a: Args) -> u32 { guard(|| { { let x: &[u32; 2] = r::<XMUINT2>(a,0).into(); w::<[u32; 2]>(a,1, *x) }; }) } // &XMUINT2::into<&[u32; 2]>
unsafe extern "C" fn t559(a: Args) -> u32 { guard(|| { { let x: &[u32; 2] = r::<XMUINT2>(a,0).as_ref(); w::<[u32; 2]>(a,1, *x) }; }) } // XMUINT2::as_ref<[u32; 2]>
unsafe extern "C" fn t560(a: Args) -> u32 { guard(|| { { let x: &mut [u32; 2] = m::<XMUINT2>(a,0).as_mut(); *x = v::<[u32; 2]>(a,1); }; }) } // XMUINT2::as_mut<[u32; 2]>
unsafe extern "C" fn t561(a: Args) -> u32 { guard(|| { w::<XMUINT3>(a,1, XMUINT3::from(v::<[u32; 3]>(a,0))); }) } // XMUINT3::from<[u32; 3]>
unsafe extern "C" fn t562(a: Args) -> u32 { guard(|| { { let x: [u32; 3] = v::<XMUINT3>(a,0).into(); w::<[u32; 3]>(a,1, x) }; }) } // XMUINT3::into<[u32; 3]>
unsafe extern "C" fn t563(a: Args) -> u32 { guard(|| { { let x: &XMUINT3 = <&XMUINT3>::from(r::<[u32; 3]>(a,0)); w::<XMUINT3>(a,1, *x) }; }) } // &XMUINT3::from<&[u32; 3]>
unsafe extern "C" fn t564(a: Args) -> u32 { guard(|| { { let x: &[u32; 3] = r::<XMUINT3>(a,0).into(); w::<[u32; 3]>(a,1, *x) }; }) } // &XMUINT3::into<&[u32; 3]>
unsafe extern "C" fn t565(a: Args) -> u32 { guard(|| { { let x: &[u32; 3] = r::<XMUINT3>(a,0).as_ref(); w::<[u32; 3]>(a,1, *x) }; }) } // XMUINT3::as_ref<[u32; 3]>
unsafe extern "C" fn t566(a: Args) -> u32 { guard(|| { { let x: &mut [u32; 3] = m::<XMUINT3>(a,0).as_mut(); *x = v::<[u32; 3]>(a,1); }; }) } // XMUINT3::as_mut<[u32; 3]>
unsafe extern "C" fn t567(a: Args) -> u32 { guard(|| { w::<XMUINT4>(a,1, XMUINT4::from(v::<[u32; 4]>(a,0))); }) } // XMUINT4::from<[u32; 4]>
unsafe extern "C" fn t568(a: Args) -> u32 { guard(|| { { let x: [u32; 4] = v::<XMUINT4>(a,0).into(); w::<[u32; 4]>(a,1, x) }; }) } // XMUINT4::into<[u32; 4]>
unsafe extern "C" fn t569(a: Args) -> u32 { guard(|| { { let x: &XMUINT4 = <&XMUINT4>::from(r::<[u32; 4]>(a,0)); w::<XMUINT4>(a,1, *x) }; }) } // &XMUINT4::from<&[u32; 4]>
unsafe extern "C" fn t570(a: Args) -> u32 { guard(|| { { let x: &[u32; 4] = r::<XMUINT4>(a,0).into(); w::<[u32; 4]>(a,1, *x) }; }) } // &XMUINT4::into<&[u32; 4]>
unsafe extern "C" fn t571(a: Args) -> u32 { guard(|| { { let x: &[u32; 4] = r::<XMUINT4>(a,0).as_ref(); w::<[u32; 4]>(a,1, *x) }; }) } // XMUINT4::as_ref<[u32; 4]>
unsafe extern "C" fn t572(a: Args) -> u32 { guard(|| { { let x: &mut [u32; 4] = m::<XMUINT4>(a,0).as_mut(); *x = v::<[u32; 4]>(a,1); }; }) } // XMUINT4::as_mut<[u32; 4]>
unsafe extern "C" fn t573(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X3>(a,1, XMFLOAT3X3::from(v::<[f32; 9]>(a,0))); }) } // XMFLOAT3X3::from<[f32; 9]>
unsafe extern "C" fn t574(a: Args) -> u32 { guard(|| { { let x: [f32; 9] = v::<XMFLOAT3X3>(a,0).into(); w::<[f32; 9]>(a,1, x) }; }) } // XMFLOAT3X3::into<[f32; 9]>
unsafe extern "C" fn t575(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT3X3 = <&XMFLOAT3X3>::from(r::<[f32; 9]>(a,0)); w::<XMFLOAT3X3>(a,1, *x) }; }) } // &XMFLOAT3X3::from<&[f32; 9]>
unsafe extern "C" fn t576(a: Args) -> u32 { guard(|| { { let x: &[f32; 9] = r::<XMFLOAT3X3>(a,0).into(); w::<[f32; 9]>(a,1, *x) }; }) } // &XMFLOAT3X3::into<&[f32; 9]>
unsafe extern "C" fn t577(a: Args) -> u32 { guard(|| { { let x: &[f32; 9] = r::<XMFLOAT3X3>(a,0).as_ref(); w::<[f32; 9]>(a,1, *x) }; }) } // XMFLOAT3X3::as_ref<[f32; 9]>
unsafe extern "C" fn t578(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 9] = m::<XMFLOAT3X3>(a,0).as_mut(); *x = v::<[f32; 9]>(a,1); }; }) } // XMFLOAT3X3::as_mut<[f32; 9]>
unsafe extern "C" fn t579(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X3>(a,1, XMFLOAT3X3::from(v::<[[f32; 3]; 3]>(a,0))); }) } // XMFLOAT3X3::from<[[f32; 3]; 3]>
unsafe extern "C" fn t580(a: Args) -> u32 { guard(|| { { let x: [[f32; 3]; 3] = v::<XMFLOAT3X3>(a,0).into(); w::<[[f32; 3]; 3]>(a,1, x) }; }) } // XMFLOAT3X3::into<[[f32; 3]; 3]>
unsafe extern "C" fn t581(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT3X3 = <&XMFLOAT3X3>::from(r::<[[f32; 3]; 3]>(a,0)); w::<XMFLOAT3X3>(a,1, *x) }; }) } // &XMFLOAT3X3::from<&[[f32; 3]; 3]>
unsafe extern "C" fn t582(a: Args) -> u32 { guard(|| { { let x: &[[f32; 3]; 3] = r::<XMFLOAT3X3>(a,0).into(); w::<[[f32; 3]; 3]>(a,1, *x) }; }) } // &XMFLOAT3X3::into<&[[f32; 3]; 3]>
unsafe extern "C" fn t583(a: Args) -> u32 { guard(|| { { let x: &[[f32; 3]; 3] = r::<XMFLOAT3X3>(a,0).as_ref(); w::<[[f32; 3]; 3]>(a,1, *x) }; }) } // XMFLOAT3X3::as_ref<[[f32; 3]; 3]>
unsafe extern "C" fn t584(a: Args) -> u32 { guard(|| { { let x: &mut [[f32; 3]; 3] = m::<XMFLOAT3X3>(a,0).as_mut(); *x = v::<[[f32; 3]; 3]>(a,1); }; }) } // XMFLOAT3X3::as_mut<[[f32; 3]; 3]>
unsafe extern "C" fn t585(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X3>(a,1, XMFLOAT4X3::from(v::<[f32; 12]>(a,0))); }) } // XMFLOAT4X3::from<[f32; 12]>
unsafe extern "C" fn t586(a: Args) -> u32 { guard(|| { { let x: [f32; 12] = v::<XMFLOAT4X3>(a,0).into(); w::<[f32; 12]>(a,1, x) }; }) } // XMFLOAT4X3::into<[f32; 12]>
unsafe extern "C" fn t587(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4X3 = <&XMFLOAT4X3>::from(r::<[f32; 12]>(a,0)); w::<XMFLOAT4X3>(a,1, *x) }; }) } // &XMFLOAT4X3::from<&[f32; 12]>
unsafe extern "C" fn t588(a: Args) -> u32 { guard(|| { { let x: &[f32; 12] = r::<XMFLOAT4X3>(a,0).into(); w::<[f32; 12]>(a,1, *x) }; }) } // &XMFLOAT4X3::into<&[f32; 12]>
unsafe extern "C" fn t589(a: Args) -> u32 { guard(|| { { let x: &[f32; 12] = r::<XMFLOAT4X3>(a,0).as_ref(); w::<[f32; 12]>(a,1, *x) }; }) } // XMFLOAT4X3::as_ref<[f32; 12]>
unsafe extern "C" fn t590(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 12] = m::<XMFLOAT4X3>(a,0).as_mut(); *x = v::<[f32; 12]>(a,1); }; }) } // XMFLOAT4X3::as_mut<[f32; 12]>
unsafe extern "C" fn t591(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X3>(a,1, XMFLOAT4X3::from(v::<[[f32; 3]; 4]>(a,0))); }) } // XMFLOAT4X3::from<[[f32; 3]; 4]>
unsafe extern "C" fn t592(a: Args) -> u32 { guard(|| { { let x: [[f32; 3]; 4] = v::<XMFLOAT4X3>(a,0).into(); w::<[[f32; 3]; 4]>(a,1, x) }; }) } // XMFLOAT4X3::into<[[f32; 3]; 4]>
unsafe extern "C" fn t593(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4X3 = <&XMFLOAT4X3>::from(r::<[[f32; 3]; 4]>(a,0)); w::<XMFLOAT4X3>(a,1, *x) }; }) } // &XMFLOAT4X3::from<&[[f32; 3]; 4]>
unsafe extern "C" fn t594(a: Args) -> u32 { guard(|| { { let x: &[[f32; 3]; 4] = r::<XMFLOAT4X3>(a,0).into(); w::<[[f32; 3]; 4]>(a,1, *x) }; }) } // &XMFLOAT4X3::into<&[[f32; 3]; 4]>
unsafe extern "C" fn t595(a: Args) -> u32 { guard(|| { { let x: &[[f32; 3]; 4] = r::<XMFLOAT4X3>(a,0).as_ref(); w::<[[f32; 3]; 4]>(a,1, *x) }; }) } // XMFLOAT4X3::as_ref<[[f32; 3]; 4]>
unsafe extern "C" fn t596(a: Args) -> u32 { guard(|| { { let x: &mut [[f32; 3]; 4] = m::<XMFLOAT4X3>(a,0).as_mut(); *x = v::<[[f32; 3]; 4]>(a,1); }; }) } // XMFLOAT4X3::as_mut<[[f32; 3]; 4]>
unsafe extern "C" fn t597(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X4>(a,1, XMFLOAT3X4::from(v::<[f32; 12]>(a,0))); }) } // XMFLOAT3X4::from<[f32; 12]>
unsafe extern "C" fn t598(a: Args) -> u32 { guard(|| { { let x: [f32; 12] = v::<XMFLOAT3X4>(a,0).into(); w::<[f32; 12]>(a,1, x) }; }) } // XMFLOAT3X4::into<[f32; 12]>
unsafe extern "C" fn t599(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT3X4 = <&XMFLOAT3X4>::from(r::<[f32; 12]>(a,0)); w::<XMFLOAT3X4>(a,1, *x) }; }) } // &XMFLOAT3X4::from<&[f32; 12]>
unsafe extern "C" fn t600(a: Args) -> u32 { guard(|| { { let x: &[f32; 12] = r::<XMFLOAT3X4>(a,0).into(); w::<[f32; 12]>(a,1, *x) }; }) } // &XMFLOAT3X4::into<&[f32; 12]>
unsafe extern "C" fn t601(a: Args) -> u32 { guard(|| { { let x: &[f32; 12] = r::<XMFLOAT3X4>(a,0).as_ref(); w::<[f32; 12]>(a,1, *x) }; }) } // XMFLOAT3X4::as_ref<[f32; 12]>
unsafe extern "C" fn t602(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 12] = m::<XMFLOAT3X4>(a,0).as_mut(); *x = v::<[f32; 12]>(a,1); }; }) } // XMFLOAT3X4::as_mut<[f32; 12]>
unsafe extern "C" fn t603(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X4>(a,1, XMFLOAT3X4::from(v::<[[f32; 4]; 3]>(a,0))); }) } // XMFLOAT3X4::from<[[f32; 4]; 3]>
unsafe extern "C" fn t604(a: Args) -> u32 { guard(|| { { let x: [[f32; 4]; 3] = v::<XMFLOAT3X4>(a,0).into(); w::<[[f32; 4]; 3]>(a,1, x) }; }) } // XMFLOAT3X4::into<[[f32; 4]; 3]>
unsafe extern "C" fn t605(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT3X4 = <&XMFLOAT3X4>::from(r::<[[f32; 4]; 3]>(a,0)); w::<XMFLOAT3X4>(a,1, *x) }; }) } // &XMFLOAT3X4::from<&[[f32; 4]; 3]>
unsafe extern "C" fn t606(a: Args) -> u32 { guard(|| { { let x: &[[f32; 4]; 3] = r::<XMFLOAT3X4>(a,0).into(); w::<[[f32; 4]; 3]>(a,1, *x) }; }) } // &XMFLOAT3X4::into<&[[f32; 4]; 3]>
unsafe extern "C" fn t607(a: Args) -> u32 { guard(|| { { let x: &[[f32; 4]; 3] = r::<XMFLOAT3X4>(a,0).as_ref(); w::<[[f32; 4]; 3]>(a,1, *x) }; }) } // XMFLOAT3X4::as_ref<[[f32; 4]; 3]>
unsafe extern "C" fn t608(a: Args) -> u32 { guard(|| { { let x: &mut [[f32; 4]; 3] = m::<XMFLOAT3X4>(a,0).as_mut(); *x = v::<[[f32; 4]; 3]>(a,1); }; }) } // XMFLOAT3X4::as_mut<[[f32; 4]; 3]>
unsafe extern "C" fn t609(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X4>(a,1, XMFLOAT4X4::from(v::<[f32; 16]>(a,0))); }) } // XMFLOAT4X4::from<[f32; 16]>
unsafe extern "C" fn t610(a: Args) -> u32 { guard(|| { { let x: [f32; 16] = v::<XMFLOAT4X4>(a,0).into(); w::<[f32; 16]>(a,1, x) }; }) } // XMFLOAT4X4::into<[f32; 16]>
unsafe extern "C" fn t611(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4X4 = <&XMFLOAT4X4>::from(r::<[f32; 16]>(a,0)); w::<XMFLOAT4X4>(a,1, *x) }; }) } // &XMFLOAT4X4::from<&[f32; 16]>
unsafe extern "C" fn t612(a: Args) -> u32 { guard(|| { { let x: &[f32; 16] = r::<XMFLOAT4X4>(a,0).into(); w::<[f32; 16]>(a,1, *x) }; }) } // &XMFLOAT4X4::into<&[f32; 16]>
unsafe extern "C" fn t613(a: Args) -> u32 { guard(|| { { let x: &[f32; 16] = r::<XMFLOAT4X4>(a,0).as_ref(); w::<[f32; 16]>(a,1, *x) }; }) } // XMFLOAT4X4::as_ref<[f32; 16]>
unsafe extern "C" fn t614(a: Args) -> u32 { guard(|| { { let x: &mut [f32; 16] = m::<XMFLOAT4X4>(a,0).as_mut(); *x = v::<[f32; 16]>(a,1); }; }) } // XMFLOAT4X4::as_mut<[f32; 16]>
unsafe extern "C" fn t615(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X4>(a,1, XMFLOAT4X4::from(v::<[[f32; 4]; 4]>(a,0))); }) } // XMFLOAT4X4::from<[[f32; 4]; 4]>
unsafe extern "C" fn t616(a: Args) -> u32 { guard(|| { { let x: [[f32; 4]; 4] = v::<XMFLOAT4X4>(a,0).into(); w::<[[f32; 4]; 4]>(a,1, x) }; }) } // XMFLOAT4X4::into<[[f32; 4]; 4]>
unsafe extern "C" fn t617(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4X4 = <&XMFLOAT4X4>::from(r::<[[f32; 4]; 4]>(a,0)); w::<XMFLOAT4X4>(a,1, *x) }; }) } // &XMFLOAT4X4::from<&[[f32; 4]; 4]>
unsafe extern "C" fn t618(a: Args) -> u32 { guard(|| { { let x: &[[f32; 4]; 4] = r::<XMFLOAT4X4>(a,0).into(); w::<[[f32; 4]; 4]>(a,1, *x) }; }) } // &XMFLOAT4X4::into<&[[f32; 4]; 4]>
unsafe extern "C" fn t619(a: Args) -> u32 { guard(|| { { let x: &[[f32; 4]; 4] = r::<XMFLOAT4X4>(a,0).as_ref(); w::<[[f32; 4]; 4]>(a,1, *x) }; }) } // XMFLOAT4X4::as_ref<[[f32; 4]; 4]>
unsafe extern "C" fn t620(a: Args) -> u32 { guard(|| { { let x: &mut [[f32; 4]; 4] = m::<XMFLOAT4X4>(a,0).as_mut(); *x = v::<[[f32; 4]; 4]>(a,1); }; }) } // XMFLOAT4X4::as_mut<[[f32; 4]; 4]>
unsafe extern "C" fn t621(a: Args) -> u32 { guard(|| { w::<XMFLOAT3>(a,1, *Align16::from(v::<XMFLOAT3>(a,0))); }) } // Align16<XMFLOAT3>
unsafe extern "C" fn t622(a: Args) -> u32 { guard(|| { w::<f32>(a,1, Align16::from(cmpcb(v::<f32>(a,0))).0 .0); }) } // Align16<caller type>::from
unsafe extern "C" fn t623(a: Args) -> u32 { guard(|| { { let mut x = Align16::from(cmpcb(v::<f32>(a,0))); x.as_mut().0 += 1.0; (*x).0 *= 0.5; w::<f32>(a,1, x.as_ref().0) }; }) } // Align16<caller type>::deref
unsafe extern "C" fn t624(a: Args) -> u32 { guard(|| { w::<u32>(a,2, (Align16(cmpcb(v::<f32>(a,0))) < Align16(cmpcb(v::<f32>(a,1)))) as u32); }) } // Align16<caller type>::lt
unsafe extern "C" fn t625(a: Args) -> u32 { guard(|| { w::<u32>(a,2, (Align16(cmpcb(v::<f32>(a,0))) == Align16(cmpcb(v::<f32>(a,1)))) as u32); }) } // Align16<caller type>::eq
unsafe extern "C" fn t626(a: Args) -> u32 { guard(|| { { let x: &XMFLOAT4X4 = r::<Align16<XMFLOAT4X4>>(a,0).as_ref(); w::<XMFLOAT4X4>(a,1, *x) }; }) } // Align16<XMFLOAT4X4>::as_ref
unsafe extern "C" fn t627(a: Args) -> u32 { guard(|| { { let x: &mut XMFLOAT4 = m::<Align16<XMFLOAT4>>(a,0).as_mut(); *x = v::<XMFLOAT4>(a,1); }; }) } // Align16<XMFLOAT4>::as_mut
unsafe extern "C" fn t628(a: Args) -> u32 { guard(|| { w::<XMFLOAT2>(a,2, XMFLOAT2::set(v::<f32>(a,0), v::<f32>(a,1))); }) } // XMFLOAT2::set
unsafe extern "C" fn t629(a: Args) -> u32 { guard(|| { w::<XMFLOAT3>(a,3, XMFLOAT3::set(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2))); }) } // XMFLOAT3::set
unsafe extern "C" fn t630(a: Args) -> u32 { guard(|| { w::<XMFLOAT4>(a,4, XMFLOAT4::set(v::<f32>(a,0), v::<f32>(a,1), v::<f32>(a,2), v::<f32>(a,3))); }) } // XMFLOAT4::set
unsafe extern "C" fn t631(a: Args) -> u32 { guard(|| { w::<XMINT2>(a,2, XMINT2::set(v::<i32>(a,0), v::<i32>(a,1))); }) } // XMINT2::set
unsafe extern "C" fn t632(a: Args) -> u32 { guard(|| { w::<XMINT3>(a,3, XMINT3::set(v::<i32>(a,0), v::<i32>(a,1), v::<i32>(a,2))); }) } // XMINT3::set
unsafe extern "C" fn t633(a: Args) -> u32 { guard(|| { w::<XMINT4>(a,4, XMINT4::set(v::<i32>(a,0), v::<i32>(a,1), v::<i32>(a,2), v::<i32>(a,3))); }) } // XMINT4::set
unsafe extern "C" fn t634(a: Args) -> u32 { guard(|| { w::<XMUINT2>(a,2, XMUINT2::set(v::<u32>(a,0), v::<u32>(a,1))); }) } // XMUINT2::set
unsafe extern "C" fn t635(a: Args) -> u32 { guard(|| { w::<XMUINT3>(a,3, XMUINT3::set(v::<u32>(a,0), v::<u32>(a,1), v::<u32>(a,2))); }) } // XMUINT3::set
unsafe extern "C" fn t636(a: Args) -> u32 { guard(|| { w::<XMUINT4>(a,4, XMUINT4::set(v::<u32>(a,0), v::<u32>(a,1), v::<u32>(a,2), v::<u32>(a,3))); }) } // XMUINT4::set
unsafe extern "C" fn t637(a: Args) -> u32 { guard(|| { w::<XMFLOAT2>(a,0, XMFLOAT2::default()); }) } // XMFLOAT2::default
unsafe extern "C" fn t638(a: Args) -> u32 { guard(|| { w::<XMFLOAT2>(a,1, Clone::clone(r::<XMFLOAT2>(a,0))); }) } // XMFLOAT2::clone
unsafe extern "C" fn t639(a: Args) -> u32 { guard(|| { w::<XMFLOAT3>(a,0, XMFLOAT3::default()); }) } // XMFLOAT3::default
unsafe extern "C" fn t640(a: Args) -> u32 { guard(|| { w::<XMFLOAT3>(a,1, Clone::clone(r::<XMFLOAT3>(a,0))); }) } // XMFLOAT3::clone
unsafe extern "C" fn t641(a: Args) -> u32 { guard(|| { w::<XMFLOAT4>(a,0, XMFLOAT4::default()); }) } // XMFLOAT4::default
unsafe extern "C" fn t642(a: Args) -> u32 { guard(|| { w::<XMFLOAT4>(a,1, Clone::clone(r::<XMFLOAT4>(a,0))); }) } // XMFLOAT4::clone
unsafe extern "C" fn t643(a: Args) -> u32 { guard(|| { w::<XMINT2>(a,0, XMINT2::default()); }) } // XMINT2::default
unsafe extern "C" fn t644(a: Args) -> u32 { guard(|| { w::<XMINT2>(a,1, Clone::clone(r::<XMINT2>(a,0))); }) } // XMINT2::clone
unsafe extern "C" fn t645(a: Args) -> u32 { guard(|| { w::<XMINT3>(a,0, XMINT3::default()); }) } // XMINT3::default
unsafe extern "C" fn t646(a: Args) -> u32 { guard(|| { w::<XMINT3>(a,1, Clone::clone(r::<XMINT3>(a,0))); }) } // XMINT3::clone
unsafe extern "C" fn t647(a: Args) -> u32 { guard(|| { w::<XMINT4>(a,0, XMINT4::default()); }) } // XMINT4::default
unsafe extern "C" fn t648(a: Args) -> u32 { guard(|| { w::<XMINT4>(a,1, Clone::clone(r::<XMINT4>(a,0))); }) } // XMINT4::clone
unsafe extern "C" fn t649(a: Args) -> u32 { guard(|| { w::<XMUINT2>(a,0, XMUINT2::default()); }) } // XMUINT2::default
unsafe extern "C" fn t650(a: Args) -> u32 { guard(|| { w::<XMUINT2>(a,1, Clone::clone(r::<XMUINT2>(a,0))); }) } // XMUINT2::clone
unsafe extern "C" fn t651(a: Args) -> u32 { guard(|| { w::<XMUINT3>(a,0, XMUINT3::default()); }) } // XMUINT3::default
unsafe extern "C" fn t652(a: Args) -> u32 { guard(|| { w::<XMUINT3>(a,1, Clone::clone(r::<XMUINT3>(a,0))); }) } // XMUINT3::clone
unsafe extern "C" fn t653(a: Args) -> u32 { guard(|| { w::<XMUINT4>(a,0, XMUINT4::default()); }) } // XMUINT4::default
unsafe extern "C" fn t654(a: Args) -> u32 { guard(|| { w::<XMUINT4>(a,1, Clone::clone(r::<XMUINT4>(a,0))); }) } // XMUINT4::clone
unsafe extern "C" fn t655(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X3>(a,0, XMFLOAT3X3::default()); }) } // XMFLOAT3X3::default
unsafe extern "C" fn t656(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X3>(a,1, Clone::clone(r::<XMFLOAT3X3>(a,0))); }) } // XMFLOAT3X3::clone
unsafe extern "C" fn t657(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X3>(a,0, XMFLOAT4X3::default()); }) } // XMFLOAT4X3::default
unsafe extern "C" fn t658(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X3>(a,1, Clone::clone(r::<XMFLOAT4X3>(a,0))); }) } // XMFLOAT4X3::clone
unsafe extern "C" fn t659(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X4>(a,0, XMFLOAT3X4::default()); }) } // XMFLOAT3X4::default
unsafe extern "C" fn t660(a: Args) -> u32 { guard(|| { w::<XMFLOAT3X4>(a,1, Clone::clone(r::<XMFLOAT3X4>(a,0))); }) } // XMFLOAT3X4::clone
unsafe extern "C" fn t661(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X4>(a,0, XMFLOAT4X4::default()); }) } // XMFLOAT4X4::default
unsafe extern "C" fn t662(a: Args) -> u32 { guard(|| { w::<XMFLOAT4X4>(a,1, Clone::clone(r::<XMFLOAT4X4>(a,0))); }) } // XMFLOAT4X4::clone
unsafe extern "C" fn t663(a: Args) -> u32 { guard(|| { w::<BoundingSphere>(a,0, BoundingSphere::default()); }) } // BoundingSphere::default
unsafe extern "C" fn t664(a: Args) -> u32 { guard(|| { w::<BoundingSphere>(a,1, Clone::clone(r::<BoundingSphere>(a,0))); }) } // BoundingSphere::clone
unsafe extern "C" fn t665(a: Args) -> u32 { guard(|| { w::<BoundingBox>(a,0, BoundingBox::default()); }) } // BoundingBox::default
unsafe extern "C" fn t666(a: Args) -> u32 { guard(|| { w::<BoundingBox>(a,1, Clone::clone(r::<BoundingBox>(a,0))); }) } // BoundingBox::clone
unsafe extern "C" fn t667(a: Args) -> u32 { guard(|| { w::<BoundingOrientedBox>(a,0, BoundingOrientedBox::default()); }) } // BoundingOrientedBox::default
unsafe extern "C" fn t668(a: Args) -> u32 { guard(|| { w::<BoundingOrientedBox>(a,1, Clone::clone(r::<BoundingOrientedBox>(a,0))); }) } // BoundingOrientedBox::clone
unsafe extern "C" fn t669(a: Args) -> u32 { guard(|| { w::<BoundingFrustum>(a,0, BoundingFrustum::default()); }) } // BoundingFrustum::default
unsafe extern "C" fn t670(a: Args) -> u32 { guard(|| { w::<BoundingFrustum>(a,1, Clone::clone(r::<BoundingFrustum>(a,0))); }) } // BoundingFrustum::clone
unsafe extern "C" fn t671(a: Args) -> u32 { guard(|| { w::<XMVector>(a,1, Clone::clone(r::<XMVector>(a,0))); }) } // XMVector::clone
unsafe extern "C" fn t672(a: Args) -> u32 { guard(|| { w::<XMMatrix>(a,1, Clone::clone(r::<XMMatrix>(a,0))); }) } // XMMatrix::clone
unsafe extern "C" fn t673(a: Args) -> u32 { guard(|| { w::<XMMATRIX>(a,1, Clone::clone(r::<XMMATRIX>(a,0))); }) } // XMMATRIX::clone
unsafe extern "C" fn t674(a: Args) -> u32 { guard(|| { w::<Align16<XMFLOAT4>>(a,1, Clone::clone(r::<Align16<XMFLOAT4>>(a,0))); }) } // Align16<XMFLOAT4>::clone
unsafe extern "C" fn t675(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleX, SwizzleY, SwizzleZ, SwizzleW) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(XYZW)>::XMVectorSwizzle
unsafe extern "C" fn t676(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleW, SwizzleZ, SwizzleY, SwizzleX) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(WZYX)>::XMVectorSwizzle
unsafe extern "C" fn t677(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleX, SwizzleY, SwizzleX, SwizzleY) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(XYXY)>::XMVectorSwizzle
unsafe extern "C" fn t678(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleZ, SwizzleW, SwizzleZ, SwizzleW) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(ZWZW)>::XMVectorSwizzle
unsafe extern "C" fn t679(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleX, SwizzleX, SwizzleY, SwizzleY) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(XXYY)>::XMVectorSwizzle
unsafe extern "C" fn t680(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleZ, SwizzleZ, SwizzleW, SwizzleW) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(ZZWW)>::XMVectorSwizzle
unsafe extern "C" fn t681(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleX, SwizzleX, SwizzleX, SwizzleX) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(XXXX)>::XMVectorSwizzle
unsafe extern "C" fn t682(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleW, SwizzleW, SwizzleX, SwizzleZ) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(WWXZ)>::XMVectorSwizzle
unsafe extern "C" fn t683(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleY, SwizzleX, SwizzleW, SwizzleZ) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(YXWZ)>::XMVectorSwizzle
unsafe extern "C" fn t684(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,1, <(SwizzleZ, SwizzleX, SwizzleY, SwizzleW) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0))); }) } // <(ZXYW)>::XMVectorSwizzle
unsafe extern "C" fn t685(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0X, Permute0Y, Permute0Z, Permute0W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0X0Y0Z0W)>::XMVectorPermute
unsafe extern "C" fn t686(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute1X, Permute1Y, Permute1Z, Permute1W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(1X1Y1Z1W)>::XMVectorPermute
unsafe extern "C" fn t687(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0X, Permute0Y, Permute1X, Permute1Y) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0X0Y1X1Y)>::XMVectorPermute
unsafe extern "C" fn t688(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute1Z, Permute1W, Permute0Z, Permute0W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(1Z1W0Z0W)>::XMVectorPermute
unsafe extern "C" fn t689(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0X, Permute0Z, Permute1X, Permute1Z) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0X0Z1X1Z)>::XMVectorPermute
unsafe extern "C" fn t690(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0Y, Permute1Y, Permute0W, Permute1W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0Y1Y0W1W)>::XMVectorPermute
unsafe extern "C" fn t691(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute1W, Permute0X, Permute1Y, Permute0Z) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(1W0X1Y0Z)>::XMVectorPermute
unsafe extern "C" fn t692(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0X, Permute1Y, Permute0Z, Permute1W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0X1Y0Z1W)>::XMVectorPermute
unsafe extern "C" fn t693(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute1X, Permute0Y, Permute1Z, Permute0W) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(1X0Y1Z0W)>::XMVectorPermute
unsafe extern "C" fn t694(a: Args) -> u32 { guard(|| { w::<XMVECTOR>(a,2, <(Permute0W, Permute0W, Permute1X, Permute1X) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1))); }) } // <(0W0W1X1X)>::XMVectorPermute
unsafe extern "C" fn t695(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMVector>(a,0), v::<u32>(a,1))); }) } // Debug for XMVector
unsafe extern "C" fn t696(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMVECTOR>(a,0), v::<u32>(a,1))); }) } // Debug for XMVECTOR
unsafe extern "C" fn t697(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMMatrix>(a,0), v::<u32>(a,1))); }) } // Debug for XMMatrix
unsafe extern "C" fn t698(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMMATRIX>(a,0), v::<u32>(a,1))); }) } // Debug for XMMATRIX
unsafe extern "C" fn t699(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT2>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT2
unsafe extern "C" fn t700(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT3>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT3
unsafe extern "C" fn t701(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT4>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT4
unsafe extern "C" fn t702(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMINT2>(a,0), v::<u32>(a,1))); }) } // Debug for XMINT2
unsafe extern "C" fn t703(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMINT3>(a,0), v::<u32>(a,1))); }) } // Debug for XMINT3
unsafe extern "C" fn t704(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMINT4>(a,0), v::<u32>(a,1))); }) } // Debug for XMINT4
unsafe extern "C" fn t705(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMUINT2>(a,0), v::<u32>(a,1))); }) } // Debug for XMUINT2
unsafe extern "C" fn t706(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMUINT3>(a,0), v::<u32>(a,1))); }) } // Debug for XMUINT3
unsafe extern "C" fn t707(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMUINT4>(a,0), v::<u32>(a,1))); }) } // Debug for XMUINT4
unsafe extern "C" fn t708(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT3X3>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT3X3
unsafe extern "C" fn t709(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT4X3>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT4X3
unsafe extern "C" fn t710(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT3X4>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT3X4
unsafe extern "C" fn t711(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<XMFLOAT4X4>(a,0), v::<u32>(a,1))); }) } // Debug for XMFLOAT4X4
unsafe extern "C" fn t712(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<Align16<XMFLOAT3>>(a,0), v::<u32>(a,1))); }) } // Debug for Align16<XMFLOAT3>
unsafe extern "C" fn t713(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<Align16<XMFLOAT4X4>>(a,0), v::<u32>(a,1))); }) } // Debug for Align16<XMFLOAT4X4>
unsafe extern "C" fn t714(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<BoundingSphere>(a,0), v::<u32>(a,1))); }) } // Debug for BoundingSphere
unsafe extern "C" fn t715(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<BoundingBox>(a,0), v::<u32>(a,1))); }) } // Debug for BoundingBox
unsafe extern "C" fn t716(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<BoundingOrientedBox>(a,0), v::<u32>(a,1))); }) } // Debug for BoundingOrientedBox
unsafe extern "C" fn t717(a: Args) -> u32 { guard(|| { w::<u32>(a,2, dbg(r::<BoundingFrustum>(a,0), v::<u32>(a,1))); }) } // Debug for BoundingFrustum
unsafe extern "C" fn t718(a: Args) -> u32 { guard(|| { w::<u32>(a,2, { use directx_math::collision::ContainmentType::*; dbg(&[DISJOINT, INTERSECTS, CONTAINS][v::<u32>(a,0) as usize % 3], v::<u32>(a,1)) }); }) } // Debug for ContainmentType
unsafe extern "C" fn t719(a: Args) -> u32 { guard(|| { w::<u32>(a,2, { use directx_math::collision::PlaneIntersectionType::*; dbg(&[FRONT, INTERSECTING, BACK][v::<u32>(a,0) as usize % 3], v::<u32>(a,1)) }); }) } // Debug for PlaneIntersectionType

pub static TABLE: [FnDesc; 720] = [
    FnDesc { name: b"XMConvertToRadians\0".as_ptr(), thunk: t0, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMConvertToDegrees\0".as_ptr(), thunk: t1, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAllTrue\0".as_ptr(), thunk: t2, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAnyTrue\0".as_ptr(), thunk: t3, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAllFalse\0".as_ptr(), thunk: t4, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAnyFalse\0".as_ptr(), thunk: t5, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonMixed\0".as_ptr(), thunk: t6, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAllInBounds\0".as_ptr(), thunk: t7, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMComparisonAnyOutOfBounds\0".as_ptr(), thunk: t8, slots: &[s(0,8,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSetBinaryConstant\0".as_ptr(), thunk: t9, slots: &[s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMVectorSplatConstant\0".as_ptr(), thunk: t10, slots: &[s(0,20,4,4,4,4,16), s(0,9,4,4,4,4,32), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSplatConstantInt\0".as_ptr(), thunk: t11, slots: &[s(0,20,4,4,4,4,16), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorZero\0".as_ptr(), thunk: t12, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSet\0".as_ptr(), thunk: t13, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMVectorSetInt\0".as_ptr(), thunk: t14, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMVectorReplicate\0".as_ptr(), thunk: t15, slots: &[s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorReplicatePtr\0".as_ptr(), thunk: t16, slots: &[s(1,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorReplicateInt\0".as_ptr(), thunk: t17, slots: &[s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorTrueInt\0".as_ptr(), thunk: t18, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorFalseInt\0".as_ptr(), thunk: t19, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSplatX\0".as_ptr(), thunk: t20, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSplatY\0".as_ptr(), thunk: t21, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSplatZ\0".as_ptr(), thunk: t22, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSplatW\0".as_ptr(), thunk: t23, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSplatOne\0".as_ptr(), thunk: t24, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSplatInfinity\0".as_ptr(), thunk: t25, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSplatQNaN\0".as_ptr(), thunk: t26, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSplatEpsilon\0".as_ptr(), thunk: t27, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorSplatSignMask\0".as_ptr(), thunk: t28, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMVectorGetByIndex\0".as_ptr(), thunk: t29, slots: &[s(0,1,16,16,16,4,0), s(0,9,8,8,8,8,4), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorGetX\0".as_ptr(), thunk: t30, slots: &[s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetY\0".as_ptr(), thunk: t31, slots: &[s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetZ\0".as_ptr(), thunk: t32, slots: &[s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetW\0".as_ptr(), thunk: t33, slots: &[s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetXPtr\0".as_ptr(), thunk: t34, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetYPtr\0".as_ptr(), thunk: t35, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetZPtr\0".as_ptr(), thunk: t36, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetWPtr\0".as_ptr(), thunk: t37, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetIntByIndex\0".as_ptr(), thunk: t38, slots: &[s(0,7,16,16,16,4,0), s(0,9,8,8,8,8,4), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorGetIntX\0".as_ptr(), thunk: t39, slots: &[s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetIntY\0".as_ptr(), thunk: t40, slots: &[s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetIntZ\0".as_ptr(), thunk: t41, slots: &[s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorGetIntW\0".as_ptr(), thunk: t42, slots: &[s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSetByIndex\0".as_ptr(), thunk: t43, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,9,8,8,8,8,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorSetX\0".as_ptr(), thunk: t44, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetY\0".as_ptr(), thunk: t45, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetZ\0".as_ptr(), thunk: t46, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetW\0".as_ptr(), thunk: t47, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetIntByIndex\0".as_ptr(), thunk: t48, slots: &[s(0,7,16,16,16,4,0), s(0,8,4,4,4,4,0), s(0,9,8,8,8,8,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorSetIntX\0".as_ptr(), thunk: t49, slots: &[s(0,7,16,16,16,4,0), s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetIntY\0".as_ptr(), thunk: t50, slots: &[s(0,7,16,16,16,4,0), s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetIntZ\0".as_ptr(), thunk: t51, slots: &[s(0,7,16,16,16,4,0), s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSetIntW\0".as_ptr(), thunk: t52, slots: &[s(0,7,16,16,16,4,0), s(0,8,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSwizzle\0".as_ptr(), thunk: t53, slots: &[s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,4), s(0,9,4,4,4,4,4), s(0,9,4,4,4,4,4), s(0,9,4,4,4,4,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorPermute\0".as_ptr(), thunk: t54, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,8), s(0,9,4,4,4,4,8), s(0,9,4,4,4,4,8), s(0,9,4,4,4,4,8), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMVectorSelectControl\0".as_ptr(), thunk: t55, slots: &[s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMVectorSelect\0".as_ptr(), thunk: t56, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,7,16,16,16,4,1), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorMergeXY\0".as_ptr(), thunk: t57, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorMergeZW\0".as_ptr(), thunk: t58, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorShiftLeft\0".as_ptr(), thunk: t59, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorRotateLeft\0".as_ptr(), thunk: t60, slots: &[s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorRotateRight\0".as_ptr(), thunk: t61, slots: &[s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,4), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorInsert\0".as_ptr(), thunk: t62, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,4), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(0,9,4,4,4,4,2), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 8, flags: 0 },
    FnDesc { name: b"XMVectorEqual\0".as_ptr(), thunk: t63, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorEqualR\0".as_ptr(), thunk: t64, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorEqualInt\0".as_ptr(), thunk: t65, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorEqualIntR\0".as_ptr(), thunk: t66, slots: &[s(2,17,4,4,4,4,0), s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorNearEqual\0".as_ptr(), thunk: t67, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorNotEqual\0".as_ptr(), thunk: t68, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorNotEqualInt\0".as_ptr(), thunk: t69, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorGreater\0".as_ptr(), thunk: t70, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorGreaterR\0".as_ptr(), thunk: t71, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorGreaterOrEqual\0".as_ptr(), thunk: t72, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorGreaterOrEqualR\0".as_ptr(), thunk: t73, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorLess\0".as_ptr(), thunk: t74, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorLessOrEqual\0".as_ptr(), thunk: t75, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorInBounds\0".as_ptr(), thunk: t76, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorInBoundsR\0".as_ptr(), thunk: t77, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorIsNaN\0".as_ptr(), thunk: t78, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorIsInfinite\0".as_ptr(), thunk: t79, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorMin\0".as_ptr(), thunk: t80, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorMax\0".as_ptr(), thunk: t81, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorRound\0".as_ptr(), thunk: t82, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorTruncate\0".as_ptr(), thunk: t83, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorFloor\0".as_ptr(), thunk: t84, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorCeiling\0".as_ptr(), thunk: t85, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorClamp\0".as_ptr(), thunk: t86, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorSaturate\0".as_ptr(), thunk: t87, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorAndInt\0".as_ptr(), thunk: t88, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorAndCInt\0".as_ptr(), thunk: t89, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorOrInt\0".as_ptr(), thunk: t90, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorNorInt\0".as_ptr(), thunk: t91, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorXorInt\0".as_ptr(), thunk: t92, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorNegate\0".as_ptr(), thunk: t93, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorAdd\0".as_ptr(), thunk: t94, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSum\0".as_ptr(), thunk: t95, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorAddAngles\0".as_ptr(), thunk: t96, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSubtract\0".as_ptr(), thunk: t97, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSubtractAngles\0".as_ptr(), thunk: t98, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorMultiply\0".as_ptr(), thunk: t99, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorMultiplyAdd\0".as_ptr(), thunk: t100, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorDivide\0".as_ptr(), thunk: t101, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorNegativeMultiplySubtract\0".as_ptr(), thunk: t102, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorScale\0".as_ptr(), thunk: t103, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorReciprocalEst\0".as_ptr(), thunk: t104, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorReciprocal\0".as_ptr(), thunk: t105, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSqrtEst\0".as_ptr(), thunk: t106, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSqrt\0".as_ptr(), thunk: t107, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorReciprocalSqrtEst\0".as_ptr(), thunk: t108, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorReciprocalSqrt\0".as_ptr(), thunk: t109, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorExp2\0".as_ptr(), thunk: t110, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorExp\0".as_ptr(), thunk: t111, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorPow\0".as_ptr(), thunk: t112, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorAbs\0".as_ptr(), thunk: t113, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorMod\0".as_ptr(), thunk: t114, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorModAngles\0".as_ptr(), thunk: t115, slots: &[s(0,5,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSin\0".as_ptr(), thunk: t116, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorCos\0".as_ptr(), thunk: t117, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSinCos\0".as_ptr(), thunk: t118, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorTan\0".as_ptr(), thunk: t119, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSinH\0".as_ptr(), thunk: t120, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorCosH\0".as_ptr(), thunk: t121, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorTanH\0".as_ptr(), thunk: t122, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorASin\0".as_ptr(), thunk: t123, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorACos\0".as_ptr(), thunk: t124, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorATan\0".as_ptr(), thunk: t125, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorATan2\0".as_ptr(), thunk: t126, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorSinEst\0".as_ptr(), thunk: t127, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorCosEst\0".as_ptr(), thunk: t128, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorSinCosEst\0".as_ptr(), thunk: t129, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorTanEst\0".as_ptr(), thunk: t130, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorASinEst\0".as_ptr(), thunk: t131, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorACosEst\0".as_ptr(), thunk: t132, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorATanEst\0".as_ptr(), thunk: t133, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVectorATan2Est\0".as_ptr(), thunk: t134, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVectorLerp\0".as_ptr(), thunk: t135, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorLerpV\0".as_ptr(), thunk: t136, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVectorHermite\0".as_ptr(), thunk: t137, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorHermiteV\0".as_ptr(), thunk: t138, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorCatmullRom\0".as_ptr(), thunk: t139, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorCatmullRomV\0".as_ptr(), thunk: t140, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorBaryCentric\0".as_ptr(), thunk: t141, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVectorBaryCentricV\0".as_ptr(), thunk: t142, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMVector2Equal\0".as_ptr(), thunk: t143, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2EqualR\0".as_ptr(), thunk: t144, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2EqualInt\0".as_ptr(), thunk: t145, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2EqualIntR\0".as_ptr(), thunk: t146, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2NearEqual\0".as_ptr(), thunk: t147, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2NotEqual\0".as_ptr(), thunk: t148, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2NotEqualInt\0".as_ptr(), thunk: t149, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2Greater\0".as_ptr(), thunk: t150, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2GreaterR\0".as_ptr(), thunk: t151, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2GreaterOrEqual\0".as_ptr(), thunk: t152, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2GreaterOrEqualR\0".as_ptr(), thunk: t153, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2Less\0".as_ptr(), thunk: t154, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2LessOrEqual\0".as_ptr(), thunk: t155, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2InBounds\0".as_ptr(), thunk: t156, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2IsNaN\0".as_ptr(), thunk: t157, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2IsInfinite\0".as_ptr(), thunk: t158, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2Dot\0".as_ptr(), thunk: t159, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2Cross\0".as_ptr(), thunk: t160, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2LengthSq\0".as_ptr(), thunk: t161, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2ReciprocalLengthEst\0".as_ptr(), thunk: t162, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2ReciprocalLength\0".as_ptr(), thunk: t163, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2LengthEst\0".as_ptr(), thunk: t164, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2Length\0".as_ptr(), thunk: t165, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2NormalizeEst\0".as_ptr(), thunk: t166, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2Normalize\0".as_ptr(), thunk: t167, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2ClampLength\0".as_ptr(), thunk: t168, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2ClampLengthV\0".as_ptr(), thunk: t169, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2Reflect\0".as_ptr(), thunk: t170, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2Refract\0".as_ptr(), thunk: t171, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2RefractV\0".as_ptr(), thunk: t172, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2Orthogonal\0".as_ptr(), thunk: t173, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector2AngleBetweenNormalsEst\0".as_ptr(), thunk: t174, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2AngleBetweenNormals\0".as_ptr(), thunk: t175, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2AngleBetweenVectors\0".as_ptr(), thunk: t176, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2LinePointDistance\0".as_ptr(), thunk: t177, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector2IntersectLine\0".as_ptr(), thunk: t178, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMVector2Transform\0".as_ptr(), thunk: t179, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2TransformCoord\0".as_ptr(), thunk: t180, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector2TransformNormal\0".as_ptr(), thunk: t181, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Equal\0".as_ptr(), thunk: t182, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3EqualR\0".as_ptr(), thunk: t183, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3EqualInt\0".as_ptr(), thunk: t184, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3EqualIntR\0".as_ptr(), thunk: t185, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3NearEqual\0".as_ptr(), thunk: t186, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3NotEqual\0".as_ptr(), thunk: t187, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3NotEqualInt\0".as_ptr(), thunk: t188, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Greater\0".as_ptr(), thunk: t189, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3GreaterR\0".as_ptr(), thunk: t190, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3GreaterOrEqual\0".as_ptr(), thunk: t191, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3GreaterOrEqualR\0".as_ptr(), thunk: t192, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Less\0".as_ptr(), thunk: t193, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3LessOrEqual\0".as_ptr(), thunk: t194, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3InBounds\0".as_ptr(), thunk: t195, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3IsNaN\0".as_ptr(), thunk: t196, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3IsInfinite\0".as_ptr(), thunk: t197, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3Dot\0".as_ptr(), thunk: t198, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Cross\0".as_ptr(), thunk: t199, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3LengthSq\0".as_ptr(), thunk: t200, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3ReciprocalLengthEst\0".as_ptr(), thunk: t201, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3ReciprocalLength\0".as_ptr(), thunk: t202, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3LengthEst\0".as_ptr(), thunk: t203, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3Length\0".as_ptr(), thunk: t204, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3NormalizeEst\0".as_ptr(), thunk: t205, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3Normalize\0".as_ptr(), thunk: t206, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3ClampLength\0".as_ptr(), thunk: t207, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3ClampLengthV\0".as_ptr(), thunk: t208, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3Reflect\0".as_ptr(), thunk: t209, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Refract\0".as_ptr(), thunk: t210, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3RefractV\0".as_ptr(), thunk: t211, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3Orthogonal\0".as_ptr(), thunk: t212, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector3AngleBetweenNormalsEst\0".as_ptr(), thunk: t213, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3AngleBetweenNormals\0".as_ptr(), thunk: t214, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3AngleBetweenVectors\0".as_ptr(), thunk: t215, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3LinePointDistance\0".as_ptr(), thunk: t216, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3ComponentsFromNormal\0".as_ptr(), thunk: t217, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector3Rotate\0".as_ptr(), thunk: t218, slots: &[s(0,1,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3InverseRotate\0".as_ptr(), thunk: t219, slots: &[s(0,1,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Transform\0".as_ptr(), thunk: t220, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3TransformCoord\0".as_ptr(), thunk: t221, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3TransformNormal\0".as_ptr(), thunk: t222, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector3Project\0".as_ptr(), thunk: t223, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,18,64,16,64,4,0), s(1,6,64,16,64,4,0), s(1,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 11, flags: 0 },
    FnDesc { name: b"XMVector3Unproject\0".as_ptr(), thunk: t224, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,18,64,16,64,4,0), s(1,6,64,16,64,4,0), s(1,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 11, flags: 0 },
    FnDesc { name: b"XMVector4Equal\0".as_ptr(), thunk: t225, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4EqualR\0".as_ptr(), thunk: t226, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4EqualInt\0".as_ptr(), thunk: t227, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4EqualIntR\0".as_ptr(), thunk: t228, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4NearEqual\0".as_ptr(), thunk: t229, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4NotEqual\0".as_ptr(), thunk: t230, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4NotEqualInt\0".as_ptr(), thunk: t231, slots: &[s(0,7,16,16,16,4,0), s(0,7,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4Greater\0".as_ptr(), thunk: t232, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4GreaterR\0".as_ptr(), thunk: t233, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4GreaterOrEqual\0".as_ptr(), thunk: t234, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4GreaterOrEqualR\0".as_ptr(), thunk: t235, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4Less\0".as_ptr(), thunk: t236, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4LessOrEqual\0".as_ptr(), thunk: t237, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4InBounds\0".as_ptr(), thunk: t238, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4IsNaN\0".as_ptr(), thunk: t239, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4IsInfinite\0".as_ptr(), thunk: t240, slots: &[s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4Dot\0".as_ptr(), thunk: t241, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4Cross\0".as_ptr(), thunk: t242, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4LengthSq\0".as_ptr(), thunk: t243, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4ReciprocalLengthEst\0".as_ptr(), thunk: t244, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4ReciprocalLength\0".as_ptr(), thunk: t245, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4LengthEst\0".as_ptr(), thunk: t246, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4Length\0".as_ptr(), thunk: t247, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4NormalizeEst\0".as_ptr(), thunk: t248, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4Normalize\0".as_ptr(), thunk: t249, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4ClampLength\0".as_ptr(), thunk: t250, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4ClampLengthV\0".as_ptr(), thunk: t251, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4Reflect\0".as_ptr(), thunk: t252, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4Refract\0".as_ptr(), thunk: t253, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4RefractV\0".as_ptr(), thunk: t254, slots: &[s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMVector4Orthogonal\0".as_ptr(), thunk: t255, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector4AngleBetweenNormalsEst\0".as_ptr(), thunk: t256, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4AngleBetweenNormals\0".as_ptr(), thunk: t257, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4AngleBetweenVectors\0".as_ptr(), thunk: t258, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector4Transform\0".as_ptr(), thunk: t259, slots: &[s(0,1,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::set\0".as_ptr(), thunk: t260, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMConvertVectorIntToFloat\0".as_ptr(), thunk: t261, slots: &[s(0,7,16,16,16,4,0), s(0,9,4,4,4,4,32), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMConvertVectorFloatToInt\0".as_ptr(), thunk: t262, slots: &[s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,32), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMConvertVectorUIntToFloat\0".as_ptr(), thunk: t263, slots: &[s(0,7,16,16,16,4,0), s(0,9,4,4,4,4,32), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMConvertVectorFloatToUInt\0".as_ptr(), thunk: t264, slots: &[s(0,1,16,16,16,4,0), s(0,9,4,4,4,4,32), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMLoadInt2\0".as_ptr(), thunk: t265, slots: &[s(1,7,8,4,8,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat2\0".as_ptr(), thunk: t266, slots: &[s(1,1,8,4,8,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadInt3\0".as_ptr(), thunk: t267, slots: &[s(1,7,12,4,12,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat3\0".as_ptr(), thunk: t268, slots: &[s(1,1,12,4,12,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat3A\0".as_ptr(), thunk: t269, slots: &[s(1,1,16,16,12,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadInt4\0".as_ptr(), thunk: t270, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat4\0".as_ptr(), thunk: t271, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat4A\0".as_ptr(), thunk: t272, slots: &[s(1,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat3x3\0".as_ptr(), thunk: t273, slots: &[s(1,1,36,4,36,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat4x3\0".as_ptr(), thunk: t274, slots: &[s(1,1,48,4,48,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat3x4\0".as_ptr(), thunk: t275, slots: &[s(1,1,48,4,48,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat4x4\0".as_ptr(), thunk: t276, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMLoadFloat4x4A\0".as_ptr(), thunk: t277, slots: &[s(1,1,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMStoreFloat\0".as_ptr(), thunk: t278, slots: &[s(2,17,4,4,4,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreInt2\0".as_ptr(), thunk: t279, slots: &[s(2,17,8,4,8,4,0), s(0,7,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat2\0".as_ptr(), thunk: t280, slots: &[s(2,17,8,4,8,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreInt3\0".as_ptr(), thunk: t281, slots: &[s(2,17,12,4,12,4,0), s(0,7,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat3\0".as_ptr(), thunk: t282, slots: &[s(2,17,12,4,12,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat3A\0".as_ptr(), thunk: t283, slots: &[s(2,17,16,16,12,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreInt4\0".as_ptr(), thunk: t284, slots: &[s(2,17,16,4,16,4,0), s(0,7,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat4\0".as_ptr(), thunk: t285, slots: &[s(2,17,16,4,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat4A\0".as_ptr(), thunk: t286, slots: &[s(2,17,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat3x3\0".as_ptr(), thunk: t287, slots: &[s(2,17,36,4,36,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat4x3\0".as_ptr(), thunk: t288, slots: &[s(2,17,48,4,48,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat3x4\0".as_ptr(), thunk: t289, slots: &[s(2,17,48,4,48,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat4x4\0".as_ptr(), thunk: t290, slots: &[s(2,17,64,4,64,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMStoreFloat4x4A\0".as_ptr(), thunk: t291, slots: &[s(2,17,64,16,64,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 4 },
    FnDesc { name: b"XMQuaternionEqual\0".as_ptr(), thunk: t292, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionNotEqual\0".as_ptr(), thunk: t293, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionIsNaN\0".as_ptr(), thunk: t294, slots: &[s(0,2,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionIsInfinite\0".as_ptr(), thunk: t295, slots: &[s(0,2,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionIsIdentity\0".as_ptr(), thunk: t296, slots: &[s(0,2,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionDot\0".as_ptr(), thunk: t297, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionMultiply\0".as_ptr(), thunk: t298, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionLengthSq\0".as_ptr(), thunk: t299, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionReciprocalLength\0".as_ptr(), thunk: t300, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionLength\0".as_ptr(), thunk: t301, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionNormalizeEst\0".as_ptr(), thunk: t302, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionNormalize\0".as_ptr(), thunk: t303, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionConjugate\0".as_ptr(), thunk: t304, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionInverse\0".as_ptr(), thunk: t305, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionLn\0".as_ptr(), thunk: t306, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionExp\0".as_ptr(), thunk: t307, slots: &[s(0,2,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionSlerp\0".as_ptr(), thunk: t308, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMQuaternionSlerpV\0".as_ptr(), thunk: t309, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMQuaternionSquad\0".as_ptr(), thunk: t310, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMQuaternionSquadV\0".as_ptr(), thunk: t311, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMQuaternionSquadSetup\0".as_ptr(), thunk: t312, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMQuaternionBaryCentric\0".as_ptr(), thunk: t313, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMQuaternionBaryCentricV\0".as_ptr(), thunk: t314, slots: &[s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 6, flags: 0 },
    FnDesc { name: b"XMQuaternionIdentity\0".as_ptr(), thunk: t315, slots: &[s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMQuaternionRotationRollPitchYaw\0".as_ptr(), thunk: t316, slots: &[s(0,5,4,4,4,4,0), s(0,5,4,4,4,4,0), s(0,5,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMQuaternionRotationRollPitchYawFromVector\0".as_ptr(), thunk: t317, slots: &[s(0,5,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionRotationNormal\0".as_ptr(), thunk: t318, slots: &[s(0,3,16,16,16,4,0), s(0,5,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionRotationAxis\0".as_ptr(), thunk: t319, slots: &[s(0,3,16,16,16,4,0), s(0,5,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMQuaternionRotationMatrix\0".as_ptr(), thunk: t320, slots: &[s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMQuaternionToAxisAngle\0".as_ptr(), thunk: t321, slots: &[s(2,17,16,16,16,4,0), s(2,17,4,4,4,4,0), s(0,2,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneEqual\0".as_ptr(), thunk: t322, slots: &[s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneNearEqual\0".as_ptr(), thunk: t323, slots: &[s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMPlaneNotEqual\0".as_ptr(), thunk: t324, slots: &[s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneIsNaN\0".as_ptr(), thunk: t325, slots: &[s(0,4,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMPlaneIsInfinite\0".as_ptr(), thunk: t326, slots: &[s(0,4,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMPlaneDot\0".as_ptr(), thunk: t327, slots: &[s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneDotCoord\0".as_ptr(), thunk: t328, slots: &[s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneDotNormal\0".as_ptr(), thunk: t329, slots: &[s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneNormalizeEst\0".as_ptr(), thunk: t330, slots: &[s(0,4,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMPlaneNormalize\0".as_ptr(), thunk: t331, slots: &[s(0,4,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMPlaneIntersectLine\0".as_ptr(), thunk: t332, slots: &[s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMPlaneIntersectPlane\0".as_ptr(), thunk: t333, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMPlaneTransform\0".as_ptr(), thunk: t334, slots: &[s(0,4,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneFromPointNormal\0".as_ptr(), thunk: t335, slots: &[s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMPlaneFromPoints\0".as_ptr(), thunk: t336, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMFresnelTerm\0".as_ptr(), thunk: t337, slots: &[s(0,5,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMScalarNearEqual\0".as_ptr(), thunk: t338, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMScalarModAngle\0".as_ptr(), thunk: t339, slots: &[s(0,5,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarSin\0".as_ptr(), thunk: t340, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarSinEst\0".as_ptr(), thunk: t341, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarCos\0".as_ptr(), thunk: t342, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarCosEst\0".as_ptr(), thunk: t343, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarSinCos\0".as_ptr(), thunk: t344, slots: &[s(2,17,4,4,4,4,0), s(2,17,4,4,4,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMScalarSinCosEst\0".as_ptr(), thunk: t345, slots: &[s(2,17,4,4,4,4,0), s(2,17,4,4,4,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMScalarASin\0".as_ptr(), thunk: t346, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarASinEst\0".as_ptr(), thunk: t347, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarACos\0".as_ptr(), thunk: t348, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMScalarACosEst\0".as_ptr(), thunk: t349, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixIsNaN\0".as_ptr(), thunk: t350, slots: &[s(0,6,64,16,64,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixIsInfinite\0".as_ptr(), thunk: t351, slots: &[s(0,6,64,16,64,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixIsIdentity\0".as_ptr(), thunk: t352, slots: &[s(0,6,64,16,64,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixMultiply\0".as_ptr(), thunk: t353, slots: &[s(0,6,64,16,64,4,0), s(1,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixMultiplyTranspose\0".as_ptr(), thunk: t354, slots: &[s(0,6,64,16,64,4,0), s(1,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixTranspose\0".as_ptr(), thunk: t355, slots: &[s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixInverse\0".as_ptr(), thunk: t356, slots: &[s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixVectorTensorProduct\0".as_ptr(), thunk: t357, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixDeterminant\0".as_ptr(), thunk: t358, slots: &[s(0,6,64,16,64,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixDecompose\0".as_ptr(), thunk: t359, slots: &[s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(2,17,16,16,16,4,0), s(0,6,64,16,64,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixIdentity\0".as_ptr(), thunk: t360, slots: &[s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMMatrixSet\0".as_ptr(), thunk: t361, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 17, flags: 0 },
    FnDesc { name: b"XMMatrixTranslation\0".as_ptr(), thunk: t362, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixTranslationFromVector\0".as_ptr(), thunk: t363, slots: &[s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixScaling\0".as_ptr(), thunk: t364, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixScalingFromVector\0".as_ptr(), thunk: t365, slots: &[s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixRotationX\0".as_ptr(), thunk: t366, slots: &[s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixRotationY\0".as_ptr(), thunk: t367, slots: &[s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixRotationZ\0".as_ptr(), thunk: t368, slots: &[s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixRotationRollPitchYaw\0".as_ptr(), thunk: t369, slots: &[s(0,5,4,4,4,4,0), s(0,5,4,4,4,4,0), s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixRotationRollPitchYawFromVector\0".as_ptr(), thunk: t370, slots: &[s(0,5,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixRotationNormal\0".as_ptr(), thunk: t371, slots: &[s(0,3,16,16,16,4,0), s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixRotationAxis\0".as_ptr(), thunk: t372, slots: &[s(0,3,16,16,16,4,0), s(0,5,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixRotationQuaternion\0".as_ptr(), thunk: t373, slots: &[s(0,2,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixTransformation2D\0".as_ptr(), thunk: t374, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMMatrixTransformation\0".as_ptr(), thunk: t375, slots: &[s(0,1,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMMatrixAffineTransformation2D\0".as_ptr(), thunk: t376, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixAffineTransformation\0".as_ptr(), thunk: t377, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixReflect\0".as_ptr(), thunk: t378, slots: &[s(0,4,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrixShadow\0".as_ptr(), thunk: t379, slots: &[s(0,4,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrixLookAtLH\0".as_ptr(), thunk: t380, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixLookAtRH\0".as_ptr(), thunk: t381, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixLookToLH\0".as_ptr(), thunk: t382, slots: &[s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixLookToRH\0".as_ptr(), thunk: t383, slots: &[s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,3,16,16,16,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveLH\0".as_ptr(), thunk: t384, slots: &[s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveRH\0".as_ptr(), thunk: t385, slots: &[s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveFovLH\0".as_ptr(), thunk: t386, slots: &[s(0,5,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveFovRH\0".as_ptr(), thunk: t387, slots: &[s(0,5,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveOffCenterLH\0".as_ptr(), thunk: t388, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMMatrixPerspectiveOffCenterRH\0".as_ptr(), thunk: t389, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"XMMatrixOrthographicLH\0".as_ptr(), thunk: t390, slots: &[s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrixOrthographicRH\0".as_ptr(), thunk: t391, slots: &[s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(0,19,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMMatrix::set\0".as_ptr(), thunk: t392, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 17, flags: 0 },
    FnDesc { name: b"XMConvertHalfToFloat\0".as_ptr(), thunk: t393, slots: &[s(0,16,2,2,2,2,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMConvertFloatToHalf\0".as_ptr(), thunk: t394, slots: &[s(0,0,4,4,4,4,0), s(4,17,2,2,2,2,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingSphere::TransformMatrix\0".as_ptr(), thunk: t395, slots: &[s(1,11,16,4,16,4,0), s(2,17,16,4,16,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::TransformDecomposed\0".as_ptr(), thunk: t396, slots: &[s(1,11,16,4,16,4,0), s(2,17,16,4,16,4,0), s(0,19,4,4,4,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsPoint\0".as_ptr(), thunk: t397, slots: &[s(1,11,16,4,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsTriangle\0".as_ptr(), thunk: t398, slots: &[s(1,11,16,4,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsSphere\0".as_ptr(), thunk: t399, slots: &[s(1,11,16,4,16,4,0), s(1,11,16,4,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsBox\0".as_ptr(), thunk: t400, slots: &[s(1,11,16,4,16,4,0), s(1,12,24,4,24,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsOrientedBox\0".as_ptr(), thunk: t401, slots: &[s(1,11,16,4,16,4,0), s(1,13,40,4,40,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainsFrustum\0".as_ptr(), thunk: t402, slots: &[s(1,11,16,4,16,4,0), s(1,14,52,4,52,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsSphere\0".as_ptr(), thunk: t403, slots: &[s(1,11,16,4,16,4,0), s(1,11,16,4,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsBox\0".as_ptr(), thunk: t404, slots: &[s(1,11,16,4,16,4,0), s(1,12,24,4,24,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsOrientedBox\0".as_ptr(), thunk: t405, slots: &[s(1,11,16,4,16,4,0), s(1,13,40,4,40,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsFrustum\0".as_ptr(), thunk: t406, slots: &[s(1,11,16,4,16,4,0), s(1,14,52,4,52,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsTriangle\0".as_ptr(), thunk: t407, slots: &[s(1,11,16,4,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsPlane\0".as_ptr(), thunk: t408, slots: &[s(1,11,16,4,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::IntersectsRay\0".as_ptr(), thunk: t409, slots: &[s(1,11,16,4,16,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(2,17,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingSphere::ContainedBy\0".as_ptr(), thunk: t410, slots: &[s(1,11,16,4,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 8, flags: 0 },
    FnDesc { name: b"BoundingSphere::CreateMerged\0".as_ptr(), thunk: t411, slots: &[s(2,17,16,4,16,4,0), s(1,11,16,4,16,4,0), s(1,11,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingSphere::CreateFromBoundingBox\0".as_ptr(), thunk: t412, slots: &[s(2,17,16,4,16,4,0), s(1,12,24,4,24,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingSphere::CreateFromBoundingOrientedBox\0".as_ptr(), thunk: t413, slots: &[s(2,17,16,4,16,4,0), s(1,13,40,4,40,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingSphere::CreateFromPoints\0".as_ptr(), thunk: t414, slots: &[s(2,17,16,4,16,4,0), s(1,15,292,4,292,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 1 },
    FnDesc { name: b"BoundingSphere::CreateFromFrustum\0".as_ptr(), thunk: t415, slots: &[s(2,17,16,4,16,4,0), s(1,14,52,4,52,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingBox::GetCorners\0".as_ptr(), thunk: t416, slots: &[s(1,12,24,4,24,4,0), s(2,17,96,4,96,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingBox::TransformMatrix\0".as_ptr(), thunk: t417, slots: &[s(1,12,24,4,24,4,0), s(2,17,24,4,24,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::TransformDecomposed\0".as_ptr(), thunk: t418, slots: &[s(1,12,24,4,24,4,0), s(2,17,24,4,24,4,0), s(0,19,4,4,4,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsPoint\0".as_ptr(), thunk: t419, slots: &[s(1,12,24,4,24,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsTriangle\0".as_ptr(), thunk: t420, slots: &[s(1,12,24,4,24,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsSphere\0".as_ptr(), thunk: t421, slots: &[s(1,12,24,4,24,4,0), s(1,11,16,4,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsBox\0".as_ptr(), thunk: t422, slots: &[s(1,12,24,4,24,4,0), s(1,12,24,4,24,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsOrientedBox\0".as_ptr(), thunk: t423, slots: &[s(1,12,24,4,24,4,0), s(1,13,40,4,40,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainsFrustum\0".as_ptr(), thunk: t424, slots: &[s(1,12,24,4,24,4,0), s(1,14,52,4,52,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsSphere\0".as_ptr(), thunk: t425, slots: &[s(1,12,24,4,24,4,0), s(1,11,16,4,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsBox\0".as_ptr(), thunk: t426, slots: &[s(1,12,24,4,24,4,0), s(1,12,24,4,24,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsOrientedBox\0".as_ptr(), thunk: t427, slots: &[s(1,12,24,4,24,4,0), s(1,13,40,4,40,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsFrustum\0".as_ptr(), thunk: t428, slots: &[s(1,12,24,4,24,4,0), s(1,14,52,4,52,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsTriangle\0".as_ptr(), thunk: t429, slots: &[s(1,12,24,4,24,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsPlane\0".as_ptr(), thunk: t430, slots: &[s(1,12,24,4,24,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::IntersectsRay\0".as_ptr(), thunk: t431, slots: &[s(1,12,24,4,24,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(2,17,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingBox::ContainedBy\0".as_ptr(), thunk: t432, slots: &[s(1,12,24,4,24,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 8, flags: 0 },
    FnDesc { name: b"BoundingBox::CreateMerged\0".as_ptr(), thunk: t433, slots: &[s(2,17,24,4,24,4,0), s(1,12,24,4,24,4,0), s(1,12,24,4,24,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingBox::CreateFromSphere\0".as_ptr(), thunk: t434, slots: &[s(2,17,24,4,24,4,0), s(1,11,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingBox::CreateFromPoints\0".as_ptr(), thunk: t435, slots: &[s(2,17,24,4,24,4,0), s(1,15,292,4,292,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 1 },
    FnDesc { name: b"BoundingOrientedBox::TransformMatrix\0".as_ptr(), thunk: t436, slots: &[s(1,13,40,4,40,4,0), s(2,17,40,4,40,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::TransformDecomposed\0".as_ptr(), thunk: t437, slots: &[s(1,13,40,4,40,4,0), s(2,17,40,4,40,4,0), s(0,19,4,4,4,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsPoint\0".as_ptr(), thunk: t438, slots: &[s(1,13,40,4,40,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsTriangle\0".as_ptr(), thunk: t439, slots: &[s(1,13,40,4,40,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsSphere\0".as_ptr(), thunk: t440, slots: &[s(1,13,40,4,40,4,0), s(1,11,16,4,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsBox\0".as_ptr(), thunk: t441, slots: &[s(1,13,40,4,40,4,0), s(1,12,24,4,24,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsOrientedBox\0".as_ptr(), thunk: t442, slots: &[s(1,13,40,4,40,4,0), s(1,13,40,4,40,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainsFrustum\0".as_ptr(), thunk: t443, slots: &[s(1,13,40,4,40,4,0), s(1,14,52,4,52,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsSphere\0".as_ptr(), thunk: t444, slots: &[s(1,13,40,4,40,4,0), s(1,11,16,4,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsBox\0".as_ptr(), thunk: t445, slots: &[s(1,13,40,4,40,4,0), s(1,12,24,4,24,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsOrientedBox\0".as_ptr(), thunk: t446, slots: &[s(1,13,40,4,40,4,0), s(1,13,40,4,40,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsFrustum\0".as_ptr(), thunk: t447, slots: &[s(1,13,40,4,40,4,0), s(1,14,52,4,52,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsTriangle\0".as_ptr(), thunk: t448, slots: &[s(1,13,40,4,40,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsPlane\0".as_ptr(), thunk: t449, slots: &[s(1,13,40,4,40,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::IntersectsRay\0".as_ptr(), thunk: t450, slots: &[s(1,13,40,4,40,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(2,17,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::ContainedBy\0".as_ptr(), thunk: t451, slots: &[s(1,13,40,4,40,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 8, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::CreateFromBoundingBox\0".as_ptr(), thunk: t452, slots: &[s(2,17,40,4,40,4,0), s(1,12,24,4,24,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::CreateFromPoints\0".as_ptr(), thunk: t453, slots: &[s(2,17,40,4,40,4,0), s(1,15,292,4,292,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 1 },
    FnDesc { name: b"BoundingOrientedBox::GetCorners\0".as_ptr(), thunk: t454, slots: &[s(1,13,40,4,40,4,0), s(2,17,96,4,96,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingFrustum::TransformMatrix\0".as_ptr(), thunk: t455, slots: &[s(1,14,52,4,52,4,0), s(2,17,52,4,52,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::TransformDecomposed\0".as_ptr(), thunk: t456, slots: &[s(1,14,52,4,52,4,0), s(2,17,52,4,52,4,0), s(0,19,4,4,4,4,0), s(0,2,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsPoint\0".as_ptr(), thunk: t457, slots: &[s(1,14,52,4,52,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsTriangle\0".as_ptr(), thunk: t458, slots: &[s(1,14,52,4,52,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsSphere\0".as_ptr(), thunk: t459, slots: &[s(1,14,52,4,52,4,0), s(1,11,16,4,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsBox\0".as_ptr(), thunk: t460, slots: &[s(1,14,52,4,52,4,0), s(1,12,24,4,24,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsOrientedBox\0".as_ptr(), thunk: t461, slots: &[s(1,14,52,4,52,4,0), s(1,13,40,4,40,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainsFrustum\0".as_ptr(), thunk: t462, slots: &[s(1,14,52,4,52,4,0), s(1,14,52,4,52,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsSphere\0".as_ptr(), thunk: t463, slots: &[s(1,14,52,4,52,4,0), s(1,11,16,4,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsBox\0".as_ptr(), thunk: t464, slots: &[s(1,14,52,4,52,4,0), s(1,12,24,4,24,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsOrientedBox\0".as_ptr(), thunk: t465, slots: &[s(1,14,52,4,52,4,0), s(1,13,40,4,40,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsFrustum\0".as_ptr(), thunk: t466, slots: &[s(1,14,52,4,52,4,0), s(1,14,52,4,52,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsTriangle\0".as_ptr(), thunk: t467, slots: &[s(1,14,52,4,52,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsPlane\0".as_ptr(), thunk: t468, slots: &[s(1,14,52,4,52,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::IntersectsRay\0".as_ptr(), thunk: t469, slots: &[s(1,14,52,4,52,4,0), s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(2,17,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"BoundingFrustum::ContainedBy\0".as_ptr(), thunk: t470, slots: &[s(1,14,52,4,52,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 8, flags: 0 },
    FnDesc { name: b"BoundingFrustum::CreateFromMatrix\0".as_ptr(), thunk: t471, slots: &[s(2,17,52,4,52,4,0), s(0,18,64,16,64,4,0), s(0,10,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"BoundingFrustum::GetPlanes\0".as_ptr(), thunk: t472, slots: &[s(1,14,52,4,52,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0), s(0,10,1,1,1,1,0), s(2,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 13, flags: 0 },
    FnDesc { name: b"BoundingFrustum::GetCorners\0".as_ptr(), thunk: t473, slots: &[s(1,14,52,4,52,4,0), s(2,17,96,4,96,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"triangle_tests::IntersectsRay\0".as_ptr(), thunk: t474, slots: &[s(0,1,16,16,16,4,0), s(0,3,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(2,17,4,4,4,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"triangle_tests::IntersectsTriangle\0".as_ptr(), thunk: t475, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 7, flags: 0 },
    FnDesc { name: b"triangle_tests::IntersectsPlane\0".as_ptr(), thunk: t476, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"triangle_tests::ContainedBy\0".as_ptr(), thunk: t477, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(0,4,16,16,16,4,0), s(1,4,16,16,16,4,0), s(1,4,16,16,16,4,0), s(1,4,16,16,16,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 10, flags: 0 },
    FnDesc { name: b"XMMin<f32>\0".as_ptr(), thunk: t478, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMin<u32>\0".as_ptr(), thunk: t479, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMin<caller type>\0".as_ptr(), thunk: t480, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 8 },
    FnDesc { name: b"XMMax<f32>\0".as_ptr(), thunk: t481, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMax<u32>\0".as_ptr(), thunk: t482, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMax<caller type>\0".as_ptr(), thunk: t483, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 8 },
    FnDesc { name: b"XMVector::add\0".as_ptr(), thunk: t484, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::add_assign\0".as_ptr(), thunk: t485, slots: &[s(3,1,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::sub\0".as_ptr(), thunk: t486, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::sub_assign\0".as_ptr(), thunk: t487, slots: &[s(3,1,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::mul\0".as_ptr(), thunk: t488, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::mul_assign\0".as_ptr(), thunk: t489, slots: &[s(3,1,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::div\0".as_ptr(), thunk: t490, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::div_assign\0".as_ptr(), thunk: t491, slots: &[s(3,1,16,16,16,4,0), s(0,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::add\0".as_ptr(), thunk: t492, slots: &[s(0,6,64,16,64,4,0), s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::add_assign\0".as_ptr(), thunk: t493, slots: &[s(3,6,64,16,64,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::sub\0".as_ptr(), thunk: t494, slots: &[s(0,6,64,16,64,4,0), s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::sub_assign\0".as_ptr(), thunk: t495, slots: &[s(3,6,64,16,64,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::mul\0".as_ptr(), thunk: t496, slots: &[s(0,6,64,16,64,4,0), s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::mul_assign\0".as_ptr(), thunk: t497, slots: &[s(3,6,64,16,64,4,0), s(0,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"f32*XMVector\0".as_ptr(), thunk: t498, slots: &[s(0,0,4,4,4,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::mul<f32>\0".as_ptr(), thunk: t499, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::mul_assign<f32>\0".as_ptr(), thunk: t500, slots: &[s(3,1,16,16,16,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::div<f32>\0".as_ptr(), thunk: t501, slots: &[s(0,1,16,16,16,4,0), s(0,0,4,4,4,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::div_assign<f32>\0".as_ptr(), thunk: t502, slots: &[s(3,1,16,16,16,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::neg\0".as_ptr(), thunk: t503, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::eq\0".as_ptr(), thunk: t504, slots: &[s(1,1,16,16,16,4,0), s(1,1,16,16,16,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMVector::deref_mut\0".as_ptr(), thunk: t505, slots: &[s(3,1,16,16,16,4,0), s(1,1,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"f32*XMMatrix\0".as_ptr(), thunk: t506, slots: &[s(0,0,4,4,4,4,0), s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::mul<f32>\0".as_ptr(), thunk: t507, slots: &[s(0,6,64,16,64,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::mul_assign<f32>\0".as_ptr(), thunk: t508, slots: &[s(3,6,64,16,64,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::div<f32>\0".as_ptr(), thunk: t509, slots: &[s(0,6,64,16,64,4,0), s(0,0,4,4,4,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::div_assign<f32>\0".as_ptr(), thunk: t510, slots: &[s(3,6,64,16,64,4,0), s(0,0,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::neg\0".as_ptr(), thunk: t511, slots: &[s(0,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::eq\0".as_ptr(), thunk: t512, slots: &[s(1,6,64,16,64,4,0), s(1,6,64,16,64,4,0), s(4,17,1,1,1,1,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMMatrix::deref_mut\0".as_ptr(), thunk: t513, slots: &[s(3,6,64,16,64,4,0), s(1,6,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::from\0".as_ptr(), thunk: t514, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::from<[f32; 16]>\0".as_ptr(), thunk: t515, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::into<[f32; 16]>\0".as_ptr(), thunk: t516, slots: &[s(0,6,64,16,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::from<[[f32; 4]; 4]>\0".as_ptr(), thunk: t517, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::into<[[f32; 4]; 4]>\0".as_ptr(), thunk: t518, slots: &[s(0,6,64,16,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT2::from<[f32; 2]>\0".as_ptr(), thunk: t519, slots: &[s(0,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT2::into<[f32; 2]>\0".as_ptr(), thunk: t520, slots: &[s(0,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT2::from<&[f32; 2]>\0".as_ptr(), thunk: t521, slots: &[s(1,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT2::into<&[f32; 2]>\0".as_ptr(), thunk: t522, slots: &[s(1,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT2::as_ref<[f32; 2]>\0".as_ptr(), thunk: t523, slots: &[s(1,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT2::as_mut<[f32; 2]>\0".as_ptr(), thunk: t524, slots: &[s(3,1,8,4,8,4,0), s(0,1,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3::from<[f32; 3]>\0".as_ptr(), thunk: t525, slots: &[s(0,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3::into<[f32; 3]>\0".as_ptr(), thunk: t526, slots: &[s(0,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3::from<&[f32; 3]>\0".as_ptr(), thunk: t527, slots: &[s(1,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3::into<&[f32; 3]>\0".as_ptr(), thunk: t528, slots: &[s(1,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3::as_ref<[f32; 3]>\0".as_ptr(), thunk: t529, slots: &[s(1,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3::as_mut<[f32; 3]>\0".as_ptr(), thunk: t530, slots: &[s(3,1,12,4,12,4,0), s(0,1,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4::from<[f32; 4]>\0".as_ptr(), thunk: t531, slots: &[s(0,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4::into<[f32; 4]>\0".as_ptr(), thunk: t532, slots: &[s(0,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4::from<&[f32; 4]>\0".as_ptr(), thunk: t533, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4::into<&[f32; 4]>\0".as_ptr(), thunk: t534, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4::as_ref<[f32; 4]>\0".as_ptr(), thunk: t535, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4::as_mut<[f32; 4]>\0".as_ptr(), thunk: t536, slots: &[s(3,1,16,4,16,4,0), s(0,1,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT2::from<[i32; 2]>\0".as_ptr(), thunk: t537, slots: &[s(0,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT2::into<[i32; 2]>\0".as_ptr(), thunk: t538, slots: &[s(0,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT2::from<&[i32; 2]>\0".as_ptr(), thunk: t539, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT2::into<&[i32; 2]>\0".as_ptr(), thunk: t540, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT2::as_ref<[i32; 2]>\0".as_ptr(), thunk: t541, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT2::as_mut<[i32; 2]>\0".as_ptr(), thunk: t542, slots: &[s(3,7,8,4,8,4,0), s(0,7,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT3::from<[i32; 3]>\0".as_ptr(), thunk: t543, slots: &[s(0,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT3::into<[i32; 3]>\0".as_ptr(), thunk: t544, slots: &[s(0,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT3::from<&[i32; 3]>\0".as_ptr(), thunk: t545, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT3::into<&[i32; 3]>\0".as_ptr(), thunk: t546, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT3::as_ref<[i32; 3]>\0".as_ptr(), thunk: t547, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT3::as_mut<[i32; 3]>\0".as_ptr(), thunk: t548, slots: &[s(3,7,12,4,12,4,0), s(0,7,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT4::from<[i32; 4]>\0".as_ptr(), thunk: t549, slots: &[s(0,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT4::into<[i32; 4]>\0".as_ptr(), thunk: t550, slots: &[s(0,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT4::from<&[i32; 4]>\0".as_ptr(), thunk: t551, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMINT4::into<&[i32; 4]>\0".as_ptr(), thunk: t552, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT4::as_ref<[i32; 4]>\0".as_ptr(), thunk: t553, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT4::as_mut<[i32; 4]>\0".as_ptr(), thunk: t554, slots: &[s(3,7,16,4,16,4,0), s(0,7,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT2::from<[u32; 2]>\0".as_ptr(), thunk: t555, slots: &[s(0,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT2::into<[u32; 2]>\0".as_ptr(), thunk: t556, slots: &[s(0,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT2::from<&[u32; 2]>\0".as_ptr(), thunk: t557, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT2::into<&[u32; 2]>\0".as_ptr(), thunk: t558, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT2::as_ref<[u32; 2]>\0".as_ptr(), thunk: t559, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT2::as_mut<[u32; 2]>\0".as_ptr(), thunk: t560, slots: &[s(3,7,8,4,8,4,0), s(0,7,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT3::from<[u32; 3]>\0".as_ptr(), thunk: t561, slots: &[s(0,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT3::into<[u32; 3]>\0".as_ptr(), thunk: t562, slots: &[s(0,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT3::from<&[u32; 3]>\0".as_ptr(), thunk: t563, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT3::into<&[u32; 3]>\0".as_ptr(), thunk: t564, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT3::as_ref<[u32; 3]>\0".as_ptr(), thunk: t565, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT3::as_mut<[u32; 3]>\0".as_ptr(), thunk: t566, slots: &[s(3,7,12,4,12,4,0), s(0,7,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT4::from<[u32; 4]>\0".as_ptr(), thunk: t567, slots: &[s(0,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT4::into<[u32; 4]>\0".as_ptr(), thunk: t568, slots: &[s(0,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT4::from<&[u32; 4]>\0".as_ptr(), thunk: t569, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMUINT4::into<&[u32; 4]>\0".as_ptr(), thunk: t570, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT4::as_ref<[u32; 4]>\0".as_ptr(), thunk: t571, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT4::as_mut<[u32; 4]>\0".as_ptr(), thunk: t572, slots: &[s(3,7,16,4,16,4,0), s(0,7,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::from<[f32; 9]>\0".as_ptr(), thunk: t573, slots: &[s(0,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::into<[f32; 9]>\0".as_ptr(), thunk: t574, slots: &[s(0,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X3::from<&[f32; 9]>\0".as_ptr(), thunk: t575, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X3::into<&[f32; 9]>\0".as_ptr(), thunk: t576, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::as_ref<[f32; 9]>\0".as_ptr(), thunk: t577, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::as_mut<[f32; 9]>\0".as_ptr(), thunk: t578, slots: &[s(3,1,36,4,36,4,0), s(0,1,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::from<[[f32; 3]; 3]>\0".as_ptr(), thunk: t579, slots: &[s(0,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::into<[[f32; 3]; 3]>\0".as_ptr(), thunk: t580, slots: &[s(0,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X3::from<&[[f32; 3]; 3]>\0".as_ptr(), thunk: t581, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X3::into<&[[f32; 3]; 3]>\0".as_ptr(), thunk: t582, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::as_ref<[[f32; 3]; 3]>\0".as_ptr(), thunk: t583, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::as_mut<[[f32; 3]; 3]>\0".as_ptr(), thunk: t584, slots: &[s(3,1,36,4,36,4,0), s(0,1,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::from<[f32; 12]>\0".as_ptr(), thunk: t585, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::into<[f32; 12]>\0".as_ptr(), thunk: t586, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X3::from<&[f32; 12]>\0".as_ptr(), thunk: t587, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X3::into<&[f32; 12]>\0".as_ptr(), thunk: t588, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::as_ref<[f32; 12]>\0".as_ptr(), thunk: t589, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::as_mut<[f32; 12]>\0".as_ptr(), thunk: t590, slots: &[s(3,1,48,4,48,4,0), s(0,1,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::from<[[f32; 3]; 4]>\0".as_ptr(), thunk: t591, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::into<[[f32; 3]; 4]>\0".as_ptr(), thunk: t592, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X3::from<&[[f32; 3]; 4]>\0".as_ptr(), thunk: t593, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X3::into<&[[f32; 3]; 4]>\0".as_ptr(), thunk: t594, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::as_ref<[[f32; 3]; 4]>\0".as_ptr(), thunk: t595, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::as_mut<[[f32; 3]; 4]>\0".as_ptr(), thunk: t596, slots: &[s(3,1,48,4,48,4,0), s(0,1,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::from<[f32; 12]>\0".as_ptr(), thunk: t597, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::into<[f32; 12]>\0".as_ptr(), thunk: t598, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X4::from<&[f32; 12]>\0".as_ptr(), thunk: t599, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X4::into<&[f32; 12]>\0".as_ptr(), thunk: t600, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::as_ref<[f32; 12]>\0".as_ptr(), thunk: t601, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::as_mut<[f32; 12]>\0".as_ptr(), thunk: t602, slots: &[s(3,1,48,4,48,4,0), s(0,1,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::from<[[f32; 4]; 3]>\0".as_ptr(), thunk: t603, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::into<[[f32; 4]; 3]>\0".as_ptr(), thunk: t604, slots: &[s(0,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X4::from<&[[f32; 4]; 3]>\0".as_ptr(), thunk: t605, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT3X4::into<&[[f32; 4]; 3]>\0".as_ptr(), thunk: t606, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::as_ref<[[f32; 4]; 3]>\0".as_ptr(), thunk: t607, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::as_mut<[[f32; 4]; 3]>\0".as_ptr(), thunk: t608, slots: &[s(3,1,48,4,48,4,0), s(0,1,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::from<[f32; 16]>\0".as_ptr(), thunk: t609, slots: &[s(0,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::into<[f32; 16]>\0".as_ptr(), thunk: t610, slots: &[s(0,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X4::from<&[f32; 16]>\0".as_ptr(), thunk: t611, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X4::into<&[f32; 16]>\0".as_ptr(), thunk: t612, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::as_ref<[f32; 16]>\0".as_ptr(), thunk: t613, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::as_mut<[f32; 16]>\0".as_ptr(), thunk: t614, slots: &[s(3,1,64,4,64,4,0), s(0,1,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::from<[[f32; 4]; 4]>\0".as_ptr(), thunk: t615, slots: &[s(0,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::into<[[f32; 4]; 4]>\0".as_ptr(), thunk: t616, slots: &[s(0,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X4::from<&[[f32; 4]; 4]>\0".as_ptr(), thunk: t617, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"&XMFLOAT4X4::into<&[[f32; 4]; 4]>\0".as_ptr(), thunk: t618, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::as_ref<[[f32; 4]; 4]>\0".as_ptr(), thunk: t619, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::as_mut<[[f32; 4]; 4]>\0".as_ptr(), thunk: t620, slots: &[s(3,1,64,4,64,4,0), s(0,1,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"Align16<XMFLOAT3>\0".as_ptr(), thunk: t621, slots: &[s(0,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"Align16<caller type>::from\0".as_ptr(), thunk: t622, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 8 },
    FnDesc { name: b"Align16<caller type>::deref\0".as_ptr(), thunk: t623, slots: &[s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 8 },
    FnDesc { name: b"Align16<caller type>::lt\0".as_ptr(), thunk: t624, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 8 },
    FnDesc { name: b"Align16<caller type>::eq\0".as_ptr(), thunk: t625, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 8 },
    FnDesc { name: b"Align16<XMFLOAT4X4>::as_ref\0".as_ptr(), thunk: t626, slots: &[s(1,1,64,16,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"Align16<XMFLOAT4>::as_mut\0".as_ptr(), thunk: t627, slots: &[s(3,1,16,16,16,4,0), s(0,1,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT2::set\0".as_ptr(), thunk: t628, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMFLOAT3::set\0".as_ptr(), thunk: t629, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMFLOAT4::set\0".as_ptr(), thunk: t630, slots: &[s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(0,0,4,4,4,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMINT2::set\0".as_ptr(), thunk: t631, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMINT3::set\0".as_ptr(), thunk: t632, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMINT4::set\0".as_ptr(), thunk: t633, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMUINT2::set\0".as_ptr(), thunk: t634, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"XMUINT3::set\0".as_ptr(), thunk: t635, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 4, flags: 0 },
    FnDesc { name: b"XMUINT4::set\0".as_ptr(), thunk: t636, slots: &[s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(0,8,4,4,4,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 5, flags: 0 },
    FnDesc { name: b"XMFLOAT2::default\0".as_ptr(), thunk: t637, slots: &[s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT2::clone\0".as_ptr(), thunk: t638, slots: &[s(1,1,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3::default\0".as_ptr(), thunk: t639, slots: &[s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT3::clone\0".as_ptr(), thunk: t640, slots: &[s(1,1,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4::default\0".as_ptr(), thunk: t641, slots: &[s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT4::clone\0".as_ptr(), thunk: t642, slots: &[s(1,1,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT2::default\0".as_ptr(), thunk: t643, slots: &[s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMINT2::clone\0".as_ptr(), thunk: t644, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT3::default\0".as_ptr(), thunk: t645, slots: &[s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMINT3::clone\0".as_ptr(), thunk: t646, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMINT4::default\0".as_ptr(), thunk: t647, slots: &[s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMINT4::clone\0".as_ptr(), thunk: t648, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT2::default\0".as_ptr(), thunk: t649, slots: &[s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMUINT2::clone\0".as_ptr(), thunk: t650, slots: &[s(1,7,8,4,8,4,0), s(4,17,8,4,8,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT3::default\0".as_ptr(), thunk: t651, slots: &[s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMUINT3::clone\0".as_ptr(), thunk: t652, slots: &[s(1,7,12,4,12,4,0), s(4,17,12,4,12,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMUINT4::default\0".as_ptr(), thunk: t653, slots: &[s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMUINT4::clone\0".as_ptr(), thunk: t654, slots: &[s(1,7,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::default\0".as_ptr(), thunk: t655, slots: &[s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT3X3::clone\0".as_ptr(), thunk: t656, slots: &[s(1,1,36,4,36,4,0), s(4,17,36,4,36,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::default\0".as_ptr(), thunk: t657, slots: &[s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT4X3::clone\0".as_ptr(), thunk: t658, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::default\0".as_ptr(), thunk: t659, slots: &[s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT3X4::clone\0".as_ptr(), thunk: t660, slots: &[s(1,1,48,4,48,4,0), s(4,17,48,4,48,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::default\0".as_ptr(), thunk: t661, slots: &[s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"XMFLOAT4X4::clone\0".as_ptr(), thunk: t662, slots: &[s(1,1,64,4,64,4,0), s(4,17,64,4,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingSphere::default\0".as_ptr(), thunk: t663, slots: &[s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"BoundingSphere::clone\0".as_ptr(), thunk: t664, slots: &[s(1,11,16,4,16,4,0), s(4,17,16,4,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingBox::default\0".as_ptr(), thunk: t665, slots: &[s(4,17,24,4,24,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"BoundingBox::clone\0".as_ptr(), thunk: t666, slots: &[s(1,12,24,4,24,4,0), s(4,17,24,4,24,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::default\0".as_ptr(), thunk: t667, slots: &[s(4,17,40,4,40,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"BoundingOrientedBox::clone\0".as_ptr(), thunk: t668, slots: &[s(1,13,40,4,40,4,0), s(4,17,40,4,40,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"BoundingFrustum::default\0".as_ptr(), thunk: t669, slots: &[s(4,17,52,4,52,4,0)] as *const [Slot] as *const Slot, nslots: 1, flags: 0 },
    FnDesc { name: b"BoundingFrustum::clone\0".as_ptr(), thunk: t670, slots: &[s(1,14,52,4,52,4,0), s(4,17,52,4,52,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMVector::clone\0".as_ptr(), thunk: t671, slots: &[s(1,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMatrix::clone\0".as_ptr(), thunk: t672, slots: &[s(1,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"XMMATRIX::clone\0".as_ptr(), thunk: t673, slots: &[s(1,6,64,16,64,4,0), s(4,17,64,16,64,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"Align16<XMFLOAT4>::clone\0".as_ptr(), thunk: t674, slots: &[s(1,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(XYZW)>::XMVectorSwizzle\0".as_ptr(), thunk: t675, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(WZYX)>::XMVectorSwizzle\0".as_ptr(), thunk: t676, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(XYXY)>::XMVectorSwizzle\0".as_ptr(), thunk: t677, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(ZWZW)>::XMVectorSwizzle\0".as_ptr(), thunk: t678, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(XXYY)>::XMVectorSwizzle\0".as_ptr(), thunk: t679, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(ZZWW)>::XMVectorSwizzle\0".as_ptr(), thunk: t680, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(XXXX)>::XMVectorSwizzle\0".as_ptr(), thunk: t681, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(WWXZ)>::XMVectorSwizzle\0".as_ptr(), thunk: t682, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(YXWZ)>::XMVectorSwizzle\0".as_ptr(), thunk: t683, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(ZXYW)>::XMVectorSwizzle\0".as_ptr(), thunk: t684, slots: &[s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 2, flags: 0 },
    FnDesc { name: b"<(0X0Y0Z0W)>::XMVectorPermute\0".as_ptr(), thunk: t685, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(1X1Y1Z1W)>::XMVectorPermute\0".as_ptr(), thunk: t686, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(0X0Y1X1Y)>::XMVectorPermute\0".as_ptr(), thunk: t687, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(1Z1W0Z0W)>::XMVectorPermute\0".as_ptr(), thunk: t688, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(0X0Z1X1Z)>::XMVectorPermute\0".as_ptr(), thunk: t689, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(0Y1Y0W1W)>::XMVectorPermute\0".as_ptr(), thunk: t690, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(1W0X1Y0Z)>::XMVectorPermute\0".as_ptr(), thunk: t691, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(0X1Y0Z1W)>::XMVectorPermute\0".as_ptr(), thunk: t692, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(1X0Y1Z0W)>::XMVectorPermute\0".as_ptr(), thunk: t693, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"<(0W0W1X1X)>::XMVectorPermute\0".as_ptr(), thunk: t694, slots: &[s(0,1,16,16,16,4,0), s(0,1,16,16,16,4,0), s(4,17,16,16,16,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 0 },
    FnDesc { name: b"Debug for XMVector\0".as_ptr(), thunk: t695, slots: &[s(1,1,16,16,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMVECTOR\0".as_ptr(), thunk: t696, slots: &[s(1,1,16,16,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMMatrix\0".as_ptr(), thunk: t697, slots: &[s(1,6,64,16,64,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMMATRIX\0".as_ptr(), thunk: t698, slots: &[s(1,6,64,16,64,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT2\0".as_ptr(), thunk: t699, slots: &[s(1,1,8,4,8,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT3\0".as_ptr(), thunk: t700, slots: &[s(1,1,12,4,12,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT4\0".as_ptr(), thunk: t701, slots: &[s(1,1,16,4,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMINT2\0".as_ptr(), thunk: t702, slots: &[s(1,7,8,4,8,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMINT3\0".as_ptr(), thunk: t703, slots: &[s(1,7,12,4,12,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMINT4\0".as_ptr(), thunk: t704, slots: &[s(1,7,16,4,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMUINT2\0".as_ptr(), thunk: t705, slots: &[s(1,7,8,4,8,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMUINT3\0".as_ptr(), thunk: t706, slots: &[s(1,7,12,4,12,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMUINT4\0".as_ptr(), thunk: t707, slots: &[s(1,7,16,4,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT3X3\0".as_ptr(), thunk: t708, slots: &[s(1,1,36,4,36,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT4X3\0".as_ptr(), thunk: t709, slots: &[s(1,1,48,4,48,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT3X4\0".as_ptr(), thunk: t710, slots: &[s(1,1,48,4,48,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for XMFLOAT4X4\0".as_ptr(), thunk: t711, slots: &[s(1,1,64,4,64,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for Align16<XMFLOAT3>\0".as_ptr(), thunk: t712, slots: &[s(1,1,16,16,12,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for Align16<XMFLOAT4X4>\0".as_ptr(), thunk: t713, slots: &[s(1,1,64,16,64,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for BoundingSphere\0".as_ptr(), thunk: t714, slots: &[s(1,11,16,4,16,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for BoundingBox\0".as_ptr(), thunk: t715, slots: &[s(1,12,24,4,24,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for BoundingOrientedBox\0".as_ptr(), thunk: t716, slots: &[s(1,13,40,4,40,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for BoundingFrustum\0".as_ptr(), thunk: t717, slots: &[s(1,14,52,4,52,4,0), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for ContainmentType\0".as_ptr(), thunk: t718, slots: &[s(0,9,4,4,4,4,3), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
    FnDesc { name: b"Debug for PlaneIntersectionType\0".as_ptr(), thunk: t719, slots: &[s(0,9,4,4,4,4,3), s(0,22,4,4,4,4,6), s(4,17,4,4,4,4,0)] as *const [Slot] as *const Slot, nslots: 3, flags: 2 },
];
