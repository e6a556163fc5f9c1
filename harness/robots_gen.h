// written by tools/mkrobots.py: member names of the generated robot classes
#pragma once
#if VP_BOT == 0
#include <ct/models/InvertedPendulum/generated/declarations.h>
#include <ct/models/InvertedPendulum/generated/transforms.h>
#include <ct/models/InvertedPendulum/generated/jacobians.h>
#include <ct/models/InvertedPendulum/generated/inertia_properties.h>
#include <ct/models/InvertedPendulum/generated/inverse_dynamics.h>
#include <ct/models/InvertedPendulum/generated/forward_dynamics.h>
#include <ct/models/InvertedPendulum/generated/jsim.h>
#include <ct/models/InvertedPendulum/generated/miscellaneous.cpp>
namespace R = iit::ct_InvertedPendulum;
#define VP_FLOATING 0
#define VP_X(F) F(0, fr_InvertedPendulumBase_X_fr_Link1) F(1, fr_InvertedPendulumBase_X_fr_ee) F(2, fr_Link1_X_fr_InvertedPendulumBase) F(3, fr_ee_X_fr_InvertedPendulumBase) F(4, fr_InvertedPendulumBase_X_fr_Joint1)
#define VP_J(F) F(0, fr_InvertedPendulumBase_J_fr_Link1) F(1, fr_InvertedPendulumBase_J_fr_ee)
#define VP_L(F) F(0, Link1, LINK1)
#endif
#if VP_BOT == 1
#include <ct/models/DoubleInvertedPendulum/generated/declarations.h>
#include <ct/models/DoubleInvertedPendulum/generated/transforms.h>
#include <ct/models/DoubleInvertedPendulum/generated/jacobians.h>
#include <ct/models/DoubleInvertedPendulum/generated/inertia_properties.h>
#include <ct/models/DoubleInvertedPendulum/generated/inverse_dynamics.h>
#include <ct/models/DoubleInvertedPendulum/generated/forward_dynamics.h>
#include <ct/models/DoubleInvertedPendulum/generated/jsim.h>
#include <ct/models/DoubleInvertedPendulum/generated/miscellaneous.cpp>
namespace R = iit::ct_DoubleInvertedPendulum;
#define VP_FLOATING 0
#define VP_X(F) F(0, fr_DoubleInvertedPendulumBase_X_fr_Link1) F(1, fr_DoubleInvertedPendulumBase_X_fr_Link2) F(2, fr_DoubleInvertedPendulumBase_X_fr_ee) F(3, fr_Link2_X_fr_DoubleInvertedPendulumBase) F(4, fr_Link1_X_fr_DoubleInvertedPendulumBase) F(5, fr_ee_X_fr_DoubleInvertedPendulumBase) F(6, fr_DoubleInvertedPendulumBase_X_fr_Joint1) F(7, fr_DoubleInvertedPendulumBase_X_fr_Joint2) F(8, fr_Link2_X_fr_Link1) F(9, fr_Link1_X_fr_Link2)
#define VP_J(F) F(0, fr_DoubleInvertedPendulumBase_J_fr_Link2) F(1, fr_DoubleInvertedPendulumBase_J_fr_Link1) F(2, fr_DoubleInvertedPendulumBase_J_fr_ee)
#define VP_L(F) F(0, Link1, LINK1) F(1, Link2, LINK2)
#endif
#if VP_BOT == 2
#include <ct/models/HyA/generated/declarations.h>
#include <ct/models/HyA/generated/transforms.h>
#include <ct/models/HyA/generated/jacobians.h>
#include <ct/models/HyA/generated/inertia_properties.h>
#include <ct/models/HyA/generated/inverse_dynamics.h>
#include <ct/models/HyA/generated/forward_dynamics.h>
#include <ct/models/HyA/generated/jsim.h>
#include <ct/models/HyA/generated/miscellaneous.cpp>
namespace R = iit::ct_HyA;
#define VP_FLOATING 0
#define VP_X(F) F(0, fr_HyABase_X_fr_Shoulder_AA) F(1, fr_HyABase_X_fr_Shoulder_FE) F(2, fr_HyABase_X_fr_Humerus_R) F(3, fr_HyABase_X_fr_Elbow_FE) F(4, fr_HyABase_X_fr_Wrist_R) F(5, fr_HyABase_X_fr_Wrist_FE) F(6, fr_HyABase_X_fr_ee) F(7, fr_HyABase_X_fr_Shoulder_AA_COM) F(8, fr_HyABase_X_fr_Shoulder_FE_COM) F(9, fr_HyABase_X_fr_Humerus_R_COM) F(10, fr_HyABase_X_fr_Elbow_FE_COM) F(11, fr_HyABase_X_fr_Wrist_R_COM) F(12, fr_HyABase_X_fr_Wrist_FE_COM) F(13, fr_HyABase_X_fr_Shoulder_AA_CTR) F(14, fr_HyABase_X_fr_Shoulder_FE_CTR) F(15, fr_HyABase_X_fr_Humerus_R_CTR) F(16, fr_HyABase_X_fr_Elbow_FE_CTR) F(17, fr_HyABase_X_fr_Wrist_R_CTR) F(18, fr_Shoulder_FE_X_fr_Wrist_FE) F(19, fr_Humerus_R_X_fr_Wrist_FE) F(20, fr_Elbow_FE_X_fr_Wrist_FE) F(21, fr_Wrist_R_X_fr_Wrist_FE) F(22, fr_Wrist_FE_X_fr_Shoulder_FE) F(23, fr_Shoulder_FE_X_fr_ee) F(24, fr_Humerus_R_X_fr_ee) F(25, fr_Elbow_FE_X_fr_ee) F(26, fr_Wrist_R_X_fr_ee) F(27, fr_Wrist_FE_X_fr_ee) F(28, fr_Shoulder_AA_X_fr_HyABase) F(29, fr_Shoulder_FE_X_fr_HyABase) F(30, fr_Humerus_R_X_fr_HyABase) F(31, fr_Elbow_FE_X_fr_HyABase) F(32, fr_Wrist_R_X_fr_HyABase) F(33, fr_Wrist_FE_X_fr_HyABase) F(34, fr_ee_X_fr_HyABase) F(35, fr_HyABase_X_fr_SAA) F(36, fr_HyABase_X_fr_SFE) F(37, fr_HyABase_X_fr_HR) F(38, fr_HyABase_X_fr_EFE) F(39, fr_HyABase_X_fr_WR) F(40, fr_HyABase_X_fr_WFE) F(41, fr_Shoulder_FE_X_fr_Shoulder_AA) F(42, fr_Shoulder_AA_X_fr_Shoulder_FE) F(43, fr_Humerus_R_X_fr_Shoulder_FE) F(44, fr_Shoulder_FE_X_fr_Humerus_R) F(45, fr_Elbow_FE_X_fr_Humerus_R) F(46, fr_Humerus_R_X_fr_Elbow_FE) F(47, fr_Wrist_R_X_fr_Elbow_FE) F(48, fr_Elbow_FE_X_fr_Wrist_R) F(49, fr_Wrist_FE_X_fr_Wrist_R)
#define VP_J(F) F(0, fr_HyABase_J_fr_ee) F(1, fr_HyABase_J_fr_Wrist_FE_COM) F(2, fr_HyABase_J_fr_Wrist_FE) F(3, fr_HyABase_J_fr_Wrist_R_COM) F(4, fr_HyABase_J_fr_Wrist_R) F(5, fr_HyABase_J_fr_Wrist_R_CTR) F(6, fr_HyABase_J_fr_Elbow_FE_COM) F(7, fr_HyABase_J_fr_Elbow_FE) F(8, fr_HyABase_J_fr_Elbow_FE_CTR) F(9, fr_HyABase_J_fr_Humerus_R_COM) F(10, fr_HyABase_J_fr_Humerus_R) F(11, fr_HyABase_J_fr_Humerus_R_CTR) F(12, fr_HyABase_J_fr_Shoulder_AA_CTR) F(13, fr_HyABase_J_fr_Shoulder_FE_CTR)
#define VP_L(F) F(0, Shoulder_AA, SHOULDER_AA) F(1, Shoulder_FE, SHOULDER_FE) F(2, Humerus_R, HUMERUS_R) F(3, Elbow_FE, ELBOW_FE) F(4, Wrist_R, WRIST_R) F(5, Wrist_FE, WRIST_FE)
#endif
#if VP_BOT == 3
#include <ct/models/QuadrotorWithLoad/generated/declarations.h>
#include <ct/models/QuadrotorWithLoad/generated/transforms.h>
#include <ct/models/QuadrotorWithLoad/generated/jacobians.h>
#include <ct/models/QuadrotorWithLoad/generated/inertia_properties.h>
#include <ct/models/QuadrotorWithLoad/generated/inverse_dynamics.h>
#include <ct/models/QuadrotorWithLoad/generated/forward_dynamics.h>
#include <ct/models/QuadrotorWithLoad/generated/jsim.h>
#include <ct/models/QuadrotorWithLoad/generated/miscellaneous.cpp>
namespace R = iit::ct_quadrotor;
#define VP_FLOATING 1
#define VP_X(F) F(0, fr_body_X_fr_link1) F(1, fr_body_X_fr_link2) F(2, fr_body_X_fr_ee) F(3, fr_body_X_fr_com0) F(4, fr_body_X_fr_com1) F(5, fr_link1_X_fr_body) F(6, fr_link2_X_fr_body) F(7, fr_ee_X_fr_body) F(8, fr_com0_X_fr_body) F(9, fr_com1_X_fr_body) F(10, fr_body_X_fr_jA) F(11, fr_body_X_fr_jB) F(12, fr_link2_X_fr_link1) F(13, fr_link1_X_fr_link2)
#define VP_J(F) F(0, fr_body_J_fr_ee)
#define VP_L(F) F(0, body, BODY) F(1, link1, LINK1) F(2, link2, LINK2)
#endif
#if VP_BOT == 4
#include <ct/models/HyQ/generated/declarations.h>
#include <ct/models/HyQ/generated/transforms.h>
#include <ct/models/HyQ/generated/jacobians.h>
#include <ct/models/HyQ/generated/inertia_properties.h>
#include <ct/models/HyQ/generated/inverse_dynamics.h>
#include <ct/models/HyQ/generated/forward_dynamics.h>
#include <ct/models/HyQ/generated/jsim.h>
#include <ct/models/HyQ/generated/miscellaneous.cpp>
namespace R = iit::HyQ;
#define VP_FLOATING 1
#define VP_X(F) F(0, fr_trunk_X_fr_LF_hipassembly) F(1, fr_trunk_X_fr_RF_hipassembly) F(2, fr_trunk_X_fr_LH_hipassembly) F(3, fr_trunk_X_fr_RH_hipassembly) F(4, fr_trunk_X_fr_LF_upperleg) F(5, fr_trunk_X_fr_RF_upperleg) F(6, fr_trunk_X_fr_LH_upperleg) F(7, fr_trunk_X_fr_RH_upperleg) F(8, fr_trunk_X_fr_LF_lowerleg) F(9, fr_trunk_X_fr_RF_lowerleg) F(10, fr_trunk_X_fr_LH_lowerleg) F(11, fr_trunk_X_fr_RH_lowerleg) F(12, fr_LF_hipassembly_X_fr_trunk) F(13, fr_RF_hipassembly_X_fr_trunk) F(14, fr_LH_hipassembly_X_fr_trunk) F(15, fr_RH_hipassembly_X_fr_trunk) F(16, fr_LF_upperleg_X_fr_trunk) F(17, fr_RF_upperleg_X_fr_trunk) F(18, fr_LH_upperleg_X_fr_trunk) F(19, fr_RH_upperleg_X_fr_trunk) F(20, fr_LF_lowerleg_X_fr_trunk) F(21, fr_RF_lowerleg_X_fr_trunk) F(22, fr_LH_lowerleg_X_fr_trunk) F(23, fr_RH_lowerleg_X_fr_trunk) F(24, fr_trunk_X_LF_hipassemblyCOM) F(25, fr_trunk_X_RF_hipassemblyCOM) F(26, fr_trunk_X_LH_hipassemblyCOM) F(27, fr_trunk_X_RH_hipassemblyCOM) F(28, fr_trunk_X_LF_upperlegCOM) F(29, fr_trunk_X_RF_upperlegCOM) F(30, fr_trunk_X_LH_upperlegCOM) F(31, fr_trunk_X_RH_upperlegCOM) F(32, fr_trunk_X_LF_lowerlegCOM) F(33, fr_trunk_X_RF_lowerlegCOM) F(34, fr_trunk_X_LH_lowerlegCOM) F(35, fr_trunk_X_RH_lowerlegCOM) F(36, fr_LF_foot_X_fr_LF_lowerleg) F(37, fr_RF_foot_X_fr_RF_lowerleg) F(38, fr_LH_foot_X_fr_LH_lowerleg) F(39, fr_RH_foot_X_fr_RH_lowerleg) F(40, fr_trunk_X_fr_LF_foot) F(41, fr_trunk_X_fr_RF_foot) F(42, fr_trunk_X_fr_LH_foot) F(43, fr_trunk_X_fr_RH_foot) F(44, fr_LF_foot_X_fr_trunk) F(45, fr_RF_foot_X_fr_trunk) F(46, fr_LH_foot_X_fr_trunk) F(47, fr_RH_foot_X_fr_trunk) F(48, fr_trunk_X_fr_LF_HAA) F(49, fr_trunk_X_fr_RF_HAA) F(50, fr_trunk_X_fr_LH_HAA) F(51, fr_trunk_X_fr_RH_HAA) F(52, fr_trunk_X_fr_LF_HFE) F(53, fr_trunk_X_fr_RF_HFE) F(54, fr_trunk_X_fr_LH_HFE) F(55, fr_trunk_X_fr_RH_HFE) F(56, fr_trunk_X_fr_LF_KFE) F(57, fr_trunk_X_fr_RF_KFE) F(58, fr_trunk_X_fr_LH_KFE) F(59, fr_trunk_X_fr_RH_KFE) F(60, fr_LF_upperleg_X_fr_LF_hipassembly) F(61, fr_LF_hipassembly_X_fr_LF_upperleg) F(62, fr_LF_lowerleg_X_fr_LF_upperleg) F(63, fr_LF_upperleg_X_fr_LF_lowerleg) F(64, fr_RF_upperleg_X_fr_RF_hipassembly) F(65, fr_RF_hipassembly_X_fr_RF_upperleg) F(66, fr_RF_lowerleg_X_fr_RF_upperleg) F(67, fr_RF_upperleg_X_fr_RF_lowerleg) F(68, fr_LH_upperleg_X_fr_LH_hipassembly) F(69, fr_LH_hipassembly_X_fr_LH_upperleg) F(70, fr_LH_lowerleg_X_fr_LH_upperleg) F(71, fr_LH_upperleg_X_fr_LH_lowerleg) F(72, fr_RH_upperleg_X_fr_RH_hipassembly) F(73, fr_RH_hipassembly_X_fr_RH_upperleg) F(74, fr_RH_lowerleg_X_fr_RH_upperleg) F(75, fr_RH_upperleg_X_fr_RH_lowerleg)
#define VP_J(F) F(0, fr_trunk_J_LF_hipassemblyCOM) F(1, fr_trunk_J_RF_hipassemblyCOM) F(2, fr_trunk_J_LH_hipassemblyCOM) F(3, fr_trunk_J_RH_hipassemblyCOM) F(4, fr_trunk_J_LF_upperlegCOM) F(5, fr_trunk_J_RF_upperlegCOM) F(6, fr_trunk_J_LH_upperlegCOM) F(7, fr_trunk_J_RH_upperlegCOM) F(8, fr_trunk_J_LF_lowerlegCOM) F(9, fr_trunk_J_RF_lowerlegCOM) F(10, fr_trunk_J_LH_lowerlegCOM) F(11, fr_trunk_J_RH_lowerlegCOM) F(12, fr_trunk_J_fr_LF_foot) F(13, fr_trunk_J_fr_RF_foot) F(14, fr_trunk_J_fr_LH_foot) F(15, fr_trunk_J_fr_RH_foot)
#define VP_L(F) F(0, trunk, TRUNK) F(1, LF_hipassembly, LF_HIPASSEMBLY) F(2, LF_upperleg, LF_UPPERLEG) F(3, LF_lowerleg, LF_LOWERLEG) F(4, RF_hipassembly, RF_HIPASSEMBLY) F(5, RF_upperleg, RF_UPPERLEG) F(6, RF_lowerleg, RF_LOWERLEG) F(7, LH_hipassembly, LH_HIPASSEMBLY) F(8, LH_upperleg, LH_UPPERLEG) F(9, LH_lowerleg, LH_LOWERLEG) F(10, RH_hipassembly, RH_HIPASSEMBLY) F(11, RH_upperleg, RH_UPPERLEG) F(12, RH_lowerleg, RH_LOWERLEG)
#endif
