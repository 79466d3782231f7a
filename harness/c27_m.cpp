// generated: the functions of the MATLAB interface, each in its own scope
#include "mex.hpp"
#include "mexAdapter.hpp"
#include "MoorDyn2.h"
#include "moordyn_matlab.h"
#include <functional>
namespace MoorDynM_Close {
#include "MoorDynM_Close.cpp"
}
namespace MoorDynM_Create {
#include "MoorDynM_Create.cpp"
}
namespace MoorDynM_ExternalWaveKinGetCoordinates {
#include "MoorDynM_ExternalWaveKinGetCoordinates.cpp"
}
namespace MoorDynM_ExternalWaveKinGetN {
#include "MoorDynM_ExternalWaveKinGetN.cpp"
}
namespace MoorDynM_ExternalWaveKinInit {
#include "MoorDynM_ExternalWaveKinInit.cpp"
}
namespace MoorDynM_ExternalWaveKinSet {
#include "MoorDynM_ExternalWaveKinSet.cpp"
}
namespace MoorDynM_GetAverageDepth {
#include "MoorDynM_GetAverageDepth.cpp"
}
namespace MoorDynM_GetBody {
#include "MoorDynM_GetBody.cpp"
}
namespace MoorDynM_GetBodyAngVel {
#include "MoorDynM_GetBodyAngVel.cpp"
}
namespace MoorDynM_GetBodyAngle {
#include "MoorDynM_GetBodyAngle.cpp"
}
namespace MoorDynM_GetBodyForce {
#include "MoorDynM_GetBodyForce.cpp"
}
namespace MoorDynM_GetBodyID {
#include "MoorDynM_GetBodyID.cpp"
}
namespace MoorDynM_GetBodyM {
#include "MoorDynM_GetBodyM.cpp"
}
namespace MoorDynM_GetBodyPos {
#include "MoorDynM_GetBodyPos.cpp"
}
namespace MoorDynM_GetBodyState {
#include "MoorDynM_GetBodyState.cpp"
}
namespace MoorDynM_GetBodyType {
#include "MoorDynM_GetBodyType.cpp"
}
namespace MoorDynM_GetBodyVel {
#include "MoorDynM_GetBodyVel.cpp"
}
namespace MoorDynM_GetDepthAt {
#include "MoorDynM_GetDepthAt.cpp"
}
namespace MoorDynM_GetLine {
#include "MoorDynM_GetLine.cpp"
}
namespace MoorDynM_GetLineConstantEA {
#include "MoorDynM_GetLineConstantEA.cpp"
}
namespace MoorDynM_GetLineFairTen {
#include "MoorDynM_GetLineFairTen.cpp"
}
namespace MoorDynM_GetLineID {
#include "MoorDynM_GetLineID.cpp"
}
namespace MoorDynM_GetLineMaxTen {
#include "MoorDynM_GetLineMaxTen.cpp"
}
namespace MoorDynM_GetLineN {
#include "MoorDynM_GetLineN.cpp"
}
namespace MoorDynM_GetLineNodeBendStiff {
#include "MoorDynM_GetLineNodeBendStiff.cpp"
}
namespace MoorDynM_GetLineNodeCurv {
#include "MoorDynM_GetLineNodeCurv.cpp"
}
namespace MoorDynM_GetLineNodeDrag {
#include "MoorDynM_GetLineNodeDrag.cpp"
}
namespace MoorDynM_GetLineNodeForce {
#include "MoorDynM_GetLineNodeForce.cpp"
}
namespace MoorDynM_GetLineNodeFroudeKrilov {
#include "MoorDynM_GetLineNodeFroudeKrilov.cpp"
}
namespace MoorDynM_GetLineNodeM {
#include "MoorDynM_GetLineNodeM.cpp"
}
namespace MoorDynM_GetLineNodePos {
#include "MoorDynM_GetLineNodePos.cpp"
}
namespace MoorDynM_GetLineNodeSeabedForce {
#include "MoorDynM_GetLineNodeSeabedForce.cpp"
}
namespace MoorDynM_GetLineNodeTen {
#include "MoorDynM_GetLineNodeTen.cpp"
}
namespace MoorDynM_GetLineNodeVel {
#include "MoorDynM_GetLineNodeVel.cpp"
}
namespace MoorDynM_GetLineNodeWeight {
#include "MoorDynM_GetLineNodeWeight.cpp"
}
namespace MoorDynM_GetLineNumberNodes {
#include "MoorDynM_GetLineNumberNodes.cpp"
}
namespace MoorDynM_GetLineUnstrechedLength {
#include "MoorDynM_GetLineUnstrechedLength.cpp"
}
namespace MoorDynM_GetMinDepth {
#include "MoorDynM_GetMinDepth.cpp"
}
namespace MoorDynM_GetNumberBodies {
#include "MoorDynM_GetNumberBodies.cpp"
}
namespace MoorDynM_GetNumberLines {
#include "MoorDynM_GetNumberLines.cpp"
}
namespace MoorDynM_GetNumberPoints {
#include "MoorDynM_GetNumberPoints.cpp"
}
namespace MoorDynM_GetNumberRods {
#include "MoorDynM_GetNumberRods.cpp"
}
namespace MoorDynM_GetPoint {
#include "MoorDynM_GetPoint.cpp"
}
namespace MoorDynM_GetPointAttached {
#include "MoorDynM_GetPointAttached.cpp"
}
namespace MoorDynM_GetPointForce {
#include "MoorDynM_GetPointForce.cpp"
}
namespace MoorDynM_GetPointID {
#include "MoorDynM_GetPointID.cpp"
}
namespace MoorDynM_GetPointM {
#include "MoorDynM_GetPointM.cpp"
}
namespace MoorDynM_GetPointNAttached {
#include "MoorDynM_GetPointNAttached.cpp"
}
namespace MoorDynM_GetPointPos {
#include "MoorDynM_GetPointPos.cpp"
}
namespace MoorDynM_GetPointType {
#include "MoorDynM_GetPointType.cpp"
}
namespace MoorDynM_GetPointVel {
#include "MoorDynM_GetPointVel.cpp"
}
namespace MoorDynM_GetRod {
#include "MoorDynM_GetRod.cpp"
}
namespace MoorDynM_GetRodForce {
#include "MoorDynM_GetRodForce.cpp"
}
namespace MoorDynM_GetRodID {
#include "MoorDynM_GetRodID.cpp"
}
namespace MoorDynM_GetRodM {
#include "MoorDynM_GetRodM.cpp"
}
namespace MoorDynM_GetRodN {
#include "MoorDynM_GetRodN.cpp"
}
namespace MoorDynM_GetRodNodePos {
#include "MoorDynM_GetRodNodePos.cpp"
}
namespace MoorDynM_GetRodNodeVel {
#include "MoorDynM_GetRodNodeVel.cpp"
}
namespace MoorDynM_GetRodNumberNodes {
#include "MoorDynM_GetRodNumberNodes.cpp"
}
namespace MoorDynM_GetRodType {
#include "MoorDynM_GetRodType.cpp"
}
namespace MoorDynM_GetSeafloor {
#include "MoorDynM_GetSeafloor.cpp"
}
namespace MoorDynM_GetWaves {
#include "MoorDynM_GetWaves.cpp"
}
namespace MoorDynM_GetWavesKin {
#include "MoorDynM_GetWavesKin.cpp"
}
namespace MoorDynM_Init {
#include "MoorDynM_Init.cpp"
}
namespace MoorDynM_Init_NoIC {
#include "MoorDynM_Init_NoIC.cpp"
}
namespace MoorDynM_IsLineConstantEA {
#include "MoorDynM_IsLineConstantEA.cpp"
}
namespace MoorDynM_IsLinePressBend {
#include "MoorDynM_IsLinePressBend.cpp"
}
namespace MoorDynM_Load {
#include "MoorDynM_Load.cpp"
}
namespace MoorDynM_Log {
#include "MoorDynM_Log.cpp"
}
namespace MoorDynM_NCoupledDOF {
#include "MoorDynM_NCoupledDOF.cpp"
}
namespace MoorDynM_Save {
#include "MoorDynM_Save.cpp"
}
namespace MoorDynM_SaveBodyVTK {
#include "MoorDynM_SaveBodyVTK.cpp"
}
namespace MoorDynM_SaveConnectVTK {
#include "MoorDynM_SaveConnectVTK.cpp"
}
namespace MoorDynM_SaveLineVTK {
#include "MoorDynM_SaveLineVTK.cpp"
}
namespace MoorDynM_SaveRodVTK {
#include "MoorDynM_SaveRodVTK.cpp"
}
namespace MoorDynM_SaveVTK {
#include "MoorDynM_SaveVTK.cpp"
}
namespace MoorDynM_SetLineConstantEA {
#include "MoorDynM_SetLineConstantEA.cpp"
}
namespace MoorDynM_SetLinePressBend {
#include "MoorDynM_SetLinePressBend.cpp"
}
namespace MoorDynM_SetLinePressInt {
#include "MoorDynM_SetLinePressInt.cpp"
}
namespace MoorDynM_SetLogFile {
#include "MoorDynM_SetLogFile.cpp"
}
namespace MoorDynM_SetLogLevel {
#include "MoorDynM_SetLogLevel.cpp"
}
namespace MoorDynM_SetVerbosity {
#include "MoorDynM_SetVerbosity.cpp"
}
namespace MoorDynM_Step {
#include "MoorDynM_Step.cpp"
}
namespace MoorDynM_UseBodyVTK {
#include "MoorDynM_UseBodyVTK.cpp"
}

std::map<std::string, std::function<void(matlab::mex::ArgumentList, matlab::mex::ArgumentList)>>
mex_functions()
{
	return {
		{ "Close", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Close::MexFunction f; f(o, i); } },
		{ "Create", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Create::MexFunction f; f(o, i); } },
		{ "ExternalWaveKinGetCoordinates", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_ExternalWaveKinGetCoordinates::MexFunction f; f(o, i); } },
		{ "ExternalWaveKinGetN", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_ExternalWaveKinGetN::MexFunction f; f(o, i); } },
		{ "ExternalWaveKinInit", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_ExternalWaveKinInit::MexFunction f; f(o, i); } },
		{ "ExternalWaveKinSet", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_ExternalWaveKinSet::MexFunction f; f(o, i); } },
		{ "GetAverageDepth", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetAverageDepth::MexFunction f; f(o, i); } },
		{ "GetBody", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBody::MexFunction f; f(o, i); } },
		{ "GetBodyAngVel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyAngVel::MexFunction f; f(o, i); } },
		{ "GetBodyAngle", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyAngle::MexFunction f; f(o, i); } },
		{ "GetBodyForce", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyForce::MexFunction f; f(o, i); } },
		{ "GetBodyID", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyID::MexFunction f; f(o, i); } },
		{ "GetBodyM", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyM::MexFunction f; f(o, i); } },
		{ "GetBodyPos", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyPos::MexFunction f; f(o, i); } },
		{ "GetBodyState", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyState::MexFunction f; f(o, i); } },
		{ "GetBodyType", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyType::MexFunction f; f(o, i); } },
		{ "GetBodyVel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetBodyVel::MexFunction f; f(o, i); } },
		{ "GetDepthAt", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetDepthAt::MexFunction f; f(o, i); } },
		{ "GetLine", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLine::MexFunction f; f(o, i); } },
		{ "GetLineConstantEA", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineConstantEA::MexFunction f; f(o, i); } },
		{ "GetLineFairTen", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineFairTen::MexFunction f; f(o, i); } },
		{ "GetLineID", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineID::MexFunction f; f(o, i); } },
		{ "GetLineMaxTen", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineMaxTen::MexFunction f; f(o, i); } },
		{ "GetLineN", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineN::MexFunction f; f(o, i); } },
		{ "GetLineNodeBendStiff", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeBendStiff::MexFunction f; f(o, i); } },
		{ "GetLineNodeCurv", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeCurv::MexFunction f; f(o, i); } },
		{ "GetLineNodeDrag", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeDrag::MexFunction f; f(o, i); } },
		{ "GetLineNodeForce", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeForce::MexFunction f; f(o, i); } },
		{ "GetLineNodeFroudeKrilov", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeFroudeKrilov::MexFunction f; f(o, i); } },
		{ "GetLineNodeM", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeM::MexFunction f; f(o, i); } },
		{ "GetLineNodePos", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodePos::MexFunction f; f(o, i); } },
		{ "GetLineNodeSeabedForce", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeSeabedForce::MexFunction f; f(o, i); } },
		{ "GetLineNodeTen", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeTen::MexFunction f; f(o, i); } },
		{ "GetLineNodeVel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeVel::MexFunction f; f(o, i); } },
		{ "GetLineNodeWeight", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNodeWeight::MexFunction f; f(o, i); } },
		{ "GetLineNumberNodes", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineNumberNodes::MexFunction f; f(o, i); } },
		{ "GetLineUnstrechedLength", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetLineUnstrechedLength::MexFunction f; f(o, i); } },
		{ "GetMinDepth", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetMinDepth::MexFunction f; f(o, i); } },
		{ "GetNumberBodies", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetNumberBodies::MexFunction f; f(o, i); } },
		{ "GetNumberLines", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetNumberLines::MexFunction f; f(o, i); } },
		{ "GetNumberPoints", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetNumberPoints::MexFunction f; f(o, i); } },
		{ "GetNumberRods", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetNumberRods::MexFunction f; f(o, i); } },
		{ "GetPoint", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPoint::MexFunction f; f(o, i); } },
		{ "GetPointAttached", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointAttached::MexFunction f; f(o, i); } },
		{ "GetPointForce", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointForce::MexFunction f; f(o, i); } },
		{ "GetPointID", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointID::MexFunction f; f(o, i); } },
		{ "GetPointM", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointM::MexFunction f; f(o, i); } },
		{ "GetPointNAttached", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointNAttached::MexFunction f; f(o, i); } },
		{ "GetPointPos", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointPos::MexFunction f; f(o, i); } },
		{ "GetPointType", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointType::MexFunction f; f(o, i); } },
		{ "GetPointVel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetPointVel::MexFunction f; f(o, i); } },
		{ "GetRod", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRod::MexFunction f; f(o, i); } },
		{ "GetRodForce", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodForce::MexFunction f; f(o, i); } },
		{ "GetRodID", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodID::MexFunction f; f(o, i); } },
		{ "GetRodM", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodM::MexFunction f; f(o, i); } },
		{ "GetRodN", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodN::MexFunction f; f(o, i); } },
		{ "GetRodNodePos", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodNodePos::MexFunction f; f(o, i); } },
		{ "GetRodNodeVel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodNodeVel::MexFunction f; f(o, i); } },
		{ "GetRodNumberNodes", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodNumberNodes::MexFunction f; f(o, i); } },
		{ "GetRodType", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetRodType::MexFunction f; f(o, i); } },
		{ "GetSeafloor", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetSeafloor::MexFunction f; f(o, i); } },
		{ "GetWaves", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetWaves::MexFunction f; f(o, i); } },
		{ "GetWavesKin", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_GetWavesKin::MexFunction f; f(o, i); } },
		{ "Init", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Init::MexFunction f; f(o, i); } },
		{ "Init_NoIC", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Init_NoIC::MexFunction f; f(o, i); } },
		{ "IsLineConstantEA", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_IsLineConstantEA::MexFunction f; f(o, i); } },
		{ "IsLinePressBend", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_IsLinePressBend::MexFunction f; f(o, i); } },
		{ "Load", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Load::MexFunction f; f(o, i); } },
		{ "Log", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Log::MexFunction f; f(o, i); } },
		{ "NCoupledDOF", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_NCoupledDOF::MexFunction f; f(o, i); } },
		{ "Save", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Save::MexFunction f; f(o, i); } },
		{ "SaveBodyVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SaveBodyVTK::MexFunction f; f(o, i); } },
		{ "SaveConnectVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SaveConnectVTK::MexFunction f; f(o, i); } },
		{ "SaveLineVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SaveLineVTK::MexFunction f; f(o, i); } },
		{ "SaveRodVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SaveRodVTK::MexFunction f; f(o, i); } },
		{ "SaveVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SaveVTK::MexFunction f; f(o, i); } },
		{ "SetLineConstantEA", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetLineConstantEA::MexFunction f; f(o, i); } },
		{ "SetLinePressBend", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetLinePressBend::MexFunction f; f(o, i); } },
		{ "SetLinePressInt", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetLinePressInt::MexFunction f; f(o, i); } },
		{ "SetLogFile", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetLogFile::MexFunction f; f(o, i); } },
		{ "SetLogLevel", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetLogLevel::MexFunction f; f(o, i); } },
		{ "SetVerbosity", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_SetVerbosity::MexFunction f; f(o, i); } },
		{ "Step", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_Step::MexFunction f; f(o, i); } },
		{ "UseBodyVTK", [](matlab::mex::ArgumentList o, matlab::mex::ArgumentList i) { MoorDynM_UseBodyVTK::MexFunction f; f(o, i); } },
	};
}
