// All the queries of the channel information. Reading a value out makes sure that it is there (memory that was never written, or is gone).
#pragma once
#include "core/doc.h"
namespace sim {
// the values a thread has read out, if it wants to compare them
inline uint64_t*& use_digest() { static thread_local uint64_t* d = nullptr; return d; }
inline void digest(const void* p, size_t n) { if (uint64_t* d = use_digest()) *d = fnv(p, n, *d); }
inline void use(const std::wstring& s) { for (wchar_t c : s) { volatile wchar_t x = c; (void)x; } digest(s.data(), s.size() * sizeof(wchar_t)); }
template <class T> void use(const T& t) { if (std::is_arithmetic<T>::value || std::is_enum<T>::value) digest(&t, sizeof(T)); const volatile uint8_t* q = (const volatile uint8_t*)&t; uint8_t s = 0; for (size_t i = 0; i < sizeof(T); ++i) s += q[i]; (void)s; }
template <class T> void use(const std::vector<T>& v) { for (auto& e : v) use(e); }
inline void use(const libCZI::SpectrumCharacteristics& s) { use(s.ranges); }
inline void walk(libCZI::IDimensionChannelInfo* o, int& n);
inline void walk(libCZI::IDimensionChannelDetectorSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelLightSourcesSetting* o, int& n);
inline void walk(libCZI::IDimensionChannelLightPath* o, int& n);
inline void walk(libCZI::IDimensionChannelLaserScanInfo* o, int& n);
inline void walk(libCZI::IDimensionChannelSPIMIlluminationSettings* o, int& n);
inline void walk(libCZI::IInstrumentObjectiveSettings* o, int& n);
inline void walk(libCZI::ISPIMIlluminationResonanceScannerSettings* o, int& n);
inline void walk(libCZI::ISPIMIlluminationGalvoScannerSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelSPIMDetectionSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelSIMSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelPolarizingSettings* o, int& n);
inline void walk(libCZI::IFastAiryScanSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelAiryscanSettings* o, int& n);
inline void walk(libCZI::IDimensionChannelRatio* o, int& n);
#define Q(o, T, f) { T v{}; if (o->f(&v)) { use(v); ++n; } if (C.flip(1, 50)) o->f(nullptr); }
inline void walk(libCZI::IDimensionChannelInfo* o, int& n)
{
    using S = libCZI::IDimensionChannelInfo; (void)sizeof(S);
    Q(o, std::wstring, TryGetAttributeId)
    Q(o, std::wstring, TryGetAttributeName)
    Q(o, libCZI::DimensionChannelChannelType, TryGetChannelType)
    Q(o, std::wstring, TryGetChannelUnit)
    Q(o, libCZI::PixelType, TryGetPixelType)
    Q(o, int, TryGetComponentBitCount)
    Q(o, libCZI::DimensionChannelAcquisitionMode, TryGetAcquisitionMode)
    Q(o, libCZI::DimensionChannelIlluminationType, TryGetIlluminationType)
    Q(o, libCZI::DimensionChannelContrastMethod, TryGetContrastMethod)
    Q(o, libCZI::SpectrumCharacteristics, TryGetIlluminationWavelength)
    Q(o, libCZI::SpectrumCharacteristics, TryGetDetectionWavelength)
    Q(o, double, TryGetExcitationWavelength)
    Q(o, double, TryGetEmissionWavelength)
    Q(o, double, TryGetEffectiveNA)
    Q(o, std::wstring, TryGetDyeId)
    Q(o, std::wstring, TryGetDyeDatabaseId)
    Q(o, double, TryGetPinholeSize)
    Q(o, double, TryGetPinholeSizeAiry)
    Q(o, libCZI::DimensionChannelPinholeGeometry, TryGetPinholeGeometry)
    Q(o, std::wstring, TryGetFluor)
    Q(o, double, TryGetNDFilter)
    Q(o, int, TryGetPocketCellSetting)
    Q(o, libCZI::Rgb8Color, TryGetColor)
    Q(o, libCZI::RangeOrSingleValue<std::uint64_t>, TryGetExposureTime)
    Q(o, double, TryGetDepthOfFocus)
    Q(o, double, TryGetSectionThickness)
    Q(o, std::wstring, TryGetReflector)
    Q(o, std::wstring, TryGetCondenserContrast)
    Q(o, double, TryGetNACondenser)
    if (auto x = o->GetDetectorSettings()) walk(x.get(), n);
    if (auto x = o->GetLightPath()) walk(x.get(), n);
    if (auto x = o->GetLaserScanInfo()) walk(x.get(), n);
    if (auto x = o->GetSPIMIlluminationSettings()) walk(x.get(), n);
    if (auto x = o->GetSPIMDetectionSettings()) walk(x.get(), n);
    if (auto x = o->GetSIMSettings()) walk(x.get(), n);
    if (auto x = o->GetPolarizingSettings()) walk(x.get(), n);
    if (auto x = o->GetAiryscanSettings()) walk(x.get(), n);
    if (auto x = o->GetRatio()) walk(x.get(), n);
    if (auto x = o->GetLightSourcesSettings()) for (int i = 0; i < x->GetLightSourceSettingCount(); ++i) if (auto y = x->GetLightSourceSetting(i)) walk(y.get(), n);
}
inline void walk(libCZI::IDimensionChannelDetectorSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelDetectorSettings; (void)sizeof(S);
    Q(o, std::wstring, TryGetDetectorRef)
    Q(o, libCZI::ChannelDetectorSettingsBinning, TryGetBinning)
    Q(o, libCZI::ChannelDetectorSettingsShutter, TryGetShutter)
    Q(o, double, TryGetPhotonConversionFactor)
    Q(o, double, TryGetGain)
    Q(o, double, TryGetDigitalGain)
    Q(o, double, TryGetOffset)
    Q(o, double, TryGetEMGain)
    Q(o, double, TryGetVoltage)
    Q(o, double, TryGetReadOutRate)
    Q(o, bool, TryGetUseBrightnessContrastCorrection)
    Q(o, double, TryGetPixelMaximum)
    Q(o, double, TryGetPixelAccuracy)
    Q(o, double, TryGetPixelScaleFactor)
    Q(o, libCZI::ChannelDetectorCameraProcessingMode, TryGetCameraProcessingMode)
}
inline void walk(libCZI::IDimensionChannelLightSourcesSetting* o, int& n)
{
    using S = libCZI::IDimensionChannelLightSourcesSetting; (void)sizeof(S);
    Q(o, std::wstring, TryGetLightSourceRef)
    Q(o, double, TryGetWavelength)
    Q(o, double, TryGetAttenuation)
    Q(o, double, TryGetTransmission)
    Q(o, std::wstring, TryGetIntensity)
    Q(o, double, TryGetFlashDuration)
    Q(o, double, TryGetTIRFAngle)
    Q(o, double, TryGetTIRFDepthOfPenetration)
    Q(o, bool, TryGetIsTIRFCalibrated)
    Q(o, bool, TryGetIsNlo)
    Q(o, S::Polarization, TryGetPolarization)
}
inline void walk(libCZI::IDimensionChannelLightPath* o, int& n)
{
    using S = libCZI::IDimensionChannelLightPath; (void)sizeof(S);
    Q(o, std::wstring, TryGetExcitationFilterRef)
    Q(o, std::wstring, TryGetDichroicFilterRef)
    Q(o, std::wstring, TryGetEmissionFilterRef)
}
inline void walk(libCZI::IDimensionChannelLaserScanInfo* o, int& n)
{
    using S = libCZI::IDimensionChannelLaserScanInfo; (void)sizeof(S);
    Q(o, double, TryGetPixelTime)
    Q(o, double, TryGetLineTime)
    Q(o, double, TryGetFrameTime)
    Q(o, int, TryGetAveraging)
    Q(o, libCZI::DimensionChannelLaserScanScanningMode, TryGetScanningMode)
    Q(o, double, TryGetSampleRotation)
    Q(o, double, TryGetSampleOffsetX)
    Q(o, double, TryGetSampleOffsetY)
    Q(o, libCZI::DimensionChannelLaserScanScanDirection, TryGetScanDirection)
    Q(o, double, TryGetZoomX)
    Q(o, double, TryGetZoomY)
    Q(o, double, TryGetZoomZ)
    Q(o, double, TryGetCropOffset)
    Q(o, double, TryGetLaserAttenuatorMeas)
    Q(o, double, TryGetLaserBlanking)
    Q(o, double, TryGetLaserAttenuatorBleach)
    Q(o, std::uint32_t, TryGetLineStep)
    Q(o, int, TryGetScanSpeed)
    Q(o, libCZI::DimensionChannelLaserScanAveragingMethod, TryGetAveragingMethod)
    Q(o, libCZI::DimensionChannelLaserScanAveragingMode, TryGetAveragingMode)
    Q(o, libCZI::DimensionChannelLaserScanLaserAttenuatorState, TryGetLaserAttenuatorState)
}
inline void walk(libCZI::IDimensionChannelSPIMIlluminationSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelSPIMIlluminationSettings; (void)sizeof(S);
    Q(o, double, TryGetNALightSheet)
    Q(o, libCZI::DimensionChannelSPIMIlluminationSettingsBeamType, TryGetBeamType)
    Q(o, std::wstring, TryGetCylinderLensRef)
    if (auto x = o->GetIlluminationObjectiveSettings()) walk(x.get(), n);
    if (auto x = o->GetResonanceScannerSettings()) walk(x.get(), n);
    if (auto x = o->GetGalvoScannerSettings()) walk(x.get(), n);
}
inline void walk(libCZI::IInstrumentObjectiveSettings* o, int& n)
{
    using S = libCZI::IInstrumentObjectiveSettings; (void)sizeof(S);
    Q(o, std::wstring, TryGetObjectiveRef)
    Q(o, S::Medium, TryGetMedium)
    Q(o, double, TryGetCorrectionCollar)
    Q(o, double, TryGetCorrectionCollar2)
    Q(o, std::wstring, TryGetCorrectionControllerMode)
    Q(o, double, TryGetCorrectionControllerBottomThickness)
    Q(o, double, TryGetCorrectionControllerImagingDepth)
    Q(o, double, TryGetRefractiveIndex)
}
inline void walk(libCZI::ISPIMIlluminationResonanceScannerSettings* o, int& n)
{
    using S = libCZI::ISPIMIlluminationResonanceScannerSettings; (void)sizeof(S);
    Q(o, double, TryGetAmplitude)
}
inline void walk(libCZI::ISPIMIlluminationGalvoScannerSettings* o, int& n)
{
    using S = libCZI::ISPIMIlluminationGalvoScannerSettings; (void)sizeof(S);
    Q(o, double, TryGetAmplitudeYScan)
    Q(o, double, TryGetFrequency)
    Q(o, double, TryGetOffset1Left)
    Q(o, double, TryGetOffset1Right)
    Q(o, double, TryGetOffset2Left)
    Q(o, double, TryGetOffset2Right)
}
inline void walk(libCZI::IDimensionChannelSPIMDetectionSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelSPIMDetectionSettings; (void)sizeof(S);
    Q(o, double, TryGetNADetection)
}
inline void walk(libCZI::IDimensionChannelSIMSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelSIMSettings; (void)sizeof(S);
    Q(o, std::wstring, TryGetSIMDeviceRef)
    Q(o, double, TryGetGratingPeriod)
    Q(o, double, TryGetGratingRotation)
    Q(o, std::wstring, TryGetGridDescription)
    Q(o, std::wstring, TryGetReflector)
    Q(o, std::wstring, TryGetFilterSetRef)
    Q(o, double, TryGetDiffractionEfficiency1)
    Q(o, double, TryGetDiffractionEfficiency2)
    Q(o, double, TryGetDiffractionEfficiency3)
}
inline void walk(libCZI::IDimensionChannelPolarizingSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelPolarizingSettings; (void)sizeof(S);
    Q(o, double, TryGetPolarizerAngle)
    Q(o, double, TryGetAnalyzerAngle)
}
inline void walk(libCZI::IFastAiryScanSettings* o, int& n)
{
    using S = libCZI::IFastAiryScanSettings; (void)sizeof(S);
    Q(o, S::Vector, TryGetIlluminationLinePixels)
    Q(o, S::Vector, TryGetIlluminationLine)
    Q(o, std::vector<int>, TryGetFiberMapping)
    Q(o, double, TryGetEffectiveNAinX)
    Q(o, double, TryGetEffectiveNAinY)
}
inline void walk(libCZI::IDimensionChannelAiryscanSettings* o, int& n)
{
    using S = libCZI::IDimensionChannelAiryscanSettings; (void)sizeof(S);
    Q(o, S::Mode, TryGetMode)
    Q(o, double, TryGetVirtualPinholeSize)
    Q(o, double, TryGetMagnification)
    Q(o, double, TryGetTransformationXX)
    Q(o, double, TryGetTransformationXY)
    Q(o, double, TryGetTransformationYX)
    Q(o, double, TryGetTransformationYY)
    if (auto x = o->GetFastAiryScanSettings()) walk(x.get(), n);
}
inline void walk(libCZI::IDimensionChannelRatio* o, int& n)
{
    using S = libCZI::IDimensionChannelRatio; (void)sizeof(S);
    Q(o, S::Type, TryGetType)
    Q(o, double, TryGetConst1)
    Q(o, double, TryGetConst2)
    Q(o, double, TryGetConst3)
    Q(o, double, TryGetConst4)
    Q(o, double, TryGetConst5)
    Q(o, double, TryGetConst6)
    Q(o, std::vector<std::wstring>, TryGetSource1)
    Q(o, std::vector<std::wstring>, TryGetSource2)
}
#undef Q
}
