// XML for documents whose metadata is not what the schema promises: every element the metadata parsers look for may be there,
// missing, repeated, empty, or hold text which is not a value of its type.
#pragma once
#include "core/doc.h"
namespace sim {
struct XmlGen {
    std::string out; const char* p = nullptr; size_t limit = 24000; uint32_t leaf_num = 2, leaf_den = 3; bool tame = false;   // tame: the range of the display settings is a sensible one
    static const char* grammar()
    {
        return "ImageDocument(Metadata(Information(Document(UserName Title Description Comment Rating CreationDate Keywords Name)"
               "Image(SizeX SizeY SizeC SizeZ SizeT SizeR SizeS SizeI SizeH SizeV SizeB SizeM StartC StartZ StartT StartR StartS StartI StartH StartV StartB PixelType ComponentBitCount "
               "Dimensions(Z(StartPosition XYZHandedness ZAxisDirection ZDriveMode ZDriveSpeed Positions(Interval(Start Increment) List(Offsets)))T(StartTime Positions(Interval(Start Increment) List(Offsets)))"
               "Channels(Channel*@Id@Name(ChannelType ChannelUnit PixelType ComponentBitCount AcquisitionMode IlluminationType ContrastMethod IlluminationWavelength(SinglePeak Ranges)DetectionWavelength(SinglePeak Ranges)"
               "ExcitationWavelength EmissionWavelength EffectiveNA DyeId DyeDatabaseId PinholeSize PinholeSizeAiry PinholeGeometry Fluor NDFilter PockelCellSetting Color ExposureTime DepthOfFocus SectionThickness "
               "DetectorSettings(Detector@Id Binning Shutter PhotonConversionFactor Gain DigitalGain Offset EMGain Voltage ReadOutRate UseBrightnessContrastCorrection PixelMaximum PixelAccuracy PixelScaleFactor CameraProcessingMode)"
               "LightSourcesSettings(LightSourceSettings*(LightSource@Id Wavelength Attenuation Transmission Intensity FlashDuration TIRFAngle TIRFDepthOfPenetration IsTIRFCalibrated IsNlo Polarization(StokesParameter1 StokesParameter2 StokesParameter3 StokesParameter4)))"
               "LightPath(ExcitationFilter@Id Dichroic@Id EmissionFilter@Id)"
               "LaserScanInfo(PixelTime LineTime FrameTime Averaging ScanningMode SampleRotation SampleOffsetX SampleOffsetY ScanDirection ZoomX ZoomY ZoomZ CropOffset LaserAttenuatorMeas LaserBlanking LaserAttenuatorBleach LineStep ScanSpeed AveragingMethod AveragingMode LaserAttenuatorState)"
               "SPIMIlluminationSettings(NALightSheet BeamType CylinderLensRef@Id IlluminationObjectiveSettings(ObjectiveRef@Id Medium CorrectionCollar CorrectionCollar2 CorrectionControllerMode CorrectionControllerBottomThickness CorrectionControllerImagingDepth RefractiveIndex)ResonanceScannerSettings(Amplitude)GalvoScannerSettings(AmplitudeYScan Frequency Offset1Left Offset1Right Offset2Left Offset2Right))"
               "SPIMDetectionSettings(NADetection)SIMSettings(SIMDeviceRef@Id GratingPeriod GratingRotation GridDescription Reflector FilterSetRef@Id DiffractionEfficiency1 DiffractionEfficiency2 DiffractionEfficiency3)"
               "PolarizingSettings(PolarizerAngle AnalyzerAngle)AiryscanSettings(Mode VirtualPinholeSize Magnification TransformationXX TransformationXY TransformationYX TransformationYY FastAiryScanSettings(IlluminationLinePixels IlluminationLine FiberMapping EffectiveNA_in_x EffectiveNA_in_y))"
               "Reflector CondenserContrast NACondenser Ratio(Type Const1 Const2 Const3 Const4 Const5 Const6 Source1(ChannelRef*@Id)Source2(ChannelRef*@Id)))))))"
               "Scaling(Items(Distance*@Id(Value DefaultUnitFormat)))DisplaySetting(Channels(Channel*@Id@Name(Low High Weight ColorMode Color IsSelected Mode Gamma Points OriginalColor Spline BitCountRange PixelType DyeName)))))";
    }
    static const char* sub_grammar() { return "METADATA(Tags(StageXPosition StageYPosition FocusPosition AcquisitionTime DetectorState RoiCenterOffsetX)DataSchema(ValidBitsPerPixel)AttachmentSchema(DataFormat))"; }
    std::string text()
    {
        static const char* v[] = {"", " ", "0", "1", "2", "-1", "0.5", "-3.25", "1e400", "-1e400", "1e-400", "nan", "inf", "99999999999999999999", "-99999999999999999999", "2147483648", "4294967295", "0x10", "1,2", "1 2", "1,2,3,4,5", "1;2", ",", ",,", "1,", ",1", "1-2", "-2", "1-", "-", "--", "1 - 2 - 3", "0.1,0.2 0.3,0.4", "0.1,0.2 0.3", "0.9,0.1 0.1,0.9", "1e300,1e300 -1e300,5",
                                  "true", "false", "TRUE", "yes", "#FF00FF00", "#", "#F", "#GG", "#FF00FF0", "#FF00FF0012345", "Gray8", "Bgr24", "gray8", "Spline", "Gamma", "None", "Color", "Heightmap", "WideField", "Fluorescence", "Circular", "1x1", "2,2", "Other", "Open", "Electronic", "Frame", "Bidirectional", "Mean", "Gaussian", "Water", "VirtualPinhole", "Unspecified", "Ratio", "LeftHanded", "Step", "Continuous", "CHUNKCONTAINER", "2021-02-30T25:61:61Z", "2021-02-03T04:05:06.789+01:00", "2021-02-03T04:05:06-99:99", "12345-1-1T1:1:1", "T", "X", "Y", "Z", "Channel:0", "Channel:1", "Channel:-1", "Channel:99999999999", "Channel:", "Channel", "&#0;", "&#x10FFFF;", "&lt;&amp;&bogus;", "<![CDATA[ 1 ]]>", "<!-- c -->3", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "\xc3", "\xff\xfe", "<b>1</b>", "<?pi?>"};
        switch (C.pick({8, 3, 1, 1})) {
        case 1: { char b[40]; snprintf(b, sizeof(b), "%d%s%u", (int)C.draw(2000) - 500, C.flip(1, 2) ? "." : ",", C.draw(1000)); return b; }
        case 2: { std::string s; int n = 1 + C.draw(40); bool sp = C.flip(1, 2); for (int i = 0; i < n; ++i) s += (i ? sp ? " " : "," : "") + std::to_string((int)C.draw(100) - 10); return s; }
        case 3: return std::string(1 + C.draw(700), "0123456789 -.x,"[C.draw(15)]);
        default: return v[C.draw(sizeof(v) / sizeof(v[0]))]; }
    }
    std::string attr_text() { std::string s = text(), r; for (char c : s) if (c != '<' && c != '"') r += c; return r; }
    // the body of one list of elements; emit = false only skips over it
    void list(bool emit)
    {
        while (*p && *p != ')') {
            if (*p == ' ') { ++p; continue; }
            std::string name; while (isalnum((unsigned char)*p) || *p == '_') name += *p++;
            bool many = false; if (*p == '*') { many = true; ++p; }
            std::vector<std::string> attrs; while (*p == '@') { ++p; std::string a; while (isalnum((unsigned char)*p)) a += *p++; attrs.push_back(a); }
            bool nested = *p == '('; const char* body = nested ? ++p : p;
            int n = !emit ? 0 : nested ? C.flip(9, 10) : C.flip(leaf_num, leaf_den); if (n && many) n = C.draw(4); else if (n && C.flip(1, 40)) n = 2;
            if (out.size() > limit) n = 0;
            for (int i = 0; i < n; ++i) {
                out += "<" + name; for (auto& a : attrs) if (C.flip(3, 4)) out += " " + a + "=\"" + (name == "Distance" && C.flip(3, 4) ? std::string(1, "XYZ"[C.draw(3)]) : name == "Channel" && a == "Id" && C.flip(3, 4) ? "Channel:" + std::to_string(C.flip(1, 2) ? i : (int)C.draw(4)) : attr_text()) + "\"";
                out += ">"; if (nested) { p = body; list(true); } else if (tame && (name == "Low" || name == "High")) out += name == "Low" ? "0.125" : "0.75"; else out += text();
                if (C.flip(1, 4000)) continue; out += "</" + name + ">";
            }
            if (nested) { if (!n) { p = body; list(false); } if (*p == ')') ++p; }
        }
    }
    std::string gen(const char* g) { out.clear(); if (C.flip(1, 3)) out = "<?xml version=\"1.0\" encoding=\"utf-8\"?>"; p = g; list(true); return out; }
};
}
