// Stand-in for the part of CaribouLite's C++ interface its source block may use; the device is in B10.cpp.
#pragma once
#include <algorithm>
#include <complex>
#include <cstdint>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
class CaribouLiteFreqRange { double a, b; public: CaribouLiteFreqRange(double x, double y) : a(x), b(y) {} float fmin() const { return (float)a; } float fmax() const { return (float)b; } };
class CaribouLiteRadio {
public:
    enum RadioType { S1G = 0, HiF = 1 }; virtual ~CaribouLiteRadio() {}
    virtual std::vector<CaribouLiteFreqRange> GetFrequencyRange() = 0; virtual float GetRxSampleRateMin() = 0; virtual float GetRxSampleRateMax() = 0; virtual size_t GetNativeMtuSample() = 0;
    virtual void SetFrequency(float) = 0; virtual float GetFrequency() = 0; virtual void SetRxSampleRate(float) = 0; virtual float GetRxSampleRate() = 0; virtual void SetAgc(bool) = 0; virtual bool GetAgc() = 0; virtual void SetRxGain(float) = 0; virtual float GetRxGain() = 0; virtual float GetRxGainMin() = 0; virtual float GetRxGainMax() = 0;
    virtual void StartReceiving() = 0; virtual void StopReceiving() = 0; virtual int ReadSamples(std::complex<float>*, size_t) = 0; virtual int ReadSamples(std::complex<short>*, size_t) = 0;
};
class CaribouLite {
public:
    enum SysVersion { Unknown = 0, CaribouLiteFull = 1, CaribouLiteISM = 2 };
    static bool DetectBoard(SysVersion*, std::string&, std::string&); static std::string GetSystemVersionStr(SysVersion); static CaribouLite& GetInstance(bool = false); CaribouLiteRadio* GetRadioChannel(CaribouLiteRadio::RadioType);
};
