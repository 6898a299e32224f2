// Stand-in for ImPlot: what is plotted is copied (so that AddressSanitizer and the race detector see every element) and recorded.
#pragma once
#include "imgui.h"
typedef int ImPlotFlags, ImPlotAxisFlags, ImPlotCond, ImAxis, ImPlotLineFlags, ImPlotHeatmapFlags, ImPlotColormap, ImPlotLocation;
enum { ImAxis_X1, ImAxis_X2, ImAxis_X3, ImAxis_Y1, ImAxis_Y2, ImAxis_Y3 };
enum { ImPlotAxisFlags_None = 0, ImPlotAxisFlags_Lock = 1, ImPlotAxisFlags_AutoFit = 2, ImPlotAxisFlags_NoDecorations = 4 };
enum { ImPlotCond_None = 0, ImPlotCond_Always = 1, ImPlotCond_Once = 2 };
enum { ImPlotColormap_Viridis = 4, ImPlotColormap_Plasma = 5 };
struct ImPlotPoint { double x = 0, y = 0; constexpr ImPlotPoint() {} constexpr ImPlotPoint(double a, double b) : x(a), y(b) {} };
namespace mock {
struct Curve { std::string label; std::vector<float> x, y; int rows = 0, cols = 0; bool heat = false; };
inline std::vector<Curve> curves;
}
namespace ImPlot {
inline bool BeginPlot(const char*, const ImVec2& = ImVec2(-1, 0), int = 0) { return true; } inline void EndPlot() {}
inline void SetupAxis(ImAxis, const char* = nullptr, int = 0) {} inline void SetupAxes(const char*, const char*, int = 0, int = 0) {}
inline void SetupAxisLimits(ImAxis, double, double, int = 0) {} inline void SetupAxesLimits(double, double, double, double, int = 0) {} inline void SetNextAxesToFit() {} inline void SetNextAxisLimits(int, double, double, int = 0) {}
inline void SetupFinish() {} inline void SetNextLineStyle(const ImVec4& = ImVec4(), float = -1) {}
inline void PushColormap(int) {} inline void PushColormap(const char*) {} inline void PopColormap(int = 1) {}
inline void CreateContext() {} inline void DestroyContext() {}
template <class T> inline void PlotLine(const char* l, const T* x, const T* y, int n, int = 0, int = 0, int = sizeof(T)) {
    mock::Curve c; c.label = l; c.x.resize(n); c.y.resize(n); for (int i = 0; i < n; ++i) { c.x[i] = (float)x[i]; c.y[i] = (float)y[i]; } mock::curves.push_back(std::move(c));
}
template <class T> inline void PlotHeatmap(const char* l, const T* v, int rows, int cols, double = 0, double = 0, const char* = "", const ImPlotPoint& = ImPlotPoint(), const ImPlotPoint& = ImPlotPoint(), int = 0) {
    mock::Curve c; c.label = l; c.rows = rows; c.cols = cols; c.heat = true; c.y.resize((size_t)rows * cols); for (size_t i = 0; i < c.y.size(); ++i) c.y[i] = (float)v[i]; mock::curves.push_back(std::move(c));
}
}
