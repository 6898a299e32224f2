// Stand-in for Dear ImGui: enough of the API for the blocks under test; drawing calls are recorded, nothing is shown.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
typedef unsigned int ImU32; typedef int ImGuiCond, ImGuiWindowFlags, ImGuiMouseButton, ImGuiCol, ImGuiStyleVar, ImGuiTreeNodeFlags, ImDrawFlags, ImGuiSliderFlags, ImGuiChildFlags, ImGuiHoveredFlags, ImGuiInputTextFlags;
typedef unsigned int ImGuiID;
struct ImVec2 { float x = 0, y = 0; constexpr ImVec2() {} constexpr ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x = 0, y = 0, z = 0, w = 0; constexpr ImVec4() {} constexpr ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
#define IM_COL32(R,G,B,A) (((ImU32)(A)<<24)|((ImU32)(B)<<16)|((ImU32)(G)<<8)|((ImU32)(R)))
#define IMGUI_CHECKVERSION() ((void)0)
enum { ImGuiCond_None = 0, ImGuiCond_Always = 1, ImGuiCond_Once = 2, ImGuiCond_FirstUseEver = 4, ImGuiCond_Appearing = 8 };
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_NoTitleBar = 1, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoScrollbar = 8, ImGuiWindowFlags_NoCollapse = 32, ImGuiWindowFlags_AlwaysAutoResize = 64 };
enum { ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1, ImGuiMouseButton_Middle = 2 };
namespace mock {
struct Prim { int kind; ImVec2 a, b, c; ImU32 col; std::string text; };          // 0 line, 1 rect, 2 filled triangle, 3 triangle, 4 text, 5 filled rect, 6 other
struct State { std::vector<Prim> prims; bool press = false; float slider = -1; bool set_slider = false; bool show = true; float wheel = 0; ImVec2 mouse{-1, -1}, drag, avail{800, 600}; int dragging = -1, depth = 0, windows = 0; };
inline State g;
}
struct ImGuiIO { ImVec2 MousePos, MouseDelta, DisplaySize; float MouseWheel = 0, Framerate = 60, DeltaTime = 1.0f / 60; bool MouseDown[5] = {}; };
struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false; };
struct ImDrawList {
    void AddLine(ImVec2 a, ImVec2 b, ImU32 c, float = 1) { mock::g.prims.push_back({0, a, b, {}, c, ""}); }
    void AddRect(ImVec2 a, ImVec2 b, ImU32 c, float = 0, int = 0, float = 1) { mock::g.prims.push_back({1, a, b, {}, c, ""}); }
    void AddRectFilled(ImVec2 a, ImVec2 b, ImU32 c, float = 0, int = 0) { mock::g.prims.push_back({5, a, b, {}, c, ""}); }
    void AddTriangleFilled(ImVec2 a, ImVec2 b, ImVec2 d, ImU32 c) { mock::g.prims.push_back({2, a, b, d, c, ""}); }
    void AddTriangle(ImVec2 a, ImVec2 b, ImVec2 d, ImU32 c, float = 1) { mock::g.prims.push_back({3, a, b, d, c, ""}); }
    void AddCircle(ImVec2 a, float, ImU32 c, int = 0, float = 1) { mock::g.prims.push_back({6, a, a, a, c, ""}); }
    void AddCircleFilled(ImVec2 a, float, ImU32 c, int = 0) { mock::g.prims.push_back({6, a, a, a, c, ""}); }
    void AddPolyline(const ImVec2* p, int n, ImU32 c, int = 0, float = 1) { for (int i = 0; i + 1 < n; ++i) AddLine(p[i], p[i + 1], c); }
    void AddText(ImVec2 a, ImU32 c, const char* s, const char* e = nullptr) { mock::g.prims.push_back({4, a, a, a, c, e ? std::string(s, e) : std::string(s)}); }
    void PushClipRect(ImVec2, ImVec2, bool = false) {} void PopClipRect() {}
};
namespace ImGui {
inline void SetNextWindowSize(const ImVec2&, ImGuiCond = 0) {} inline void SetNextWindowPos(const ImVec2&, ImGuiCond = 0, const ImVec2& = ImVec2()) {}
inline bool Begin(const char*, bool* = nullptr, ImGuiWindowFlags = 0) { mock::g.depth++; mock::g.windows++; return mock::g.show; }
inline void End() { mock::g.depth--; }
inline bool BeginChild(const char*, const ImVec2& = ImVec2(), int = 0, int = 0) { return true; } inline void EndChild() {}
inline bool Button(const char*, const ImVec2& = ImVec2()) { bool p = mock::g.press; mock::g.press = false; return p; }
inline bool SmallButton(const char* l) { return Button(l); }
inline bool Checkbox(const char*, bool*) { return false; }
inline void SameLine(float = 0, float = -1) {} inline void Separator() {} inline void Spacing() {} inline void NewLine() {}
inline void SetNextItemWidth(float) {} inline void PushItemWidth(float) {} inline void PopItemWidth() {}
inline void BeginGroup() {} inline void EndGroup() {} inline void BeginDisabled(bool = true) {} inline void EndDisabled() {}
inline void PushID(int) {} inline void PushID(const char*) {} inline void PopID() {}
inline bool SliderFloat(const char*, float* v, float, float, const char* = "", int = 0) { if (mock::g.set_slider) { *v = mock::g.slider; return true; } return false; }
inline bool SliderInt(const char*, int*, int, int, const char* = "", int = 0) { return false; }
inline bool IsItemHovered(int = 0) { return false; }
inline bool IsWindowHovered(int = 0) { return true; }
__attribute__((format(printf, 1, 2))) inline void Text(const char*, ...) {}
__attribute__((format(printf, 1, 2))) inline void TextDisabled(const char*, ...) {}
__attribute__((format(printf, 2, 3))) inline void TextColored(const ImVec4&, const char*, ...) {}
inline void TextUnformatted(const char*, const char* = nullptr) {}
__attribute__((format(printf, 1, 2))) inline void SetTooltip(const char*, ...) {}
inline ImVec2 GetCursorScreenPos() { return ImVec2(10, 20); } inline void SetCursorScreenPos(const ImVec2&) {}
inline ImVec2 GetContentRegionAvail() { return mock::g.avail; } inline ImVec2 GetWindowSize() { return mock::g.avail; } inline ImVec2 GetWindowPos() { return ImVec2(0, 0); }
inline void Dummy(const ImVec2&) {} inline bool InvisibleButton(const char*, const ImVec2&, int = 0) { return false; }
inline ImDrawList* GetWindowDrawList() { static ImDrawList d; return &d; }
inline ImU32 GetColorU32(const ImVec4& c) { return IM_COL32((int)(c.x * 255), (int)(c.y * 255), (int)(c.z * 255), (int)(c.w * 255)); }
inline ImU32 ColorConvertFloat4ToU32(const ImVec4& c) { return GetColorU32(c); }
inline ImGuiIO& GetIO() { static ImGuiIO io; io.MousePos = mock::g.mouse; io.MouseWheel = mock::g.wheel; return io; }
inline bool IsMouseDragging(ImGuiMouseButton b, float = -1) { return mock::g.dragging == b; }
inline bool IsMouseDown(ImGuiMouseButton b) { return mock::g.dragging == b; } inline bool IsMouseClicked(ImGuiMouseButton, bool = false) { return false; }
inline ImVec2 GetMouseDragDelta(ImGuiMouseButton b = 0, float = -1) { return mock::g.dragging == b ? mock::g.drag : ImVec2(); } inline void ResetMouseDragDelta(ImGuiMouseButton b = 0) { if (mock::g.dragging == b) mock::g.drag = ImVec2(); }
inline ImVec2 GetMousePos() { return mock::g.mouse; }
inline void PushStyleColor(int, ImU32) {} inline void PushStyleColor(int, const ImVec4&) {} inline void PopStyleColor(int = 1) {} inline void PushStyleVar(int, float) {} inline void PopStyleVar(int = 1) {}
}
