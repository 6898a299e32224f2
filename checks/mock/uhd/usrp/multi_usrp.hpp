// Stand-in for the part of UHD's interface the USRP blocks may use, written from the UHD manual; the device is in B10.cpp.
#pragma once
#include <complex>
#include <cstdint>
#include <atomic>
#include <cassert>
#include <chrono>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <iostream>
namespace uhd {
template <typename T> class ref_vector {
public:
    template <typename Ptr> ref_vector(Ptr* p) : _mem((T*)(void*)&_one), _size(1), _one((T)(void*)p) {}
    template <typename Vec, typename = decltype(std::declval<const Vec&>().front())> ref_vector(const Vec& v) : _mem((T*)(void*)(&v.front())), _size(v.size()) {}
    ref_vector(const ref_vector& o) : _mem(o._mem == &o._one ? &_one : o._mem), _size(o._size), _one(o._one) {}
    const T& operator[](size_t i) const { return _mem[i]; }
    size_t size() const { return _size; }
private:
    T* _mem; size_t _size; T _one{};
};
struct time_spec_t { double s = 0; time_spec_t(double v = 0) : s(v) {} int64_t get_full_secs() const { return (int64_t)s; } double get_frac_secs() const { return s - (double)(int64_t)s; } double get_real_secs() const { return s; } bool operator==(const time_spec_t& o) const { return s == o.s; } time_spec_t& operator+=(const time_spec_t& o) { s += o.s; return *this; } time_spec_t& operator-=(const time_spec_t& o) { s -= o.s; return *this; } };
inline time_spec_t operator+(const time_spec_t& a, const time_spec_t& b) { return time_spec_t(a.s + b.s); } inline time_spec_t operator-(const time_spec_t& a, const time_spec_t& b) { return time_spec_t(a.s - b.s); } inline bool operator<(const time_spec_t& a, const time_spec_t& b) { return a.s < b.s; }
struct device_addr_t { std::string s; device_addr_t(const std::string& a = "") : s(a) {} device_addr_t(const char* a) : s(a) {} };
struct tune_request_t { double target_freq = 0; tune_request_t(double f = 0) : target_freq(f) {} };
struct tune_result_t {};
struct meta_range_t { double a, b; double start() const { return a; } double stop() const { return b; } double step() const { return 0; } double clip(double v, bool = false) const { return v < a ? a : v > b ? b : v; } };
using freq_range_t = meta_range_t; using gain_range_t = meta_range_t;
struct stream_args_t { stream_args_t(const std::string& c = "", const std::string& o = "") : cpu_format(c), otw_format(o) {} std::string cpu_format, otw_format; device_addr_t args; std::vector<size_t> channels; };
struct stream_cmd_t { enum stream_mode_t { STREAM_MODE_START_CONTINUOUS = 'a', STREAM_MODE_STOP_CONTINUOUS = 'o', STREAM_MODE_NUM_SAMPS_AND_DONE = 'd', STREAM_MODE_NUM_SAMPS_AND_MORE = 'm' } stream_mode; uint64_t num_samps = 0; bool stream_now = true; time_spec_t time_spec; stream_cmd_t(stream_mode_t m) : stream_mode(m) {} };
struct rx_metadata_t {
    enum error_code_t { ERROR_CODE_NONE = 0, ERROR_CODE_TIMEOUT = 1, ERROR_CODE_LATE_COMMAND = 2, ERROR_CODE_BROKEN_CHAIN = 4, ERROR_CODE_OVERFLOW = 8, ERROR_CODE_ALIGNMENT = 12, ERROR_CODE_BAD_PACKET = 15 } error_code = ERROR_CODE_NONE;
    bool has_time_spec = false, more_fragments = false, start_of_burst = false, end_of_burst = false, out_of_sequence = false; size_t fragment_offset = 0; time_spec_t time_spec;
    void reset() { *this = rx_metadata_t(); } std::string strerror() const { return "rx error " + std::to_string((int)error_code); }
};
struct tx_metadata_t { bool has_time_spec = false, start_of_burst = false, end_of_burst = false; time_spec_t time_spec; };
struct async_metadata_t { size_t channel = 0; bool has_time_spec = false; time_spec_t time_spec; enum event_code_t { EVENT_CODE_BURST_ACK = 1, EVENT_CODE_UNDERFLOW = 2, EVENT_CODE_SEQ_ERROR = 4, EVENT_CODE_TIME_ERROR = 8, EVENT_CODE_UNDERFLOW_IN_PACKET = 16, EVENT_CODE_SEQ_ERROR_IN_BURST = 32, EVENT_CODE_USER_PAYLOAD = 64 } event_code = EVENT_CODE_BURST_ACK; };
class rx_streamer { public: using sptr = std::shared_ptr<rx_streamer>; using buffs_type = ref_vector<void*>; virtual ~rx_streamer() {} virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0; virtual size_t recv(const buffs_type&, const size_t, rx_metadata_t&, const double = 0.1, const bool = false) = 0; virtual void issue_stream_cmd(const stream_cmd_t&) = 0; };
class tx_streamer { public: using sptr = std::shared_ptr<tx_streamer>; using buffs_type = ref_vector<const void*>; virtual ~tx_streamer() {} virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0; virtual size_t send(const buffs_type&, const size_t, const tx_metadata_t&, const double = 0.1) = 0; virtual bool recv_async_msg(async_metadata_t&, double = 0.1) = 0; };
bool set_thread_priority_safe(float = 0.5f, bool = true);
namespace usrp {
class multi_usrp { public:
    using sptr = std::shared_ptr<multi_usrp>; static const size_t ALL_MBOARDS = ~(size_t)0, ALL_CHANS = ~(size_t)0; virtual ~multi_usrp() {} static sptr make(const device_addr_t&);
    virtual std::string get_mboard_name(size_t = 0) = 0; virtual std::string get_pp_string() = 0; virtual size_t get_rx_num_channels() = 0; virtual size_t get_tx_num_channels() = 0;
    virtual void set_rx_rate(double, size_t = ALL_CHANS) = 0; virtual double get_rx_rate(size_t = 0) = 0; virtual void set_tx_rate(double, size_t = ALL_CHANS) = 0; virtual double get_tx_rate(size_t = 0) = 0;
    virtual tune_result_t set_rx_freq(const tune_request_t&, size_t = 0) = 0; virtual double get_rx_freq(size_t = 0) = 0; virtual tune_result_t set_tx_freq(const tune_request_t&, size_t = 0) = 0; virtual double get_tx_freq(size_t = 0) = 0;
    virtual void set_rx_gain(double, size_t = 0) = 0; virtual double get_rx_gain(size_t = 0) = 0; virtual void set_tx_gain(double, size_t = 0) = 0; virtual double get_tx_gain(size_t = 0) = 0;
    virtual void set_rx_bandwidth(double, size_t = 0) = 0; virtual void set_tx_bandwidth(double, size_t = 0) = 0;
    virtual freq_range_t get_rx_freq_range(size_t = 0) = 0; virtual freq_range_t get_tx_freq_range(size_t = 0) = 0; virtual gain_range_t get_rx_gain_range(size_t = 0) = 0; virtual gain_range_t get_tx_gain_range(size_t = 0) = 0;
    virtual rx_streamer::sptr get_rx_stream(const stream_args_t&) = 0; virtual tx_streamer::sptr get_tx_stream(const stream_args_t&) = 0;
    virtual time_spec_t get_time_last_pps(size_t = 0) = 0; virtual time_spec_t get_time_now(size_t = 0) = 0; virtual void set_time_now(const time_spec_t&, size_t = ALL_MBOARDS) = 0; virtual void set_time_next_pps(const time_spec_t&, size_t = ALL_MBOARDS) = 0; virtual void set_time_unknown_pps(const time_spec_t&) = 0;
};
}
}
