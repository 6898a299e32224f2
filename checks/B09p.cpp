// B09 (audio output): the audio sink on a scripted PortAudio: every sequence of write outcomes combined with every feed
// schedule, every failing call of construction and destruction, device selections and settings.
#include "mc.hpp"
#include "sinks/sink_audio.hpp"
#include <memory>
#include <string>
#include <vector>
#include <cmath>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;
struct Pa {
    int inits = 0, open = 0, started = 0, calls = 0, fail_at = -1, ndev = 2, def = 1, writes = 0; std::string log, err, failed; PaStreamParameters par{}; double rate = 0; std::vector<int> script; std::vector<float> out; int hard = 0;
    void bad(const char* m) { if (err.empty()) err = m; }
    bool call(const char* n, bool needs = true) { log += std::string(" ") + n; if (needs && inits <= 0) bad((std::string(n) + " while PortAudio is not initialised").c_str()); if (calls++ == fail_at) { failed = n; return true; } return false; }
};
static Pa* P; static PaDeviceInfo info[2];
extern "C" {
PaError Pa_Initialize(void) { if (P->call("init", false)) return paNotInitialized; P->inits++; return paNoError; }
PaError Pa_Terminate(void) { P->log += " terminate"; if (P->inits <= 0) P->bad("Pa_Terminate without Pa_Initialize"); else P->inits--; if (P->inits == 0 && P->open) P->bad("Pa_Terminate while a stream is open"); return paNoError; }
const char* Pa_GetErrorText(PaError) { return "error"; }
PaDeviceIndex Pa_GetDeviceCount(void) { if (P->call("count")) return paNotInitialized; return P->ndev; }
PaDeviceIndex Pa_GetDefaultOutputDevice(void) { if (P->call("default")) return paNoDevice; return P->def; }
const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex d) { P->log += " info"; if (d < 0 || d >= P->ndev) { P->bad("information about a device that does not exist"); static PaDeviceInfo z{}; return &z; } info[d].name = "x"; info[d].maxOutputChannels = 2; info[d].defaultHighOutputLatency = 0.1; return &info[d]; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* o, double r, unsigned long, PaStreamFlags, PaStreamCallback* cb, void*) { if (P->call("open")) return paUnanticipatedHostError; if (in || cb || !o) P->bad("not a blocking output stream"); else P->par = *o; P->rate = r; P->open++; *s = (PaStream*)P; return paNoError; }
static void mine(PaStream* s, const char* n) { if (s != (PaStream*)P || P->open != 1) P->bad((std::string(n) + " on a stream that is not open").c_str()); }
PaError Pa_StartStream(PaStream* s) { mine(s, "start"); if (P->call("start")) return paUnanticipatedHostError; P->started++; return paNoError; }
PaError Pa_StopStream(PaStream* s) { mine(s, "stop"); bool f = P->call("stop"); if (!P->started) P->bad("stopping a stream that is not started"); P->started = 0; return f ? paUnanticipatedHostError : paNoError; }
PaError Pa_AbortStream(PaStream* s) { return Pa_StopStream(s); }
PaError Pa_CloseStream(PaStream* s) { mine(s, "close"); bool f = P->call("close"); P->open = 0; P->started = 0; return f ? paUnanticipatedHostError : paNoError; }
PaError Pa_IsStreamActive(PaStream*) { return P->started; }
PaError Pa_IsStreamStopped(PaStream*) { return !P->started; }
signed long Pa_GetStreamWriteAvailable(PaStream*) { return 1 << 20; }
void Pa_Sleep(long) {}
PaError Pa_WriteStream(PaStream* s, const void* b, unsigned long n) {
    mine(s, "write"); if (!P->started) P->bad("writing to a stream that is not started"); int e = P->writes < (int)P->script.size() ? P->script[P->writes] : paNoError; P->writes++;
    if (e == paNoError || e == paOutputUnderflowed) { const float* f = (const float*)b; P->out.insert(P->out.end(), f, f + n); } else P->hard++;    // an underflow is reported with the data accepted
    return e;
}
}
static void clean(const char* w) { MC_CHECK(P->err.empty(), "protocol", "%s: %s;%s", w, P->err.c_str(), P->log.c_str()); MC_CHECK(!P->open, "leak", "%s: the stream stays open;%s", w, P->log.c_str()); MC_CHECK(!P->inits, "leak", "%s: PortAudio stays initialised;%s", w, P->log.c_str()); }
static float v(size_t i) { return (float)((i + 1) % 9973) / 9973.f; }
static void stream(size_t cap, size_t start, int len) {
    std::string N = "audio sink, buffer " + std::to_string(cap) + ", input moved by " + std::to_string(start) + ", " + std::to_string(len) + " calls";
    scenario(N, [=] {
        sample("%s", N.c_str()); Opts o; o.iterate = false;
        explore(o, [&] {
            Pa p; P = &p; static const int outc[] = {paNoError, paOutputUnderflowed, paUnanticipatedHostError, paStreamIsStopped, paTimedOut}; std::string hist; uint64_t h = 1; size_t fed = 0; bool fatal = false;
            auto b = std::make_unique<SinkAudioBlock>("s", 48000.0, choose(2) ? 0 : paNoDevice, cap); MC_CHECK(p.open == 1 && p.started == 1 && p.par.channelCount == 1 && p.par.sampleFormat == paFloat32 && p.rate == 48000.0, "settings", "%s: the stream has other settings than asked for", N.c_str());
            for (size_t i = 0; i < start; ++i) { b->in.push(0); float x; b->in.pop(x); }
            size_t room = b->in.space(), amt[] = {0, 1, 700, room};
            auto call = [&] {
                size_t had = b->in.size(), w0 = p.writes, a0 = p.out.size(); int e0 = p.hard; Res r = b->procedure(); count_trans(); bool f = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= f;
                MC_CHECK(f == (p.hard > e0), f ? "spurious-error" : "unreported", "%s: %s;%s", N.c_str(), f ? "fatal error although the stream takes the samples" : "a failed write is not reported as a fatal error", hist.c_str());
                MC_CHECK(had - b->in.size() == p.out.size() - a0, "lost", "%s: %zu samples leave the channel, %zu are played;%s", N.c_str(), had - b->in.size(), p.out.size() - a0, hist.c_str());
                MC_CHECK(!had || p.writes > (int)w0, "no-progress", "%s: samples wait but none is written;%s", N.c_str(), hist.c_str()); h = hmix(h, hmix(b->in.size(), p.out.size())); state(h);
            };
            for (int k = 0; k < len && !fatal; ++k) {
                size_t n = std::min(amt[choose(4)], b->in.space()); for (size_t i = 0; i < n; ++i) b->in.push(v(fed++)); int e = b->in.size() ? outc[choose(5)] : paNoError; p.script.assign(p.writes, 0); p.script.push_back(e); hist += " in " + std::to_string(n) + " -> " + std::to_string(e) + ";"; note("%s:%s", N.c_str(), hist.c_str()); call(); }
            p.script.clear(); for (int i = 0; i < 4 && !fatal && b->in.size(); ++i) call();
            MC_CHECK(fatal || b->in.size() == 0, "no-progress", "%s: %zu samples are never played;%s", N.c_str(), b->in.size(), hist.c_str());
            for (size_t i = 0; i < p.out.size(); ++i) MC_CHECK(p.out[i] == v(i), "value", "%s: sample %zu played is not sample %zu of the input;%s", N.c_str(), i, i, hist.c_str());
            b.reset(); clean(N.c_str()); outcome(hmix(h, fatal));
        });
    });
}
static void construction() {
    scenario("construction, destruction and device list with failing calls", [] {
        sample("every PortAudio call failing, no devices, wrong device numbers, unusable settings"); Opts o; o.iterate = false;
        explore(o, [&] {
            Pa p; P = &p; static const int devs[] = {paNoDevice, 0, 1, 2, 7, -2}; int di = choose(6), rt = choose(4), bs = choose(4), env = choose(3); p.fail_at = choose(9) - 1; if (env == 1) { p.ndev = 0; p.def = paNoDevice; } 
            double rate = rt == 0 ? 44100 : rt == 1 ? 0 : rt == 2 ? -1 : 1000001; size_t buf = bs == 0 ? 0 : bs == 1 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(float) : bs == 2 ? 100000 : 16; char nm[160]; snprintf(nm, 160, "device %d of %d, rate %g, buffer %zu, failing call %d", devs[di], p.ndev, rate, buf, p.fail_at); note("%s", nm);
            bool ok = false; try { SinkAudioBlock b("s", rate, devs[di], buf); ok = true; MC_CHECK(p.open == 1 && p.started == 1 && p.inits == 1, "construct", "%s: constructed without a running stream;%s", nm, p.log.c_str()); int want = devs[di] == paNoDevice ? p.def : devs[di]; MC_CHECK(p.par.device == want && p.rate == rate, "settings", "%s: opened on device %d", nm, (int)p.par.device);
                MC_CHECK(p.failed.empty(), "unreported", "%s: constructed although %s failed", nm, p.failed.c_str()); if (env == 2) { SinkAudioBlock::print_devices(); MC_CHECK(p.inits == 1, "leak", "%s: the device list changes the initialisation count to %d", nm, p.inits); } } catch (const std::exception&) { MC_CHECK(!ok || (env == 2 && !p.failed.empty()), "construct", "%s: an exception leaves the destructor", nm); }
            bool good = rt == 0 && bs != 3 && devs[di] >= -1 && devs[di] < p.ndev && (p.ndev || devs[di] != paNoDevice); bool early = !p.failed.empty() && p.failed != "stop" && p.failed != "close";
            MC_CHECK(ok || early || !good, "construct", "%s: refused without a reason;%s", nm, p.log.c_str()); MC_CHECK(!ok || good, "settings", "%s: accepted", nm); clean(nm); count_trans(); outcome(hmix(ok, std::hash<std::string>()(p.log))); state(std::hash<std::string>()(nm));
            try { SinkAudioBlock::print_devices(); } catch (const std::exception&) {} clean("device list");
        });
    });
}
static void setup() {
    bool T = thorough(); size_t m = cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(float);
    for (size_t start : {(size_t)0, (size_t)1, m - 700, m - 1}) stream(m, start, T ? 5 : 4); stream(0, 5, T ? 5 : 4); stream(5000, 4500, T ? 5 : 4);
    construction();
}
MC_MAIN(setup)
