// B09: audio file source on the real FFmpeg libraries, with a scripted decoder and failing library calls in front of them:
// every schedule of drain amounts, file lengths around buffer and frame boundaries, frames per packet and decoder delay.
#include "mc.hpp"
#include "sources/source_audio_file.hpp"
extern "C" {
#include <libavutil/opt.h>
#include <libavutil/channel_layout.h>
}
#include <sanitizer/allocator_interface.h>
#include <cmath>
#include <deque>
#include <memory>
#include <vector>
#include <string>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;
static const int HANG = 200000;

// ---------------------------------------------------------------- stand-ins in front of the libraries
static struct Env {
    bool on = false; size_t slice = 0, delay = 0; std::deque<AVFrame*> q; bool draining = false, eof_sent = false;
    int reads = 0, read_fail = -1, read_fired = 0, spins = 0; int calls = 0, fail_at = -1; std::string failed; bool seek_fails = false;
    bool hit(const char* n) { if (on && calls++ == fail_at) { failed = n; return true; } return false; }
    void spin() { if (on && ++spins > HANG) fail("hang", "a call to the block's procedure does not return"); }
    void clear() { for (auto* f : q) av_frame_free(&f); q.clear(); draining = eof_sent = false; }
} E;
#define REAL(f) static auto real = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
int av_read_frame(AVFormatContext* c, AVPacket* p) { REAL(av_read_frame); E.spin(); if (E.on && E.reads++ == E.read_fail) { E.read_fired = 1; return AVERROR(EIO); } return real(c, p); }
int av_seek_frame(AVFormatContext* c, int i, int64_t t, int f) { REAL(av_seek_frame); E.spin(); if (E.on && E.seek_fails) return AVERROR(EIO); return real(c, i, t, f); }
void avcodec_flush_buffers(AVCodecContext* c) { REAL(avcodec_flush_buffers); E.clear(); real(c); }
int avcodec_receive_frame(AVCodecContext* c, AVFrame* f);
int avcodec_send_packet(AVCodecContext* c, const AVPacket* p) {
    REAL(avcodec_send_packet); static auto recv = (decltype(&avcodec_receive_frame))dlsym(RTLD_NEXT, "avcodec_receive_frame"); E.spin();
    if (!E.on || !E.slice) return real(c, p);
    if (E.draining) return AVERROR_EOF;
    if (E.q.size() > E.delay) return AVERROR(EAGAIN);                            // frames are waiting to be taken first
    if (!p || !p->data) { E.draining = true; return 0; }
    int r = real(c, p); if (r < 0) return r;
    AVFrame* w = av_frame_alloc();
    while (recv(c, w) == 0) {
        size_t per = w->ch_layout.nb_channels * (size_t)av_get_bytes_per_sample((AVSampleFormat)w->format);
        for (size_t at = 0; at < (size_t)w->nb_samples; at += E.slice) {
            AVFrame* s = av_frame_alloc(); s->nb_samples = (int)std::min(E.slice, w->nb_samples - at); s->format = w->format; s->sample_rate = w->sample_rate; av_channel_layout_copy(&s->ch_layout, &w->ch_layout); av_frame_get_buffer(s, 0);
            memcpy(s->data[0], w->data[0] + at * per, s->nb_samples * per); E.q.push_back(s);
        }
        av_frame_unref(w);
    }
    av_frame_free(&w); return 0;
}
int avcodec_receive_frame(AVCodecContext* c, AVFrame* f) {
    REAL(avcodec_receive_frame); E.spin();
    if (!E.on || !E.slice) return real(c, f);
    av_frame_unref(f);
    if (E.q.size() > (E.draining ? 0 : E.delay)) { AVFrame* s = E.q.front(); E.q.pop_front(); av_frame_move_ref(f, s); av_frame_free(&s); return 0; }
    return E.draining ? AVERROR_EOF : AVERROR(EAGAIN);
}
int avformat_find_stream_info(AVFormatContext* c, AVDictionary** o) { REAL(avformat_find_stream_info); if (E.hit("avformat_find_stream_info")) return AVERROR(EIO); bool on = E.on; E.on = false; int r = real(c, o); E.on = on; return r; }
int av_find_best_stream(AVFormatContext* c, AVMediaType t, int w, int r, const AVCodec** d, int f) { REAL(av_find_best_stream); if (E.hit("av_find_best_stream")) return AVERROR_STREAM_NOT_FOUND; return real(c, t, w, r, d, f); }
AVCodecContext* avcodec_alloc_context3(const AVCodec* c) { REAL(avcodec_alloc_context3); if (E.hit("avcodec_alloc_context3")) return nullptr; return real(c); }
int avcodec_open2(AVCodecContext* c, const AVCodec* k, AVDictionary** o) { REAL(avcodec_open2); if (E.hit("avcodec_open2")) return AVERROR(ENOMEM); return real(c, k, o); }
SwrContext* swr_alloc_set_opts(SwrContext* s, int64_t ol, AVSampleFormat of, int orr, int64_t il, AVSampleFormat f, int ir, int lo, void* lc) { REAL(swr_alloc_set_opts); if (E.hit("swr_alloc_set_opts")) return nullptr; return real(s, ol, of, orr, il, f, ir, lo, lc); }
int swr_init(SwrContext* s) { REAL(swr_init); if (E.hit("swr_init")) return AVERROR(EINVAL); return real(s); }
AVFrame* av_frame_alloc(void) { REAL(av_frame_alloc); if (E.on && !E.slice && E.hit("av_frame_alloc")) return nullptr; return real(); }
}
// ---------------------------------------------------------------- files
static std::string path(const char* ext = ".wav") { const char* d = getenv("MC_SCRATCH"); return std::string(d ? d : "/tmp") + "/a" + std::to_string(getpid()) + ext; }
static int16_t val(size_t i, int c = 0) { uint32_t x = (uint32_t)(i * 4 + c) * 2654435761u + 12345; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return (int16_t)((int)(x % 40001) - 20000); }
static void wav(const std::string& f, int rate, int ch, size_t n) {
    std::vector<int16_t> v; for (size_t i = 0; i < n; ++i) for (int c = 0; c < ch; ++c) v.push_back(val(i, c));
    FILE* o = fopen(f.c_str(), "wb"); MC_CHECK(o, "harness", "scratch file"); uint32_t d = (uint32_t)v.size() * 2; auto w4 = [&](uint32_t x) { fwrite(&x, 4, 1, o); }; auto w2 = [&](uint16_t x) { fwrite(&x, 2, 1, o); };
    fwrite("RIFF", 4, 1, o); w4(36 + d); fwrite("WAVEfmt ", 8, 1, o); w4(16); w2(1); w2((uint16_t)ch); w4(rate); w4(rate * ch * 2); w2((uint16_t)(ch * 2)); w2(16); fwrite("data", 4, 1, o); w4(d); fwrite(v.data(), 2, v.size(), o); fclose(o);
}
static void flac(const std::string& f, int rate, size_t n, int block) {                // lossless, one frame per `block` samples
    AVFormatContext* oc = nullptr; avformat_alloc_output_context2(&oc, nullptr, "flac", f.c_str()); const AVCodec* k = avcodec_find_encoder(AV_CODEC_ID_FLAC); AVCodecContext* c = avcodec_alloc_context3(k);
    c->sample_fmt = AV_SAMPLE_FMT_S16; c->sample_rate = rate; c->time_base = {1, rate}; av_channel_layout_default(&c->ch_layout, 1); c->frame_size = block; MC_CHECK(avcodec_open2(c, k, nullptr) >= 0, "harness", "flac encoder"); c->frame_size = c->frame_size ? c->frame_size : block;
    AVStream* st = avformat_new_stream(oc, nullptr); avcodec_parameters_from_context(st->codecpar, c); st->time_base = c->time_base; avio_open(&oc->pb, f.c_str(), AVIO_FLAG_WRITE); MC_CHECK(avformat_write_header(oc, nullptr) >= 0, "harness", "flac header");
    AVPacket* p = av_packet_alloc(); auto drain = [&] { static auto rp = &avcodec_receive_packet; while (rp(c, p) == 0) { p->stream_index = 0; av_interleaved_write_frame(oc, p); } };
    for (size_t at = 0; at < n; at += (size_t)c->frame_size) { AVFrame* fr = av_frame_alloc(); fr->nb_samples = (int)std::min<size_t>(c->frame_size, n - at); fr->format = AV_SAMPLE_FMT_S16; fr->sample_rate = rate; av_channel_layout_copy(&fr->ch_layout, &c->ch_layout); av_frame_get_buffer(fr, 0); fr->pts = (int64_t)at;
        for (int i = 0; i < fr->nb_samples; ++i) ((int16_t*)fr->data[0])[i] = val(at + i); MC_CHECK(avcodec_send_frame(c, fr) >= 0, "harness", "flac frame"); av_frame_free(&fr); drain(); }
    avcodec_send_frame(c, nullptr); drain(); av_write_trailer(oc); avio_closep(&oc->pb); av_packet_free(&p); avcodec_free_context(&c); avformat_free_context(oc);
}
// what a converter fed with the whole file at once makes of it
static std::vector<float> reference(int ir, int orr, int ch, size_t n) {
    std::vector<int16_t> v; for (size_t i = 0; i < n; ++i) for (int c = 0; c < ch; ++c) v.push_back(val(i, c));
    AVChannelLayout il, ol; av_channel_layout_default(&il, ch); av_channel_layout_default(&ol, 1); SwrContext* s = nullptr; swr_alloc_set_opts2(&s, &ol, AV_SAMPLE_FMT_FLT, orr, &il, AV_SAMPLE_FMT_S16, ir, 0, nullptr); MC_CHECK(s && swr_init(s) >= 0, "harness", "swr");
    std::vector<float> r(n * (size_t)orr / ir + 4096); uint8_t* o = (uint8_t*)r.data(); const uint8_t* i = (const uint8_t*)v.data(); int a = n ? swr_convert(s, &o, (int)r.size(), &i, (int)n) : 0; int b;
    do { o = (uint8_t*)(r.data() + a); b = swr_convert(s, &o, (int)r.size() - a, nullptr, 0); if (b > 0) a += b; } while (b > 0);
    swr_free(&s); r.resize(a); return r;
}
static bool held(const std::string& f) { bool y = false; if (DIR* d = opendir("/proc/self/fd")) { while (auto* e = readdir(d)) { char b[512]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t k = readlink(p.c_str(), b, 511); if (k > 0) { b[k] = 0; if (f == b) y = true; } } closedir(d); } return y; }
static int eofs; static std::string eof_name; static void on_eof(const char* n) { ++eofs; eof_name = n; }
using Blk = SourceAudioFileBlock<float>;

struct Kind { const char* nm; int rate, out, ch; bool flac; };
static void play(Kind k, size_t n, bool rep, size_t slice, size_t delay, int depth, bool faults) {
    std::string N = std::string(k.nm) + " " + std::to_string(k.rate) + "->" + std::to_string(k.out) + " Hz, " + std::to_string(k.ch) + " ch, " + std::to_string(n) + " samples" + (rep ? ", repeating" : "") + (slice ? ", decoder frames of " + std::to_string(slice) + " and delay " + std::to_string(delay) : "");
    scenario(N, [=] {
        sample("%s", N.c_str()); av_log_set_level(AV_LOG_QUIET); std::string f = path(k.flac ? ".flac" : ".wav"); E = Env(); if (k.flac) flac(f, k.rate, n, 1152); else wav(f, k.rate, k.ch, n);
        bool same = k.rate == k.out && k.ch == 1; std::vector<float> want; if (same) for (size_t i = 0; i < n; ++i) want.push_back(val(i) / 32768.f); else want = reference(k.rate, k.out, k.ch, n);
        size_t all = want.size(); Opts o; o.iterate = false;
        explore(o, [&] {
            E.clear(); E = Env(); E.slice = slice; E.delay = delay; std::string hist; uint64_t h = 1; eofs = 0; bool hard = false;
            if (faults) { int c = choose(6); if (c && c < 5) { E.read_fail = c - 1; hist += " read " + std::to_string(c - 1) + " fails;"; hard = true; } if (c == 5) { E.seek_fails = true; hist += " seeking fails;"; } }
            bool cb = choose(2); if (cb) hist += " callback;";
            auto b = std::make_unique<Blk>("s", f.c_str(), (uint32_t)k.out, rep, cb ? on_eof : nullptr); cler::Channel<float> ch(2048); std::vector<float> got; bool fatal = false; int dry = 0; size_t made = 0; E.on = true;
            auto call = [&] {
                size_t room = ch.space(), had = ch.size(); E.spins = 0; Res r = b->procedure(&ch); count_trans(); size_t did = ch.size() - had; made += did; bool ft = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= ft;
                MC_CHECK(!did || r.is_ok(), "status", "%s: samples were produced but the call reports an error;%s", N.c_str(), hist.c_str());
                MC_CHECK(rep || made <= all + 1, "invented", "%s: %zu samples come out, the file holds %zu;%s", N.c_str(), made, all, hist.c_str());
                if (ft && !E.read_fired && !E.seek_fails) MC_CHECK(!rep && made + 1 >= all, "spurious-error", "%s: fatal error after %zu of %zu samples;%s", N.c_str(), made, all, hist.c_str());
                MC_CHECK(eofs <= (rep && !E.seek_fails ? 0 : 1), "eof-callback", "%s: the end-of-file callback has run %d times;%s", N.c_str(), eofs, hist.c_str());
                if (eofs) { MC_CHECK(eof_name == f, "eof-callback", "%s: the callback got the name %s;%s", N.c_str(), eof_name.c_str(), hist.c_str()); if (!E.seek_fails) MC_CHECK(made + 1 >= all, "eof-callback", "%s: the end is announced after %zu of %zu samples;%s", N.c_str(), made, all, hist.c_str()); MC_CHECK(!E.read_fired, "error-as-eof", "%s: a failed read is announced as the end of the file;%s", N.c_str(), hist.c_str()); }
                if (did || !room) dry = 0; else ++dry;
                if (E.read_fired) MC_CHECK(fatal || dry <= 2, "unreported", "%s: the failed read is not reported as a fatal error;%s", N.c_str(), hist.c_str());
                else if (!fatal && !E.seek_fails) MC_CHECK(dry <= 2 || (rep ? n == 0 : made + 1 >= all), "no-progress", "%s: there is room, but after %zu of %zu samples no more come;%s", N.c_str(), made, all, hist.c_str());
            };
            auto drain = [&](size_t m) { float x; while (m-- && ch.try_pop(x)) { size_t i = got.size(); MC_CHECK(rep ? all > 0 : i < all + 1, "invented", "%s: sample %zu does not exist in the file;%s", N.c_str(), i, hist.c_str());
                float w = rep ? want[i % all] : i < all ? want[i] : 0; MC_CHECK(std::fabs(x - w) < (same ? 1e-6 : 1e-4) || (!rep && i >= all), "value", "%s: sample %zu is %g, expected %g;%s", N.c_str(), i, x, w, hist.c_str()); got.push_back(x); } };
            static const size_t amt[] = {0, 1, 700, 100000};
            for (int d = 0; d < depth && !fatal; ++d) { call(); size_t m = amt[choose(4)]; drain(m); hist += " call, take " + std::to_string(m) + ";"; note("%s:%s", N.c_str(), hist.c_str()); h = hmix(h, hmix(ch.size(), made)); state(h); }
            size_t step = choose(2) ? 100000 : 300; hist += " then " + std::to_string(step) + " each"; note("%s:%s", N.c_str(), hist.c_str());
            size_t target = rep ? 3 * all + 5 : ~(size_t)0; int idle = 0;
            for (int i = 0; i < 4000 && !fatal && made < target && idle < 4; ++i) { size_t m0 = made; drain(step); call(); if (made == m0 && ch.size() < 100) ++idle; else idle = 0; }
            drain(~(size_t)0);
            if (!rep && !E.read_fired) { MC_CHECK(got.size() + 1 >= all, "lost", "%s: %zu of %zu samples came out at the end of the file;%s", N.c_str(), got.size(), all, hist.c_str()); for (int i = 0; i < 3; ++i) call(); MC_CHECK(ch.size() == 0, "after-end", "%s: samples come out after the end;%s", N.c_str(), hist.c_str()); MC_CHECK(!cb || fatal || eofs == 1, "eof-callback", "%s: the end-of-file callback ran %d times;%s", N.c_str(), eofs, hist.c_str()); }
            if (rep && n && !E.read_fired && !E.seek_fails) MC_CHECK(got.size() >= target, "lost", "%s: the repeated file stops after %zu samples;%s", N.c_str(), got.size(), hist.c_str());
            (void)hard; E.on = false; b.reset(); E.clear(); MC_CHECK(!held(f), "leak", "%s: the file stays open after the block is gone;%s", N.c_str(), hist.c_str()); outcome(hmix(h, hmix(got.size(), fatal)));
        });
        unlink(f.c_str());
    });
}
static void construction() {
    scenario("construction with failing library calls, missing and unusable files", [] {
        sample("missing file, text file, directory, and every library call of the construction failing"); av_log_set_level(AV_LOG_QUIET); std::string f = path(), t = path(".txt"), d = path(".d"); E = Env(); wav(f, 8000, 1, 3000); { FILE* o = fopen(t.c_str(), "w"); fputs("this is not an audio file\n", o); fclose(o); } mkdir(d.c_str(), 0700);
        std::vector<std::string> bad = {f + ".missing", t, d, ""};
        auto one = [&](const std::string& file, bool& threw) { threw = false; try { Blk b("s", file.c_str(), 8000, false); E.on = false; cler::Channel<float> c(2048); Res r = b.procedure(&c); (void)r; MC_CHECK(c.size() > 0, "construct", "a block constructed from %s delivers nothing", file.c_str()); } catch (const std::exception&) { threw = true; } E.on = false; };
        bool threw; for (int i = 0; i < 3; ++i) { E = Env(); one(f, threw); for (auto& x : bad) one(x, threw); for (int at = 0; at < 8; ++at) { E = Env(); E.on = true; E.fail_at = at; one(f, threw); } }   // one-time allocations of the libraries
        Opts o; o.iterate = false;
        explore(o, [&] {
            int i = choose(13); E = Env(); E.on = true; if (i >= 4 && i < 12) E.fail_at = i - 4; std::string file = i < 4 ? bad[i] : f; note("construction case %d", i);
            bool rep = choose(2); if (rep) one(f, threw), E.on = true, E.calls = 0, E.failed.clear();
            size_t before = __sanitizer_get_current_allocated_bytes(); one(file, threw); size_t after = __sanitizer_get_current_allocated_bytes(); count_trans(); std::string fl = E.failed; 
            MC_CHECK(threw == (i < 4 || !fl.empty()), "construct", "%s: the construction %s%s", i < 4 ? file.c_str() : "a good file", threw ? "fails" : "succeeds", fl.empty() ? "" : (" although " + fl + " failed").c_str());
            MC_CHECK(!held(f) && !held(t), "leak", "the file stays open after the construction failed%s%s", fl.empty() ? "" : " in ", fl.c_str());
            MC_CHECK(after <= before + 64, "leak", "%zu bytes stay allocated after %s%s%s", after - before, threw ? "the construction failed" : "the block was destroyed", fl.empty() ? "" : " in ", fl.c_str()); outcome(hmix(i, std::hash<std::string>()(fl))); state(hmix(i, rep));
        });
        unlink(f.c_str()); unlink(t.c_str()); rmdir(d.c_str());
    });
}
static void setup() {
    bool T = thorough(); int D = T ? 5 : 3; Kind m{"wav", 8000, 8000, 1, false};
    for (size_t n : {0, 1, 2, 500, 1023, 1024, 1025, 2046, 2047, 2048, 3000, 4095, 6000}) for (int rep = 0; rep < 2; ++rep) play(m, n, rep, 0, 0, D, true);
    for (size_t sl : {1, 100, 511, 3000}) for (size_t de : {0, 1, 3}) { if (sl == 1 && !T) { play(m, 700, false, sl, de, 2, false); continue; } play(m, 2500, false, sl, de, D, de == 1); play(m, 2500, true, sl, de, D, false); play(m, 6000, false, sl, de, T ? 4 : 2, false); }
    for (size_t n : {1, 1151, 1152, 5000}) for (int rep = 0; rep < 2; ++rep) play({"flac", 8000, 8000, 1, true}, n, rep, 0, 0, D, false);
    for (int orr : {4000, 11025, 16000}) for (size_t n : {0, 1, 100, 2500, 6000}) play({"wav", 8000, orr, 1, false}, n, false, n == 2500 ? 300 : 0, 1, D, false);
    for (int c : {2, 3, 4, 6}) { play({"wav", 8000, 8000, c, false}, 2500, false, 0, 0, D, false); play({"wav", 8000, 16000, c, false}, 1500, false, 200, 0, 2, false); }
    construction();
}
MC_MAIN(setup)
