// B07: datagram source and sink against a scripted socket: every sequence of socket outcomes up to the depth, combined with
// every drain / release schedule; the socket calls are replaced by stand-ins, nothing reaches the network.
#include "mc.hpp"
#include <chrono>
#include <thread>
#include "udp/source_udp.hpp"
#include "udp/sink_udp.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <vector>
#include <string>
#include <set>
#include <map>
using namespace mc;
using Res = cler::Result<cler::Empty, cler::Error>;

// ---------------------------------------------------------------- the stand-in socket layer
struct Dgram { std::vector<uint8_t> b; };
enum Ev { DATA_S, DATA_1, DATA_MAX, REJECT, EMPTY, OVER, AGAIN, INTR, HARD, HARD2, NEV };
static const char* evn[] = {"short", "1byte", "full", "rejected", "empty", "oversized", "timeout", "interrupted", "EIO", "ENOMEM"};
static struct Net {
    bool on = false; std::set<int> fds; int opened = 0, fail_at = -1, calls = 0; std::string why;
    std::vector<int> script; size_t at = 0; int serial = 0; size_t max = 0; bool hard = false, timed = false; int seen_hard = 0;
    std::vector<Dgram> accepted, received;           // in arrival order
    std::vector<int> sscript; size_t sat = 0; std::vector<Dgram> sent; int send_hard = 0, send_calls = 0; sockaddr_storage to{}, bound{}; socklen_t tolen = 0, boundlen = 0;
    std::vector<std::string> unlinked;
} N_;
static uint8_t byte(int serial, size_t i) { return (uint8_t)(serial * 29 + i * 7 + 1); }
static ssize_t take(struct iovec* v, size_t nv, int* msgflags, int flags) {
    int e = N_.at < N_.script.size() ? N_.script[N_.at] : AGAIN;
    if (N_.hard) e = HARD;
    if (!(flags & MSG_PEEK) && N_.at < N_.script.size()) N_.at++;
    if (e == AGAIN) { MC_CHECK(N_.timed || (flags & MSG_DONTWAIT), "blocks", "waiting for a datagram without any time limit: a silent peer keeps the flowgraph from stopping"); errno = EAGAIN; return -1; }
    if (e == INTR) { errno = EINTR; return -1; }
    if (e == HARD || e == HARD2) { N_.hard = true; N_.seen_hard++; errno = e == HARD ? EIO : ENOMEM; return -1; }
    size_t len = e == DATA_S ? N_.max / 2 : e == DATA_1 ? 1 : e == DATA_MAX ? N_.max : e == REJECT ? std::min<size_t>(3, N_.max) : e == EMPTY ? 0 : N_.max + 5;
    Dgram d; int s = ++N_.serial; for (size_t i = 0; i < len; ++i) d.b.push_back(byte(s, i));
    if (len) d.b[0] = e == REJECT ? 0xEE : (uint8_t)(s & 0x7f);
    if (e == DATA_S || e == DATA_1 || e == DATA_MAX) N_.accepted.push_back(d);
    size_t room = 0, k = 0; for (size_t j = 0; j < nv; ++j) { for (size_t i = 0; i < v[j].iov_len && k < len; ++i) ((uint8_t*)v[j].iov_base)[i] = d.b[k++]; room += v[j].iov_len; }
    if (msgflags) *msgflags = len > room ? MSG_TRUNC : 0;
    return (flags & MSG_TRUNC) ? (ssize_t)len : (ssize_t)k;
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static bool boom(const char* w) { if (N_.calls++ == N_.fail_at) { errno = EACCES; N_.why = w; return true; } return false; }
static ssize_t put(const void* b, size_t n, const sockaddr* a, socklen_t l) {
    int e = N_.sat < N_.sscript.size() ? N_.sscript[N_.sat] : 0; N_.sat++; N_.send_calls++;
    if (e == 1) { errno = EINTR; return -1; }
    if (e == 2 || e == 3) { N_.send_hard++; errno = e == 2 ? ECONNREFUSED : EMSGSIZE; return -1; }
    N_.sent.push_back({std::vector<uint8_t>((const uint8_t*)b, (const uint8_t*)b + n)}); if (a) { memset(&N_.to, 0, sizeof N_.to); memcpy(&N_.to, a, l); N_.tolen = l; }
    return (ssize_t)n;
}
extern "C" {
int socket(int d, int t, int p) { if (!N_.on) return real<int (*)(int, int, int)>("socket")(d, t, p); if (boom("socket")) return -1; int fd = open("/dev/null", O_RDWR); N_.fds.insert(fd); N_.opened++; return fd; }
int bind(int fd, const sockaddr* a, socklen_t l) { if (!N_.on) return real<int (*)(int, const sockaddr*, socklen_t)>("bind")(fd, a, l); if (boom("bind")) return -1; memset(&N_.bound, 0, sizeof N_.bound); memcpy(&N_.bound, a, l); N_.boundlen = l; return 0; }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { if (!N_.on) return real<int (*)(int, int, int, const void*, socklen_t)>("setsockopt")(fd, l, o, v, n); if (boom("setsockopt")) return -1; if (o == SO_RCVTIMEO && ((const timeval*)v)->tv_sec * 1000000 + ((const timeval*)v)->tv_usec > 0) N_.timed = true; return 0; }
static void nonblock(int fd, bool on) { if (N_.on && N_.fds.count(fd) && on) N_.timed = true; }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* p = va_arg(a, void*); va_end(a); if (c == F_SETFL) nonblock(fd, (long)p & O_NONBLOCK); return real<int (*)(int, int, ...)>("fcntl")(fd, c, p); }
int ioctl(int fd, unsigned long c, ...) { va_list a; va_start(a, c); void* p = va_arg(a, void*); va_end(a); if (c == FIONBIO && N_.on && N_.fds.count(fd)) { nonblock(fd, *(int*)p); return 0; } return real<int (*)(int, unsigned long, ...)>("ioctl")(fd, c, p); }
int close(int fd) { if (N_.on && N_.fds.count(fd)) N_.fds.erase(fd); return real<int (*)(int)>("close")(fd); }
int unlink(const char* p) { if (!N_.on) return real<int (*)(const char*)>("unlink")(p); N_.unlinked.push_back(p); return 0; }   // recorded, never carried out
ssize_t recvmsg(int fd, msghdr* m, int f) { if (!N_.on) return real<ssize_t (*)(int, msghdr*, int)>("recvmsg")(fd, m, f); MC_CHECK(N_.fds.count(fd), "dead-socket", "receiving on a closed socket"); m->msg_namelen = 0; return take(m->msg_iov, m->msg_iovlen, &m->msg_flags, f); }
ssize_t recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) { if (!N_.on) return real<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>("recvfrom")(fd, b, n, f, a, l); iovec v{b, n}; if (l) *l = 0; return take(&v, 1, nullptr, f); }
ssize_t recv(int fd, void* b, size_t n, int f) { if (!N_.on) return real<ssize_t (*)(int, void*, size_t, int)>("recv")(fd, b, n, f); iovec v{b, n}; return take(&v, 1, nullptr, f); }
ssize_t sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) { if (!N_.on) return real<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto")(fd, b, n, f, a, l); MC_CHECK(N_.fds.count(fd), "dead-socket", "sending on a closed socket"); return put(b, n, a, l); }
ssize_t sendmsg(int fd, const msghdr* m, int f) { if (!N_.on) return real<ssize_t (*)(int, const msghdr*, int)>("sendmsg")(fd, m, f); std::vector<uint8_t> d; for (size_t j = 0; j < m->msg_iovlen; ++j) d.insert(d.end(), (uint8_t*)m->msg_iov[j].iov_base, (uint8_t*)m->msg_iov[j].iov_base + m->msg_iov[j].iov_len); return put(d.data(), d.size(), (const sockaddr*)m->msg_name, m->msg_namelen); }
}
struct On { On() { N_ = Net(); N_.on = true; } ~On() { N_.on = false; } };
static const UDPBlock::SocketType TY[] = {UDPBlock::SocketType::INET_UDP, UDPBlock::SocketType::INET6_UDP, UDPBlock::SocketType::UNIX_DGRAM};
static const char* ADDR[] = {"127.0.0.1:9001", "::1:9001", "/nonexistent/verif-b07.sock"};

// ---------------------------------------------------------------- source
template <size_t S> struct Fix { uint8_t b[S]; };
static std::vector<Dgram>* CB; static std::vector<uint8_t> bytes_of(const Blob& b) { return std::vector<uint8_t>(b.data, b.data + b.len); }
template <size_t S> static std::vector<uint8_t> bytes_of(const Fix<S>& f) { return std::vector<uint8_t>(f.b, f.b + S); }
template <class T> static bool valid(const T& t, void* c) { auto b = bytes_of(t); return b.empty() || b[0] != 0xEE; }
template <class T> static void got_cb(const T& t, void* c) { ((std::vector<Dgram>*)c)->push_back({bytes_of(t)}); }
static bool matches(const Blob& b, const Dgram& d) { return bytes_of(b) == d.b; }
template <size_t S> static bool matches(const Fix<S>& f, const Dgram& d) { return d.b.size() <= S && memcmp(f.b, d.b.data(), d.b.size()) == 0; }
template <class T> static const char* tname() { return std::is_same_v<T, Blob> ? "blobs" : "fixed"; }

template <class T> static void source(size_t maxlen, size_t slots, size_t cap, int len, std::vector<int> alphabet, int drains) {
    std::string nm = std::string("source of ") + tname<T>() + " max " + std::to_string(maxlen) + " slots " + std::to_string(slots) + " out " + std::to_string(cap) + " script of " + std::to_string(len);
    for (int first : alphabet) scenario(nm + ", first " + evn[first], [=] {
        sample("%s, first event %s", nm.c_str(), evn[first]);
        Opts o; o.iterate = false;
        explore(o, [&] {
            On on; N_.max = maxlen; std::string hist; for (int i = 0; i < len; ++i) { int e = i ? alphabet[choose((int)alphabet.size())] : first; N_.script.push_back(e); hist += std::string(" ") + evn[e]; }
            hist += ";"; std::vector<Dgram> cbs; uint64_t h = 1; constexpr bool BL = std::is_same_v<T, Blob>;
            { auto b = std::make_unique<SourceUDPSocketBlock<T>>("u", TY[0], ADDR[0], valid<T>, got_cb<T>, &cbs, maxlen, slots);
            cler::Channel<T> out(cap); std::vector<T> held; size_t got = 0; bool fatal = false;
            auto drain = [&](size_t k) { while (k-- && out.size()) { T t; out.pop(t); MC_CHECK(got < N_.accepted.size() && matches(t, N_.accepted[got]), "value", "%s: item %zu forwarded is not accepted datagram %zu (%zu accepted so far);%s", nm.c_str(), got, got, N_.accepted.size(), hist.c_str()); ++got; held.push_back(t); h = hmix(h, got); } };
            auto giveback = [&](size_t i) { if constexpr (BL) { held[i].release(); held.erase(held.begin() + i); } };
            auto call = [&] {
                size_t room = out.space(), a0 = N_.at; int h0 = N_.seen_hard; Res r = b->procedure(&out); count_trans(); h = hmix(h, hmix(out.size(), N_.at)); state(h);
                bool isf = !r.is_ok() && cler::is_fatal(r.unwrap_err()); if (isf) fatal = true;
                MC_CHECK(!isf || N_.seen_hard > h0, "spurious-error", "%s: fatal error without a hard socket error;%s", nm.c_str(), hist.c_str());
                MC_CHECK(N_.seen_hard == h0 || isf, "unreported", "%s: a hard socket error is not reported as fatal;%s", nm.c_str(), hist.c_str());
                MC_CHECK(room || N_.at == a0, "overrun", "%s: datagrams are received although the output is full;%s", nm.c_str(), hist.c_str());
                MC_CHECK(!room || (BL && held.size() + out.size() >= slots) || N_.at > a0 || a0 == N_.script.size() || isf, "no-progress", "%s: datagrams wait and there is room, but none is received;%s", nm.c_str(), hist.c_str());
            };
            for (int d = 0; d < drains && !fatal; ++d) {
                int w = choose(3); if (w == 1) { drain(1); hist += " drain1"; } else if (w == 2) { drain(9); hist += " drain"; }
                if (BL && !held.empty()) { int g = choose(held.size() > 1 ? 3 : 2); if (g == 1) { giveback(0); hist += " release"; } else if (g == 2) { giveback(held.size() - 1); hist += " releaselast"; } }
                hist += " |"; note("%s:%s", nm.c_str(), hist.c_str()); call();
            }
            hist += " finish"; note("%s:%s", nm.c_str(), hist.c_str());
            for (int i = 0; i < 60 && !fatal && N_.at < N_.script.size(); ++i) { drain(9); while (BL && !held.empty()) giveback(0); call(); }
            if (!fatal) call();
            drain(99);
            MC_CHECK(got == N_.accepted.size(), "lost", "%s: %zu of %zu accepted datagrams were forwarded;%s", nm.c_str(), got, N_.accepted.size(), hist.c_str());
            if (!fatal) MC_CHECK(cbs.size() == N_.accepted.size(), "callback", "%s: %zu receive callbacks for %zu accepted datagrams;%s", nm.c_str(), cbs.size(), N_.accepted.size(), hist.c_str());
            while (BL && !held.empty()) giveback(0);
            if (BL && !fatal) {                     // no slot may have leaked: the pool must still hold `slots` datagrams at once
                for (size_t i = 0; i < slots; ++i) N_.script.push_back(DATA_MAX);
                for (size_t i = 0; i < 3 * slots + 3 && held.size() < slots; ++i) { call(); drain(99); }
                MC_CHECK(held.size() == slots, "leak", "%s: only %zu of %zu pool slots are left after everything was released;%s", nm.c_str(), held.size(), slots, hist.c_str());
            } }
            MC_CHECK(N_.fds.empty(), "fd-leak", "%s: the socket stays open;%s", nm.c_str(), hist.c_str());
            outcome(hmix(h, N_.accepted.size()));
        });
        N_.on = false;
    });
}
// ---------------------------------------------------------------- sink
template <class T> static void sink(size_t cap, int items, int calls, std::vector<int> alphabet, int ty) {
    std::string nm = std::string("sink of ") + tname<T>() + " in " + std::to_string(cap) + ", " + std::to_string(items) + " items, address " + ADDR[ty];
    scenario(nm, [=] {
        sample("%s", nm.c_str());
        Opts o; o.iterate = false;
        explore(o, [&] {
            On on; constexpr bool BL = std::is_same_v<T, Blob>; std::string hist; uint64_t h = 3;
            for (int i = 0; i < items + 1; ++i) { int e = alphabet[choose((int)alphabet.size())]; N_.sscript.push_back(e); hist += e == 0 ? " ok" : e == 1 ? " EINTR" : " error"; }
            hist += ";"; std::vector<Dgram> want, cbs; Slab slab(items, 9); bool fatal = false; size_t fed = 0;
            { auto b = std::make_unique<SinkUDPSocketBlock<T>>("u", TY[ty], ADDR[ty], got_cb<T>, &cbs, cap);
            for (int i = 0; i < items; ++i) { Dgram d; size_t n = BL ? (size_t)(i * 4 % 10) : sizeof(T); for (size_t k = 0; k < n; ++k) d.b.push_back(byte(i + 50, k)); want.push_back(d); }
            auto feed = [&](size_t k) { while (k-- && fed < want.size() && b->in.space()) { if constexpr (BL) { Blob x = slab.take_slot().unwrap(); memcpy(x.data, want[fed].b.data(), want[fed].b.size()); x.len = want[fed].b.size(); b->in.push(x); } else { T t; memcpy(&t, want[fed].b.data(), sizeof t); b->in.push(t); } ++fed; } };
            auto call = [&] {
                size_t had = b->in.size(), s0 = N_.sent.size(); int h0 = N_.send_hard; Res r = b->procedure(); count_trans(); h = hmix(h, hmix(N_.sent.size(), b->in.size())); state(h);
                bool isf = !r.is_ok() && cler::is_fatal(r.unwrap_err()); fatal |= isf;
                MC_CHECK(isf == (N_.send_hard > h0), isf ? "spurious-error" : "unreported", "%s: %s;%s", nm.c_str(), isf ? "fatal error without a hard socket error" : "a hard socket error is not reported as fatal", hist.c_str());
                MC_CHECK(N_.send_hard <= 1, "after-error", "%s: sending goes on after a hard error;%s", nm.c_str(), hist.c_str());
                MC_CHECK(isf || !had || N_.sent.size() > s0 || N_.sat <= N_.sscript.size(), "no-progress", "%s: items wait, none is sent;%s", nm.c_str(), hist.c_str());
                for (size_t i = 0; i < N_.sent.size(); ++i) MC_CHECK(i < want.size() && N_.sent[i].b == want[i].b, "value", "%s: datagram %zu sent is not item %zu;%s", nm.c_str(), i, i, hist.c_str());
                if (BL) MC_CHECK(slab.available_slots() + b->in.size() == (size_t)items - (fed - b->in.size()) + (fed - b->in.size()) - 0 && slab.available_slots() == (size_t)items - b->in.size(), "leak", "%s: %zu of %d slots are free with %zu items still queued;%s", nm.c_str(), slab.available_slots(), items, b->in.size(), hist.c_str());
            };
            for (int d = 0; d < calls && !fatal; ++d) { size_t k = choose(4); feed(k == 3 ? 99 : k); hist += " in" + std::to_string(k) + " |"; note("%s:%s", nm.c_str(), hist.c_str()); call(); }
            for (int i = 0; i < 40 && !fatal && (fed < want.size() || b->in.size()); ++i) { feed(99); call(); }
            size_t must = fatal ? 0 : want.size();
            MC_CHECK(N_.sent.size() >= must && (fatal ? N_.sent.size() + b->in.size() + 1 >= fed : true), "lost", "%s: %zu of %zu items sent, %zu still queued;%s", nm.c_str(), N_.sent.size(), fed, b->in.size(), hist.c_str());
            if (!fatal) MC_CHECK(cbs.size() == want.size(), "callback", "%s: %zu send callbacks for %zu items;%s", nm.c_str(), cbs.size(), want.size(), hist.c_str());
            if (N_.sent.size()) {
                if (ty == 0) { auto* a = (sockaddr_in*)&N_.to; MC_CHECK(a->sin_family == AF_INET && ntohs(a->sin_port) == 9001 && ntohl(a->sin_addr.s_addr) == 0x7f000001, "address", "%s: sent to a wrong address", nm.c_str()); }
                if (ty == 1) { auto* a = (sockaddr_in6*)&N_.to; in6_addr lo = IN6ADDR_LOOPBACK_INIT; MC_CHECK(a->sin6_family == AF_INET6 && ntohs(a->sin6_port) == 9001 && !memcmp(&a->sin6_addr, &lo, 16), "address", "%s: sent to a wrong address", nm.c_str()); }
                if (ty == 2) { auto* a = (sockaddr_un*)&N_.to; MC_CHECK(a->sun_family == AF_UNIX && !strcmp(a->sun_path, ADDR[2]), "address", "%s: sent to a wrong path", nm.c_str()); }
            } }
            MC_CHECK(N_.fds.empty(), "fd-leak", "%s: the socket stays open;%s", nm.c_str(), hist.c_str());
            outcome(hmix(h, N_.sent.size()));
        });
        N_.on = false;
    });
}
// ---------------------------------------------------------------- construction
static void construct() {
    scenario("construction and addresses", [] {
        sample("every address form and every failing call while opening");
        struct C { int ty; std::string a; bool rx_ok, tx_ok; int port; };
        std::vector<C> cs;
        for (int p : {0, 1, 80, 255, 256, 9001, 32768, 65534, 65535}) { cs.push_back({0, "10.1.2.3:" + std::to_string(p), true, true, p}); cs.push_back({1, "fe80::1:2:" + std::to_string(p), true, true, p}); }
        for (const char* s : {"10.1.2.3", "10.1.2.3:", "10.1.2.3:x", "10.1.2.3:-1", "10.1.2.3:65536", "10.1.2.3:99999999999999", ""}) cs.push_back({0, s, false, false, -1});
        for (const char* s : {"10.1.2:80", "host:80", "256.1.1.1:80"}) { cs.push_back({0, s, true, false, 80}); }
        for (const char* s : {"zz::1:80", "1.2.3.4:80"}) cs.push_back({1, s, true, false, 80});
        cs.push_back({2, std::string("/nonexistent/") + std::string(94, 'a'), true, true, 0}); cs.push_back({2, std::string("/nonexistent/") + std::string(95, 'a'), false, false, 0}); cs.push_back({2, "/nonexistent/x:80", true, true, 0}); cs.push_back({2, std::string("/nonexistent/") + std::string(500, 'a'), false, false, 0});
        Opts o; o.iterate = false;
        explore(o, [&] {
            On on; C& c = cs[choose((int)cs.size())]; bool rx = choose(2); N_.fail_at = choose(5) - 1; note("%s '%s' failing call %d", rx ? "receiver" : "sender", c.a.c_str(), N_.fail_at); bool ok = true;
            try {
                if (rx) { UDPBlock::GenericDatagramSocket s = UDPBlock::GenericDatagramSocket::make_receiver(TY[c.ty], c.a); MC_CHECK(s.is_valid() && N_.fds.size() == 1, "open", "'%s': no open socket", c.a.c_str()); if (c.ty == 0) { auto* a = (sockaddr_in*)&N_.bound; MC_CHECK(ntohs(a->sin_port) == c.port, "address", "'%s': bound to port %d", c.a.c_str(), ntohs(a->sin_port)); } if (c.ty == 1) { auto* a = (sockaddr_in6*)&N_.bound; MC_CHECK(ntohs(a->sin6_port) == c.port, "address", "'%s': bound to port %d", c.a.c_str(), ntohs(a->sin6_port)); } if (c.ty == 2) { auto* a = (sockaddr_un*)&N_.bound; MC_CHECK(c.a == a->sun_path, "address", "'%s': bound to '%s'", c.a.c_str(), a->sun_path); for (auto& u : N_.unlinked) MC_CHECK(u == c.a, "unlink", "'%s': removes '%s'", c.a.c_str(), u.c_str()); } }
                else { UDPBlock::GenericDatagramSocket s = UDPBlock::GenericDatagramSocket::make_sender(TY[c.ty], c.a); MC_CHECK(s.is_valid() && N_.fds.size() == 1, "open", "'%s': no open socket", c.a.c_str()); uint8_t d[3] = {1, 2, 3}; s.send(d, 3); MC_CHECK(N_.sent.size() == 1 && N_.sent[0].b.size() == 3, "send", "'%s': nothing sent", c.a.c_str()); if (c.ty == 0) MC_CHECK(ntohs(((sockaddr_in*)&N_.to)->sin_port) == c.port, "address", "'%s': sent to port %d", c.a.c_str(), ntohs(((sockaddr_in*)&N_.to)->sin_port)); if (c.ty == 1) MC_CHECK(ntohs(((sockaddr_in6*)&N_.to)->sin6_port) == c.port, "address", "'%s': sent to port %d", c.a.c_str(), ntohs(((sockaddr_in6*)&N_.to)->sin6_port)); if (c.ty == 2) MC_CHECK(c.a == ((sockaddr_un*)&N_.to)->sun_path, "address", "'%s': sent to '%s'", c.a.c_str(), ((sockaddr_un*)&N_.to)->sun_path); }
            } catch (const std::exception&) { ok = false; }
            bool want = (rx ? c.rx_ok : c.tx_ok) && N_.why.empty();
            if (N_.why != "setsockopt") MC_CHECK(ok == want, "open", "%s '%s': opening %s%s%s", rx ? "receiver" : "sender", c.a.c_str(), ok ? "succeeds" : "fails", N_.why.empty() ? "" : " although this call fails: ", N_.why.c_str());
            MC_CHECK(N_.fds.empty(), "fd-leak", "%s '%s': %zu sockets stay open (failing call: %s)", rx ? "receiver" : "sender", c.a.c_str(), N_.fds.size(), N_.why.c_str());
            count_trans(); outcome(hmix(std::hash<std::string>()(c.a), rx * 10 + ok)); state(hmix(std::hash<std::string>()(c.a), N_.fail_at));
        });
        N_.on = false;
    });
}
static void setup() {
    bool T = thorough(); int D = T ? 1 : 0;
    std::vector<int> all = {DATA_S, DATA_MAX, REJECT, EMPTY, OVER, AGAIN, INTR, HARD}, big = {DATA_S, DATA_1, DATA_MAX, REJECT, EMPTY, OVER, AGAIN, INTR, HARD, HARD2}, soft = {DATA_S, DATA_MAX, REJECT, AGAIN};
    source<Blob>(16, 4, 4, 4, big, 1); source<Blob>(16, 3, 4, 4 + D, all, 2); source<Blob>(8, 2, 3, 4 + D, all, 2); source<Blob>(8, 1, 2, 4, all, 3); source<Blob>(16, 4, 2, 4, all, 2); source<Blob>(32, 2, 2, 6, soft, 3); source<Blob>(1, 3, 3, 4, {DATA_MAX, REJECT, EMPTY, OVER, AGAIN}, 3); source<Blob>(8, 2, 1, 5, soft, 3);
    source<Fix<16>>(16, 1, 4, 4, big, 2); source<Fix<16>>(16, 1, 3, 5 + D, all, 2); source<Fix<16>>(16, 1, 2, 4 + D, all, 3); source<Fix<1>>(1, 1, 3, 4, {DATA_MAX, REJECT, EMPTY, OVER, AGAIN, HARD}, 3); source<Fix<600>>(600, 1, 16, 5, all, 1); source<Fix<16>>(16, 1, 1, 5, soft, 4);
    for (int ty = 0; ty < 3; ++ty) { sink<Blob>(4, 5, 2 + D, {0, 1, 2}, ty); sink<Fix<16>>(4, 5, 2 + D, {0, 1, 2}, ty); }
    sink<Blob>(2, 6, 3, {0, 1, 2, 3}, 0); sink<Blob>(8, 8, 2, {0, 2}, 0); sink<Fix<16>>(1, 5, 4, {0, 1, 2}, 0); sink<Fix<1>>(6, 7, 2, {0, 1, 2}, 0); sink<Blob>(512, 7, 3 + D, {0, 1}, 0);
    construct();
}
MC_MAIN(setup)
