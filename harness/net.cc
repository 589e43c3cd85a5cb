// Sockets, streams and handles over them, datagrams, services: what is sent arrives, whole, once and in order
#include "vf.h"

#include "eckit/config/LocalConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiSocketHandle.h"
#include "eckit/io/Select.h"
#include "eckit/io/SockBuf.h"
#include "eckit/io/TCPHandle.h"
#include "eckit/io/TCPSocketHandle.h"
#include "eckit/io/cluster/ClusterNodes.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/net/Connector.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/HttpHeader.h"
#include "eckit/net/IPAddress.h"
#include "eckit/net/MultiSocket.h"
#include "eckit/net/NetMask.h"
#include "eckit/net/NetService.h"
#include "eckit/net/NetUser.h"
#include "eckit/net/ProxiedTCPClient.h"
#include "eckit/net/ProxiedTCPServer.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/net/TCPStream.h"
#include "eckit/net/UDPClient.h"
#include "eckit/net/UDPServer.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/thread/Thread.h"
#include "eckit/thread/ThreadControler.h"

#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>

using namespace eckit;
using namespace eckit::net;
using vf::Rng;

namespace {

/// what threads find, to be reported by the thread of the case
struct Findings {
    std::mutex m;
    std::vector<vf::Failure> all;
    void add(const std::string& key, const std::string& what) {
        std::lock_guard<std::mutex> l(m);
        all.push_back({key, what});
    }
    void report(vf::Case& c) {
        for (auto& f : all) c.fail(f.key, f.msg);
    }
};

struct Thread_ {
    std::thread t;
    template <class F>
    Thread_(Findings& found, const std::string& key, F f) :
        t([&found, key, f]() mutable {
            try {
                f();
            }
            catch (std::exception& e) {
                found.add(key, std::string("exception ") + e.what());
            }
        }) {}
    ~Thread_() { t.join(); }
};

// sockets that are open
int descriptors() {
    int n  = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (auto* e = ::readdir(d)) {
        char b[200];
        ssize_t l = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof(b));
        n += l > 7 && !std::strncmp(b, "socket:", 7);
    }
    ::closedir(d);
    return n;
}

// a read that waits for too long is an error, and so does not keep the case waiting
void limit(TCPSocket& s) {
    timeval tv{40, 0};
    ::setsockopt(s.socket(), SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
    ::setsockopt(s.socket(), SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
}

struct Listener {
    int fd = -1, port = 0;
    Listener() {
        fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family      = AF_INET;
        a.sin_addr.s_addr = ::htonl(INADDR_LOOPBACK);
        socklen_t l       = sizeof(a);
        if (::bind(fd, (sockaddr*)&a, sizeof(a)) || ::listen(fd, 64) || ::getsockname(fd, (sockaddr*)&a, &l)) throw vf::Failure{"harness", "listen"};
        port = ::ntohs(a.sin_port);
    }
    ~Listener() {
        if (fd >= 0) ::close(fd);
    }
    int accept() {
        pollfd p{fd, POLLIN, 0};
        if (::poll(&p, 1, 40000) != 1) throw vf::Failure{"no-connection", "nobody connected"};
        return ::accept(fd, nullptr, nullptr);
    }
};

int rawConnect(int port) {
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_port        = ::htons(port);
    a.sin_addr.s_addr = ::htonl(INADDR_LOOPBACK);
    if (::connect(fd, (sockaddr*)&a, sizeof(a))) {
        ::close(fd);
        return -1;
    }
    return fd;
}

/// forwards between clients and a server in pieces of any size, with delays, and cuts connections
struct Proxy {
    Listener listener;
    int target;
    uint64_t seed;
    size_t piece;   // forwarded at most this much at a time
    bool delays;
    long long cutAfter[2];  // bytes of a direction, -1 for never
    bool reset;
    std::atomic<long long> passed[2];
    std::atomic<long long> pieces;
    size_t connections;
    std::vector<std::thread> threads;
    std::thread acceptor;

    Proxy(Rng& r, int port, size_t n) : target(port), seed(r.u64()), connections(n) {
        piece       = r.pick(std::vector<size_t>{1, 2, 7, 64, 999, 10000, 100000});
        delays      = r.chance(0.3);
        cutAfter[0] = cutAfter[1] = -1;
        reset                     = r.chance(0.5);
        passed[0] = passed[1] = 0;
        pieces                = 0;
    }
    void start() {
        acceptor = std::thread([this] {
            for (size_t i = 0; i < connections; ++i) {
                pollfd p{listener.fd, POLLIN, 0};
                while (!stop && ::poll(&p, 1, 20) == 0) {}
                if (stop) return;
                int a = ::accept(listener.fd, nullptr, nullptr), b = rawConnect(target);
                threads.emplace_back([this, a, b, i] { forward(a, b, seed + i); });
            }
        });
    }
    std::atomic<bool> stop{false};
    ~Proxy() {
        stop = true;
        if (acceptor.joinable()) acceptor.join();
        for (auto& t : threads) t.join();
    }
    void forward(int a, int b, uint64_t s) {
        Rng r(s);
        int one = 1;
        for (int fd : {a, b})
            if (fd >= 0) ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
        int from[2] = {a, b}, to[2] = {b, a};
        bool open[2] = {b >= 0, b >= 0};
        std::vector<char> buf(piece);
        bool cut = false;
        while ((open[0] || open[1]) && !cut) {
            pollfd p[2];
            for (int i = 0; i < 2; ++i) p[i] = {open[i] ? from[i] : -1, POLLIN, 0};
            int some = ::poll(p, 2, 20);
            if (some == 0 && !stop) continue;
            if (some <= 0) break;
            for (int i = 0; i < 2 && !cut; ++i) {
                if (!open[i] || !p[i].revents) continue;
                size_t want = 1 + r.below(piece);
                if (cutAfter[i] >= 0) want = std::min<long long>(want, cutAfter[i] - passed[i]);
                ssize_t n = want ? ::read(from[i], buf.data(), want) : 0;
                if (n > 0) {
                    ssize_t done = 0;
                    while (done < n) {
                        ssize_t w = ::send(to[i], buf.data() + done, n - done, MSG_NOSIGNAL);
                        if (w <= 0) break;
                        done += w;
                    }
                    passed[i] += n;
                    ++pieces;
                    if (done < n) {
                        open[i] = false;
                        ::shutdown(from[i], SHUT_RD);
                    }
                    if (cutAfter[i] >= 0 && passed[i] >= cutAfter[i]) cut = true;
                    if (delays && r.chance(0.05)) ::usleep(r.below(300));
                }
                else {
                    open[i] = false;
                    ::shutdown(to[i], SHUT_WR);
                    if (!want) cut = true;
                }
            }
        }
        if (cut && reset) {
            linger l{1, 0};
            for (int fd : {a, b}) ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
        }
        ::close(a);
        if (b >= 0) ::close(b);
    }
};

SocketOptions options(Rng& r) {
    auto o = r.chance(0.5) ? SocketOptions::server() : SocketOptions::data();
    o.bindAddress("127.0.0.1");
    if (r.chance(0.5)) o.receiveBufferSize(r.pick(std::vector<int>{2048, 5000, 100000}));
    if (r.chance(0.5)) o.sendBufferSize(r.pick(std::vector<int>{4096, 10000, 100000}));
    o.tcpNoDelay(r.chance(0.5)).keepAlive(r.chance(0.5)).ipLowDelay(r.chance(0.5)).noLinger(r.chance(0.3));
    return o;
}

size_t amount(Rng& r) { return r.pick(std::vector<size_t>{0, 1, 10, 1000, 5000, 70000, 300000}) + r.below(100); }

std::vector<size_t> parts(Rng& r, size_t total, size_t most) {
    std::vector<size_t> p;
    for (size_t done = 0; done < total;) {
        size_t n = std::min<size_t>(total - done, 1 + r.below(1 + r.below(most)));
        p.push_back(n);
        done += n;
    }
    return p;
}

// writes all of it; with a cut it may fail, and says so
void sendAll(Findings& found, const std::function<long(const void*, long)>& write, const std::string& data, const std::vector<size_t>& pieces, bool cut) {
    size_t at = 0;
    for (auto n : pieces) {
        long w = write(data.data() + at, n);
        if (w != long(n)) {
            if (!cut) found.add("net-write", "write of " + std::to_string(n) + " bytes gave " + std::to_string(w));
            return;
        }
        at += n;
    }
}

// reads until the end; without a cut every read is whole, up to the last
void receiveAll(Findings& found, const std::function<long(void*, long)>& read, const std::string& want, Rng r, size_t most, bool cut) {
    size_t at = 0;
    std::vector<char> buf(most + 1);
    for (;;) {
        size_t n = 1 + r.below(1 + r.below(most));
        buf[n]   = 'Z';
        long got = read(buf.data(), n);
        if (got > long(n) || buf[n] != 'Z') {
            found.add("net-read", "read of " + std::to_string(n) + " bytes gave " + std::to_string(got));
            return;
        }
        if (got > 0) {
            if (at + got > want.size() || ::memcmp(buf.data(), want.data() + at, got)) {
                found.add("net-bytes", "the bytes received at " + std::to_string(at) + " (" + std::to_string(got) + ") of " + std::to_string(want.size()) + " are not those sent");
                return;
            }
            at += got;
        }
        if (got < long(n)) {
            if (!cut && (got < 0 || at != want.size())) found.add("net-read", "read of " + std::to_string(n) + " bytes gave " + std::to_string(got) + " at " + std::to_string(at) + " of " + std::to_string(want.size()));
            if (!cut) {
                long again = read(buf.data(), n);
                if (again != 0) found.add("net-end", "read after the end gave " + std::to_string(again));
            }
            return;
        }
    }
}

VF_WORKLOAD(socket, 250, 6000) {
    auto& r    = c.rng;
    int before = descriptors();
    Findings found;
    {
        TCPServer server(options(r));
        bool buffered = r.chance(0.2), proxied = r.chance(0.7), cut = proxied && !buffered && r.chance(0.3);
        std::string data[2] = {r.bytes(amount(r)), r.bytes(amount(r))};
        std::unique_ptr<Proxy> proxy;
        if (proxied) {
            proxy = std::make_unique<Proxy>(r, server.localPort(), 1);
            if (proxy->piece < 64)
                for (auto& d : data) d.resize(std::min<size_t>(d.size(), 3000));
            if (cut) proxy->cutAfter[r.below(2)] = r.below(data[0].size() + 100);
            proxy->start();
        }
        c.trace() << "proxied " << proxied << " cut " << cut << " " << data[0].size() << " bytes, " << data[1].size() << " back\n";
        TCPClient client(options(r));
        int port = proxied ? proxy->listener.port : server.localPort();
        TCPSocket& connected = r.chance(0.5) ? client.connect("127.0.0.1", port, 1, 0) : client.connect(Endpoint("127.0.0.1", port), 1, 0);
        TCPSocket peer(server.accept("waiting", 40));
        VF_CHECK(!server.isConnected(), "net-owner", "the socket accepted is still owned by the server");
        limit(connected);
        limit(peer);
        TCPSocket moved;
        bool move = r.chance(0.3);
        if (move) {
            moved = connected;
            VF_CHECK(!connected.isConnected() && moved.isConnected(), "net-owner", "a socket moved is still owned by the other");
        }
        TCPSocket& mine = move ? moved : connected;
        VF_EQ(mine.remotePort(), port, "net-ports", "port of the other side");
        if (!proxied) VF_EQ(mine.localPort(), peer.remotePort(), "net-ports", "port seen by the other side");
        if (!cut) {
            VF_CHECK(mine.stillConnected() && peer.stillConnected(), "net-connected", "sockets just connected are not");
        }
        TCPSocket* side[2] = {&mine, &peer};
        std::string text;
        {
            std::vector<std::unique_ptr<Thread_>> threads;
            for (int i = 0; i < 2; ++i) {
                auto pieces = parts(r, data[i].size(), r.pick(std::vector<size_t>{3, 100, 10000, 200000}));
                if (proxied && proxy->piece < 64 && pieces.size() > 500) pieces = {data[i].size()};
                TCPSocket* from = side[i];
                auto& d         = data[i];
                if (buffered) {
                    // both buffers have the socket to themselves in one thread
                    continue;
                }
                threads.push_back(std::make_unique<Thread_>(found, "net-write", [&found, &d, from, pieces, cut] {
                    sendAll(found, [from](const void* b, long n) { return from->write(b, n); }, d, pieces, cut);
                    try {
                        from->closeOutput();
                    }
                    catch (FailedSystemCall&) {
                        if (!cut) throw;
                    }
                }));
                TCPSocket* to = side[1 - i];
                Rng mineRng(r.u64());
                size_t most = r.pick(std::vector<size_t>{1, 100, 10000, 200000});
                if (d.size() > 10000) most = std::max<size_t>(most, 1000);
                threads.push_back(std::make_unique<Thread_>(found, "net-read", [&found, &d, to, mineRng, most, cut] {
                    receiveAll(found, [to](void* b, long n) { return to->read(b, n); }, d, mineRng, most, cut);
                }));
            }
            if (buffered) {
                // lines sent and answered, over iostreams
                text = data[0].substr(0, 2000);
                threads.push_back(std::make_unique<Thread_>(found, "net-iostream", [&found, &text, &peer] {
                    SockBuf buf(peer);
                    std::istream in(&buf);
                    std::ostream out(&buf);
                    std::string got, end(1, '\0');
                    char ch;
                    while (got.size() < text.size() && in.get(ch)) got += ch;
                    if (got != text) found.add("net-iostream", "a stream of " + std::to_string(text.size()) + " bytes gave " + std::to_string(got.size()) + ", or others");
                    out.write(got.data(), got.size());
                    out.flush();
                }));
                threads.push_back(std::make_unique<Thread_>(found, "net-iostream", [&found, &text, &mine] {
                    SockBuf buf(mine);
                    std::istream in(&buf);
                    std::ostream out(&buf);
                    out << text << std::flush;
                    std::string got;
                    char ch;
                    while (got.size() < text.size() && in.get(ch)) got += ch;
                    if (got != text) found.add("net-iostream", "a stream of " + std::to_string(text.size()) + " bytes came back as " + std::to_string(got.size()) + ", or others");
                }));
                c.count("iostreams");
            }
            threads.clear();
            if (!cut && !buffered) {
                VF_CHECK(!mine.stillConnected() && !peer.stillConnected(), "net-connected", "sockets are still connected after all was read");
                c.count("bytes", data[0].size() + data[1].size());
            }
        }
        if (proxied) c.count("pieces", proxy->pieces);
        if (cut) c.count("cut connections");
        c.eval();
        c.distinct((uint64_t(data[0].size()) << 32) ^ data[1].size() ^ (proxied ? proxy->seed : 0));
        mine.close();
        VF_CHECK(!mine.isConnected() && !mine.stillConnected(), "net-connected", "a socket closed is connected");
        if (r.chance(0.3)) {
            // what cannot be delivered is an error at the latest when the other side says so
            std::vector<char> big(100000);
            long w = 0;
            for (int k = 0; k < 100 && w >= 0; ++k) w = peer.write(big.data(), big.size()) == long(big.size()) ? 0 : -1;
            VF_CHECK(w < 0, "net-write", "100 writes to a connection closed succeeded");
        }
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Objects over TCP

struct Item {
    int kind;
    long long i;
    double d;
    std::string s;
    std::vector<std::string> v;
};

Item item(Rng& r) {
    Item it{int(r.below(7)), (long long)(r.u64()), r.real(-1e10, 1e10), r.chance(0.05) ? r.bytes(20000) : r.bytes(r.below(30)), {}};
    for (int k = 0, n = r.below(4); k < n; ++k) it.v.push_back(r.bytes(r.below(9)));
    return it;
}

void put(Stream& s, const Item& it) {
    switch (it.kind) {
        case 0: s << int(it.i); break;
        case 1: s << (long long)(it.i); break;
        case 2: s << it.d; break;
        case 3: s << it.s; break;
        case 4: s << it.v; break;
        case 5: s.writeBlob(it.s.data(), it.s.size()); break;
        default: s << bool(it.i & 1); break;
    }
}

bool get(Stream& s, const Item& it) {
    switch (it.kind) {
        case 0: {
            int x;
            s >> x;
            return x == int(it.i);
        }
        case 1: {
            long long x;
            s >> x;
            return x == it.i;
        }
        case 2: {
            double x;
            s >> x;
            return x == it.d;
        }
        case 3: {
            std::string x;
            s >> x;
            return x == it.s;
        }
        case 4: {
            std::vector<std::string> x;
            s >> x;
            return x == it.v;
        }
        case 5: {
            std::string x(it.s.size(), 0);
            s.readBlob(&x[0], x.size());
            return x == it.s;
        }
        default: {
            bool x;
            s >> x;
            return x == bool(it.i & 1);
        }
    }
}

VF_WORKLOAD(stream, 200, 5000) {
    auto& r    = c.rng;
    int before = descriptors();
    Findings found;
    {
        TCPServer server(options(r));
        bool cut = r.chance(0.4);
        std::vector<Item> items;
        for (int k = 0, n = 1 + r.below(60); k < n; ++k) items.push_back(item(r));
        Proxy proxy(r, server.localPort(), 1);
        // what the items take
        size_t size = 0;
        {
            Buffer b(2000000);
            MemoryStream m(b);
            for (auto& it : items) put(m, it);
            size = m.position();
        }
        if (cut) proxy.cutAfter[0] = r.below(size);
        proxy.start();
        TCPClient client(options(r));
        client.connect("127.0.0.1", proxy.listener.port, 1, 0);
        limit(client);
        std::unique_ptr<Thread_> writer;
        bool instant = r.chance(0.5);
        auto write   = [&](Stream& s) {
            try {
                for (auto& it : items) put(s, it);
            }
            catch (std::exception&) {
                if (!cut) throw;
            }
        };
        writer = std::make_unique<Thread_>(found, "net-stream", [&] {
            if (instant) {
                InstantTCPStream s(client);
                write(s);
                client.close();
            }
            else {
                TCPStream s(client);
                write(s);
            }
        });
        TCPSocket& accepted = server.accept("waiting", 40);
        limit(accepted);
        size_t right = 0;
        {
            TCPStream s(accepted);
            VF_CHECK(!server.isConnected(), "net-owner", "a stream does not own its socket");
            try {
                for (auto& it : items) {
                    VF_CHECK(get(s, it), "net-stream", "object " << right << " of " << items.size() << ", of kind " << it.kind << ", is another one");
                    ++right;
                    c.eval();
                }
                VF_CHECK(!cut, "net-stream", "objects of " << size << " bytes came after " << proxy.cutAfter[0]);
            }
            catch (vf::Failure&) {
                throw;
            }
            catch (std::exception& e) {
                VF_CHECK(cut, "net-stream", "object " << right << " of " << items.size() << " raised " << e.what());
                c.count("broken streams");
            }
            // nothing is lost before the cut (a reset may)
            if (cut && !proxy.reset) {
                Buffer b(2000000);
                MemoryStream m(b);
                size_t k = 0;
                while (k < right + 1 && k < items.size()) put(m, items[k++]);
                VF_CHECK((long long)(m.position()) > proxy.cutAfter[0], "net-stream", "only " << right << " objects came of " << proxy.cutAfter[0] << " bytes");
            }
        }
        c.count("objects", right);
        c.distinct(proxy.seed);
        writer.reset();
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
    found.report(c);
}

/// a port for a server that takes the number of one: it stays bound, so that nobody else is given it, but can be used by who reuses addresses
struct Port {
    int fd = -1, port = 0;
    Port() {
        fd = ::socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        socklen_t l  = sizeof(a);
        if (::bind(fd, (sockaddr*)&a, sizeof(a)) || ::getsockname(fd, (sockaddr*)&a, &l)) throw vf::Failure{"harness", "bind"};
        int one = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
        port = ::ntohs(a.sin_port);
    }
    ~Port() { ::close(fd); }
};

// until somebody listens, without connecting, as this would be accepted
void waitListening(int port) {
    char b[40];
    std::snprintf(b, sizeof(b), ":%04X 00000000:0000 0A", port);
    for (int k = 0; k < 4000; ++k) {
        std::ifstream tcp("/proc/net/tcp");
        std::string line;
        while (std::getline(tcp, line))
            if (line.find(b) != std::string::npos) return;
        ::usleep(1000);
    }
}

//---------------------------------------------------------------------------------------------------------------------
// Handles

DataHandle* again(vf::Case& c, DataHandle* h) {
    std::unique_ptr<DataHandle> old(h);
    switch (c.rng.below(3)) {
        case 0: return old->clone();
        case 1: {
            Buffer b(10000);
            MemoryStream out(b);
            out << *old;
            MemoryStream in(b);
            c.count("handles sent");
            return Reanimator<DataHandle>::reanimate(in);
        }
    }
    return old.release();
}

VF_WORKLOAD(handles, 200, 5000) {
    auto& r    = c.rng;
    int before = descriptors();
    Findings found;
    {
        std::string data = r.bytes(amount(r));
        size_t streams   = 1 + r.below(5);
        size_t message   = r.pick(std::vector<size_t>{1, 3, 100, 4096, 100000});
        if (message < 10) data.resize(std::min<size_t>(data.size(), 5000));
        int kind  = r.below(4);
        bool send = r.chance(0.5);
        c.trace() << "kind " << kind << " send " << send << " " << data.size() << " bytes, " << streams << " streams of " << message << "\n";
        if (kind == 0) {
            // TCPHandle: connects when opened
            Listener l;
            std::string got;
            {
                Thread_ server(found, "net-handle", [&] {
                    int fd = l.accept();
                    if (send) {
                        char b[5000];
                        ssize_t n;
                        while ((n = ::read(fd, b, sizeof(b))) > 0) got.append(b, n);
                    }
                    else
                        for (size_t at = 0; at < data.size();) {
                            ssize_t n = ::send(fd, data.data() + at, std::min<size_t>(data.size() - at, 7001), MSG_NOSIGNAL);
                            if (n <= 0) break;
                            at += n;
                        }
                    ::close(fd);
                });
                std::unique_ptr<DataHandle> h(again(c, new TCPHandle("127.0.0.1", l.port)));
                if (send) {
                    MemoryHandle m(data.data(), data.size());
                    Length n = m.saveInto(*h);
                    VF_EQ((long long)(n), (long long)(data.size()), "net-handle", "length said by saveInto");
                }
                else {
                    MemoryHandle m(1, true);
                    Length n = h->saveInto(m);
                    VF_EQ((long long)(n), (long long)(data.size()), "net-handle", "length said by saveInto");
                    got = m.str();
                }
            }
            VF_CHECK(got == data, "net-handle", "TCPHandle: " << got.size() << " of " << data.size() << " bytes, or others");
        }
        else if (kind == 1 || kind == 2) {
            // handles of a socket that is there
            TCPServer server(options(r));
            Proxy proxy(r, server.localPort(), 1);
            if (proxy.piece < 64) data.resize(std::min<size_t>(data.size(), 3000));
            proxy.start();
            TCPClient client(options(r));
            client.connect("127.0.0.1", proxy.listener.port, 1, 0);
            TCPSocket& accepted = server.accept("waiting", 40);
            limit(client);
            limit(accepted);
            size_t skip = 0;
            std::string got;
            {
                Thread_ writer(found, "net-handle", [&] {
                    MemoryHandle m(data.data(), data.size());
                    std::unique_ptr<DataHandle> h(kind == 1 ? new InstantTCPSocketHandle(client) : new TCPSocketHandle(client));
                    Length n = m.saveInto(*h);
                    if (n != Length(data.size())) found.add("net-handle", "saveInto a socket said another length");
                    h.reset();
                    if (kind == 2 && client.isConnected()) found.add("net-owner", "TCPSocketHandle does not own its socket");
                    client.close();
                });
                std::unique_ptr<DataHandle> h(kind == 1 ? new InstantTCPSocketHandle(accepted) : new TCPSocketHandle(accepted));
                h->openForRead();
                if (r.chance(0.3)) {
                    skip = r.below(data.size() + 1);
                    h->seek(skip);
                }
                MemoryHandle m(1, true);
                m.openForWrite(0);
                std::vector<char> b(1 + r.below(50000));
                long n;
                while ((n = h->read(b.data(), b.size())) > 0) m.write(b.data(), n);
                VF_EQ(n, 0, "net-handle", "last read of a socket handle");
                m.close();
                got = m.str();
                if (r.chance(0.3)) {
                    // beyond the end: an error, not for ever
                    (void)vf::refuses([&] { h->seek(data.size() + 1 + r.below(100)); });
                    c.count("seeks beyond the end");
                }
                h->close();
            }
            VF_CHECK(got == data.substr(skip), "net-handle", "socket handle: " << got.size() << " of " << data.size() - skip << " bytes, or others");
        }
        else {
            Port probe;
            int port = probe.port;
            MultiSocket server(port);
            std::string got;
            {
                std::unique_ptr<DataHandle> h(again(c, new MultiSocketHandle("127.0.0.1", port, streams, message, r.chance(0.5) ? 0 : 8192)));
                std::atomic<bool> ready{false};
                Thread_ other(found, "net-handle", [&] {
                    server.accept();
                    if (send) {
                        std::vector<char> b(1 + data.size() / 7);
                        long n;
                        while ((n = server.read(b.data(), b.size())) > 0) got.append(b.data(), n);
                        if (n < 0) found.add("net-handle", "MultiSocket read failed");
                    }
                    else {
                        size_t at = 0;
                        while (at < data.size()) {
                            size_t n = std::min<size_t>(data.size() - at, 1 + data.size() / 5);
                            long w   = server.write(data.data() + at, n);
                            if (w != long(n)) {
                                found.add("net-handle", "MultiSocket write of " + std::to_string(n) + " gave " + std::to_string(w));
                                break;
                            }
                            at += n;
                        }
                    }
                    server.close();
                });
                waitListening(port);
                if (send) {
                    MemoryHandle m(data.data(), data.size());
                    Length n = m.saveInto(*h);
                    VF_EQ((long long)(n), (long long)(data.size()), "net-handle", "length said by saveInto");
                }
                else {
                    MemoryHandle m(1, true);
                    Length n = h->saveInto(m);
                    VF_EQ((long long)(n), (long long)(data.size()), "net-handle", "length said by saveInto");
                    got = m.str();
                }
            }
            VF_CHECK(got == data, "net-handle", "MultiSocketHandle: " << got.size() << " of " << data.size() << " bytes, or others");
        }
        c.count(kind == 0 ? "TCPHandle" : kind == 1 ? "InstantTCPSocketHandle" : kind == 2 ? "TCPSocketHandle" : "MultiSocketHandle");
        c.eval();
        c.distinct(uint64_t(data.size()) * 1000003 + streams * 7919 + message * 13 + kind);
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Several sockets as one, both ways

VF_WORKLOAD(multi, 120, 3000) {
    auto& r    = c.rng;
    int before = descriptors();
    Findings found;
    {
        size_t streams = 1 + r.below(6), message = r.pick(std::vector<size_t>{1, 2, 10, 1000, 4096, 65536});
        std::string data[2] = {r.bytes(amount(r)), r.bytes(amount(r))};
        Port probe;
        int port = probe.port;
        MultiSocket server(port);
        // the server listens when it accepts, so the connections may have to try again
        std::unique_ptr<MultiSocket> owner;
        MultiSocket client(streams, message);
        {
            Thread_ accepting(found, "net-multi", [&] { server.accept(); });
            waitListening(port);
            client.connect("127.0.0.1", port, 20, 0);
        }
        bool own = r.chance(0.5);
        if (own) owner.reset(new MultiSocket(client));
        MultiSocket& mine = own ? *owner : client;
        MultiSocket* side[2] = {&mine, &server};
        {
            std::vector<std::unique_ptr<Thread_>> threads;
            for (int i = 0; i < 2; ++i) {
                if (message <= 10) data[i].resize(std::min<size_t>(data[i].size(), 4000));
                auto pieces = parts(r, data[i].size(), r.pick(std::vector<size_t>{3, 100, 10000, 200000}));
                if (pieces.size() > 2000) pieces = {data[i].size()};
                MultiSocket *from = side[i], *to = side[1 - i];
                auto& d = data[i];
                threads.push_back(std::make_unique<Thread_>(found, "net-multi", [&found, &d, from, pieces] { sendAll(found, [from](const void* b, long n) { return from->write(b, n); }, d, pieces, false); }));
                auto reads = parts(r, d.size(), r.pick(std::vector<size_t>{3, 100, 10000, 200000}));
                if (reads.size() > 2000) reads = {d.size()};
                threads.push_back(std::make_unique<Thread_>(found, "net-multi", [&found, &d, to, reads] {
                    std::string got;
                    for (auto n : reads) {
                        std::string b(n, 0);
                        long x = to->read(&b[0], n);
                        if (x != long(n)) {
                            found.add("net-multi", "read of " + std::to_string(n) + " gave " + std::to_string(x));
                            return;
                        }
                        got += b;
                    }
                    if (got != d) found.add("net-multi", "the " + std::to_string(d.size()) + " bytes received are not those sent");
                }));
            }
        }
        if (r.chance(0.5)) mine.close();
        c.count("multisockets");
        c.count("bytes", data[0].size() + data[1].size());
        c.eval();
        c.distinct(r.u64());
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Datagrams

VF_WORKLOAD(udp, 60, 2000) {
    auto& r    = c.rng;
    int before = descriptors();
    {
        // a port that is free
        int port = 0;
        {
            int fd = ::socket(AF_INET, SOCK_DGRAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            socklen_t l  = sizeof(a);
            if (::bind(fd, (sockaddr*)&a, sizeof(a)) || ::getsockname(fd, (sockaddr*)&a, &l)) throw vf::Failure{"harness", "bind"};
            port = ::ntohs(a.sin_port);
            ::close(fd);
        }
        // (somebody else may have been faster)
        std::unique_ptr<UDPServer> there;
        try {
            there.reset(new UDPServer(port));
        }
        catch (FailedSystemCall&) {
            c.eval();
            return;
        }
        UDPServer& server = *there;
        LocalConfiguration cfg;
        cfg.set("host", "127.0.0.1");
        cfg.set("port", port);
        UDPClient client = r.chance(0.5) ? UDPClient(cfg) : UDPClient("127.0.0.1", port);
        for (int k = 0; k < 10; ++k) {
            std::vector<std::string> sent;
            for (int i = 0, n = 1 + r.below(3); i < n; ++i) {
                sent.push_back(r.bytes(r.chance(0.1) ? 20000 : r.below(500)));
                client.send(sent.back().data(), sent.back().size());
            }
            for (auto& s : sent) {
                Buffer b(r.chance(0.8) ? 30000 : 1 + r.below(300));
                size_t n  = r.chance(0.5) ? server.receive(b) : server.receive(b.data(), b.size());
                size_t want = std::min<size_t>(b.size(), s.size());
                VF_EQ(n, want, "net-udp", "bytes of a datagram of " + std::to_string(s.size()) + " into " + std::to_string(b.size()));
                VF_CHECK(!::memcmp(b.data(), s.data(), want), "net-udp", "a datagram of " << s.size() << " bytes has others");
                c.count("datagrams");
                c.eval();
                c.distinct(s);
            }
        }
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
}

//---------------------------------------------------------------------------------------------------------------------
// Services with many clients at the same time

std::atomic<int> users{0}, served{0};

class User : public NetUser {
    void serve(Stream& s, std::istream& in, std::ostream& out) override {
        std::string how;
        s >> how;
        if (how == "lines") {
            std::string line;
            while (std::getline(in, line) && line != "end") out << line << " " << line.size() << std::endl;
            return;
        }
        for (;;) {
            std::string what;
            s >> what;
            if (what == "end") break;
            if (what == "fail") throw UserError("as asked");
            std::string text;
            long long n;
            s >> n;
            s >> text;
            std::reverse(text.begin(), text.end());
            s << (n * 2 + 1) << text;
            ++served;
        }
    }

public:
    User(TCPSocket& s) : NetUser(s) { ++users; }
    ~User() { --users; }
};

class Service : public NetService {
    NetUser* newUser(TCPSocket& s) const override { return new User(s); }
    std::string name() const override { return "vf"; }
    long timeout() const override { return 1; }

public:
    Service() : NetService(0, false, SocketOptions::server().bindAddress("127.0.0.1")) {}
};

VF_WORKLOAD(service, 10, 250) {
    auto& r    = c.rng;
    Findings found;
    auto* service = new Service;
    int port      = service->port();
    std::atomic<long> answers{0};
    {
        ThreadControler controller(service, false);
        controller.start();
        for (int round = 0; round < 3; ++round) {
            std::vector<std::unique_ptr<Thread_>> clients;
            for (int k = 0, n = 1 + r.below(8); k < n; ++k) {
                Rng mine(r.u64());
                clients.push_back(std::make_unique<Thread_>(found, "net-service", [&, mine]() mutable {
                    auto& r = mine;
                    TCPClient client;
                    client.connect("127.0.0.1", port, 3, 0);
                    limit(client);
                    InstantTCPStream s(client);
                    if (r.chance(0.3)) {
                        s << "lines";
                        SockBuf buf(client);
                        std::istream in(&buf);
                        std::ostream out(&buf);
                        for (int i = 0; i < 10; ++i) {
                            auto w = r.word(100);
                            out << w << std::endl;
                            std::string back;
                            std::getline(in, back);
                            if (back != w + " " + std::to_string(w.size())) found.add("net-service", "the answer to line " + w + " is " + back);
                            ++answers;
                        }
                        out << "end" << std::endl;
                        return;
                    }
                    s << "objects";
                    for (int i = 0, m = r.below(30); i < m; ++i) {
                        auto text   = r.bytes(r.below(300));
                        long long n = r.in(-1000000, 1000000), back = 0;
                        std::string got;
                        s << "do" << n << text;
                        s >> back;
                        s >> got;
                        std::reverse(text.begin(), text.end());
                        if (back != n * 2 + 1 || got != text) found.add("net-service", "the answer to " + std::to_string(n) + " is " + std::to_string(back));
                        ++answers;
                    }
                    switch (r.below(3)) {
                        case 0: s << "end"; break;
                        case 1: s << "fail"; break;
                        default: break;  // goes away
                    }
                }));
            }
        }
        controller.stop();
        controller.wait();
    }
    for (int k = 0; k < 4000 && users; ++k) ::usleep(5000);
    VF_EQ(users.load(), 0, "net-service", "connections left after all clients went away");
    c.count("answers", answers);
    c.eval(answers);
    c.distinct(r.u64());
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Connector: requests and answers, kept for a while

VF_WORKLOAD(connector, 60, 1500) {
    auto& r = c.rng;
    Findings found;
    Listener l;
    std::atomic<long> asked{0};
    std::atomic<bool> stop{false};
    std::mutex m;
    std::vector<std::string> requests;
    long dieAfter = r.chance(0.5) ? 1 + r.below(12) : -1;
    {
        Thread_ server(found, "net-connector", [&] {
            bool first = true;
            for (;;) {
                pollfd p{l.fd, POLLIN, 0};
                while (!stop && ::poll(&p, 1, 5) == 0) {}
                if (stop) return;
                int fd = ::accept(l.fd, nullptr, nullptr);
                // an eckit stream on the server's side, too
                struct Raw : Stream {
                    int fd;
                    std::atomic<bool>& stop;
                    Raw(int f, std::atomic<bool>& s) : fd(f), stop(s) {}
                    ~Raw() { ::close(fd); }
                    std::string name() const override { return "raw"; }
                    long write(const void* b, long n) override { return ::send(fd, b, n, MSG_NOSIGNAL); }
                    long read(void* b, long n) override {
                        long done = 0;
                        while (done < n) {
                            pollfd p{fd, POLLIN, 0};
                            while (!stop && ::poll(&p, 1, 5) == 0) {}
                            if (stop) return done;
                            ssize_t x = ::read(fd, (char*)b + done, n - done);
                            if (x <= 0) return done;
                            done += x;
                        }
                        return done;
                    }
                } s(fd, stop);
                try {
                    NodeInfo::acceptLogin(s);
                    for (;;) {
                        std::string q;
                        long long n;
                        s >> q;
                        s >> n;
                        {
                            std::lock_guard<std::mutex> lock(m);
                            requests.push_back(q + std::to_string(n));
                        }
                        long at = ++asked;
                        if (first && at == dieAfter) {
                            first = false;
                            if (n & 1) s << std::string("half");
                            break;
                        }
                        s << (q + "!") << (n * 3) << (long long)(at);
                    }
                }
                catch (std::exception&) {
                }
            }
        });
        struct Stop {
            std::atomic<bool>& s;
            ~Stop() { s = true; }
        } stopper{stop};

        NodeInfo info;
        info.host("127.0.0.1");
        info.port(l.port);
        info.node("vf");
        std::map<std::string, long long> kept;
        int lost = 0;
        for (int k = 0, n = 1 + r.below(20); k < n; ++k) {
            auto& connector = Connector::service(info);
            connector.lock();
            VF_CHECK(&Connector::service(info) != &connector, "net-connector", "a connector in use is given to another");
            bool memo = r.chance(0.5);
            int exchanges = memo && r.chance(0.3) ? 2 : 1;
            try {
                std::unique_ptr<AutoMemoize> keep;
                if (memo) keep.reset(new AutoMemoize(connector, 1000000));
                for (int e = 0; e < exchanges; ++e) {
                    auto q     = r.word(2, "ab");
                    long long i = r.below(3);
                    auto key   = q + std::to_string(i);
                    connector << q << i;
                    std::string back;
                    long long three, at;
                    connector >> back;
                    connector >> three;
                    connector >> at;
                    VF_CHECK(back == q + "!" && three == i * 3, "net-connector", "the answer to " << key << " is " << back << " " << three);
                    if (memo && kept.count(key)) {
                        VF_EQ(at, kept[key], "net-connector-kept", "answer kept for " + key);
                        c.count("answers kept");
                    }
                    else {
                        VF_EQ(at, (long long)(asked), "net-connector-asked", "number of the answer to " + key);
                        std::lock_guard<std::mutex> lock(m);
                        VF_EQ(requests.back(), key, "net-connector-asked", "last request");
                        if (memo && exchanges == 1) kept[key] = at;
                    }
                    c.count("answers of connectors");
                    c.eval();
                    c.distinct(key + std::to_string(at));
                }
                if (exchanges > 1) kept.clear(), keep.reset(), connector.reset();
            }
            catch (Retry&) {
                VF_CHECK(dieAfter > 0 && !lost++, "net-connector-retry", "a connection that was not lost has to be tried again");
                kept.clear();
                c.count("connections lost");
            }
            connector.unlock();
        }
    }
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Through a proxy that wants HTTP

VF_WORKLOAD(proxied, 60, 1500) {
    auto& r    = c.rng;
    int before = descriptors();
    Findings found;
    {
        std::string data = r.bytes(amount(r));
        ProxiedTCPServer server(0, SocketOptions::server().bindAddress("127.0.0.1"));
        Proxy proxy(r, server.localPort(), 1);
        if (proxy.piece < 64) data.resize(std::min<size_t>(data.size(), 3000));
        proxy.start();
        std::string host = r.word(10) + ".int";
        int status       = r.chance(0.7) ? 200 : r.pick(std::vector<int>{403, 404, 500, 503});
        std::map<std::string, std::string> extra;
        for (int k = 0, n = r.below(4); k < n; ++k) extra["X-" + r.word(8)] = r.word(20, "abc :/;=");
        bool refused = false;
        vf::Quiet quiet;
        {
            Thread_ other(found, "net-proxied", [&] {
                TCPSocket s(server.accept("waiting", 40));
                limit(s);
                std::string reply = "HTTP/1.0 " + std::to_string(status) + " it is so\r\n";
                for (auto& e : extra) reply += e.first + ": " + e.second + "\r\n";
                reply += "\r\n";
                s.write(reply.data(), reply.size());
                if (status != 200) return;
                std::string got(data.size(), 0);
                long n = s.read(&got[0], got.size());
                if (n != long(got.size()) || got != data) found.add("net-proxied", "after the header of the request, " + std::to_string(n) + " of " + std::to_string(data.size()) + " bytes came, or others");
                s.write(got.data(), got.size());
            });
            ProxiedTCPClient client("127.0.0.1", proxy.listener.port, 0);
            try {
                TCPSocket& s = client.connect(host, 1234, 1, 0);
                limit(s);
                s.write(data.data(), data.size());
                std::string got(data.size(), 0);
                long n = s.read(&got[0], got.size());
                VF_CHECK(n == long(got.size()) && got == data, "net-proxied", "after the header of the reply, " << n << " of " << data.size() << " bytes came, or others");
            }
            catch (HttpError& e) {
                refused = true;
                VF_EQ(e.status(), status, "net-proxied", "status of the reply");
            }
            client.close();
        }
        VF_EQ(refused, status != 200, "net-proxied", "refused by the proxy with " + std::to_string(status));
        c.count(refused ? "refused by a proxy" : "accepted by a proxy");
        c.eval();
        c.distinct(data + host);
    }
    VF_EQ(descriptors(), before, "net-descriptors", "sockets open afterwards");
    found.report(c);
}

//---------------------------------------------------------------------------------------------------------------------
// Addresses and headers

VF_WORKLOAD(addresses, 3000, 100000) {
    auto& r = c.rng;
    auto text = [](uint32_t a) { return std::to_string(a >> 24) + "." + std::to_string(a >> 16 & 255) + "." + std::to_string(a >> 8 & 255) + "." + std::to_string(a & 255); };
    for (int k = 0; k < 5; ++k) {
        uint32_t a = uint32_t(r.u64()), b = r.chance(0.7) ? a ^ (1u << r.below(32)) : uint32_t(r.u64());
        int bits = r.in(1, 31);
        NetMask mask(text(a) + "/" + std::to_string(bits));
        bool same = (a >> (32 - bits)) == (b >> (32 - bits));
        VF_EQ(mask.contains(IPAddress(text(b))), same, "net-mask", text(a) + "/" + std::to_string(bits) + " contains " + text(b));
        VF_CHECK(mask.contains(IPAddress(text(a))), "net-mask", text(a) << " is not in its network");
        VF_EQ(IPAddress(text(a)).asString(), text(a), "net-address", "address as text");
        VF_EQ(IPAddress(text(a)) == IPAddress(text(b)), a == b, "net-address", "addresses are equal");
        std::ostringstream os;
        os << mask;
        VF_EQ(os.str(), text(a) + "/" + std::to_string(bits), "net-mask", "mask as text");
        c.eval(5);
        c.count("masks");

        int port  = r.in(-10, 65600);
        auto host = r.word(12);
        auto ep   = host + ":" + std::to_string(port);
        bool ok   = port >= 0 && port <= 65535;
        VF_EQ(vf::refuses([&] { Endpoint e(host, port); }), !ok, "net-endpoint", "refused: " + ep);
        VF_EQ(vf::refuses([&] { Endpoint e(ep); }), !ok, "net-endpoint", "refused as text: " + ep);
        if (ok) {
            Endpoint e(ep), f(host, port);
            VF_CHECK(e == f && e.port() == port && e.host() == host, "net-endpoint", ep << " is not what it says");
            VF_CHECK(!(e == Endpoint(host, port ? port - 1 : 1)) && !(e == Endpoint(host + "x", port)), "net-endpoint", ep << " is another");
            Buffer buf(1000);
            MemoryStream out(buf);
            out << e;
            MemoryStream in(buf);
            VF_CHECK(Endpoint(in) == e, "net-endpoint", ep << " is another when sent");
            std::ostringstream o;
            o << e;
            VF_CHECK(Endpoint(o.str()) == e, "net-endpoint", ep << " is another as text " << o.str());
        }
        c.eval(4);
        c.distinct(ep + text(a));
    }
    if (r.chance(0.05)) {
        // headers
        Listener l;
        int raw = rawConnect(l.port);
        TCPClient dummy;
        std::map<std::string, std::string> fields;
        std::ostringstream o;
        HttpHeader out;
        int status = r.pick(std::vector<int>{200, 201, 204, 303, 404, 500, 999});
        out.status(status, r.chance(0.5) ? "" : r.word(10));
        auto body = r.bytes(r.below(200));
        out.content(body.data(), body.size());
        for (int k = 0, n = r.below(5); k < n; ++k) {
            auto key = "X-" + r.word(5), value = r.word(20, "abcdefg:;/= ") + "z";
            out.setHeader(key, "y" + value);
            fields[key] = "y" + value;
        }
        o << out;
        auto s = o.str();
        int fd = l.accept();
        ::close(fd);
        ::close(raw);
        {
            HttpHeader h;
            h.setHeader("Authorization", r.chance(0.5) ? r.word(9) : r.word(3) + " " + r.word(30, "ABCabc019+/= "));
            bool in;
            {
                vf::Quiet quiet;
                in = h.authenticated();
            }
            VF_CHECK(!in, "net-http", "anyone is authenticated");
        }
        // given to a socket
        TCPServer server(SocketOptions::server().bindAddress("127.0.0.1"));
        raw = rawConnect(server.localPort());
        TCPSocket socket(server.accept("waiting", 40));
        limit(socket);
        auto all = s + "more";
        if (::send(raw, all.data(), all.size(), MSG_NOSIGNAL) != ssize_t(all.size())) throw vf::Failure{"harness", "send"};
        ::shutdown(raw, SHUT_WR);
        HttpHeader in(socket);
        for (auto& f : fields) VF_EQ(in.getHeader(f.first), f.second, "net-http", "header " + f.first);
        VF_EQ(in.getHeader("content-LENGTH"), std::to_string(body.size()), "net-http", "length of the content");
        VF_EQ(in.contentLength(), long(body.size()), "net-http", "length of the content, as a number");
        VF_EQ(vf::refuses([&] { in.checkForStatus(); }), status != 200, "net-http", "status " + std::to_string(status) + " refused");
        std::string rest(body.size() + 10, 0);
        long n = socket.read(&rest[0], rest.size());
        VF_CHECK(n == long(body.size() + 4) && rest.substr(0, n) == body + "more", "net-http", "after the header " << n << " bytes are left of " << body.size() + 4);
        ::close(raw);
        c.count("headers");
        c.eval(4);
    }
}

}  // namespace
