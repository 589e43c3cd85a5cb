// Reading through any composition of data handles: the same bytes as the reference string.
#include "io_common.h"
#include "eckit/io/PooledFile.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"

using namespace eckit;
using namespace vfio;

namespace {

using vf::Quiet;

std::string readAll(DataHandle& h, vf::Rng& r) {
    std::string out;
    std::vector<char> b(1 + r.below(5000));
    for (;;) {
        long want = 1 + r.below(b.size());
        long n    = h.read(b.data(), want);
        if (n <= 0) break;
        out.append(b.data(), n);
    }
    return out;
}

std::string diff(const std::string& got, const std::string& want) {
    std::ostringstream o;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    o << "got " << got.size() << " bytes, expected " << want.size() << ", first difference at " << i;
    return o.str();
}

void exercise(vf::Case& c, Node& n) {
    auto& r      = c.rng;
    DataHandle& h = *n.h;
    size_t pos = 0;
    const std::string& D = n.data;
    auto openIt = [&]() {
        Length e = h.openForRead();
        if (n.caps & ESTIMATE) VF_EQ((long long)e, (long long)D.size(), "read-estimate", "openForRead() on " << n.desc);
        pos = 0;
    };
    openIt();
    long ops = 3 + r.below(40);
    std::vector<char> buf(20000);
    for (long i = 0; i < ops; ++i) {
        c.eval();
        switch (r.below(9)) {
            case 0:
                if (n.caps & SEEK) {
                    size_t to = r.chance(0.1) ? D.size() : r.below(D.size() + 1);
                    c.trace() << "seek " << to << "\n";
                    Offset o = h.seek(Offset(to));
                    if (n.desc.find("Empty") == std::string::npos || D.size()) VF_EQ((long long)o, (long long)to, "read-seek", "seek() on " << n.desc);
                    pos = to;
                    c.count("seeks");
                }
                break;
            case 1:
                if (n.caps & SKIP) {
                    size_t k = r.below(std::min<size_t>(D.size() - pos, 300) + 1);
                    c.trace() << "skip " << k << "\n";
                    h.skip(Length(k));
                    pos += k;
                    c.count("skips");
                }
                break;
            case 2:
                if ((n.caps & REWIND) && r.chance(0.5)) {
                    c.trace() << "rewind\n";
                    h.rewind();
                    pos = 0;
                    c.count("rewinds");
                }
                break;
            case 3:
                if ((n.caps & RESTART) && pos <= D.size() && D.size()) {
                    size_t to = r.below(D.size());
                    c.trace() << "restart " << to << "\n";
                    h.restartReadFrom(Offset(to));
                    pos = to;
                    c.count("restarts");
                }
                break;
            case 4:
                if ((n.caps & REOPEN) && r.chance(0.4)) {
                    c.trace() << "reopen\n";
                    h.close();
                    openIt();
                    c.count("reopens");
                }
                break;
            case 5:
                if (n.caps & SIZE) VF_EQ((long long)h.size(), (long long)D.size(), "read-size", "size() of " << n.desc);
                if (n.caps & CANSEEK) VF_CHECK(h.canSeek() || !(n.caps & SEEK), "read-canseek", "canSeek()");
                if (n.caps & ESTIMATE) VF_EQ((long long)h.estimate(), (long long)D.size(), "read-estimate", "estimate() of " << n.desc);
                break;
            default: {
                long want = r.chance(0.1) ? 1 : r.chance(0.1) ? 15000 : r.below(400) + 1;
                c.trace() << "read " << want << " at " << pos << "\n";
                memset(buf.data(), 0x5a, want + 8);
                long got = h.read(buf.data(), want);
                long left = D.size() - pos;
                VF_CHECK(got >= 0 && got <= want, "read-count", "read(" << want << ") returned " << got << " on " << n.desc);
                VF_CHECK(got <= left, "read-count", "read past the end: " << got << " with " << left << " left on " << n.desc);
                VF_CHECK(got > 0 || left == 0, "read-eof", "read() returned 0 with " << left << " bytes left on " << n.desc);
                VF_CHECK(memcmp(buf.data(), D.data() + pos, got) == 0, "read-bytes", "wrong bytes at " << pos << " on " << n.desc);
                for (int k = 0; k < 8; ++k) VF_CHECK(buf[want + k] == 0x5a, "read-overrun", "read() wrote past the buffer on " << n.desc);
                pos += got;
                c.count("reads");
                c.count("bytes", got);
            }
        }
        if (n.caps & POS) VF_EQ((long long)h.position(), (long long)pos, "read-position", "position() on " << n.desc);
    }
    std::string rest = readAll(h, r);
    VF_CHECK(rest == D.substr(pos), "read-bytes", "rest of " << n.desc << ": " << diff(rest, D.substr(pos)));
    h.close();
}

}  // namespace

VF_WORKLOAD(handle_trees, 15000, 150000) {
    Quiet q;
    Gen g(c);
    Node n = g.tree(1 + c.rng.below(3));
    std::unique_ptr<DataHandle> own(n.h);
    c.trace() << n.desc << "\n";
    exercise(c, n);
    auto& r = c.rng;
    if (n.caps & REOPEN) {
        if ((n.caps & CLONE) && r.chance(0.5)) {
            std::unique_ptr<DataHandle> k(n.h->clone());
            k->openForRead();
            std::string got = readAll(*k, r);
            k->close();
            VF_CHECK(got == n.data, "clone", "clone of " << n.desc << ": " << diff(got, n.data));
            c.count("clones");
        }
        if ((n.caps & STREAM) && r.chance(0.5)) {
            Buffer b(1024);
            {
                ResizableMemoryStream s(b);
                s << *n.h;
            }
            MemoryStream s(b);
            std::unique_ptr<DataHandle> k(Reanimator<DataHandle>::reanimate(s));
            VF_CHECK(k, "reanimate", "cannot be read back from a stream: " << n.desc);
            k->openForRead();
            std::string got = readAll(*k, r);
            k->close();
            VF_CHECK(got == n.data, "reanimate", "handle read back from a stream, " << n.desc << ": " << diff(got, n.data));
            c.count("reanimated");
        }
        if (r.chance(0.5)) {
            bool tofile = r.chance(0.5);
            std::string out = g.file();
            Sink sink;
            Length l;
            bool ok = (n.caps & ESTIMATE) || n.data.empty() || n.h->estimate() == Length(0);
            if (ok) {
                if (r.chance(0.5)) {
                    l = tofile ? n.h->saveInto(PathName(out)) : n.h->saveInto(sink);
                }
                else {
                    long bs = 1 + r.below(5000);
                    std::unique_ptr<DataHandle> f(PathName(out).fileHandle());
                    if (r.chance(0.3) && n.data.size() > 1 && (n.caps & ESTIMATE)) {
                        long m = 1 + r.below(n.data.size());
                        l      = n.h->copyTo(tofile ? *f : sink, bs, Length(m));
                        VF_EQ((long long)l, (long long)m, "copyTo", "bytes copied with a maximum");
                        n.data.resize(m);
                    }
                    else {
                        l = n.h->copyTo(tofile ? *f : sink, bs);
                    }
                }
                std::string got = tofile ? slurp(out) : sink.data;
                VF_CHECK(got == n.data, "save", "copy of " << n.desc << ": " << diff(got, n.data));
                VF_EQ((long long)l, (long long)n.data.size(), "save", "returned length");
                c.count("saved");
            }
        }
    }
    if (n.data.size() > 0) c.distinct(n.desc);
}

// several clients of the same pooled file, interleaved
template <class H>
static void pooledClients(vf::Case& c) {
    auto& r = c.rng;
    Gen g(c);
    std::vector<std::string> files, data;
    for (int i = 0; i < 3; ++i) {
        data.push_back(g.content(1 + r.below(6000)));
        files.push_back(g.file());
        spill(files[i], data[i]);
    }
    struct Client {
        int f;
        std::unique_ptr<H> h;
        size_t pos;
        bool open;
    };
    std::vector<Client> cl;
    std::vector<char> buf(8000);
    for (int i = 0; i < 200; ++i) {
        if (cl.size() < 2 || (cl.size() < 7 && r.chance(0.1))) {
            int f = r.below(3);
            cl.push_back({f, std::make_unique<H>(files[f]), 0, false});
            continue;
        }
        auto& k = cl[r.below(cl.size())];
        if (!k.open) {
            VF_EQ((long long)k.h->openForRead(), (long long)data[k.f].size(), "pooled-estimate", "openForRead()");
            k.open = true;
            k.pos  = 0;
            continue;
        }
        c.eval();
        switch (r.below(8)) {
            case 0: {
                k.pos = r.chance(0.2) ? data[k.f].size() * r.below(2) : r.below(data[k.f].size() + 1);
                VF_EQ((long long)k.h->seek(Offset(k.pos)), (long long)k.pos, "pooled-seek", "seek()");
                break;
            }
            case 1:
                if (r.chance(0.3)) {
                    k.h->close();
                    k.open = false;
                }
                break;
            case 2:
                if (r.chance(0.2)) {
                    if (k.open) k.h->close();
                    std::swap(k, cl.back());
                    cl.pop_back();
                }
                break;
            case 3: VF_EQ((long long)k.h->position(), (long long)k.pos, "pooled-position", "position() of one of several readers"); break;
            default: {
                long want = 1 + r.below(3000);
                long got  = k.h->read(buf.data(), want);
                long exp  = std::min<long>(want, data[k.f].size() - k.pos);
                VF_EQ(got, exp, "pooled-read", "bytes read");
                VF_CHECK(memcmp(buf.data(), data[k.f].data() + k.pos, got) == 0, "pooled-read", "wrong bytes at " << k.pos);
                k.pos += got;
                c.count("pooled_reads");
            }
        }
    }
    c.distinct(r.state());
}

VF_WORKLOAD(pooled, 150, 2000) {
    pooledClients<PooledHandle>(c);
}

// the same for files shared by name
struct PooledFileClient {
    PathName p;
    PooledFile f;
    long long at = 0;
    explicit PooledFileClient(const std::string& n) : p(n), f(p) {}
    Length openForRead() {
        f.open();
        at = 0;
        return p.size();
    }
    Offset seek(Offset o) {
        long long end = p.size();
        return at = o == Offset(0) ? f.rewind() : o == Offset(end) ? f.seekEnd() : f.seek(o);
    }
    void close() { f.close(); }
    Offset position() { return f.seek(at); }
    long read(void* b, long n) {
        long got = f.read(b, n);
        at += got;
        return got;
    }
};

VF_WORKLOAD(pooled_files, 150, 2000) {
    pooledClients<PooledFileClient>(c);
}

// look-ahead: peeking does not consume, whatever the mix of peeks and reads
VF_WORKLOAD(peek_seekable, 400, 6000) {
    auto& r = c.rng;
    Gen g(c);
    std::string D = g.content(1 + r.below(3000));
    auto src      = new Source(D);
    src->shortReads = r.chance(0.7);
    src->rng        = vf::Rng(r.u64());
    PeekHandle p(src);
    std::vector<char> buf(4000);
    p.openForRead();
    if (r.chance(0.5)) {
        size_t pos = 0, peeked = 0;
        for (int i = 0; i < 60; ++i) {
            c.eval();
            switch (r.below(5)) {
                case 0: {
                    size_t k = r.below(60);
                    if (pos + k < D.size()) {
                        VF_EQ((int)p.peek(k), (int)(unsigned char)D[pos + k], "peek", "peek(" << k << ") at " << pos);
                        peeked = std::max(peeked, k + 1);
                    }
                    else {
                        bool threw = false;
                        try { p.peek(k); } catch (std::exception&) { threw = true; }
                        VF_CHECK(threw, "peek", "peek() past the end did not fail");
                        peeked = D.size() - pos;
                    }
                    break;
                }
                case 1: {
                    size_t at = r.below(std::min<size_t>(40, D.size() - pos + 1)), n = 1 + r.below(200);
                    long got = p.peek(buf.data(), n, at);
                    long exp = std::min<long>(n, D.size() - pos - at);
                    VF_EQ(got, exp, "peek", "peek(buffer) length");
                    VF_CHECK(memcmp(buf.data(), D.data() + pos + at, got) == 0, "peek", "peek(buffer) bytes");
                    peeked = std::max<size_t>(peeked, at + got);
                    break;
                }
                case 2: {
                    size_t k = r.below(p.peeked() + 1);
                    p.skip(Length(k));
                    pos += k;
                    peeked -= std::min(peeked, k);
                    break;
                }
                default: {
                    long n   = 1 + r.below(100);
                    long got = p.read(buf.data(), n);
                    VF_CHECK(got >= 0 && got <= n && (got > 0 || pos == D.size()), "peek-read", "read() returned " << got);
                    VF_CHECK(memcmp(buf.data(), D.data() + pos, got) == 0, "peek-read", "bytes after peeking");
                    pos += got;
                    peeked -= std::min<size_t>(peeked, got);
                }
            }
            VF_CHECK(p.peeked() >= peeked, "peek", "peeked() lost bytes");
            VF_EQ((long long)p.position(), (long long)pos, "peek-position", "position()");
        }
    }
    else {
        SeekableHandle s(p);
        s.openForRead();
        size_t pos = 0, high = 0, start = 0;
        for (int i = 0; i < 60; ++i) {
            c.eval();
            switch (r.below(6)) {
                case 0:
                    if (r.chance(0.2)) {
                        s.clear();
                        start = pos = high;
                    }
                    break;
                case 1:
                    pos = start + r.below(high - start + 1);
                    VF_EQ((long long)s.seek(Offset(pos)), (long long)pos, "seekable", "seek()");
                    break;
                case 2: {
                    size_t k = r.below(high - pos + 1);
                    s.skip(Length(k));
                    pos += k;
                    break;
                }
                default: {
                    long n   = 1 + r.below(100);
                    long got = s.read(buf.data(), n);
                    VF_EQ(got, std::min<long>(n, D.size() - pos), "seekable", "read() length");
                    VF_CHECK(memcmp(buf.data(), D.data() + pos, got) == 0, "seekable", "bytes at " << pos);
                    pos += got;
                    high = std::max(high, pos);
                }
            }
            VF_EQ((long long)s.position(), (long long)pos, "seekable", "position()");
        }
    }
    p.close();
    c.count("peek_cases");
    c.distinct(r.state());
}
