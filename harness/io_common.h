// Random trees of data handles whose content is known.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include "eckit/io/AIOHandle.h"
#include "eckit/io/AsyncHandle.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/DblBuffer.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/io/TransferWatcher.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/exception/Exceptions.h"
#include "vf.h"

namespace vfio {
using namespace eckit;

inline void spill(const std::string& path, const std::string& s) {
    std::ofstream f(path, std::ios::binary);
    f.write(s.data(), s.size());
}
inline std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

struct InjectedError : public std::runtime_error {
    using std::runtime_error::runtime_error;
};

/// A source that may return short reads, and may fail or ask for a restart at given offsets
class Source : public DataHandle {
public:
    std::string data;
    size_t pos = 0;
    vf::Rng rng{1};
    bool shortReads = false;
    long failAt     = -1;  ///< throw when the read position reaches this
    bool failByReturn = false;
    std::vector<std::pair<size_t, size_t>> restarts;  ///< (when read passes, restart from)
    bool isOpen = false;
    bool estimates = true;
    long wrongBy   = 0;
    int opens = 0, closes = 0;
    explicit Source(const std::string& d) : data(d) {}
    Length openForRead() override {
        pos    = 0;
        isOpen = true;
        ++opens;
        return estimate();
    }
    Length estimate() override { return estimates ? Length(long(data.size()) + wrongBy) : Length(0); }
    Length size() override { return data.size(); }
    long read(void* b, long n) override {
        if (!isOpen) throw std::runtime_error("Source: read on a closed handle");
        size_t m = std::min<size_t>(n, data.size() - pos);
        if (shortReads && m > 1) m = 1 + rng.below(m);
        if (failAt >= 0 && long(pos + m) > failAt) {
            if (long(pos) >= failAt) {
                if (failByReturn) return -1;
                throw InjectedError("injected read error");
            }
            m = failAt - pos;
        }
        if (!restarts.empty() && pos + m > restarts.front().first) {
            auto r = restarts.front();
            restarts.erase(restarts.begin());
            throw RestartTransfer(Offset(std::min(r.second, pos)));
        }
        ::memcpy(b, data.data() + pos, m);
        pos += m;
        return m;
    }
    void close() override {
        isOpen = false;
        ++closes;
    }
    void rewind() override { pos = 0; }
    Offset position() override { return pos; }
    Offset seek(const Offset& o) override {
        pos = (long long)o;
        return o;
    }
    bool canSeek() const override { return true; }
    void restartReadFrom(const Offset& o) override { pos = (long long)o; }
    void print(std::ostream& s) const override { s << "Source"; }
    DataHandle* clone() const override { return new Source(data); }
};

/// A sink that records what it got, may fail at a given byte, may ask for restarts
class Sink : public DataHandle {
public:
    std::string data;
    bool isOpen = false;
    long failAt = -1;
    enum How { Throw, Short, Negative } how = Throw;
    std::vector<std::pair<size_t, size_t>> restarts;
    bool flushed = false;
    int opens = 0, closes = 0;
    long delayUs = 0;
    vf::Rng rng{1};
    size_t pos = 0;
    bool failClose = false;
    void openForWrite(const Length&) override {
        data.clear();
        pos = 0;
        isOpen = true;
        ++opens;
    }
    void openForAppend(const Length&) override {
        pos = data.size();
        isOpen = true;
        ++opens;
    }
    long write(const void* b, long n) override {
        if (!isOpen) throw std::runtime_error("Sink: write on a closed handle");
        if (delayUs && rng.chance(0.3)) ::usleep(rng.below(delayUs));
        if (failAt >= 0 && long(pos + n) > failAt) {
            if (how == Throw) throw InjectedError("injected write error");
            if (how == Negative) return -1;
            long m = failAt - pos;
            put(b, m);
            return m;
        }
        if (!restarts.empty() && pos + n > restarts.front().first) {
            auto r = restarts.front();
            restarts.erase(restarts.begin());
            throw RestartTransfer(Offset(std::min(r.second, pos)));
        }
        put(b, n);
        flushed = false;
        return n;
    }
    void put(const void* b, long n) {
        if (data.size() < pos + n) data.resize(pos + n);
        ::memcpy(&data[pos], b, n);
        pos += n;
    }
    void flush() override { flushed = true; }
    void close() override {
        isOpen = false;
        ++closes;
        if (failClose) throw InjectedError("injected close error");
    }
    Offset position() override { return pos; }
    Offset seek(const Offset& o) override {
        pos = (long long)o;
        return o;
    }
    bool canSeek() const override { return true; }
    void restartWriteFrom(const Offset& o) override {
        pos = (long long)o;
        data.resize(pos);
    }
    void print(std::ostream& s) const override { s << "Sink"; }
    Length estimate() override { return data.size(); }
    Length size() override { return data.size(); }
    void rewind() override { pos = 0; }
};

enum Cap { SEEK = 1, POS = 2, REWIND = 4, SIZE = 8, CLONE = 16, STREAM = 32, RESTART = 64, SKIP = 128, REOPEN = 256, ESTIMATE = 512, CANSEEK = 1024 };

struct Node {
    DataHandle* h = nullptr;
    std::string data;
    int caps = 0;
    std::string desc;
};

struct Gen {
    vf::Case& c;
    vf::Rng& r;
    long serial = 0;
    std::vector<std::string*> strings;
    std::vector<std::unique_ptr<Buffer>> buffers;
    std::vector<std::pair<std::string, std::string>> cut;  // files used in parts
    explicit Gen(vf::Case& c) : c(c), r(c.rng) {}
    ~Gen() {
        for (auto s : strings) delete s;
    }
    std::string file() { return c.scratch + "/f" + std::to_string(serial++); }
    size_t len() {
        switch (r.below(8)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return r.below(10);
            case 3: return 4096 + r.in(-2, 2);
            case 4: return r.below(9000);
            default: return r.below(300);
        }
    }
    /// content in which every position is recognisable
    std::string content(size_t n) {
        std::string s(n, 0);
        uint64_t seed = r.u64();
        for (size_t i = 0; i < n; ++i) s[i] = char(vf::mix(seed + i / 8) >> (8 * (i % 8)));
        return s;
    }
    /// segments of a file of size n; the bytes they select
    std::string parts(const std::string& all, OffsetList& o, LengthList& l, bool overlap) {
        std::string out;
        size_t k = r.below(6) + (overlap ? 0 : 1), at = 0;
        for (size_t i = 0; i < k; ++i) {
            size_t off = overlap ? r.below(all.size() + 1) : at + (r.chance(0.4) ? 0 : r.below(20));
            off        = std::min(off, all.size());
            size_t n   = r.chance(0.15) ? 0 : std::min<size_t>(r.below(200), all.size() - off);
            o.push_back(Offset(off));
            l.push_back(Length(n));
            out += all.substr(off, n);
            at = off + n;
        }
        return out;
    }
    Node leaf() {
        Node n;
        int kind = r.below(11);
        n.data   = content(len());
        switch (kind) {
            case 0:
            case 1: {
                std::string f = file();
                spill(f, n.data);
                n.h    = new FileHandle(f);
                n.caps = SEEK | POS | REWIND | SIZE | CLONE | STREAM | RESTART | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc = "File";
                break;
            }
            case 2: {
                strings.push_back(new std::string(n.data));
                if (r.chance(0.5)) n.h = new MemoryHandle(static_cast<const void*>(strings.back()->data()), n.data.size());
                else {
                    buffers.push_back(std::make_unique<Buffer>(strings.back()->data(), n.data.size()));
                    if (r.chance(0.5)) n.h = new MemoryHandle(*buffers.back());
                    else n.h = new MemoryHandle(static_cast<const Buffer&>(*buffers.back()));
                }
                n.caps = SEEK | POS | REWIND | SIZE | CLONE | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc = "Memory";
                break;
            }
            case 3:
            case 4: {
                // (parts of a file that others have parts of can be merged with them)
                if (cut.empty() || r.chance(0.4)) {
                    cut.emplace_back(file(), content(1 + r.below(2000)));
                    spill(cut.back().first, cut.back().second);
                }
                std::string f   = cut[r.chance(0.7) ? cut.size() - 1 : r.below(cut.size())].first;
                std::string all = std::find_if(cut.begin(), cut.end(), [&](auto& e) { return e.first == f; })->second;
                OffsetList o;
                LengthList l;
                if (r.chance(0.2)) {
                    size_t off = r.below(all.size()), k = r.below(all.size() - off + 1);
                    n.data = all.substr(off, k);
                    n.h    = new PartFileHandle(f, Offset(off), Length(k));
                }
                else {
                    n.data = parts(all, o, l, r.chance(0.5));
                    n.h    = new PartFileHandle(f, o, l);
                }
                n.caps = SEEK | POS | REWIND | SIZE | CLONE | STREAM | RESTART | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc = "PartFile";
                break;
            }
            case 5: {
                std::string f = file();
                spill(f, n.data);
                n.h    = new MMappedFileHandle(f);
                n.caps = SEEK | POS | REWIND | SIZE | CLONE | STREAM | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc = "MMap";
                break;
            }
            case 6: {
                std::string f = file();
                spill(f, n.data);
                n.h    = new PooledHandle(f);
                n.caps = SEEK | POS | SKIP | REOPEN | CANSEEK | ESTIMATE;
                n.desc = "Pooled";
                break;
            }
            case 7: {
                std::string f = file();
                spill(f, n.data);
                int fd = ::open(f.c_str(), O_RDONLY);
                n.h    = new FileDescHandle(fd, true);
                n.caps = SEEK | POS | SKIP | CANSEEK;
                n.desc = "FileDesc";
                break;
            }
            case 8: {
                auto s        = new Source(n.data);
                s->shortReads = true;
                s->rng        = vf::Rng(r.u64());
                n.h           = s;
                n.caps        = SEEK | POS | REWIND | SIZE | CLONE | RESTART | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc        = "ShortReads";
                break;
            }
            case 9: {
                std::string f = file();
                spill(f, n.data);
                n.h    = new RawFileHandle(f);
                n.caps = SEEK | POS | SKIP | SIZE | ESTIMATE | REOPEN | CANSEEK;
                n.desc = "RawFile";
                break;
            }
            default: {
                n.data.clear();
                n.h    = new EmptyHandle();
                n.caps = SEEK | POS | REWIND | ESTIMATE | STREAM | REOPEN | CANSEEK;
                n.desc = "Empty";
                break;
            }
        }
        n.desc += ":" + std::to_string(n.data.size());
        return n;
    }
    Node tree(int depth) {
        if (depth <= 0 || r.chance(0.25)) return leaf();
        Node n;
        switch (r.below(7)) {
            case 0:
            case 1: {
                std::vector<DataHandle*> v;
                size_t k = r.below(5);
                n.caps   = SEEK | POS | REWIND | SIZE | CLONE | STREAM | RESTART | SKIP | REOPEN | ESTIMATE | CANSEEK;
                n.desc   = "Multi[";
                auto mh  = new MultiHandle();
                for (size_t i = 0; i < k; ++i) {
                    Node a = tree(depth - 1);
                    if (a.desc.compare(0, 5, "Stats") == 0) {  // cannot be merged
                        a.h = new BufferedHandle(a.h, 10);
                        a.caps &= (SEEK | POS | SKIP | REWIND | REOPEN | ESTIMATE | CANSEEK);
                    }
                    *mh += a.h;
                    n.data += a.data;
                    n.caps &= a.caps;
                    n.desc += (i ? "," : "") + a.desc;
                }
                n.desc += "]";
                // seeking and positions inside a multi-handle are made from the sizes of the parts
                if (!(n.caps & SIZE)) n.caps &= ~(SEEK | POS | SKIP);
                if (!(n.caps & REOPEN)) n.caps &= ~(SEEK | REWIND | RESTART | SKIP);
                n.h = mh;
                return n;
            }
            case 2:
            case 3: {
                Node a   = tree(depth - 1);
                size_t b = r.pick(std::vector<size_t>{1, 2, 7, 64, 1000, 4096, 100000});
                n.h      = new BufferedHandle(a.h, b);
                n.data   = a.data;
                n.caps   = (a.caps & (SEEK | REWIND | REOPEN | ESTIMATE | CLONE | CANSEEK)) | POS;
                if (a.caps & SEEK) n.caps |= SKIP;
                n.desc = "Buffered" + std::to_string(b) + "(" + a.desc + ")";
                return n;
            }
            case 4: {
                Node a = tree(depth - 1);
                n.h    = new PeekHandle(a.h);
                n.data = a.data;
                n.caps = a.caps & (SEEK | POS | REWIND | SIZE | REOPEN | ESTIMATE | CANSEEK);
                n.desc = "Peek(" + a.desc + ")";
                return n;
            }
            case 5: {
                Node a = tree(depth - 1);
                if (!(a.caps & SEEK) || a.desc.find("ShortReads") != std::string::npos || !(a.caps & REOPEN)) return a;
                OffsetList o;
                LengthList l;
                if (r.chance(0.3)) {
                    size_t off = r.below(a.data.size() + 1), k = r.below(a.data.size() - off + 1);
                    n.data = a.data.substr(off, k);
                    n.h    = new PartHandle(a.h, Offset(off), Length(k));
                }
                else {
                    n.data = parts(a.data, o, l, true);
                    n.h    = new PartHandle(a.h, o, l);
                }
                n.caps = REWIND | RESTART | REOPEN | ESTIMATE | (a.caps & STREAM);
                n.desc = "Part" + std::to_string(n.data.size()) + "(" + a.desc + ")";
                return n;
            }
            default: {
                Node a = tree(depth - 1);
                n      = a;
                n.h    = new StatsHandle(a.h);
                n.caps &= ~(STREAM | CLONE | SIZE);
                n.desc = "Stats(" + a.desc + ")";
                return n;
            }
        }
    }
};

}  // namespace vfio
