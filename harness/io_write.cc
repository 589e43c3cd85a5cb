// Writing through any composition of data handles: every byte lands where it should, or somebody is told.
#include "io_common.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN true
#endif
#endif
#ifndef VF_TSAN
#define VF_TSAN false
#endif

using namespace eckit;
using namespace vfio;

namespace {

using vf::Quiet;

struct Expect {
    std::function<std::string()> get;
    size_t from, to;  // which part of the written bytes
    std::string prefix;
    std::string desc;
};

struct Out {
    DataHandle* h = nullptr;
    std::vector<Expect> leaves;
    std::string desc;
    bool flushable = true;
    bool reusable  = true;
};

struct WGen : Gen {
    using Gen::Gen;
    Out leaf(size_t from, size_t to, bool append) {
        Out o;
        std::string f = file();
        std::string prefix;
        auto fileExpect = [&]() { o.leaves.push_back({[f]() { return slurp(f); }, from, to, prefix, o.desc}); };
        int k = append ? (r.chance(0.5) ? 0 : 3) : r.below(7);
        if (append) {
            prefix = content(r.below(300));
            spill(f, prefix);
        }
        switch (k) {
            case 0:
                if (!append && r.chance(0.4)) spill(f, content(r.below(5000)));  // replaced
                o.h    = new FileHandle(f);
                o.desc = "File";
                fileExpect();
                break;
            case 1:
                spill(f, content(to - from));
                o.h    = new FileHandle(f, true);
                o.desc = "FileOverwrite";
                fileExpect();
                break;
            case 2: {
                auto m = new MemoryHandle(r.chance(0.5) ? r.below(100) + 1 : 1024 * 1024, true);
                o.h    = m;
                o.desc = "Memory";
                o.leaves.push_back({[m]() { return std::string((const char*)m->data(), (size_t)m->size()); }, from, to, prefix, o.desc});
                break;
            }
            case 3: {
                if (!append && r.chance(0.4)) spill(f, content(r.below(5000)));
                // glibc's threads for AIO are unknown to the thread sanitizer, which fails in them
                o.h    = VF_TSAN ? static_cast<DataHandle*>(new FileHandle(f)) : new AIOHandle(f, 1 + r.below(5), 1024, r.chance(0.2));
                o.desc = "AIO";
                fileExpect();
                break;
            }
            case 4: {
                auto s    = new Sink();
                s->delayUs = 100;
                o.h       = s;
                o.desc    = "Sink";
                o.leaves.push_back({[s]() { return s->data; }, from, to, prefix, o.desc});
                break;
            }
            case 5: {
                o.h         = new RawFileHandle(f);
                o.desc      = "RawFile";
                o.flushable = false;
                fileExpect();
                break;
            }
            default: {
                int fd      = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
                o.h         = new FileDescHandle(fd, true);
                o.desc      = "FileDesc";
                o.flushable = false;
                o.reusable  = false;
                fileExpect();
                break;
            }
        }
        return o;
    }
    Out tree(size_t from, size_t to, int depth, bool append) {
        if (depth <= 0 || r.chance(0.2)) return leaf(from, to, append);
        Out o;
        if (append) {
            o   = tree(from, to, depth - 1, append);
            o.h = new AsyncHandle(o.h, 1 + r.below(5000), 1 + r.below(500));
            o.desc = "Async(" + o.desc + ")";
            return o;
        }
        switch (r.below(6)) {
            case 0:
            case 1: {
                o      = tree(from, to, depth - 1, append);
                o.h    = new BufferedHandle(o.h, r.pick(std::vector<size_t>{1, 3, 64, 1000, 100000}));
                o.desc = "Buffered(" + o.desc + ")";
                return o;
            }
            case 2: {
                o      = tree(from, to, depth - 1, append);
                o.h    = new AsyncHandle(o.h, 1 + r.below(5000), 1 + r.below(500));
                o.desc = "Async(" + o.desc + ")";
                if (!o.flushable) {
                    // closing needs a flush
                    o.desc += "!";
                }
                return o;
            }
            case 3: {
                size_t k = 1 + r.below(3);
                auto t   = new TeeHandle();
                o.desc   = "Tee[";
                for (size_t i = 0; i < k; ++i) {
                    Out a = tree(from, to, depth - 1, append);
                    *t += a.h;
                    for (auto& e : a.leaves) o.leaves.push_back(e);
                    o.desc += a.desc + " ";
                    o.flushable &= a.flushable;
                    o.reusable &= a.reusable;
                }
                o.desc += "]";
                o.h = t;
                return o;
            }
            case 4: {
                std::vector<DataHandle*> v;
                LengthList l;
                size_t k = 1 + r.below(4), at = from;
                o.desc   = "Multi[";
                for (size_t i = 0; i < k; ++i) {
                    size_t n = i + 1 == k ? to - at : r.chance(0.15) ? 0 : r.below(to - at + 1);
                    Out a    = tree(at, at + n, depth - 1, append);
                    v.push_back(a.h);
                    l.push_back(Length(n));
                    at += n;
                    for (auto& e : a.leaves) {
                        // a part that gets no bytes may never be opened
                        if (n) o.leaves.push_back(e);
                    }
                    o.desc += std::to_string(n) + ":" + a.desc + " ";
                    o.flushable = false;
                    o.reusable &= a.reusable;
                }
                o.desc += "]";
                auto mh = new MultiHandle(v);
                for (auto& k : l) *mh += k;
                o.h = mh;
                return o;
            }
            default: {
                o      = tree(from, to, depth - 1, append);
                o.h    = new StatsHandle(o.h);
                o.desc = "Stats(" + o.desc + ")";
                return o;
            }
        }
    }
};

}  // namespace

VF_WORKLOAD(write_trees, 2500, 20000) {
    Quiet q;
    auto& r = c.rng;
    WGen g(c);
    std::string D = g.content(g.len());
    bool append   = r.chance(0.2);
    Out o         = g.tree(0, D.size(), r.below(4), append);
    std::unique_ptr<DataHandle> own(o.h);
    c.trace() << o.desc << " " << D.size() << (append ? " append" : "") << "\n";
    // an asynchronous writer flushes its target when it is closed
    if (o.desc.find("Async") != std::string::npos && (o.desc.find("RawFile") != std::string::npos || o.desc.find("FileDesc") != std::string::npos)) return;
    int rounds = o.reusable && r.chance(0.2) ? 2 : 1;
    for (int round = 0; round < rounds; ++round) {
        if (append && round) break;
        if (round && o.desc.find("Memory") != std::string::npos) break;  // keeps its previous size
        if (round && o.desc.find("RawFile") != std::string::npos) break;
        if (append) o.h->openForAppend(Length(D.size()));
        else o.h->openForWrite(Length(D.size()));
        size_t pos = 0;
        while (pos < D.size()) {
            c.eval();
            long n = std::min<long>(D.size() - pos, 1 + r.below(r.pick(std::vector<long>{1, 10, 300, 5000})));
            // the caller's buffer is its own again as soon as write() returns
            std::string tmp = D.substr(pos, n);
            VF_EQ(o.h->write(&tmp[0], n), n, "write-count", "write() on " << o.desc);
            memset(&tmp[0], '?', n);
            pos += n;
            c.count("writes");
            if (o.flushable && r.chance(0.05)) {
                o.h->flush();
                c.count("flushes");
                for (auto& e : o.leaves) {
                    std::string got = e.get(), want = e.prefix + D.substr(e.from, std::min(e.to, pos) - e.from);
                    if (e.desc == "FileOverwrite") got.resize(want.size());
                    VF_CHECK(got == want, "flush", "after flush(), " << e.desc << " of " << o.desc << " holds " << got.size() << " bytes, expected " << want.size());
                }
            }
        }
        if (o.flushable && r.chance(0.2)) o.h->flush();
        o.h->close();
        for (auto& e : o.leaves) {
            std::string got = e.get(), want = e.prefix + D.substr(e.from, e.to - e.from);
            VF_CHECK(got == want, "close", "after close(), " << e.desc << " of " << o.desc << " holds " << got.size() << " bytes, expected " << want.size());
            c.count("leaves");
        }
    }
    if (D.size()) c.distinct(o.desc);
}

// seeking while writing
VF_WORKLOAD(write_seek, 600, 6000) {
    Quiet q;
    auto& r = c.rng;
    Gen g(c);
    std::string model, f = g.file();
    DataHandle* h;
    std::function<std::string()> get = [&]() { return slurp(f); };
    int kind = r.below(3);
    Sink* s  = nullptr;
    MemoryHandle* m = nullptr;
    if (kind == 0) h = new FileHandle(f);
    else if (kind == 1) {
        h   = m = new MemoryHandle(1 + r.below(50), true);
        get = [m]() { return std::string((const char*)m->data(), (size_t)m->size()); };
    }
    else {
        h   = s = new Sink();
        get = [s]() { return s->data; };
    }
    bool buffered = r.chance(0.6);
    if (buffered) h = new BufferedHandle(h, r.pick(std::vector<size_t>{1, 7, 64, 1000}));
    if (r.chance(0.2)) h = new StatsHandle(h);
    std::unique_ptr<DataHandle> own(h);
    h->openForWrite(Length(0));
    size_t pos = 0;
    for (int i = 0; i < 40; ++i) {
        c.eval();
        if (r.chance(0.3)) {
            pos = r.below(model.size() + 1);
            VF_EQ((long long)h->seek(Offset(pos)), (long long)pos, "write-seek", "seek() while writing");
            c.count("write_seeks");
        }
        else if (r.chance(0.05)) {
            h->rewind();
            pos = 0;
        }
        else {
            std::string b = g.content(1 + r.below(200));
            VF_EQ(h->write(b.data(), b.size()), (long)b.size(), "write-count", "write()");
            if (model.size() < pos + b.size()) model.resize(pos + b.size());
            std::copy(b.begin(), b.end(), model.begin() + pos);
            pos += b.size();
        }
        VF_EQ((long long)h->position(), (long long)pos, "write-position", "position() while writing");
        if (r.chance(0.05)) {
            h->flush();
            VF_CHECK(get() == model, "flush", "content after flush()");
        }
    }
    h->close();
    std::string got = get();
    VF_CHECK(got == model, "write-seek", "kind " << kind << (buffered ? " buffered" : "") << ": content differs after writes and seeks: " << got.size() << " bytes, expected " << model.size());
    c.distinct(r.state());
}

// a target that fails: the writer is told before close() returns, or the data is there
VF_WORKLOAD(write_fail, 800, 8000) {
    Quiet q;
    auto& r = c.rng;
    Gen g(c);
    std::string D = g.content(1 + r.below(4000));
    auto s        = new Sink();
    s->failAt     = r.below(D.size());
    s->how        = Sink::How(r.below(3));
    s->delayUs    = 50;
    bool aio      = r.chance(0.1) && !VF_TSAN;
    DataHandle* h = s;
    std::string desc = "Sink";
    if (aio) {
        delete s;
        s    = nullptr;
        h    = new AIOHandle("/dev/full", 1 + r.below(4));
        desc = "AIO";
    }
    int depth = 1 + r.below(3);
    for (int d = 0; d < depth; ++d) {
        switch (r.below(4)) {
            case 0: h = new BufferedHandle(h, r.pick(std::vector<size_t>{1, 7, 64, 1000, 100000})); desc = "Buffered(" + desc + ")"; break;
            case 1: h = new AsyncHandle(h, 1 + r.below(5000), 1 + r.below(500)); desc = "Async(" + desc + ")"; break;
            case 2: {
                auto t = new TeeHandle();
                bool first = r.chance(0.5);
                if (first) *t += new Sink();
                *t += h;
                if (!first) *t += new Sink();
                h = t;
                desc = "Tee(" + desc + ")";
                break;
            }
            default: {
                auto mh = new MultiHandle(std::vector<DataHandle*>{h});
                *mh += Length(D.size());
                h    = mh;
                desc = "Multi(" + desc + ")";
                break;
            }
        }
    }
    c.trace() << desc << "\n";
    std::unique_ptr<DataHandle> own(h);
    bool told = false;
    size_t pos = 0;
    try {
        h->openForWrite(Length(D.size()));
        while (pos < D.size() && !told) {
            long n = std::min<long>(D.size() - pos, 1 + r.below(r.pick(std::vector<long>{1, 10, 300, 5000})));
            if (h->write(D.data() + pos, n) != n) told = true;
            pos += n;
            if (r.chance(0.01)) h->flush();
        }
    }
    catch (std::exception&) {
        told = true;
    }
    // close in any case, as AutoClose would; an error here counts as told
    try {
        h->close();
    }
    catch (std::exception&) {
        told = true;
    }
    c.eval();
    VF_CHECK(told, "write-error-lost", "the target of " << desc << " failed and nobody was told");
    c.count(aio ? "aio_errors" : "write_errors");
    c.distinct(desc + std::to_string(D.size()));
}

// writing over several targets: what is reported as written is what the targets took, and each opened one is closed once
VF_WORKLOAD(multi_targets, 400, 6000) {
    auto& r = c.rng;
    Gen g(c);
    MultiHandle::HandleList hl;
    LengthList ll;
    std::vector<Sink*> sinks;
    size_t total = 0, n = 1 + r.below(5);
    for (size_t i = 0; i < n; ++i) {
        size_t k = r.chance(0.15) ? 0 : 1 + r.below(60);
        sinks.push_back(new Sink);
        hl.push_back(sinks.back());
        ll.push_back(Length(k));
        total += k;
    }
    bool fails = total && r.chance(0.4);
    if (fails) {
        size_t at = r.below(n);
        while ((long long)ll[at] == 0) at = (at + 1) % n;
        sinks[at]->failAt = long(r.below((long long)ll[at]));
        sinks[at]->how    = r.chance(0.5) ? Sink::Negative : Sink::Short;
    }
    std::string D = g.content(total + 1);
    D.resize(total);
    c.trace() << n << " targets, " << total << " bytes, fails " << fails << " chunks";
    MultiHandle h;
    for (auto* s : hl) h += s;
    for (auto& l : ll) h += l;
    h.openForWrite(Length(total));
    size_t said = 0;
    bool wrong  = false;
    while (said < total) {
        long k = long(1 + r.below(std::min<size_t>(total - said, r.chance(0.5) ? 10 : 200)));
        c.trace() << " " << k;
        long m = h.write(D.data() + said, k);
        if (m > 0) said += size_t(m);
        std::string got;
        for (auto* s : sinks) got += s->data;
        VF_EQ(got.size(), said, "multi-count", "bytes taken by the targets, of those reported as written,");
        VF_CHECK(got == D.substr(0, said), "multi-bytes", "the bytes taken by the targets");
        if (m != k) {
            wrong = true;
            break;
        }
    }
    VF_EQ(wrong, fails, "multi-error", "a short or negative count");
    h.close();
    c.eval();
    for (auto* s : sinks) {
        VF_CHECK(!s->isOpen, "multi-close", "a target was left open");
        VF_EQ(s->opens, s->closes, "multi-close", "times a target was opened and closed");
    }
    c.count(fails ? "multi_failing" : "multi_whole");
    c.distinct(c.trace_.str());
}
