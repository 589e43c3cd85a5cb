// Records: written and read again, linked, damaged, truncated.
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>

#include "vf.h"

#include "eckit/codec/codec.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/utils/Compressor.h"

using namespace eckit;
using vf::refuses;

namespace {

template <class T>
bool equal(const T& a, const T& b) {
    return memcmp(&a, &b, sizeof(T)) == 0;
}
bool equal(const std::string& a, const std::string& b) { return a == b; }
template <class T>
bool equal(const std::vector<T>& a, const std::vector<T>& b) {
    return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

struct Item {
    std::string key, type;
    size_t bytes = 0;
    std::string where;  // link
    std::string compression = "none";
    std::function<void(codec::RecordWriter&, const Configuration&)> put;
    std::function<std::function<bool()>(codec::RecordReader&, const std::string&)> get;
    std::function<bool(codec::RecordReader&, const std::string&)> wrong;  // reading it as something else is refused
};

template <class Other>
bool refused_as(codec::RecordReader& rd, const std::string& key) {
    auto o = std::make_shared<Other>();
    return refuses([&] { rd.read(key, *o).wait(); });
}

template <class T>
Item item(vf::Rng& r, const std::string& key, T value, const std::string& type, size_t bytes) {
    auto v   = std::make_shared<T>(std::move(value));
    int mode = int(r.below(4));
    Item i;
    i.key   = key;
    i.type  = type;
    i.bytes = bytes;
    i.put   = [v, mode, key](codec::RecordWriter& w, const Configuration& cfg) {
        switch (mode) {
            case 0: w.set(key, codec::ref(*v), cfg); break;
            case 1: {
                T copy(*v);
                w.set(key, copy, cfg);
                memset(static_cast<void*>(&copy), 0, 0);
                break;
            }
            default: w.set(key, *v, cfg);
        }
    };
    i.get = [v](codec::RecordReader& rd, const std::string& k) -> std::function<bool()> {
        auto got = std::make_shared<T>();
        rd.read(k, *got);
        return [v, got] { return equal(*v, *got); };
    };
    i.wrong = [type](codec::RecordReader& rd, const std::string& k) {
        if (type == "string") return refused_as<double>(rd, k);
        if (type == "array") return refused_as<std::string>(rd, k) && (std::is_same_v<T, std::vector<int>> ? refused_as<std::vector<double>>(rd, k) : refused_as<std::vector<int>>(rd, k));
        return std::is_same_v<T, int> ? refused_as<double>(rd, k) : refused_as<int>(rd, k);
    };
    return i;
}

uint64_t big(vf::Rng& r) {
    switch (r.below(4)) {
        case 0: return r.u64();
        case 1: return (uint64_t(1) << r.below(64)) - r.below(2);
        case 2: return ~uint64_t(0) << r.below(64);
        default: return r.below(100);
    }
}
double any(vf::Rng& r) {
    switch (r.below(8)) {
        case 0: return std::numeric_limits<double>::infinity() * (r.chance(0.5) ? 1 : -1);
        case 1: return std::nan("");
        case 2: return -0.0;
        case 3: return std::numeric_limits<double>::denorm_min();
        case 4: return double(r.in(0, 100)) - 50;
        default: return (r.unit() - 0.5) * std::pow(10., double(r.in(0, 40)) - 20);
    }
}
std::string text(vf::Rng& r) {
    static const std::vector<std::string> words{"", "a", "yes", "null", "12", "1.5", "- x", "a: b", "#c", "\"q\"", "line\nline", "tab\t", "\xc3\xa9\xe2\x82\xac", "{}", "[1]", "'", "\\", "~", "%", "true", "  sp  "};
    std::string s = r.pick(words);
    while (r.chance(0.4)) s += r.pick(words);
    return s;
}
size_t length(vf::Rng& r) { return r.chance(0.1) ? 0 : r.chance(0.8) ? r.in(1, 20) : r.in(20, 3000); }

Item any_item(vf::Rng& r, const std::string& key, bool arrays = false) {
    switch (arrays ? 7 + r.below(6) : r.below(13)) {
        case 0: return item<int>(r, key, int(big(r)), "scalar", 0);
        case 1: return item<long>(r, key, long(big(r)), "scalar", 0);
        case 2: return r.chance(0.5) ? item<unsigned long>(r, key, (unsigned long)(big(r)), "scalar", 0) : item<unsigned long long>(r, key, (unsigned long long)(big(r)), "scalar", 0);
        case 3: return item<float>(r, key, float(any(r)), "scalar", 0);
        case 4:
        case 5: return item<double>(r, key, any(r), "scalar", 0);
        case 6: return item<std::string>(r, key, text(r), "string", 0);
        case 7: {
            std::vector<int> v(length(r));
            for (auto& x : v) x = int(big(r));
            size_t n = v.size() * 4;
            return item(r, key, v, "array", n);
        }
        case 8: {
            std::vector<long> v(length(r));
            for (auto& x : v) x = long(big(r));
            size_t n = v.size() * 8;
            return item(r, key, v, "array", n);
        }
        case 9: {
            std::vector<size_t> v(length(r));
            for (auto& x : v) x = size_t(big(r));
            size_t n = v.size() * 8;
            return item(r, key, v, "array", n);
        }
        case 10: {
            std::vector<double> v(length(r));
            for (auto& x : v) x = any(r);
            size_t n = v.size() * 8;
            return item(r, key, v, "array", n);
        }
        case 11: {
            std::array<double, 3> v{any(r), any(r), any(r)};
            return item(r, key, v, "array", 24);
        }
        default: {
            std::vector<std::array<float, 2>> v(length(r));
            for (auto& x : v) x = {float(any(r)), float(any(r))};
            size_t n = v.size() * 8;
            return item(r, key, v, "array", n);
        }
    }
}

const std::vector<std::string>& compressors() {
    static const std::vector<std::string> names = [] {
        std::vector<std::string> n{"none"};
        for (const char* z : {"lz4", "snappy", "bzip2", "aec"}) {
            if (CompressorFactory::instance().has(z)) n.push_back(z);
        }
        return n;
    }();
    return names;
}

struct Written {
    std::vector<Item> items;
    size_t offset = 0, size = 0;
    bool compressed = false;
};

void fill(vf::Rng& r, codec::RecordWriter& w, Written& rec, bool arrays = false) {
    std::string compression = "none";
    if (r.chance(0.3)) w.compression(compression = r.pick(compressors())), rec.compressed = true;
    if (r.chance(0.1)) w.compression(r.chance(0.5)), compression = "none";
    for (size_t i = 0, n = r.in(1, 8); i < n; ++i) {
        std::string key = "k" + std::to_string(i);
        if (r.chance(0.1)) key += r.chance(0.5) ? " and space" : "-_/x";
        if (r.chance(0.2)) key = "group." + key;
        Item it = any_item(r, key, arrays || r.chance(0.4));
        LocalConfiguration cfg;
        it.compression = compression;
        if (r.chance(0.3)) cfg.set("compression", it.compression = r.pick(compressors())), rec.compressed = true;
        it.put(w, cfg);
        // (the setting that follows is that of items that follow)
        if (r.chance(0.1)) w.compression(compression = r.pick(compressors())), rec.compressed = true;
        rec.items.push_back(std::move(it));
        if (r.chance(0.15)) {  // one that was set before is set again, and is now the last
            size_t j = r.below(rec.items.size());
            Item again = any_item(r, rec.items[j].key, arrays || r.chance(0.4));
            again.compression = compression;
            again.put(w, LocalConfiguration());
            rec.items.erase(rec.items.begin() + long(j));
            rec.items.push_back(std::move(again));
        }
    }
}

void read_back(vf::Case& c, codec::RecordReader& rd, const Written& rec, const std::string& what) {
    vf::Rng& r = c.rng;
    std::vector<size_t> order(rec.items.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    if (r.chance(0.2)) order.push_back(r.below(order.size()));  // into another variable as well
    r.shuffle(order);
    std::vector<std::pair<size_t, std::function<bool()>>> pending;
    bool each = r.chance(0.5);
    for (size_t i : order) {
        pending.emplace_back(i, rec.items[i].get(rd, rec.items[i].key));
        if (each) rd.wait(rec.items[i].key);
    }
    rd.wait();
    for (auto& p : pending) VF_CHECK(p.second(), "read", what << ": item " << rec.items[p.first].key << " (" << rec.items[p.first].type << ") is different");
    c.count("items_read", pending.size());
}

}  // namespace

// records, one after the other in a file or in memory
VF_WORKLOAD(codec_records, 400, 5000) {
    vf::Rng& r = c.rng;
    std::vector<Written> recs(r.in(1, 4));
    bool file     = r.chance(0.6);
    PathName path = c.scratch + "/records";
    Buffer memory(1 << 20);
    size_t at = 0;
    std::unique_ptr<MemoryHandle> mh;
    if (!file) {
        mh.reset(new MemoryHandle(memory));
        mh->openForWrite(0);
    }
    std::vector<std::unique_ptr<codec::RecordWriter>> writers;
    for (size_t i = 0; i < recs.size(); ++i) {
        codec::RecordWriter w;
        fill(r, w, recs[i]);
        size_t most    = w.estimateMaximumSize();
        recs[i].offset = at;
        if (file && r.chance(0.3)) {  // something else in front
            FileHandle f(path, true);
            if (i == 0) f.openForWrite(0);
            else f.openForAppend(0);
            std::string junk = r.bytes(r.in(1, 50));
            f.write(junk.data(), long(junk.size()));
            f.close();
            recs[i].offset = at = size_t(path.size());
            recs[i].size = w.write(path, codec::Mode::append);
        }
        else if (file) recs[i].size = w.write(path, i == 0 ? codec::Mode::write : codec::Mode::append);
        else recs[i].size = w.write(*mh);
        at += recs[i].size;
        VF_CHECK(recs[i].size <= most, "estimate", "record of " << recs[i].size << " bytes estimated at most " << most);
        if (!recs[i].compressed) VF_EQ(recs[i].size, most, "estimate", "size without compression");
        if (file) VF_EQ(size_t(path.size()), at, "size", "file after a record");
    }
    if (mh) {
        VF_EQ(size_t(mh->position()), at, "size", "position after a record");
        mh->close();
    }
    std::unique_ptr<codec::Session> session;
    if (r.chance(0.3)) session.reset(new codec::Session);
    for (int n = 0; n < 3; ++n) {
        size_t i       = r.below(recs.size());
        Written& rec   = recs[i];
        std::string wh = (file ? "file" : "memory") + std::string(", record ") + std::to_string(i);
        std::unique_ptr<MemoryHandle> in;
        auto reader = [&] {
            if (!file) {
                in.reset(new MemoryHandle(memory.data(), at));
                in->openForRead();
                return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(codec::Stream(*in), rec.offset));
            }
            if (r.chance(0.5)) return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(codec::Record::URI(path, rec.offset)));
            return std::unique_ptr<codec::RecordReader>(new codec::RecordReader(path, rec.offset));
        };
        {
            auto rd   = reader();
            bool late = r.chance(0.5);  // (metadata of items that were read say that they are not compressed any more)
            if (late || !file) read_back(c, *rd, rec, wh);
            {
                for (auto& it : rec.items) {
                    codec::Metadata m = rd->metadata(it.key);
                    VF_EQ(m.getString("type"), it.type, "metadata", it.key);
                    VF_EQ(m.data.size(), it.bytes, "metadata", "size of " + it.key);
                    if (late || session) continue;
                    VF_EQ(m.data.compression(), it.bytes ? it.compression : std::string("none"), "metadata", "compression of " + it.key + " of " + std::to_string(it.bytes) + " bytes");
                    VF_EQ(m.data.compressed(), it.bytes && it.compression != "none", "metadata", "compressed: " + it.key);
                }
                if (!late) read_back(c, *rd, rec, wh);
            }
        }
        if (r.chance(0.1)) {
            auto rd = reader();
            Item& it = rec.items[r.below(rec.items.size())];
            VF_CHECK(it.wrong(*rd, it.key), "wrong-type", "item " << it.key << " of type " << it.type << " read as another");
            int x;
            VF_CHECK(refuses([&] { rd->read("nothere", x).wait(); }), "no-item", "an item that does not exist");
        }
        // the record as a whole
        if (file || in) {
            codec::Record record;
            codec::Stream s = file ? codec::Stream(codec::InputFileStream(path)) : codec::Stream(*in);
            s.seek(rec.offset);
            record.read(s, true);
            VF_EQ(record.size(), uint64_t(rec.size), "record", "size");
            VF_EQ(s.position(), uint64_t(rec.offset + rec.size), "record", "position after reading it to its end");
            std::vector<std::string> keys(record.keys()), want;
            for (auto& it : rec.items) {
                want.push_back(it.key);
                VF_CHECK(record.has(it.key), "record", "has " << it.key);
            }
            std::sort(keys.begin(), keys.end());
            std::sort(want.begin(), want.end());
            VF_CHECK(keys == want, "record", "keys");
        }
        if (file && r.chance(0.3)) {
            LocalConfiguration cfg;
            cfg.set("format", r.chance(0.5) ? "json" : "table");
            cfg.set("details", r.chance(0.5));
            codec::RecordPrinter pr(path, rec.offset, cfg);
            std::ostringstream os;
            os << pr;
            VF_EQ(pr.size(), rec.size, "print", "size");
            if (cfg.getString("format") == "json") {
                YAMLConfiguration back(os.str());
                for (auto& it : rec.items) VF_EQ(back.getString(it.key + ".type"), it.type, "print", "type of " + it.key);
            }
            else {
                for (auto& it : rec.items) VF_CHECK(os.str().find(it.key) != std::string::npos, "print", "no " << it.key);
            }
            c.count("printed");
        }
    }
    // records that come and go at the same place in memory, in one session
    if (r.chance(0.3)) {
        codec::Session one;
        Buffer place(1 << 19);
        for (size_t n = r.in(2, 4); n-- > 0;) {
            Written rec;
            codec::RecordWriter w;
            fill(r, w, rec);
            MemoryHandle out(place);
            out.openForWrite(0);
            rec.size = w.write(out);
            out.close();
            alignas(MemoryHandle) static thread_local char where[sizeof(MemoryHandle)];
            auto* in = new (where) MemoryHandle(place.data(), rec.size);
            in->openForRead();
            {
                codec::RecordReader rd{codec::Stream(*in)};
                read_back(c, rd, rec, "one after the other in a session");
            }
            in->close();
            in->~MemoryHandle();
        }
    }
    // setting an item again replaces it
    if (r.chance(0.3)) {
        Written rec;
        codec::RecordWriter w;
        Item a = any_item(r, "x"), b = any_item(r, "x"), other = any_item(r, "y", true);
        a.put(w, LocalConfiguration());
        if (r.chance(0.5)) other.put(w, LocalConfiguration()), b.put(w, LocalConfiguration());
        else b.put(w, LocalConfiguration()), other.put(w, LocalConfiguration());
        PathName p2 = c.scratch + "/again";
        w.write(p2);
        rec.items = {b, other};
        codec::RecordReader rd(p2);
        read_back(c, rd, rec, "set twice, " + a.type + " and " + b.type);
    }
    if (r.chance(0.1)) {
        size_t a = r.in(1, 100000), b = r.in(1, 100000);
        codec::ArrayMetadata m(codec::DataType::real64(), {a, b});
        VF_CHECK(m.size() == a * b && m.bytes() == a * b * 8, "large", "size of an array of shape " << a << "x" << b << " is " << m.size());
    }
    c.count("records", recs.size());
    c.eval(3);
    c.distinct(vf::hashStr(std::string(static_cast<const char*>(memory.data()), mh ? at : 0)) + at * 1000003 + recs.size());
}

namespace {
// a handle in memory that accepts only so much
class Full : public DataHandle {
    std::string& out_;
    size_t limit_;
    int how_;
    size_t pos_ = 0;

public:

    bool failed = false;
    Full(std::string& out, size_t limit, int how) : out_(out), limit_(limit), how_(how) {}
    void print(std::ostream& s) const override { s << "Full[]"; }
    Length openForRead() override { NOTIMP; }
    void openForWrite(const Length&) override {}
    void openForAppend(const Length&) override { NOTIMP; }
    long read(void*, long) override { NOTIMP; }
    void close() override {}
    bool canSeek() const override { return true; }
    Offset seek(const Offset& o) override { return pos_ = size_t((long long)o), o; }
    Offset position() override { return Offset(pos_); }
    long write(const void* p, long n) override {
        if (pos_ + n > limit_ && !failed) {
            failed = true;
            if (how_ == 0) return -1;
            if (how_ == 2) throw WriteError("full", Here());
            n = long(limit_ > pos_ ? limit_ - pos_ : 0);
        }
        if (out_.size() < pos_ + n) out_.resize(pos_ + n);
        memcpy(&out_[pos_], p, size_t(n));
        pos_ += n;
        return n;
    }
};
}  // namespace

// what an item is encoded to
VF_WORKLOAD(codec_data, 300, 4000) {
    vf::Rng& r = c.rng;
    codec::Data d, other;
    std::string want, want2;
    auto same = [&](const codec::Data& x, const std::string& w, const char* what) {
        c.eval();
        VF_CHECK(x.size() == w.size() && (w.empty() || memcmp(x.data(), w.data(), w.size()) == 0), "data", what << ": " << x.size() << " bytes, not the " << w.size());
    };
    for (int n = int(r.in(5, 30)); n > 0; --n) {
        switch (r.below(7)) {
            case 0: {
                want = r.chance(0.1) ? "" : r.bytes(r.in(1, 3000));
                d.assign(want.data(), want.size());
                break;
            }
            case 1: other.assign(d), want2 = want; break;
            case 2: d.assign(other), want = want2; break;
            case 3: d.clear(), want.clear(); break;
            case 4: std::swap(d, other), std::swap(want, want2); break;
            case 5: {
                std::string z  = r.pick(compressors());
                std::string cs = d.checksum();
                codec::Data copy;
                copy.assign(d);
                copy.compress(z);
                if (!want.empty()) copy.decompress(z, want.size());
                if (!want.empty()) same(copy, want, "compressed and uncompressed");
                VF_EQ(d.checksum(), cs, "data", "checksum of the same");
                if (!want.empty()) VF_EQ(copy.checksum(), cs, "data", "checksum of a copy compressed and uncompressed");
                d = std::move(copy);
                if (want.empty()) d.clear();
                break;
            }
            default: {
                Buffer b(want.size() + 100);
                MemoryHandle mh(b);
                mh.openForWrite(0);
                codec::Stream s(mh);
                VF_EQ(d.write(s), want.size(), "data", "bytes written");
                codec::Data back;
                s.seek(0);
                MemoryHandle in(b.data(), want.size());
                in.openForRead();
                codec::Stream t(in);
                VF_EQ(back.read(t, want.size()), want.size(), "data", "bytes read");
                same(back, want, "read");
            }
        }
        same(d, want, "data");
        same(other, want2, "other data");
    }
    c.count("data");
    c.distinct(want + want2);
}

// damage, ends and failures
VF_WORKLOAD(codec_damage, 400, 5000) {
    vf::Rng& r = c.rng;
    Written rec;
    codec::RecordWriter w;
    bool sums = r.chance(0.8);
    w.checksum(sums);
    fill(r, w, rec, r.chance(0.7));
    if (!sums && rec.compressed) return;  // (damaged sizes of what is to be decompressed could need any amount of memory)
    std::string good;
    {
        Full out(good, size_t(-1), 0);
        rec.size = w.write(out);
        VF_EQ(good.size(), rec.size, "size", "written");
    }
    for (int n = 0; n < 4; ++n) {  // failing to write
        std::string s;
        Full out(s, r.below(good.size()), int(r.below(3)));
        bool refused = refuses([&] { w.write(out); });
        VF_CHECK(out.failed && refused, "write-failure", "writing to something full succeeded");
        c.count("full");
    }
    // where things are
    auto find = [&](const char* tag, size_t from) {
        size_t p = good.find(tag, from);
        return p;
    };
    size_t mb = find("\nMETADATA-BEGIN", 0) + 32, me = find("\nMETADATA-END", mb);
    std::vector<std::pair<size_t, size_t>> data;
    size_t p = find("\nINDEX-END", me) + 32;
    for (auto& it : rec.items) {
        if (it.type != "array" || it.bytes == 0) continue;
        VF_CHECK(good.compare(p, 11, "\nDATA-BEGIN") == 0, "layout", "data section");
        // its length is in the index
        size_t k = data.size(), len;
        memcpy(&len, &good[find("\nINDEX-BEGIN", me) + 32 + k * 80 + 8], 8);
        data.emplace_back(p + 32, p + len - 32);
        p += len;
    }
    for (int n = 0; n < 12; ++n) {
        std::string bad(good);
        size_t pos;
        bool cut = r.chance(0.3);
        if (cut) bad.resize(pos = r.below(bad.size()));
        else {
            int where = int(r.below(4));
            if (where == 0 && !data.empty()) {
                auto& d = data[r.below(data.size())];
                pos     = r.in(d.first, d.second - 1);
            }
            else if (where == 1) pos = r.in(mb, me - 1);
            else if (where == 2) pos = r.below(256);
            else pos = r.below(bad.size());
            bad[pos] = char(bad[pos] ^ (r.chance(0.5) ? 1 << r.below(8) : 1 + r.below(255)));
        }
        size_t section = 0;
        for (auto& it : rec.items) {
            bool has  = it.type == "array" && it.bytes > 0;
            size_t me_ = has ? section++ : size_t(-1);
            MemoryHandle in(bad.data(), bad.size());
            in.openForRead();
            bool same = false, refused = false;
            std::string why;
            std::unique_ptr<codec::RecordReader> rd(new codec::RecordReader(codec::Stream(in)));
            try {
                auto f = it.get(*rd, it.key);
                rd->wait();
                same = f();
            }
            catch (std::exception& e) {
                refused = true;
                why     = e.what();
            }
            catch (...) {
                refused = true;
                c.fail("exception", "damage at " + std::to_string(pos) + " threw something that is no std::exception");
            }
            std::string what = (cut ? "cut at " : "damage at ") + std::to_string(pos) + " of " + std::to_string(good.size()) + ", item " + it.key;
            if (cut) {
                if (has && pos < data[me_].second) VF_CHECK(refused, "truncated", what << " was read");
                if (pos < me) VF_CHECK(refused, "truncated", what << " was read");
                VF_CHECK(refused || same, "truncated", what << " is different");
                c.count("truncated");
            }
            else if (sums) {
                bool own = has && pos >= data[me_].first && pos < data[me_].second;
                if ((pos >= mb && pos < me) || own) VF_CHECK(refused, "undetected", what << " was read");
                VF_CHECK(refused || same, "undetected", what << " is different");
                bool other = !own && pos >= p + 0;
                for (size_t k = 0; k < data.size(); ++k) other = other || (k != me_ && pos >= data[k].first && pos < data[k].second);
                if (other) VF_CHECK(same, "unaffected", what << " cannot be read: " << why);
                c.count(refused ? "detected" : "harmless");
            }
            else c.count("unprotected");
            c.eval();
        }
    }
    c.distinct(vf::hashStr(good));
}

// items that are links to items of other records, in other directories
VF_WORKLOAD(codec_links, 200, 2500) {
    vf::Rng& r = c.rng;
    struct Place {
        std::string path;
        size_t offset;
        Item item;
    };
    std::vector<Place> places;
    int nf = int(r.in(2, 6));
    for (int i = 0; i < nf; ++i) {
        std::string dir = std::vector<std::string>{"", "a/", "b/", "a/c/"}[r.below(4)];
        PathName(c.scratch + "/" + dir).mkdir();
        std::string path = dir + "f" + std::to_string(i);
        codec::RecordWriter w;
        Item it = any_item(r, "item");
        std::string how = "data";
        if (!places.empty() && r.chance(0.7)) {
            const Place& to = r.pick(places);
            std::string up;
            for (char ch : dir) up += ch == '/' ? "../" : "";
            std::string target = r.chance(0.5) ? up + to.path : c.scratch + "/" + to.path;
            w.set("item", codec::link("file:" + target + "?key=item" + (to.offset || r.chance(0.5) ? "&offset=" + std::to_string(to.offset) : "")));
            it  = to.item;
            how = "link to " + to.path;
        }
        else it.put(w, LocalConfiguration());
        w.set("other", 42);
        size_t offset = 0;
        PathName p(c.scratch + "/" + path);
        if (r.chance(0.3)) {
            codec::RecordWriter first;
            first.set("item", 17.5);
            offset = first.write(p);
        }
        w.write(p, offset ? codec::Mode::append : codec::Mode::write);
        c.trace() << path << "@" << offset << ": " << how << "; ";
        places.push_back({path, offset, it});
    }
    for (auto& pl : places) {
        codec::RecordReader rd(c.scratch + "/" + pl.path, pl.offset);
        auto f = pl.item.get(rd, "item");
        int o  = 0;
        rd.read("other", o);
        rd.wait();
        VF_CHECK(f(), "link", pl.path << " gives another value");
        VF_EQ(o, 42, "link", "the other item of " + pl.path);
        codec::Metadata m = rd.metadata("item");
        VF_EQ(m.getString("type"), pl.item.type, "link", "type of " + pl.path);
        VF_EQ(m.data.size(), pl.item.bytes, "link", "size of " + pl.path);
        c.count("links");
    }
    if (r.chance(0.1)) {
        codec::RecordWriter w;
        w.set("gone", codec::link("file:nothere?key=item"));
        w.set("nokey", codec::link("file:" + c.scratch + "/" + places[0].path + "?key=nothere"));
        PathName p(c.scratch + "/broken");
        w.write(p);
        int x;
        for (const char* k : {"gone", "nokey"}) {
            std::unique_ptr<codec::RecordReader> rd(new codec::RecordReader(p));
            VF_CHECK(refuses([&] { rd->read(k, x).wait(); }), "link", "a link to nothing: " << k);
        }
        struct Strange {
            int x[2];
        } strange{{1, 2}};
        VF_CHECK(refuses([&] { codec::ref(strange, codec::tag::disable_static_assert()); }), "not-encodable", "something that cannot be encoded");
    }
    c.eval();
    c.distinct(c.trace_.str());
}
