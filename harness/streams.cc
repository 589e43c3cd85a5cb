// Binary streams: exact round trip of every type through every kind of stream, type checking, truncation, corruption, objects, remote errors
#include "value_gen.h"

#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/serialisation/BadTag.h"
#include "eckit/serialisation/FileStream.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/PipeStream.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/Streamable.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Types.h"

using namespace eckit;

namespace {

enum Kind { CHAR, UCHAR, BOOL, INT, UINT, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, DBL, STR, CSTR, BLOB, LBLOB, BUF, VECT, MAPSS, SETT, FRAC, OFFS, VAL, OBJ, EXC, NKIND };
const char* kindName[] = {"char", "uchar", "bool", "int", "uint", "short", "ushort", "long", "ulong", "llong", "ullong", "double", "string", "cstring", "blob", "largeblob", "buffer",
                          "vector", "map", "set", "fraction", "offsets", "value", "object", "exception"};

class Shape : public Streamable {
public:

    std::vector<std::unique_ptr<Shape>> kids;
    std::string name;
    Shape() {}
    explicit Shape(Stream& s) : Streamable(s) {
        s >> name;
        int n;
        s >> n;
        for (int i = 0; i < n; ++i) {
            kids.emplace_back(Reanimator<Shape>::reanimate(s));
            if (!kids.back()) {
                throw UserError("end of the stream");
            }
        }
    }
    void encode(Stream& s) const override {
        Streamable::encode(s);
        s << name;
        s << int(kids.size());
        for (auto& k : kids) {
            s << *k;
        }
    }
    virtual std::string str() const {
        std::string r = className() + "(" + name;
        for (auto& k : kids) {
            r += "," + (k ? k->str() : std::string("null"));
        }
        return r + ")";
    }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Shape> reanimator_;
};
ClassSpec Shape::classSpec_ = {&Streamable::classSpec(), "VfShape"};
Reanimator<Shape> Shape::reanimator_;

class Disc : public Shape {
public:

    double radius = 0;
    long long id  = 0;
    Disc() {}
    explicit Disc(Stream& s) : Shape(s) { s >> radius >> id; }
    void encode(Stream& s) const override {
        Shape::encode(s);
        s << radius << id;
    }
    std::string str() const override { return Shape::str() + std::to_string(radius) + "/" + std::to_string(id); }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Disc> reanimator_;
};
ClassSpec Disc::classSpec_ = {&Shape::classSpec(), "VfDisc"};
Reanimator<Disc> Disc::reanimator_;

class Other : public Streamable {
public:

    Other() {}
    explicit Other(Stream& s) : Streamable(s) {}
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return classSpec_; }
    static ClassSpec classSpec_;
    static Reanimator<Other> reanimator_;
};
ClassSpec Other::classSpec_ = {&Streamable::classSpec(), "VfOther"};
Reanimator<Other> Other::reanimator_;

/// more members at the end than the reading side knows (objects written by a newer version)
class Newer : public Shape {
public:

    int extra = 0;
    Newer() {}
    explicit Newer(Stream& s) : Shape(s) {}
    void encode(Stream& s) const override { Shape::encode(s); }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static ClassSpec classSpec_;
    static Reanimator<Newer> reanimator_;
};
ClassSpec Newer::classSpec_ = {&Shape::classSpec(), "VfNewer"};
Reanimator<Newer> Newer::reanimator_;

std::unique_ptr<Shape> makeShape(vf::Rng& r, int depth) {
    std::unique_ptr<Shape> s;
    switch (r.below(3)) {
        case 0: s.reset(new Shape()); break;
        case 1: s.reset(new Newer()); break;
        default: {
            auto d    = std::make_unique<Disc>();
            d->radius = r.real(-10, 10);
            d->id     = (long long)r.u64();
            s         = std::move(d);
        }
    }
    s->name = r.bytes(r.below(6));
    if (depth > 0) {
        for (size_t i = r.below(4); i > 0; --i) {
            s->kids.push_back(makeShape(r, depth - 1));
        }
    }
    return s;
}

struct Item {
    Kind k;
    long long i = 0;
    double d    = 0;
    std::string s;
    std::vector<long long> v;
    std::vector<std::string> vs;
    Ref ref;
    std::shared_ptr<Shape> shape;
    size_t end = 0;  ///< offset after the item in the image

    void write(Stream& o) const {
        switch (k) {
            case CHAR: o << char(i); break;
            case UCHAR: o << (unsigned char)(i); break;
            case BOOL: o << bool(i); break;
            case INT: o << int(i); break;
            case UINT: o << (unsigned int)(i); break;
            case SHORT: o << short(i); break;
            case USHORT: o << (unsigned short)(i); break;
            case LONG: o << long(i); break;
            case ULONG: o << (unsigned long)(i); break;
            case LLONG: o << i; break;
            case ULLONG: o << (unsigned long long)(i); break;
            case DBL: o << d; break;
            case STR: o << s; break;
            case CSTR: o << s.c_str(); break;
            case BLOB: o.writeBlob(s.data(), s.size()); break;
            case LBLOB: o.writeLargeBlob(s.data(), s.size()); break;
            case BUF: o << Buffer(s.data(), s.size()); break;
            case VECT: o << v; break;
            case MAPSS: {
                std::map<std::string, std::string> m;
                for (size_t j = 0; j + 1 < vs.size(); j += 2) {
                    m[vs[j]] = vs[j + 1];
                }
                o << m;
                break;
            }
            case SETT: o << std::set<std::string>(vs.begin(), vs.end()); break;
            case FRAC: o << Fraction(v[0], v[1]); break;
            case OFFS: {
                o << Offset(i) << Length(v[0]);
                break;
            }
            case VAL: o << ref.value(); break;
            case OBJ: o << *shape; break;
            case EXC: o << UserError(s); break;
            case NKIND: break;
        }
    }

    template <class T>
    static bool rd(Stream& in, long long want) {
        T x = T(~want);
        in >> x;
        return x == T(want);
    }

    /// true if what is read is what was written
    bool read(Stream& in) const {
        switch (k) {
            case CHAR: return rd<char>(in, i);
            case UCHAR: return rd<unsigned char>(in, i);
            case BOOL: return rd<bool>(in, i != 0);
            case INT: return rd<int>(in, i);
            case UINT: return rd<unsigned int>(in, i);
            case SHORT: return rd<short>(in, i);
            case USHORT: return rd<unsigned short>(in, i);
            case LONG: return rd<long>(in, i);
            case ULONG: return rd<unsigned long>(in, i);
            case LLONG: return rd<long long>(in, i);
            case ULLONG: return rd<unsigned long long>(in, i);
            case DBL: {
                double x = 0;
                in >> x;
                return !memcmp(&x, &d, sizeof x);
            }
            case CSTR:
            case STR: {
                std::string x = "previous content";
                in >> x;
                return x == (k == CSTR ? std::string(s.c_str()) : s);
            }
            case BLOB:
            case LBLOB: {
                std::string x(s.size(), '?');
                k == BLOB ? in.readBlob(&x[0], x.size()) : in.readLargeBlob(&x[0], x.size());
                return x == s;
            }
            case BUF: {
                Buffer b(s.size());
                in >> b;
                return !memcmp(b.data(), s.data(), s.size());
            }
            case VECT: {
                std::vector<long long> x{1, 2, 3};
                in >> x;
                return x == v;
            }
            case MAPSS: {
                std::map<std::string, std::string> m, x{{"old", "content"}};
                for (size_t j = 0; j + 1 < vs.size(); j += 2) {
                    m[vs[j]] = vs[j + 1];
                }
                in >> x;
                return x == m;
            }
            case SETT: {
                std::set<std::string> x{"old"};
                in >> x;
                return x == std::set<std::string>(vs.begin(), vs.end());
            }
            case FRAC: {
                Fraction f;
                in >> f;
                return f == Fraction(v[0], v[1]);
            }
            case OFFS: {
                Offset o;
                Length l;
                in >> o >> l;
                return (long long)o == i && (long long)l == v[0];
            }
            case VAL: {
                Value x(in);
                return ref.diff(x).empty();
            }
            case OBJ: {
                std::unique_ptr<Shape> x(Reanimator<Shape>::reanimate(in));
                return x && x->str() == shape->str();
            }
            case EXC: {
                try {
                    int x;
                    in >> x;
                }
                catch (RemoteException& e) {
                    return std::string(e.what()).find(s) != std::string::npos;
                }
                return false;
            }
            case NKIND: break;
        }
        return false;
    }
};

Item make(vf::Rng& r, Kind k, bool wide) {
    Item t;
    t.k = k;
    t.i = (long long)r.edgy(~0ULL);
    if (r.chance(0.5)) {
        t.i = -t.i;
    }
    if (k == LONG && !wide) {
        t.i = int32_t(t.i);
    }
    if (k == ULONG && !wide) {
        t.i = uint32_t(t.i);
    }
    if (k == DBL) {
        uint64_t b = r.chance(0.5) ? r.u64() : (r.below(4) << 62 | (r.chance(0.5) ? 0x7ff0000000000000ULL : 0) | r.below(3));
        memcpy(&t.d, &b, 8);
    }
    t.s = r.bytes(r.chance(0.1) ? r.below(5000) : r.below(20));
    if (k == EXC) {
        t.s = r.word(20);
    }
    for (size_t n = r.below(6); n > 0; --n) {
        t.v.push_back((long long)r.u64());
        t.vs.push_back(r.bytes(r.below(8)));
        t.vs.push_back(r.bytes(r.below(8)));
    }
    if (k == FRAC) {
        t.v = {r.in(-100000, 100000), r.in(1, 100000)};
    }
    if (k == OFFS) {
        t.i = (long long)(r.u64() >> 1);
        t.v = {(long long)(r.u64() >> 1)};
    }
    if (k == VAL) {
        RefGen g{r};
        g.dates     = true;
        g.plainMaps = true;
        t.ref       = g.make(2);
    }
    if (k == OBJ) {
        t.shape = makeShape(r, 2);
    }
    return t;
}

std::vector<Item> makeItems(vf::Case& c, size_t n) {
    std::vector<Item> v;
    for (size_t i = 0; i < n; ++i) {
        v.push_back(make(c.rng, Kind(c.rng.below(NKIND)), false));
        c.trace() << kindName[v.back().k] << " ";
    }
    return v;
}

/// bytes of the items in memory, with where each ends
std::string image(std::vector<Item>& v) {
    Buffer b(8);
    ResizableMemoryStream s(b);
    for (auto& t : v) {
        t.write(s);
        t.end = s.position();
    }
    return std::string((const char*)b.data(), s.position());
}

/// data read in pieces: what a pipe or a socket may deliver
class Dribble : public MemoryHandle {
public:
    using MemoryHandle::MemoryHandle;
};

}  // namespace

VF_WORKLOAD(stream_roundtrip, 1500, 30000) {
    auto items = makeItems(c, c.rng.below(12));
    std::string img;
    auto readAll = [&](Stream& in) {
        bool objectPending = false;
        for (size_t i = 0; i < items.size(); ++i) {
            VF_CHECK(items[i].read(in), "stream-value", "item " << i << " (" << kindName[items[i].k] << ") read back differs");
            c.eval();
            c.count(std::string("read_") + kindName[items[i].k]);
            objectPending = items[i].k == OBJ;
        }
        (void)objectPending;
        bool more = true;
        try {
            more = in.next();  // skips the end of an object left, then the end of the stream
        }
        catch (BadTag&) {
        }
        VF_CHECK(!more, "stream-end", "something left after the last item");
    };
    int kind = c.rng.below(6);
    c.trace() << "kind=" << kind;
    switch (kind) {
        case 0: {
            img = image(items);
            Buffer b(img.size());
            MemoryStream s(b);
            for (auto& t : items) {
                t.write(s);
            }
            VF_EQ((size_t)s.bytesWritten(), img.size(), "stream-count", "bytesWritten");
            VF_EQ(std::string((const char*)b.data(), b.size()), img, "stream-image", "bytes");
            s.rewind();
            readAll(s);
            if (img.size()) {
                // one byte less does not fit: it must say so
                Buffer small(img.size() - 1);
                MemoryStream t(small);
                bool err = false;
                try {
                    for (auto& x : items) {
                        x.write(t);
                    }
                }
                catch (WriteError&) {
                    err = true;
                }
                VF_CHECK(err, "stream-overflow", "writing more than the memory holds was not reported");
                c.count("overflows");
            }
            break;
        }
        case 1: {
            Buffer b(c.rng.below(30));
            ResizableMemoryStream s(b);
            for (auto& t : items) {
                t.write(s);
            }
            VF_EQ((size_t)s.bytesWritten(), s.position(), "stream-count", "bytesWritten");
            MemoryStream in(b.data(), s.position());
            readAll(in);
            break;
        }
        case 2: {
            MemoryHandle m(1000, true);
            m.openForWrite(0);
            BufferedHandle bh(m, 1 + c.rng.below(50));
            HandleStream s(bh);
            for (auto& t : items) {
                t.write(s);
            }
            bh.flush();
            m.openForRead();
            HandleStream in(m);
            readAll(in);
            break;
        }
        case 3:
        case 4: {
            PathName p(c.scratch + "/stream");
            {
                FileStream s(p, "w");
                for (auto& t : items) {
                    t.write(s);
                }
                s.close();
            }
            if (kind == 3) {
                FileStream in(p, "r");
                struct Close {
                    FileStream& f;
                    ~Close() { f.close(); }
                } cl{in};
                readAll(in);
            }
            else {
                BufferedHandle bh(p.fileHandle(), 1 + c.rng.below(70));
                bh.openForRead();
                HandleStream in(bh);
                readAll(in);
                bh.close();
            }
            break;
        }
        case 5: {
            int fd[2];
            if (::pipe(fd)) {
                abort();
            }
            if (c.rng.chance(0.5)) {
                ::fcntl(fd[1], F_SETPIPE_SZ, 4096);
            }
            std::thread w([&] {
                PipeStream s(-1, fd[1]);
                for (auto& t : items) {
                    t.write(s);
                }
            });
            struct Join {
                std::thread& t;
                ~Join() { t.join(); }
            } j{w};
            PipeStream in(fd[0], -1);
            for (size_t i = 0; i < items.size(); ++i) {
                VF_CHECK(items[i].read(in), "stream-pipe", "item " << i << " (" << kindName[items[i].k] << ") read from a pipe differs");
                c.eval();
            }
            c.count("pipes");
            break;
        }
    }
    c.distinct(c.trace_.str());
}

/// reading another type than was written must fail, never give a value
VF_WORKLOAD(stream_types, 600, 8000) {
    auto& r = c.rng;
    static const Kind plain[] = {CHAR, UCHAR, INT, UINT, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, DBL, STR, BLOB, LBLOB};
    Kind w = plain[r.below(14)], rd = plain[r.below(14)];
    std::vector<Item> before = makeItems(c, r.below(3));
    std::vector<Item> v      = before;
    v.push_back(make(r, w, false));
    c.trace() << " | wrote " << kindName[w] << " reading " << kindName[rd];
    std::string img = image(v);
    MemoryStream in(img.data(), img.size());
    for (auto& t : before) {
        VF_CHECK(t.read(in), "stream-value", "item differs");
    }
    Item want = make(r, rd, false);
    want.s    = v.back().s;
    bool bad  = false;
    try {
        want.read(in);
    }
    catch (BadTag&) {
        bad = true;
    }
    VF_CHECK(bad == (w != rd), "stream-type", "wrote " << kindName[w] << ", read as " << kindName[rd] << (bad ? ": refused" : ": accepted"));
    if (w != rd) {
        c.count("type_mismatches");
    }
    // blobs of another size
    if (w == BLOB || w == LBLOB) {
        MemoryStream in2(img.data(), img.size());
        for (auto& t : before) {
            t.read(in2);
        }
        Item other = v.back();
        other.s.resize(other.s.size() + (r.chance(0.5) ? 1 : 7));
        bool refused = false;
        try {
            other.read(in2);
        }
        catch (Exception&) {
            refused = true;
        }
        VF_CHECK(refused, "stream-blob-size", "a blob of another size was accepted");
    }
    c.eval();
    c.distinct(std::string(kindName[w]) + ">" + kindName[rd]);
}

/// every truncation: the items that are complete are read, then an error, never a wrong value
VF_WORKLOAD(stream_truncated, 300, 4000) {
    auto& r    = c.rng;
    auto items = makeItems(c, 1 + r.below(4));
    std::string img = image(items);
    for (size_t cut = 0; cut < img.size(); cut += (img.size() > 300 ? 1 + r.below(img.size() / 100) : 1)) {
        std::unique_ptr<char[]> copy(new char[cut]);  // its own allocation: reading past the end is seen
        memcpy(copy.get(), img.data(), cut);
        MemoryStream in(copy.get(), cut);
        size_t i = 0;
        bool err = false;
        try {
            for (; i < items.size(); ++i) {
                bool same = items[i].read(in);
                if (!same && items[i].k == OBJ && (i ? items[i - 1].end : 0) >= cut) {
                    err = true;  // the end of the stream where an object is expected is a null object
                    break;
                }
                // an object (or value) whose trailing end mark is missing is complete
                VF_CHECK(same || items[i].k == EXC, "stream-truncated-value", "item " << i << " (" << kindName[items[i].k] << ") of an image cut at " << cut << " of " << img.size() << " is wrong, not an error");
                if (!same) {
                    err = true;
                    break;
                }
            }
        }
        catch (std::exception& e) {
            err = true;
        }
        size_t complete = 0;
        while (complete < items.size() && items[complete].end <= cut) {
            ++complete;
        }
        VF_CHECK(i >= complete, "stream-truncated-lost", "only " << i << " items read of an image cut at " << cut << " which has " << complete);
        // without its end mark an object at the end is still complete
        VF_CHECK(err || i <= complete + 1, "stream-truncated-more", "items invented");
        VF_CHECK(err || ((items[complete].k == OBJ || items[complete].k == VAL) && img.substr(cut, items[complete].end - cut).find_first_not_of('\2') == std::string::npos) || complete + 1 < items.size(), "stream-truncated-silent",
                 "an image cut at " << cut << " of " << img.size() << " was read without an error");
        c.eval();
        c.count("cuts");
    }
    c.distinct(img);
}

/// damaged bytes: any outcome but undefined behaviour; items before the damage are right
VF_WORKLOAD(stream_damaged, 1500, 40000) {
    auto& r    = c.rng;
    auto items = makeItems(c, 1 + r.below(5));
    std::string img = image(items);
    if (img.empty()) {
        return;
    }
    size_t at  = r.below(img.size());
    size_t len = img.size();
    // (a damaged length of up to 4 GB is allocated before the end is noticed: keep the top bytes of words small)
    unsigned char val = r.chance(0.5) ? r.below(24) : r.below(256);
    if (val == 0 || (at + 4 < img.size() && img[at] == 0 && val > 0 && at % 2)) {
        val = 0;
    }
    std::string dam = img;
    dam[at]         = char(val);
    // avoid giant allocations: find any string or blob length above 16 MB by a dry look at the bytes is not possible in general, so
    // only damage bytes which are not zero (the top bytes of lengths are zero here)
    if (img[at] == 0) {
        return;
    }
    std::unique_ptr<char[]> copy(new char[len]);
    memcpy(copy.get(), dam.data(), len);
    MemoryStream in(copy.get(), len);
    size_t firstBad = 0;
    while (items[firstBad].end <= at) {
        ++firstBad;
    }
    size_t i = 0;
    try {
        for (; i < items.size(); ++i) {
            bool same = items[i].read(in);
            VF_CHECK(same || i >= firstBad, "stream-damaged-before", "item " << i << " before the damage is wrong");
            if (!same && i >= firstBad) {
                c.count("damage_changes_value");
                break;
            }
        }
    }
    catch (std::exception& e) {
        VF_CHECK(i >= firstBad, "stream-damaged-before", "item " << i << " before the damage failed: " << e.what());
        c.count("damage_detected");
    }
    c.eval();
    c.distinct(vf::hashStr(dam));
}

/// objects: class checks, nested objects, end marks, null at the end of the stream
VF_WORKLOAD(stream_objects, 2000, 8000) {
    auto& r = c.rng;
    Buffer b(16);
    ResizableMemoryStream s(b);
    std::vector<int> what;
    std::vector<std::string> str;
    for (size_t n = 1 + r.below(6); n > 0; --n) {
        int w = r.below(6);
        what.push_back(w);
        c.trace() << w << " ";
        if (w == 0) {
            s << Other();
            str.push_back("");
        }
        else if (w == 1) {
            // written by a class nobody knows here
            s.startObject();
            s << std::string("VfUnknown");
            s << 12;
            s.endObject();
            str.push_back("");
            break;
        }
        else if (w == 2) {
            int x = r.below(1000);
            s << x;
            str.push_back(std::to_string(x));
        }
        else if (w == 4) {
            // objects within objects, written by hand, whose ends nobody will look for
            int depth = 1 + r.below(4), x = r.below(1000);
            for (int k = 0; k < depth; ++k) {
                s.startObject();
                s << x + k;
            }
            for (int k = 0; k < depth; ++k) {
                s.endObject();
            }
            str.push_back(std::to_string(depth) + " " + std::to_string(x));
        }
        else if (w == 5) {
            std::string text = "x" + r.word(30);
            s << Exception(text);
            str.push_back(text);
            break;
        }
        else {
            auto sh = makeShape(r, 3);
            s << *sh;
            str.push_back(sh->str());
        }
    }
    MemoryStream in(b.data(), s.position());
    bool stopped = false;
    for (size_t i = 0; i < what.size() && !stopped; ++i) {
        if (what[i] == 0 && r.chance(0.5)) {
            std::unique_ptr<Streamable> o(ReanimatorBase::reanimate(in));
            VF_CHECK(o && o->className() == "VfOther", "object-class", "class of a reanimated object");
        }
        else if (what[i] == 2) {
            int x = -1;
            in >> x;
            VF_EQ(std::to_string(x), str[i], "object-int", "number after an object");
        }
        else if (what[i] == 3) {
            std::unique_ptr<Shape> o(Reanimator<Shape>::reanimate(in));
            VF_CHECK(o, "object-null", "object not found");
            VF_EQ(o->str(), str[i], "object-content", "reanimated object");
            c.count("objects");
        }
        else if (what[i] == 4) {
            int depth, x, y = -1;
            std::istringstream(str[i]) >> depth >> x;
            for (int k = 0; k < depth; ++k) {
                VF_CHECK(in.next(), "object-next", "start of an object not found");
                in >> y;
                VF_EQ(y, x + k, "object-int", "number inside of an object");
            }
            c.count("objects_by_hand");
        }
        else if (what[i] == 5) {
            std::string got = "nothing";
            try {
                if (r.chance(0.5)) {
                    int x;
                    in >> x;
                }
                else {
                    std::string x;
                    in >> x;
                }
            }
            catch (RemoteException& e) {
                got = e.what();
            }
            VF_CHECK(got.find(str[i]) != std::string::npos, "remote-exception", "exception " << str[i] << " sent over the stream is received as " << got);
            stopped = true;
            c.count("exceptions_sent");
        }
        else {
            bool refused = false;
            try {
                std::unique_ptr<Shape> o(Reanimator<Shape>::reanimate(in));
            }
            catch (Exception& e) {
                refused = true;
            }
            VF_CHECK(refused, "object-wrong-class", "an object of class " << (what[i] ? "unknown" : "VfOther") << " was accepted as a VfShape");
            stopped = true;
            c.count("objects_refused");
        }
        c.eval();
    }
    if (!stopped) {
        std::unique_ptr<Shape> o(Reanimator<Shape>::reanimate(in));
        VF_CHECK(!o, "object-invented", "an object was found after the end of the stream");
    }
    c.distinct(c.trace_.str());
}

/// numbers of the C types long and unsigned long are written in 32 bits
VF_WORKLOAD(stream_long, 100, 1000) {
    Item t = make(c.rng, c.rng.chance(0.5) ? LONG : ULONG, true);
    c.trace() << kindName[t.k] << " " << t.i;
    std::vector<Item> v{t};
    std::string img;
    try {
        img = image(v);
    }
    catch (Exception&) {
        c.count("long_refused");
        return;  // refusing what does not fit is fine
    }
    MemoryStream in(img.data(), img.size());
    c.eval();
    c.distinct(c.trace_.str());
    bool fits = t.k == LONG ? t.i == int32_t(t.i) : t.i == (long long)uint32_t(t.i);
    VF_CHECK(v[0].read(in), fits ? "stream-long" : "stream-long-truncated", kindName[t.k] << " " << t.i << " read back differs");
}

namespace {

/// a device that fails, at a byte, from then on
struct Failing : Stream {
    std::string data;
    size_t at = 0, fails;
    Failing(const std::string& d, size_t f) : data(d), fails(f) {}
    long read(void* p, long n) override {
        if (at + size_t(n) > fails) return -1;
        memcpy(p, data.data() + at, size_t(n));
        at += size_t(n);
        return n;
    }
    long write(const void*, long) override { return -1; }
    std::string name() const override { return "failing"; }
};

}  // namespace

/// an error of the device is an error, never the end of the stream
VF_WORKLOAD(stream_failing, 300, 6000) {
    auto& r     = c.rng;
    size_t n    = 1 + r.below(8);
    std::vector<std::string> texts;
    Buffer b(8);
    ResizableMemoryStream out(b);
    std::vector<size_t> ends;
    for (size_t i = 0; i < n; ++i) {
        texts.push_back(r.bytes(r.below(20)));
        out << texts.back();
        ends.push_back(out.position());
    }
    size_t fails = r.chance(0.5) ? r.pick(ends) : r.below(out.position());
    Failing in(std::string((const char*)b.data(), out.position()), fails);
    size_t whole = 0;
    while (whole < n && ends[whole] <= fails) ++whole;
    bool err = false, end = false;
    size_t got = 0;
    bool check = r.chance(0.5);
    try {
        for (;;) {
            std::string s;
            if (check) {
                if (!in.next(s)) {
                    end = true;
                    break;
                }
            }
            else {
                in >> s;
            }
            VF_CHECK(got < n && s == texts[got], "stream-failing", "a text that was not written");
            ++got;
        }
    }
    catch (std::exception&) {
        err = true;
    }
    VF_CHECK(!end, "stream-failing", "an error of the device is taken for the end of the stream");
    VF_CHECK(err && got == whole, "stream-failing", got << " texts read of " << whole << " before the error");
    c.count("errors of devices");
    c.eval();
    c.distinct(fails * 1000 + out.position());
}

/// blocks of any size, in a memory that grows
VF_WORKLOAD(stream_blocks, 60, 600) {
    auto& r = c.rng;
    Buffer b(r.below(2) ? r.below(100) : r.below(200000));
    ResizableMemoryStream out(b);
    std::vector<std::string> blocks;
    for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) {
        blocks.emplace_back(r.chance(0.5) ? r.below(300) : r.below(1000000), char('a' + i));
        if (!blocks.back().empty()) blocks.back()[r.below(blocks.back().size())] = 'X';
        out.writeBlob(blocks.back().data(), blocks.back().size());
        c.trace() << blocks.back().size() << " ";
    }
    MemoryStream in(b.data(), out.position());
    for (auto& x : blocks) {
        std::string got(x.size(), 0);
        in.readBlob(&got[0], got.size());
        VF_CHECK(got == x, "stream-blocks", "a block of " << x.size() << " bytes differs");
        c.eval();
    }
    c.distinct(c.trace_.str());
}
