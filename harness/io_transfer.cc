// Transfers: all the bytes, or an error; with restarts, failures and short reads on either side.
#include "io_common.h"

using namespace eckit;
using namespace vfio;

namespace {
struct Watch : public TransferWatcher {
    std::string seen;
    int from = 0, to = 0, restarts = 0;
    void watch(const void* b, long n) override {
        if (n > 0) seen.append((const char*)b, n);
    }
    void restartFrom(const Offset& o) override {
        ++restarts;
        seen.resize((long long)o);
    }
    void fromHandleOpened() override { ++from; }
    void toHandleOpened() override { ++to; }
};
}  // namespace

static void transfer(vf::Case& c, bool dbl) {
    auto& r = c.rng;
    Gen g(c);
    std::string D = g.content(r.chance(0.05) ? 0 : r.below(r.chance(0.5) ? 60 : 6000));
    Source src(D);
    src.shortReads = r.chance(0.6);
    src.rng        = vf::Rng(r.u64());
    src.estimates  = !r.chance(0.2);
    Sink sink;
    sink.delayUs = dbl ? 60 : 0;
    sink.rng     = vf::Rng(r.u64());
    int fault    = r.below(8);  // 7 the estimate is wrong 0 none 1 read fails 2 write fails 3 restarts by the source 4 restarts by the sink 5 restarts, then a failure 6 closing fails
    if (D.empty() && fault < 6) fault = 0;
    size_t at = D.size() ? r.below(D.size()) : 0;
    bool mustFail = false, restarts = false;
    auto addRestarts = [&](std::vector<std::pair<size_t, size_t>>& v) {
        size_t k = 1 + r.below(3), p = 0;
        for (size_t i = 0; i < k; ++i) {
            p = p + r.below(D.size() - p);
            v.push_back({p, r.below(p + 1)});
        }
        restarts = true;
    };
    switch (fault) {
        case 1:
            src.failAt       = at;
            src.failByReturn = r.chance(0.4);
            mustFail         = true;
            break;
        case 2:
            sink.failAt = at;
            sink.how    = Sink::How(r.below(3));
            mustFail    = true;
            break;
        case 3: addRestarts(src.restarts); break;
        case 4: addRestarts(sink.restarts); break;
        case 5:
            addRestarts(r.chance(0.5) ? src.restarts : sink.restarts);
            if (r.chance(0.5)) {
                sink.failAt = D.size() - 1;
                sink.how    = Sink::How(r.below(3));
            }
            else {
                src.failAt = D.size() - 1;
                src.failByReturn = r.chance(0.4);
            }
            mustFail = true;
            break;
        case 6:
            sink.failClose = true;
            mustFail       = true;
            if (D.size() && r.chance(0.3)) addRestarts(r.chance(0.5) ? src.restarts : sink.restarts);
            c.count("closing_fails");
            break;
        case 7: mustFail = true; break;
        default: break;
    }
    long count = 1 + r.below(6), size = 1 + r.below(r.chance(0.5) ? 20 : 2000);
    bool viaCopy = !dbl && r.chance(0.3);
    if (fault == 7) {
        src.estimates = true;
        long n        = long(D.size());
        // copyTo() takes no more than what is announced
        src.wrongBy = !viaCopy && n > 1 && r.chance(0.5) ? -long(1 + r.below(n - 1)) : long(1 + r.below(r.chance(0.5) ? 3 : 5000));
        c.count("wrong_estimates");
    }
    if (viaCopy && restarts) return;
    c.trace() << (dbl ? "double buffer " : viaCopy ? "copyTo " : "saveInto ") << D.size() << " bytes, fault " << fault << ", buffers " << count << "x" << size << ", failAt "
              << src.failAt << "/" << sink.failAt << (src.failByReturn ? " by return" : "") << " how " << sink.how << "\n";
    Watch w;
    Length l = 0;
    bool threw = false;
    std::string what;
    try {
        if (dbl) {
            DblBuffer b(count, size, w);
            l = b.copy(src, sink);
        }
        else if (viaCopy) l = src.copyTo(sink, size, Length(-1), w);
        else l = src.saveInto(sink, w);
    }
    catch (std::exception& e) {
        threw = true;
        what  = e.what();
    }
    c.eval();
    VF_EQ(threw, mustFail, "transfer-error", "transfer reported an error (" << what << ")");
    VF_CHECK(!src.isOpen && !sink.isOpen, "transfer-close", "a handle was left open");
    VF_CHECK(src.opens == 1 && sink.opens == 1 && src.closes == 1 && sink.closes == 1, "transfer-close", "handles opened or closed more than once");
    if (!threw) {
        VF_CHECK(sink.data == D, "transfer-bytes", "target has " << sink.data.size() << " bytes, source " << D.size() << " or content differs");
        VF_EQ((long long)l, (long long)D.size(), "transfer-length", "returned length");
        VF_CHECK(w.seen == D, "transfer-watch", "the watcher saw other bytes: " << w.seen.size());
        VF_CHECK(w.from == 1 && w.to == 1, "transfer-watch", "the watcher missed an opening");
        c.count("transfers_ok");
        if (restarts) c.count("transfers_restarted");
    }
    else {
        VF_CHECK(sink.data == D.substr(0, sink.data.size()), "transfer-bytes", "bytes written before the failure are not a prefix of the source");
        c.count("transfers_failed");
    }
    if (D.size()) c.distinct(c.trace_.str());
}

VF_WORKLOAD(save_into, 600, 6000) {
    transfer(c, false);
}
VF_WORKLOAD(double_buffer, 600, 6000) {
    transfer(c, true);
}

// comparing: equal exactly if the bytes are, and an error is not an answer
VF_WORKLOAD(compare, 400, 6000) {
    auto& r = c.rng;
    Gen g(c);
    std::string A = g.content(r.chance(0.05) ? 0 : 1 + r.below(r.chance(0.3) ? 20 : r.chance(0.5) ? 3000 : 200000)), B = A;
    int how = r.below(6);
    if (A.empty() && how > 1) how = 0;
    switch (how) {
        case 1: B += g.content(1 + r.below(3)); break;
        case 2: B.resize(r.below(B.size())); break;
        case 3: B[r.below(B.size())] ^= char(1 << r.below(8)); break;
        case 4: B.back() ^= char(1 << r.below(8)); break;
        default: break;
    }
    Source a(A), b(B);
    for (auto* s : {&a, &b}) {
        s->shortReads = r.chance(0.5);
        s->estimates  = r.chance(0.7);
        s->rng        = vf::Rng(r.u64());
    }
    bool fails = A.size() && r.chance(0.2);
    if (fails) {
        auto& s        = r.chance(0.5) ? a : b;
        s.failAt       = long(r.below(std::max<size_t>(1, s.data.size())));
        s.failByReturn = r.chance(0.5);
    }
    c.trace() << A.size() << " and " << B.size() << " bytes, how " << how << " fails " << a.failAt << "/" << b.failAt << (a.failByReturn || b.failByReturn ? " by return" : "")
              << " short " << a.shortReads << b.shortReads << " estimates " << a.estimates << b.estimates;
    bool threw = false, same = false;
    try {
        same = a.compare(b);
    }
    catch (std::exception& e) {
        threw = true;
    }
    c.eval();
    VF_CHECK(fails || !threw, "compare", "comparing failed");
    VF_CHECK(threw || same == (A == B && !fails), "compare", "said to be " << (same ? "equal" : "different"));
    VF_CHECK(!a.isOpen && !b.isOpen && a.closes == a.opens && b.closes == b.opens, "compare", "a handle was left open");
    c.count(threw ? "compare_failures" : same ? "compare_same" : "compare_different");
    c.distinct(c.trace_.str());
}
