// Containers against their reference models.
#include "vf.h"

#include <deque>
#include <list>

#include "eckit/container/BloomFilter.h"
#include "eckit/container/CacheLRU.h"
#include "eckit/container/DenseMap.h"
#include "eckit/container/DenseSet.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/Recycler.h"
#include "eckit/container/Trie.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferList.h"
#include "eckit/io/CircularBuffer.h"
#include "eckit/io/SharedBuffer.h"

using namespace eckit;

static std::vector<std::pair<std::string, int>> purged;
static void purger(std::string& k, int& v) {
    purged.emplace_back(k, v);
}

VF_WORKLOAD(cache_lru, 300, 6000) {
    purged.clear();
    size_t cap = c.rng.in(0, 8);
    auto cache = std::make_unique<CacheLRU<std::string, int>>(cap, purger);
    std::list<std::pair<std::string, int>> model;  // front = most recent
    std::vector<std::pair<std::string, int>> gone;
    auto find = [&](const std::string& k) {
        return std::find_if(model.begin(), model.end(), [&](auto& p) { return p.first == k; });
    };
    auto trim = [&] {
        while (model.size() > cap) {
            gone.push_back(model.back());
            model.pop_back();
        }
    };
    int keys = c.rng.in(1, 12);
    int n    = c.rng.in(1, 120);
    c.trace() << "cap=" << cap << " keys=" << keys << ":";
    for (int i = 0; i < n; ++i) {
        std::string k = "k" + std::to_string(c.rng.below(keys));
        auto it       = find(k);
        int op        = c.rng.below(20);
        c.eval();
        if (op < 8) {
            c.trace() << " insert(" << k << "," << i << ")";
            bool existed = cache->insert(k, i);
            VF_EQ(existed, it != model.end(), "lru-insert", "insert reported existence");
            if (it != model.end()) {
                model.erase(it);
            }
            model.emplace_front(k, i);
            trim();
            c.count("lru_inserts");
        }
        else if (op < 13) {
            c.trace() << " access(" << k << ")";
            bool threw = false;
            int v      = -1;
            try {
                v = cache->access(k);
            }
            catch (OutOfRange&) {
                threw = true;
            }
            VF_EQ(threw, it == model.end(), "lru-access-absent", "access of " + k + " threw");
            if (!threw) {
                VF_EQ(v, it->second, "lru-access", "access of " + k);
                model.splice(model.begin(), model, it);
            }
        }
        else if (op < 15) {
            c.trace() << " remove(" << k << ")";
            bool r = cache->remove(k);
            VF_EQ(r, it != model.end(), "lru-remove", "remove of " + k);
            if (it != model.end()) {
                gone.push_back(*it);
                model.erase(it);
            }
        }
        else if (op < 17) {
            c.trace() << " extract(" << k << ")";
            bool threw = false;
            int v      = -1;
            try {
                v = cache->extract(k);
            }
            catch (OutOfRange&) {
                threw = true;
            }
            VF_EQ(threw, it == model.end(), "lru-extract-absent", "extract of " + k + " threw");
            if (!threw) {
                VF_EQ(v, it->second, "lru-extract", "extract of " + k);
                model.erase(it);
            }
        }
        else if (op < 18) {
            cap = c.rng.in(0, 8);
            c.trace() << " capacity(" << cap << ")";
            cache->capacity(cap);
            trim();
        }
        else if (op < 19 && c.rng.chance(0.1)) {
            c.trace() << " clear";
            cache->clear();
            for (auto& p : model) {
                gone.push_back(p);
            }
            model.clear();
        }
        VF_EQ(cache->size(), model.size(), "lru-size", "size");
        VF_CHECK(cache->size() <= cache->capacity(), "lru-capacity", "more entries than the capacity");
        for (int j = 0; j < keys; ++j) {
            std::string q = "k" + std::to_string(j);
            VF_EQ(cache->exists(q), find(q) != model.end(), "lru-exists", "exists " + q);
        }
        VF_CHECK(purged == gone, "lru-purge", "the purge handler was not given exactly the evicted entries, in order");
    }
    for (auto& p : model) {
        gone.push_back(p);
    }
    cache.reset();
    VF_CHECK(purged == gone, "lru-purge-end", "the purge handler was not given the entries left when the cache is destroyed");
    c.count("lru_purges", gone.size());
    if (!gone.empty()) {
        c.distinct(c.trace_.str());
    }
}

VF_WORKLOAD(trie, 300, 6000) {
    Trie<std::string> t;
    std::map<std::string, std::string> m;
    std::string alphabet = c.rng.chance(0.5) ? "ab" : (c.rng.chance(0.5) ? "abcxyz09" : std::string("\x01\x7f\x80\xff zA", 7));
    std::vector<std::string> keys{""};
    for (int i = 0, n = c.rng.in(1, 20); i < n; ++i) {
        std::string k = c.rng.word(6, alphabet);
        if (c.rng.chance(0.5)) {
            k = keys[c.rng.below(keys.size())] + k;
        }
        keys.push_back(k);
    }
    for (int i = 0, n = c.rng.in(1, 100); i < n; ++i) {
        const std::string k = keys[c.rng.below(keys.size())];
        c.eval();
        if (c.rng.chance(0.6)) {
            c.trace() << " +" << vf::repr(k);
            t.insert(k, std::to_string(i));
            m[k] = std::to_string(i);
            c.count("trie_inserts");
        }
        else {
            c.trace() << " -" << vf::repr(k);
            t.remove(k);
            m.erase(k);
        }
        for (auto& q : keys) {
            auto it = m.find(q);
            VF_EQ(t.contains(q), it != m.end(), "trie-contains", "contains " + vf::repr(q));
            auto* v = t.find(q);
            VF_CHECK((v != nullptr) == (it != m.end()) && (!v || *v == it->second), "trie-find", "find of " << vf::repr(q));
        }
        VF_EQ(t.empty(), m.empty(), "trie-empty", "empty");
    }
    c.distinct(c.trace_.str());
}

VF_WORKLOAD(dense, 300, 6000) {
    {
        DenseMap<std::string, int> d;
        std::map<std::string, int> m;
        int keys = c.rng.in(1, 30);
        for (int i = 0, n = c.rng.in(0, 150); i < n; ++i) {
            std::string k = std::to_string(c.rng.below(keys));
            c.eval();
            if (c.rng.chance(0.8)) {
                d.insert(k, i);
                m[k] = i;
            }
            else {
                d.sort();
                d.replace(k, i);
                m[k] = i;
            }
            if (c.rng.chance(0.2)) {
                d.sort();
                VF_EQ(d.size(), m.size(), "densemap-size", "size after sort");
                auto it = m.begin();
                for (auto& p : d) {
                    VF_CHECK(p.first == it->first && p.second == it->second, "densemap-order", "entry " << p.first << "=" << p.second << ", expected " << it->first << "=" << it->second);
                    ++it;
                }
                for (int j = 0; j < keys + 1; ++j) {
                    std::string q = std::to_string(j);
                    auto f        = m.find(q);
                    VF_EQ(d.contains(q), f != m.end(), "densemap-contains", "contains " + q);
                    if (f != m.end()) {
                        VF_EQ(d.get(q), f->second, "densemap-get", "get " + q);
                        VF_EQ(d[q], f->second, "densemap-get", "[] " + q);
                    }
                }
                c.count("densemap_checks");
            }
        }
    }
    {
        auto fill = [&](DenseSet<int>& d, std::set<int>& m) {
            int range = c.rng.in(1, 60);
            for (int i = 0, n = c.rng.in(0, 60); i < n; ++i) {
                int v = c.rng.in(-range, range);
                d.insert(v);
                m.insert(v);
                if (c.rng.chance(0.1)) {
                    d.sort();
                }
            }
        };
        DenseSet<int> a, b;
        std::set<int> ma, mb;
        if (!c.rng.chance(0.2)) fill(a, ma);
        fill(b, mb);
        // only those that are sorted are merged, unless one is empty
        if (!a.empty() && !b.empty()) {
            a.sort();
            b.sort();
        }
        c.trace() << "dense " << ma.size() << " " << mb.size();
        a.merge(b);
        ma.insert(mb.begin(), mb.end());
        a.sort();
        c.eval();
        VF_CHECK(std::vector<int>(a.begin(), a.end()) == std::vector<int>(ma.begin(), ma.end()), "denseset-merge", "merged set differs from the union");
        for (int v = -62; v <= 62; ++v) {
            VF_EQ(a.contains(v), ma.count(v) > 0, "denseset-contains", "contains " << v);
        }
        VF_EQ(a.size(), ma.size(), "denseset-size", "size");
        c.count("denseset_merges");
        c.distinct(vf::hashStr(c.trace_.str()) ^ ma.size());
    }
}

VF_WORKLOAD(bloom, 100, 1000) {
    size_t size = c.rng.chance(0.3) ? c.rng.in(1, 20) : c.rng.in(1, 5000);
    BloomFilter<std::string> b(size);
    VF_CHECK(b.empty(), "bloom-empty", "a new filter is not empty");
    std::set<std::string> in;
    for (int i = 0, n = c.rng.in(1, 200); i < n; ++i) {
        std::string k = c.rng.bytes(c.rng.below(20));
        b.insert(k);
        in.insert(k);
    }
    for (auto& k : in) {
        c.eval();
        VF_CHECK(b.contains(k), "bloom-negative", "inserted " << vf::repr(k) << " is reported absent");
    }
    if (size > 100000 || in.size() * 20 < size) {
        size_t fp = 0;
        for (int i = 0; i < 400; ++i) {
            fp += b.contains("absent" + std::to_string(i)) ? 1 : 0;
        }
        // at most |in| bits of size are set, below 5%: more than 30% hits has a negligible probability
        VF_CHECK(fp < 120, "bloom-selectivity", fp << " of 400 absent keys reported present, with " << in.size() << " keys in " << size << " bits");
        c.count("bloom_selectivity");
    }
    VF_CHECK(!b.empty(), "bloom-empty", "a filled filter is empty");
    c.count("bloom_keys", in.size());
    c.distinct(vf::mix(size) ^ in.size());
}

VF_WORKLOAD(circular, 300, 6000) {
    size_t size = c.rng.in(1, 64);
    size_t cap  = size + c.rng.in(0, 300);
    CircularBuffer cb(size, cap);
    std::string model;
    c.trace() << "size=" << size << " cap=" << cap << ":";
    for (int i = 0, n = c.rng.in(1, 150); i < n; ++i) {
        c.eval();
        if (c.rng.chance(0.5)) {
            std::string d = c.rng.bytes(c.rng.in(1, c.rng.chance(0.2) ? 100 : 20));
            c.trace() << " w" << d.size();
            bool threw = false;
            size_t w   = 0;
            try {
                w = cb.write(d.data(), d.size());
            }
            catch (SeriousBug&) {
                threw = true;
                c.count("circular_full");
            }
            if (threw) {
                VF_CHECK(model.size() + d.size() > size, "circular-refused", "refused " << d.size() << " bytes with " << model.size() << " of the initial " << size << " in use");
            }
            else {
                VF_EQ(w, d.size(), "circular-write", "write returned");
                model += d;
                VF_CHECK(model.size() <= cap, "circular-capacity", "holds more than its capacity");
            }
        }
        else if (c.rng.chance(0.97)) {
            size_t l = c.rng.in(1, 40);
            std::string got(l, 0);
            size_t r = cb.read(&got[0], l);
            c.trace() << " r" << l;
            VF_EQ(r, std::min(l, model.size()), "circular-read", "read returned");
            VF_CHECK(got.substr(0, r) == model.substr(0, r), "circular-content", "bytes read differ from the bytes written");
            model.erase(0, r);
            c.count("circular_reads");
        }
        else {
            cb.clear();
            model.clear();
        }
        VF_EQ(cb.length(), model.size(), "circular-length", "length");
    }
    c.distinct(c.trace_.str());
}

VF_WORKLOAD(buffers, 300, 6000) {
    // Buffer with moves, resizes and copies
    std::vector<Buffer> bufs;
    std::vector<std::string> model;
    for (int i = 0, n = c.rng.in(1, 60); i < n; ++i) {
        size_t k = bufs.empty() ? 0 : c.rng.below(bufs.size());
        c.eval();
        switch (c.rng.below(bufs.empty() ? 2 : 8)) {
            case 0: {
                std::string d = c.rng.bytes(c.rng.below(50));
                bufs.emplace_back(d.data(), d.size());
                model.push_back(d);
                c.trace() << " new" << d.size();
                break;
            }
            case 1: {
                std::string d = c.rng.bytes(c.rng.below(20));
                bufs.emplace_back(d);
                model.push_back(d + std::string(1, 0));
                c.trace() << " str" << d.size();
                break;
            }
            case 2: {
                size_t s = c.rng.below(70);
                c.trace() << " resize" << model[k].size() << ">" << s;
                bufs[k].resize(s, true);
                size_t keep = std::min(s, model[k].size());
                for (size_t j = keep; j < s; ++j) {
                    static_cast<char*>(bufs[k].data())[j] = 7;
                }
                model[k].resize(keep);
                model[k].resize(s, 7);
                break;
            }
            case 3: {
                size_t s = c.rng.below(70);
                c.trace() << " discard" << s;
                bufs[k].resize(s);
                bufs[k].zero();
                model[k] = std::string(s, 0);
                break;
            }
            case 4: {
                size_t pos    = c.rng.below(model[k].size() + 2);
                std::string d = c.rng.bytes(c.rng.below(30));
                c.trace() << " copy" << pos << "+" << d.size();
                bool threw = false;
                try {
                    bufs[k].copy(d.data(), d.size(), pos);
                }
                catch (AssertionFailed&) {
                    threw = true;
                }
                VF_EQ(threw, pos + d.size() > model[k].size(), "buffer-copy", "copy beyond the buffer refused");
                if (!threw && !d.empty()) {
                    model[k].replace(pos, d.size(), d);
                }
                break;
            }
            case 5: {
                size_t j = c.rng.below(bufs.size());
                c.trace() << " move";
                bufs[k] = std::move(bufs[j]);
                if (j != k) {
                    model[k] = model[j];
                    model[j].clear();
                }
                break;
            }
            case 6: {
                BufferList bl;
                std::string all;
                size_t from = k;
                for (; k < bufs.size(); ++k) {
                    all += model[k];
                    bl.append(std::move(bufs[k]));
                }
                VF_EQ(bl.count(), model.size() - from, "bufferlist-count", "count");
                VF_EQ((long long)bl.size(), (long long)all.size(), "bufferlist-size", "size");
                Buffer b = bl.consolidate();
                VF_EQ(bl.count(), 0u, "bufferlist-cleared", "count after consolidation");
                VF_EQ((long long)bl.size(), 0, "bufferlist-cleared", "size after consolidation");
                bufs.erase(bufs.begin() + from, bufs.end());
                model.resize(from);
                bufs.push_back(std::move(b));
                model.push_back(all);
                c.count("consolidated");
                break;
            }
            case 7: {
                SharedBuffer s(20);
                {
                    SharedBuffer t(s), u(10);
                    u = t;
                    ::memset(u.data(), 'x', 20);
                }
                VF_EQ(s.str(), std::string(20, 'x'), "sharedbuffer", "content through a copy");
                break;
            }
        }
        for (size_t j = 0; j < bufs.size(); ++j) {
            VF_EQ(bufs[j].size(), model[j].size(), "buffer-size", "size of buffer " << j);
            VF_CHECK(std::string(bufs[j].view()) == model[j], "buffer-content", "buffer " << j << " holds " << vf::repr(std::string(bufs[j].view())) << ", expected " << vf::repr(model[j]));
        }
    }
    c.count("buffer_ops");
    c.distinct(c.trace_.str());
}

struct Rec {
    uint64_t a;
    char b[12];
};

VF_WORKLOAD(recycler, 60, 1000) {
    PathName path(c.scratch + "/sub/recycler");
    std::vector<uint64_t> model;
    auto r = std::make_unique<Recycler<Rec>>(path);
    for (int i = 0, n = c.rng.in(1, 60); i < n; ++i) {
        c.eval();
        switch (c.rng.below(6)) {
            case 0:
            case 1: {
                std::vector<Rec> v(c.rng.below(5));
                for (auto& x : v) {
                    x.a = c.rng.u64();
                    ::memset(x.b, (int)(x.a & 0x7f), sizeof(x.b));
                    model.push_back(x.a);
                }
                r->push(v.begin(), v.end());
                c.trace() << " push" << v.size();
                break;
            }
            case 2: {
                Rec x;
                x.a = c.rng.u64();
                ::memset(x.b, (int)(x.a & 0x7f), sizeof(x.b));
                r->push(x);
                model.push_back(x.a);
                break;
            }
            case 3: {
                Rec x;
                bool ok = r->pop(x);
                VF_EQ(ok, !model.empty(), "recycler-pop", "pop");
                if (ok) {
                    VF_EQ(x.a, model.back(), "recycler-value", "popped");
                    model.pop_back();
                }
                break;
            }
            case 4: {
                unsigned want = c.rng.below(6);
                std::vector<Rec> v(want);
                auto got = r->pop(v.begin(), want);
                VF_EQ((size_t)got, std::min<size_t>(want, model.size()), "recycler-popn", "number popped");
                for (size_t j = 0; j < got; ++j) {
                    VF_EQ(v[j].a, model[model.size() - got + j], "recycler-value", "popped " << j);
                    VF_CHECK(v[j].b[11] == (char)(v[j].a & 0x7f), "recycler-torn", "record torn");
                }
                model.resize(model.size() - got);
                c.trace() << " pop" << want;
                c.count("recycler_pops");
                break;
            }
            case 5:
                r.reset();
                r.reset(new Recycler<Rec>(path));
                c.trace() << " reopen";
                break;
        }
    }
    c.distinct(c.trace_.str());
}
