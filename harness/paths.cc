// C14: path names, files and directories, URIs, file modes, path expansion, file spaces.
#include "vf.h"
#include "children.h"

#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/FileMode.h"
#include "eckit/filesystem/FileSpace.h"
#include "eckit/filesystem/FileSpaceStrategies.h"
#include "eckit/filesystem/FileSystemSize.h"
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathExpander.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/TmpDir.h"
#include "eckit/filesystem/TmpFile.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/utils/Hash.h"

using namespace eckit;
using vf::refuses;
using vf::repr;
namespace fs = std::filesystem;

// -- the file systems are simulated for the directories named here

namespace {
struct Fake {
    unsigned long blocks, bfree, bavail, bsize;
    bool fails;
};
std::map<std::string, Fake>* fakes = nullptr;
}  // namespace

extern "C" int statvfs(const char* path, struct statvfs* s) __THROW {
    if (fakes) {
        auto j = fakes->find(path);
        if (j != fakes->end()) {
            if (j->second.fails) {
                errno = EIO;
                return -1;
            }
            ::memset(s, 0, sizeof(*s));
            s->f_bsize = s->f_frsize = j->second.bsize;
            s->f_blocks = j->second.blocks;
            s->f_bfree  = j->second.bfree;
            s->f_bavail = j->second.bavail;
            return 0;
        }
    }
    static auto f = reinterpret_cast<int (*)(const char*, struct statvfs*)>(::dlsym(RTLD_NEXT, "statvfs"));
    return f(path, s);
}

namespace {

std::string randomPath(vf::Rng& r) {
    std::string s;
    if (r.chance(0.4)) s = "/";
    int n = int(r.in(0, 7));
    static const char* names[] = {"a", "b", "c.d", "...", ".x", "a..", "x y", "-", "a.b.c", "t~"};
    for (int i = 0; i < n; ++i) {
        if (!s.empty() && s.back() != '/') s += "/";
        switch (r.below(6)) {
            case 0: s += "."; break;
            case 1: s += ".."; break;
            case 2: s += r.chance(0.5) && !s.empty() ? "/" : "."; break;
            default: {
                s += r.pick(names);
            }
        }
    }
    if (r.chance(0.25) && !s.empty()) s += "/";
    return s;
}

struct Model {
    bool absolute;
    std::vector<std::string> parts;  // no "." except in front of a relative path, ".." only in front
    std::string text;
    bool trail;
};

std::vector<std::string> cut(const std::string& p) {
    std::vector<std::string> v(1);
    for (char ch : p) {
        if (ch == '/') v.emplace_back();
        else v.back() += ch;
    }
    return v;
}

// the components that remain when the path is resolved without looking at the file system
Model tidied(const std::string& p) {
    Model m;
    m.absolute = !p.empty() && p[0] == '/';
    m.trail    = !p.empty() && p.back() == '/';
    bool dot   = false;  // a leading "." stays
    size_t i   = 0;
    for (auto& s : cut(p)) {
        if (s == "." && i == 0) dot = true;
        if (s.empty() || s == ".") {
        }
        else if (s == "..") {
            if (!m.parts.empty() && m.parts.back() != "..") m.parts.pop_back();
            else if (!m.absolute) {
                m.parts.push_back("..");
                dot = false;
            }
        }
        else m.parts.push_back(s);
        ++i;
    }
    m.text = m.absolute ? "/" : "";
    (void)dot;
    for (size_t k = 0; k < m.parts.size(); ++k) m.text += (k ? "/" : "") + m.parts[k];
    return m;
}

// equal up to a leading "./" of a relative path
std::string plain(std::string s) {
    while (s.size() >= 2 && s[0] == '.' && s[1] == '/') s.erase(0, 2);
    return s == "." ? "" : s;
}

void checkTidy(vf::Case& c, const std::string& in, const std::string& out) {
    Model m = tidied(in);
    if (in.empty()) {
        VF_EQ(out, std::string(), "tidy", "the empty path");
        return;
    }
    VF_EQ(!out.empty() && out[0] == '/', m.absolute, "tidy", "absolute: " + repr(in) + " became " + repr(out));
    std::string want = m.text;
    if (m.trail && !m.parts.empty()) want += "/";
    VF_EQ(plain(out), plain(want), "tidy", "of " + repr(in));
}

struct Cwd {
    std::string saved;
    Cwd(const std::string& to) : saved(fs::current_path().string()) { fs::current_path(to); }
    ~Cwd() { fs::current_path(saved); }
};

std::string slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
void spit(const std::string& p, const std::string& d) {
    std::ofstream o(p, std::ios::binary);
    o << d;
}

}  // namespace

VF_WORKLOAD(names, 600, 20000) {
    vf::Rng& r = c.rng;
    for (int k = 0; k < 20; ++k) {
        std::string in = randomPath(r);
        c.trace() << repr(in) << "\n";
        LocalPathName l(in);
        std::string out = l.path();
        checkTidy(c, in, out);
        VF_EQ(std::string(LocalPathName(out).path()), out, "tidy", "tidied again");
        PathName p(in);
        VF_EQ(p.asString(), out, "tidy", "PathName of " + repr(in));
        VF_EQ(PathName("local://" + in).asString(), out, "tidy", "local:// of " + repr(in));
        // the parts
        size_t slash = out.rfind('/');
        std::string base = slash == std::string::npos ? out : out.substr(slash + 1);
        VF_EQ(p.baseName().asString(), base, "parts", "baseName of " + repr(out));
        VF_EQ(p.baseName(false).asString(), base.substr(0, base.find('.')), "parts", "baseName without extension of " + repr(out));
        size_t dot = base.rfind('.');
        VF_EQ(p.extension(), dot == std::string::npos ? std::string() : base.substr(dot), "parts", "extension of " + repr(out));
        std::string dir = slash == std::string::npos ? "." : slash == 0 ? "/" : out.substr(0, slash);
        VF_EQ(p.dirName().asString(), dir, "parts", "dirName of " + repr(out));
        if (!base.empty()) VF_EQ(plain((p.dirName() / base).asString()), plain(out), "parts", "dirName and baseName of " + repr(out));
        // joining
        std::string more = randomPath(r);
        checkTidy(c, out + "/" + more, (p / more).asString());
        checkTidy(c, out + more, (p + more).asString());
        PathName q(p);
        q /= more;
        VF_EQ(q.asString(), (p / more).asString(), "join", "/=");
        q = p;
        q += more;
        VF_EQ(q.asString(), (p + more).asString(), "join", "+=");
        q = p;
        q += 'x';
        VF_EQ(q.asString(), PathName(out + "x").asString(), "join", "+= of a character");
        LocalPathName lq(l);
        lq += more;
        VF_EQ(lq.path(), LocalPathName(out + more).path(), "join", "+=");
        VF_EQ(std::string(PathName(p + 'z').asString()), PathName(out + "z").asString(), "join", "+");
        // order is that of the text
        PathName o(randomPath(r));
        VF_EQ(p < o, p.asString() < o.asString(), "order", "<");
        VF_EQ(p > o, p.asString() > o.asString(), "order", ">");
        VF_EQ(p == o, p.asString() == o.asString(), "order", "==");
        VF_EQ(p != o, p.asString() != o.asString(), "order", "!=");
        VF_EQ(p <= o, p.asString() <= o.asString(), "order", "<=");
        VF_EQ(p >= o, p.asString() >= o.asString(), "order", ">=");
        VF_EQ(LocalPathName(p) < LocalPathName(o), p < o, "order", "<");
        VF_EQ(LocalPathName(p) >= LocalPathName(o), p >= o, "order", ">=");
        // full names
        if (!out.empty()) {
            Model f = tidied(out[0] == '/' ? out : fs::current_path().string() + "/" + out);
            std::string full = p.fullName().asString();
            VF_CHECK(full[0] == '/', "full", full + " is not absolute");
            VF_EQ(full, f.text + (out.back() == '/' && !f.parts.empty() ? "/" : ""), "full", "full name of " + repr(out));
        }
        // relative paths lead back
        std::string a = "/" + randomPath(r), b = "/" + randomPath(r);
        LocalPathName la(a), lb(b), rel = la.relativePath(lb);
        VF_CHECK(rel.path().empty() || rel.path()[0] != '/', "relative", "is absolute");
        VF_EQ(tidied((lb / rel).path()).text, tidied(a).text, "relative", "of " + repr(a) + " seen from " + repr(b));
        // through a stream
        Buffer buf(4096);
        {
            MemoryStream s(buf);
            s << p;
            s << l;
        }
        MemoryStream s(buf);
        PathName p2;
        LocalPathName l2;
        s >> p2;
        s >> l2;
        VF_EQ(p2.asString(), p.asString(), "stream", "PathName");
        VF_EQ(l2.path(), l.path(), "stream", "LocalPathName");
        c.eval();
        c.distinct(in + "|" + more);
    }
    c.count("names", 20);
    std::string rest = randomPath(r);
    VF_EQ(PathName("~/" + rest).asString(), PathName(Main::instance().home() + "/" + rest).asString(), "tilde", "~/" + rest);
    VF_CHECK(refuses([&] { PathName("~nosuchlibrary/" + rest); }), "tilde", "an unknown library");
}

// lexically tidied paths lead to the same place when there are no symbolic links
VF_WORKLOAD(places, 150, 3000) {
    vf::Rng& r = c.rng;
    std::string root = c.scratch + "/r";
    for (auto d : {"a/b/c.d", "a/c.d/b", "b/a/a", "c.d/b/a.b.c", ".x/a/b", "a../a/.x", ".../a/...", "a.b.c/-"}) fs::create_directories(root + "/" + d);
    Cwd cwd(root + "/a/b");
    for (int k = 0; k < 60; ++k) {
        std::string in = randomPath(r);
        if (in.empty() || in[0] == '/') in = root + "/" + in;
        struct stat s1, s2;
        if (::stat(in.c_str(), &s1)) continue;
        LocalPathName p(in);
        std::string out = p.path().empty() ? "." : p.path();
        VF_CHECK(::stat(out.c_str(), &s2) == 0, "tidy", repr(in) + " became " + repr(out) + ", which is not there");
        VF_CHECK(s1.st_ino == s2.st_ino && s1.st_dev == s2.st_dev, "tidy", repr(in) + " became " + repr(out) + ", which is another place");
        if (p.path().empty()) continue;
        VF_CHECK(p.exists(), "tidy", "exists");
        VF_CHECK(p.sameAs(LocalPathName(p.fullName())), "full", "the full name of " + repr(out) + " is another place");
        VF_EQ(p.realName().path(), fs::canonical(in).string(), "real", "real name of " + repr(out));
        if (out.find("..") == std::string::npos) {
            VF_CHECK(p.dirName().exists(), "parts", "the directory of " + repr(out));
        }
        c.count("places");
        c.distinct(in);
        c.eval();
    }
}

// -- files and directories, against a model

namespace {
struct Node {
    bool dir = false;
    std::shared_ptr<std::string> data;
    std::string link;
};
}  // namespace

VF_WORKLOAD(files, 60, 1500) {
    vf::Rng& r = c.rng;
    std::string root = c.scratch + "/w";
    PathName(root).mkdir();
    std::map<std::string, Node> m;  // relative path -> node
    auto abs     = [&](const std::string& p) { return root + "/" + p; };
    auto parent  = [](const std::string& p) { size_t i = p.rfind('/'); return i == std::string::npos ? std::string() : p.substr(0, i); };
    auto isdir   = [&](const std::string& p) { return p.empty() || (m.count(p) && m[p].dir); };
    auto isfile  = [&](const std::string& p) { return m.count(p) && !m[p].dir && m[p].link.empty(); };
    auto empty   = [&](const std::string& p) {
        auto j = m.upper_bound(p + "/");
        return j == m.end() || j->first.compare(0, p.size() + 1, p + "/") != 0;
    };
    auto name = [&] {
        std::string p;
        for (int i = int(r.in(1, 3)); i > 0; --i) p += (p.empty() ? "" : "/") + std::string(1, "abcd"[r.below(4)]) + (r.chance(0.2) ? ".txt" : "");
        return p;
    };
    auto known = [&]() -> std::string {
        if (m.empty() || r.chance(0.2)) return name();
        auto j = m.begin();
        std::advance(j, r.below(m.size()));
        return j->first;
    };
    auto mkparents = [&](const std::string& p) {  // false: not possible
        std::string q = parent(p);
        std::vector<std::string> all;
        for (; !q.empty(); q = parent(q)) {
            if (m.count(q) && !m[q].dir) return false;
            all.push_back(q);
        }
        for (auto& x : all) m[x].dir = true;
        return true;
    };
    int ops = int(r.in(20, 80));
    size_t sig = 0;
    for (int i = 0; i < ops; ++i) {
        std::string p = known();
        PathName path(abs(p));
        int op = int(r.below(15));
        sig    = sig * 31 + op;
        c.trace() << op << " " << p << "\n";
        switch (op) {
            case 0: {  // touch makes the file, and the directories above
                bool ok = !isdir(p);
                for (auto q = parent(p); ok && !q.empty(); q = parent(q)) ok = !m.count(q) || m[q].dir;
                if (!ok) break;
                mkparents(p);
                if (m.count(p)) {
                    struct timeval t[2] = {{1000, 0}, {1000, 0}};
                    ::utimes(abs(p).c_str(), t);
                    path.touch();
                    VF_CHECK(path.lastModified() > 1000000 && path.lastModified() <= ::time(nullptr) + 5, "files", "touch does not set the time");
                    VF_CHECK(path.lastAccess() > 1000000, "files", "touch does not set the time of access");
                }
                else {
                    path.touch();
                    m[p].data = std::make_shared<std::string>();
                }
                break;
            }
            case 1: {
                bool ok = true;
                for (auto q = p; ok && !q.empty(); q = parent(q)) ok = !m.count(q) || m[q].dir;
                if (!ok) break;
                path.mkdir();
                mkparents(p);
                m[p].dir = true;
                break;
            }
            case 2: case 3: {  // write through a handle
                if (!isdir(parent(p)) || isdir(p)) break;
                std::string d = r.bytes(r.below(300));
                std::unique_ptr<DataHandle> h(path.fileHandle());
                h->openForWrite(0);
                VF_EQ(long(h->write(d.data(), long(d.size()))), long(d.size()), "files", "written");
                h->close();
                if (!m.count(p)) m[p].data = std::make_shared<std::string>();
                *m[p].data = d;
                break;
            }
            case 4: {  // copy
                std::string q = known();
                if (!isfile(p) || !isdir(parent(q)) || isdir(q) || (m.count(q) && m[q].data == m[p].data)) break;
                LocalPathName(path).copy(LocalPathName(abs(q)));
                if (!m.count(q)) m[q].data = std::make_shared<std::string>();
                *m[q].data = *m[p].data;
                break;
            }
            case 5: {  // rename
                std::string q = known();
                if (!m.count(p) || !isdir(parent(q))) break;
                bool under = q.compare(0, p.size() + 1, p + "/") == 0;
                bool ok    = !under && p != q;
                if (ok && m.count(q)) ok = m[p].dir ? (m[q].dir && empty(q)) : !m[q].dir;
                if (p == q) break;
                bool refused = refuses([&] { PathName::rename(path, PathName(abs(q))); });
                VF_EQ(refused, !ok, "files", "rename to " + q + " refused");
                if (!ok) break;
                if (m.count(q) && m[q].data && m[q].data == m[p].data) break;  // the same file: nothing happens
                std::map<std::string, Node> moved;
                for (auto j = m.begin(); j != m.end();) {
                    if (j->first == p || j->first.compare(0, p.size() + 1, p + "/") == 0) {
                        moved[q + j->first.substr(p.size())] = j->second;
                        j                                    = m.erase(j);
                    }
                    else ++j;
                }
                for (auto& kv : moved) m[kv.first] = kv.second;
                break;
            }
            case 6: {  // link
                std::string q = known();
                if (!isfile(p) || !isdir(parent(q))) break;
                bool refused = refuses([&] { PathName::link(path, PathName(abs(q))); });
                VF_EQ(refused, m.count(q) != 0, "files", "link refused");
                if (!refused) m[q].data = m[p].data;
                break;
            }
            case 7: {
                if (isdir(p)) {
                    VF_CHECK(refuses([&] { path.unlink(); }), "files", "a directory was unlinked");
                    break;
                }
                bool ok = true;
                for (auto q = parent(p); ok && !q.empty(); q = parent(q)) ok = !m.count(q) || m[q].dir;
                if (!ok) break;
                path.unlink();  // not an error when missing
                m.erase(p);
                break;
            }
            case 8: {
                if (!isdir(p)) break;
                bool refused = refuses([&] { path.rmdir(); });
                VF_EQ(refused, !empty(p), "files", "rmdir refused");
                if (!refused) m.erase(p);
                break;
            }
            case 9: {
                if (!isfile(p)) break;
                size_t n = r.below(400);
                LocalPathName(path).truncate(Length(n));
                m[p].data->resize(n);
                break;
            }
            case 10: {
                if (!isfile(p)) break;
                auto ino = [&] { struct stat s; ::stat(abs(p).c_str(), &s); return s.st_ino; };
                auto i   = ino();
                LocalPathName(path).empty();
                m[p].data->clear();
                VF_EQ(ino(), i, "files", "empty makes another file");
                break;
            }
            case 11: {
                if (!isfile(p)) break;
                LocalPathName(path).backup();
                // a copy with a name that starts with the one of the file
                size_t found = 0;
                for (auto& e : fs::directory_iterator(fs::path(abs(p)).parent_path())) {
                    std::string n = e.path().string();
                    if (n.compare(0, abs(p).size() + 1, abs(p) + ".") == 0 && !m.count(n.substr(root.size() + 1))) {
                        ++found;
                        VF_CHECK(slurp(n) == *m[p].data, "files", "the backup differs");
                        m[n.substr(root.size() + 1)].data = std::make_shared<std::string>(*m[p].data);
                    }
                }
                VF_EQ(found, size_t(1), "files", "backups");
                break;
            }
            case 12: {
                if (!isfile(p)) break;
                size_t n = r.in(0, 100000);
                std::string q = "reserved" + std::to_string(i);
                PathName(abs(q)).reserve(Length(n));
                VF_CHECK(slurp(abs(q)) == std::string(n, '\0'), "files", "reserve");
                m[q].data = std::make_shared<std::string>(n, '\0');
                VF_EQ(refuses([&] { path.reserve(Length(5)); }), !m[p].data->empty(), "files", "reserving a file with content is refused");
                if (m[p].data->empty()) *m[p].data = std::string(5, '\0');
                break;
            }
            case 13: {
                std::string q = known();
                bool want     = m.count(p) && m.count(q) && (p == q || (m[p].data && m[p].data == m[q].data));
                VF_EQ(path.sameAs(PathName(abs(q))), want, "files", "sameAs " + q);
                break;
            }
            case 14: {
                if (!m.count(p)) break;
                FileMode mode{mode_t(r.below(0777) | 0600 | (m[p].dir ? 0100 : 0))};
                path.chmod(mode);
                struct stat s;
                ::stat(abs(p).c_str(), &s);
                VF_EQ(int(s.st_mode & 0777), int(mode.mode()), "files", "chmod");
                VF_CHECK(FileMode::fromPath(path) == mode, "files", "mode of a path");
                break;
            }
        }
        // what they tell
        p = known();
        PathName q(abs(p));
        VF_EQ(q.exists(), m.count(p) != 0, "files", "exists " + p);
        if (m.count(p)) {
            VF_EQ(q.isDir(), m[p].dir, "files", "isDir " + p);
            VF_EQ(q.isLink(), false, "files", "isLink");
            struct stat s;
            ::stat(abs(p).c_str(), &s);
            VF_EQ(q.created(), s.st_ctime, "files", "created");
            VF_EQ(q.lastModified(), s.st_mtime, "files", "lastModified");
            VF_EQ(q.owner(), s.st_uid, "files", "owner");
            if (!m[p].dir) VF_EQ(size_t(q.size()), m[p].data->size(), "files", "size of " + p);
        }
        else {
            bool reachable = true;
            for (auto x = parent(p); reachable && !x.empty(); x = parent(x)) reachable = isdir(x);
            VF_CHECK(refuses([&] { q.size(); }), "files", "the size of a missing file");
            VF_CHECK(refuses([&] { q.isDir(); }), "files", "isDir of a missing file");
        }
        c.count("file_operations");
    }
    // the whole tree
    std::vector<PathName> files, dirs;
    PathName(root).childrenRecursive(files, dirs);
    std::set<std::string> gotf, gotd, wantf, wantd;
    for (auto& f : files) VF_CHECK(gotf.insert(f.asString()).second, "tree", "a file is listed twice");
    for (auto& f : dirs) VF_CHECK(gotd.insert(f.asString()).second, "tree", "a directory is listed twice");
    for (auto& kv : m) (kv.second.dir ? wantd : wantf).insert(abs(kv.first));
    VF_CHECK(gotf == wantf, "tree", "files: " + std::to_string(gotf.size()) + ", expected " + std::to_string(wantf.size()));
    VF_CHECK(gotd == wantd, "tree", "directories: " + std::to_string(gotd.size()) + ", expected " + std::to_string(wantd.size()));
    for (auto& kv : m) {
        if (kv.second.dir) continue;
        VF_CHECK(slurp(abs(kv.first)) == *kv.second.data, "tree", "the content of " + kv.first);
    }
    int hashed = 0;
    for (auto& kv : m) {
        if (kv.second.dir || hashed++ > 1) continue;
        std::unique_ptr<Hash> h(HashFactory::instance().build("MD5"));
        h->add(kv.second.data->data(), kv.second.data->size());
        VF_EQ(PathName(abs(kv.first)).hash("MD5"), h->digest(), "hash", "of " + kv.first);
        std::unique_ptr<Hash> h1(HashFactory::instance().build("SHA1")), h2(HashFactory::instance().build("SHA1"));
        h1->add(kv.second.data->data(), kv.second.data->size());
        PathName(abs(kv.first)).hash(*h2);
        VF_EQ(h1->digest(), h2->digest(), "hash", "of " + kv.first);
        // a part of it
        size_t n = kv.second.data->size(), o = r.below(n + 1), l = r.below(n - o + 1);
        std::unique_ptr<DataHandle> h3(PathName(abs(kv.first)).partHandle(Offset(o), Length(l)));
        std::string got(l + 10, '#');
        h3->openForRead();
        size_t k = 0;
        for (long x; (x = h3->read(&got[k], long(got.size() - k))) > 0;) k += size_t(x);
        h3->close();
        got.resize(k);
        VF_CHECK(got == kv.second.data->substr(o, l), "tree", "a part of " + kv.first);
    }
    c.eval();
    c.distinct(sig);
}

VF_WORKLOAD(listings, 100, 2500) {
    vf::Rng& r = c.rng;
    std::string root = c.scratch + "/t", out = c.scratch + "/outside";
    fs::create_directories(root);
    fs::create_directories(out);
    spit(out + "/ab.1", "x");
    spit(out + "/.b", "x");
    std::vector<std::string> ds{root};
    std::set<std::string> files, dirs;
    static const char* alphabet = "ab.1_";
    for (int i = int(r.in(3, 40)); i > 0; --i) {
        std::string n;
        for (int k = int(r.in(1, 5)); k > 0; --k) n += alphabet[r.below(5)];
        std::string p = ds[r.below(ds.size())] + "/" + n;
        struct stat s;
        if (n == "." || n == ".." || ::lstat(p.c_str(), &s) == 0) continue;
        switch (r.below(8)) {
            case 0: case 1: fs::create_directory(p); dirs.insert(p); ds.push_back(p); break;
            case 2: fs::create_symlink(out, p); files.insert(p); break;                       // to a directory
            case 3: fs::create_symlink(c.scratch + "/nowhere", p); files.insert(p); break;  // to nothing
            case 4: fs::create_symlink(out + "/ab.1", p); files.insert(p); break;
            default: spit(p, ""); files.insert(p);
        }
        if (fs::is_symlink(p)) {
            VF_CHECK(PathName(p).isLink(), "links", "isLink");
            VF_EQ(PathName(p).exists(), fs::exists(p), "links", "exists");
            if (fs::exists(p)) VF_EQ(PathName(p).realName().asString(), fs::canonical(p).string(), "links", "realName");
        }
    }
    std::vector<PathName> f, d;
    PathName(root).childrenRecursive(f, d);
    std::multiset<std::string> gf, gd;
    for (auto& x : f) gf.insert(x.asString());
    for (auto& x : d) gd.insert(x.asString());
    VF_CHECK(gf == std::multiset<std::string>(files.begin(), files.end()), "listing", "files below a directory");
    VF_CHECK(gd == std::multiset<std::string>(dirs.begin(), dirs.end()), "listing", "directories below a directory");
    for (int k = 0; k < 10; ++k) {
        std::string pat;
        for (int i = int(r.in(1, 4)); i > 0; --i) {
            switch (r.below(5)) {
                case 0: pat += "*"; break;
                case 1: pat += "?"; break;
                case 2: pat += "[ab]"; break;
                default: pat += alphabet[r.below(5)];
            }
        }
        if (pat == "." || pat == "..") continue;
        bool rec = r.chance(0.6);
        std::multiset<std::string> want, got;
        std::function<void(const std::string&)> walk = [&](const std::string& dir) {
            DIR* h = ::opendir(dir.c_str());
            while (auto e = ::readdir(h)) {
                std::string n = e->d_name, full = dir + "/" + n;
                if (n == "." || n == "..") continue;
                if (::fnmatch(pat.c_str(), n.c_str(), 0) == 0) want.insert(full);
                struct stat s;
                if (rec && n[0] != '.' && ::stat(full.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) walk(full);
            }
            ::closedir(h);
        };
        walk(root);
        std::vector<PathName> v;
        PathName::match(PathName(root + "/" + pat), v, rec);
        for (auto& x : v) got.insert(x.asString());
        std::string extra, missing;
        for (auto& x : got) if (!want.count(x)) extra += " " + x.substr(std::min(x.size(), c.scratch.size()));
        for (auto& x : want) if (!got.count(x)) missing += " " + x.substr(c.scratch.size());
        VF_CHECK(got == want, "match", repr(pat) + (rec ? " below" : "") + ": extra" + extra + ", missing" + missing);
        c.count("patterns");
        c.eval();
        c.distinct(pat + std::to_string(want.size()));
    }
    VF_CHECK(refuses([&] { std::vector<PathName> v; PathName::match(PathName(root + "/nosuch/*"), v); }), "match", "in a missing directory");
    VF_CHECK(refuses([&] { std::vector<PathName> v, w; PathName(root + "/nosuch").children(v, w); }), "listing", "of a missing directory");
    c.count("entries", files.size() + dirs.size());
}

VF_WORKLOAD(temporaries, 40, 600) {
    vf::Rng& r = c.rng;
    ::setenv("TMPDIR", c.scratch.c_str(), 1);
    std::string keep = c.scratch + "/keep";
    fs::create_directories(keep + "/sub");
    spit(keep + "/file", "keep");
    std::string gone, moved;
    {
        TmpDir t(c.scratch.c_str());
        gone = t.asString();
        VF_CHECK(t.isDir(), "temporary", "directory");
        VF_EQ(t.dirName().asString(), PathName(c.scratch).asString(), "temporary", "in the directory asked for");
        std::vector<std::string> ds{gone};
        for (int i = int(r.in(0, 30)); i > 0; --i) {
            std::string p = ds[r.below(ds.size())] + "/" + (r.chance(0.2) ? "." : "") + std::to_string(i);
            switch (r.below(6)) {
                case 0: case 1: fs::create_directory(p); ds.push_back(p); break;
                case 2: fs::create_symlink(keep, p); break;
                case 3: fs::create_symlink(c.scratch + "/nowhere", p); break;
                case 4: fs::create_hard_link(keep + "/file", p); break;
                default: spit(p, "x");
            }
        }
        if (r.chance(0.3)) {
            TmpDir u(std::move(t));
            VF_EQ(u.asString(), gone, "temporary", "moved");
            VF_CHECK(PathName(gone).exists(), "temporary", "moved");
        }
        else {
            VF_CHECK(PathName(gone).exists(), "temporary", "there");
        }
    }
    VF_CHECK(!fs::exists(gone), "temporary", "the directory stayed");
    VF_CHECK(fs::exists(keep + "/sub") && slurp(keep + "/file") == "keep", "temporary", "something outside was removed");
    std::set<std::string> names;
    {
        std::vector<std::unique_ptr<TmpFile>> v;
        for (int i = 0; i < 10; ++i) {
            v.emplace_back(new TmpFile(r.chance(0.5)));
            VF_CHECK(names.insert(v.back()->asString()).second, "temporary", "the same name again");
            VF_CHECK(v.back()->exists() && v.back()->size() == Length(0), "temporary", "file");
            if (r.chance(0.2)) v.back()->unlink();
        }
    }
    for (auto& n : names) VF_CHECK(!fs::exists(n), "temporary", "the file stayed");
    // unique names, from threads and processes
    std::string base = c.scratch + "/u/n";
    bool make        = r.chance(0.5);
    auto body        = [&](vf::Child& ch) {
        std::vector<std::thread> ts;
        std::vector<std::string> got[3];
        for (int t = 0; t < 3; ++t) {
            ts.emplace_back([&, t] {
                for (int i = 0; i < 15; ++i) {
                    PathName p = PathName::unique(PathName(base));
                    if (make) p.touch();
                    got[t].push_back(p.asString());
                }
            });
        }
        for (auto& t : ts) t.join();
        for (auto& g : got) for (auto& s : g) ch.line(s);
    };
    auto ended = vf::children(c, {body, body});
    std::set<std::string> all;
    for (auto& e : ended) for (auto& l : e.lines) {
        VF_CHECK(all.insert(l).second, "unique", "the name " + l + " was given twice");
        VF_CHECK(l.compare(0, base.size() + 1, base + ".") == 0, "unique", l);
        VF_EQ(fs::exists(l), make, "unique", "exists");
    }
    VF_EQ(all.size(), size_t(90), "unique", "names");
    c.count("unique_names", all.size());
    c.eval();
    c.distinct(r.u64());
}

VF_WORKLOAD(modes, 60, 1000) {
    vf::Rng& r = c.rng;
    for (int k = 0; k < 50; ++k) {
        mode_t m = mode_t(r.below(01000));
        char oct[16];
        ::snprintf(oct, sizeof oct, "0%o", unsigned(m));
        std::string s;
        for (int i = 8; i >= 0; --i) {
            s += m & (1 << i) ? "rwx"[(8 - i) % 3] : '-';
            if (i == 6 || i == 3) s += ',';
        }
        FileMode a(m), b{std::string(oct)}, d(s);
        VF_EQ(a.str(), s, "mode", "text");
        VF_EQ(int(b.mode()), int(m), "mode", std::string(oct));
        VF_EQ(int(d.mode()), int(m), "mode", s);
        VF_CHECK(a == b && b == d, "mode", "equal");
        mode_t t = mode_t(r.below(01000));
        VF_EQ(int(a.mask(FileMode(t))), int(t & ~m), "mode", "mask");
        FileMode e;
        e = s;
        VF_CHECK(e == a, "mode", "assigned");
        std::string bad = s;
        size_t pos      = r.below(bad.size());
        char ch         = "rwxs-,01 "[r.below(9)];
        char want       = "rwx,rwx,rwx"[pos];
        if (pos == 3 || pos == 7) {
            if (ch == ',') continue;
        }
        else if (ch == want || ch == '-') continue;
        bad[pos] = ch;
        if (bad[0] == '0') bad[0] = '1';
        VF_CHECK(refuses([&] { FileMode x(bad); }), "mode", "the text " + repr(bad) + " was accepted");
        char big[16];
        ::snprintf(big, sizeof big, "0%o", unsigned(01000 + r.below(07000)));
        VF_CHECK(refuses([&] { FileMode x{std::string(big)}; }), "mode", std::string(big) + " was accepted");
        VF_CHECK(refuses([&] { FileMode x(mode_t(01000 + r.below(07000))); }), "mode", "a number too large was accepted");
        VF_CHECK(refuses([&] { FileMode x{std::string("0") + char('8' + r.below(2)) + "1"}; }), "mode", "08 was accepted");
        c.eval();
        c.distinct(uint64_t(m) * 512 + t);
    }
    c.count("modes", 50);
}

// -- URIs

namespace {
std::string any(vf::Rng& r, const std::string& chars, size_t lo, size_t hi) {
    std::string s;
    for (size_t n = r.in(long(lo), long(hi)); n > 0; --n) s += chars[r.below(chars.size())];
    return s;
}
std::string percent(const std::string& v) {
    std::string s;
    for (unsigned char ch : v) {
        if (::isalnum(ch) || (ch && ::strchr("-_.~", ch))) s += char(ch);
        else {
            char b[4];
            ::snprintf(b, sizeof b, "%%%02X", ch);
            s += b;
        }
    }
    return s;
}
void same(vf::Case& c, const URI& a, const URI& b, const char* how) {
    VF_CHECK(a == b && !(a != b), "uri", std::string(how) + ": " + a.asRawString() + " is not " + b.asRawString());
    VF_EQ(a.asRawString(), b.asRawString(), "uri", how);
    VF_EQ(a.query(), b.query(), "uri", how);
}
}  // namespace

VF_WORKLOAD(uris, 400, 15000) {
    vf::Rng& r = c.rng;
    for (int k = 0; k < 20; ++k) {
        static const char* schemes[] = {"http", "https", "file"};
        std::string scheme           = r.pick(schemes);
        bool net                     = scheme != "file";
        std::string user, host, name, fragment;
        int port = -1;
        if (net && r.chance(0.8)) {
            host = any(r, "abz019.-", 1, 10);
            if (r.chance(0.5)) port = int(r.chance(0.1) ? 0 : r.in(1, 65535));
            if (r.chance(0.4)) user = any(r, "abz01:.-_", 1, 8);
        }
        if (r.chance(0.85)) name = "/" + any(r, "abz01/.-_:@=&+%,", 0, 12);
        if (host.empty() && name.compare(0, 2, "//") == 0 && net) name = "/x" + name;
        if (r.chance(0.4)) fragment = any(r, "abz01/.-_:@=&", 1, 8);
        if (!net && name.empty()) name = any(r, "abz./-_", 1, 9);
        std::map<std::string, std::string> q;
        for (int i = r.chance(0.5) ? int(r.in(1, 4)) : 0; i > 0; --i) q["k" + any(r, "abc_", 0, 3)] = r.chance(0.5) ? any(r, "abz 01/.-_:@=&+?#%,", 1, 8) : r.bytes(r.in(1, 6));
        std::string text = scheme + ":";
        if (!host.empty()) text += "//" + (user.empty() ? "" : user + "@") + host + (port < 0 ? "" : ":" + (port == 0 ? std::string() : std::to_string(port)));
        text += name;
        const char* sep = "?";
        std::string query;
        for (auto& kv : q) {
            query += (query.empty() ? "" : "&") + kv.first + "=" + percent(kv.second);
            sep = "&";
        }
        (void)sep;
        if (!query.empty()) text += "?" + query;
        if (!fragment.empty()) text += "#" + fragment;
        c.trace() << text << "\n";
        URI u(text);
        VF_EQ(u.scheme(), scheme, "uri", "scheme of " + repr(text));
        VF_EQ(u.user(), user, "uri", "user of " + repr(text));
        VF_EQ(u.host(), host, "uri", "host of " + repr(text));
        VF_EQ(u.port(), port, "uri", "port of " + repr(text));
        VF_EQ(u.name(), name, "uri", "name of " + repr(text));
        VF_EQ(u.fragment(), fragment, "uri", "fragment of " + repr(text));
        VF_EQ(u.query(), query, "uri", "query of " + repr(text));
        for (auto& kv : q) VF_CHECK(u.query(kv.first) == kv.second, "uri", "the value of " + kv.first + " in " + repr(text));
        VF_EQ(u.query("other"), std::string(), "uri", "a value that is not there");
        VF_EQ(u.asRawString(), text, "uri", "the text");
        if (net) VF_EQ(u.asString(), text, "uri", "the text");
        else VF_EQ(u.asString(), name, "uri", "the text");
        same(c, URI(u.asRawString()), u, "read back");
        Buffer b(8192);
        {
            MemoryStream s(b);
            s << u;
        }
        MemoryStream s(b);
        same(c, URI(s), u, "through a stream");
        if (!q.empty() && name.compare(0, 2, "//") != 0) {  // less is encoded than could be
            std::string v = any(r, "ab=/:", 1, 6) + "x";
            URI lax(scheme + ":" + name + "?z=" + v);
            VF_EQ(lax.query("z"), v, "uri", "a value that is not encoded");
            VF_EQ(lax.name(), name, "uri", "name");
        }
        // built from its parts
        URI v(scheme, host, port);
        v.path(name);
        v.fragment(fragment);
        for (auto& kv : q) v.query(kv.first, kv.second);
        VF_EQ(v.query(), query, "uri", "query built");
        if (user.empty()) same(c, v, u, "built");
        same(c, URI(scheme, u), u, "same scheme");
        URI w("x" + scheme, u);
        VF_EQ(w.asRawString(), "x" + text, "uri", "another scheme");
        URI h(scheme, u, "other", 12);
        VF_CHECK(h.host() == "other" && h.port() == 12 && h.name() == name && h.user() == user && h.query() == query && h.fragment() == fragment, "uri", "another host");
        VF_EQ(h == u, host == "other" && port == 12, "uri", "equal");
        // a changed part makes another URI
        URI d(u);
        switch (r.below(5)) {
            case 0: d.path(name + "x"); break;
            case 1: d.query("kab", u.query("kab") + "x"); break;
            case 2: d.fragment(fragment + "x"); break;
            case 3: d.host(host + "x"); break;
            case 4: d.port(port + 1); break;
        }
        VF_CHECK(!(d == u) && d != u, "uri", "a changed URI is equal");
        if (!q.empty()) {
            d = u;
            d.query(q.begin()->first, "");
            VF_EQ(d.query(q.begin()->first), std::string(), "uri", "removed from the query");
            VF_CHECK(d.query().find(q.begin()->first + "=") != 0, "uri", "removed from the query");
        }
        c.eval();
        c.distinct(text);
    }
    c.count("uris", 20);
    // without a scheme that is known, it is a path
    std::string p = any(r, "abz01/.-_:@=&+%,?#", 1, 12);
    size_t colon  = p.find(':');
    if (colon != 0) {
        URI u(p);
        VF_EQ(u.scheme(), std::string("unix"), "uri", "scheme of " + repr(p));
        if (p.find_first_of("?#") == std::string::npos) {
            VF_EQ(u.name(), p, "uri", "name of " + repr(p));
            VF_EQ(u.path().asString(), PathName(p).asString(), "uri", "path of " + repr(p));
        }
    }
    // files
    std::string f = c.scratch + "/f" + any(r, "abz", 1, 4);
    URI uf("file", PathName(f));
    VF_CHECK(!uf.exists(), "uri", "exists");
    std::string data = r.bytes(r.below(100));
    std::unique_ptr<DataHandle> w(uf.newWriteHandle());
    w->openForWrite(0);
    w->write(data.data(), long(data.size()));
    w->close();
    VF_CHECK(uf.exists() && slurp(f) == data, "uri", "written");
    std::unique_ptr<DataHandle> h(URI("file:" + f).newReadHandle());
    std::string got(200, ' ');
    h->openForRead();
    long n = h->read(&got[0], 200);
    h->close();
    VF_CHECK(got.substr(0, size_t(n)) == data, "uri", "read");
    // hostile text: anything may come out, but only eckit's exceptions
    std::string junk = r.chance(0.5) ? "http:" : "file:";
    junk += any(r, "ab/%:@?#&=0", 0, 20);
    try {
        URI u(junk);
        u.asRawString();
        u.asString();
        u.query("a");
    }
    catch (eckit::Exception&) {
    }
}

// -- expansion

VF_WORKLOAD(expansions, 300, 2000) {
    vf::Rng& r = c.rng;
    for (int k = 0; k < 10; ++k) {
        std::string in, want;
        bool bad = false;
        for (int i = int(r.in(1, 5)); i > 0; --i) {
            std::string lit = any(r, "abc/._-?=", 0, 6);
            in += lit;
            want += lit;
            std::string n = "VFX_" + any(r, "ABC", 1, 3), v = any(r, "abc /.$", 0, 8);
            switch (r.below(6)) {
                case 0: case 1:
                    if (!::getenv(n.c_str()) || r.chance(0.3)) {
                        if (in.find("?" + n + "}") != std::string::npos) break;
                        ::setenv(n.c_str(), v.c_str(), 1);
                    }
                    in += "{ENVVAR?" + n + "}";
                    want += ::getenv(n.c_str());
                    break;
                case 2: {
                    std::string f = c.scratch + "/" + n + std::to_string(k) + std::to_string(i);
                    spit(f, v + (r.chance(0.5) ? "\nmore\n" : ""));
                    in += "{FILE?" + f + "}";
                    want += v;
                    break;
                }
                case 3:
                    in += "{CWDFS}";
                    want += std::string(LocalPathName(fs::current_path().string()).mountPoint());
                    break;
                case 4:
                    if (r.chance(0.3)) {
                        static const char* wrong[] = {"{ENVVAR?VFX_NOSUCH}", "{ENVVAR}", "{NOSUCH?a}", "{}", "{FILE}", "{FILE?/nosuch/file}", "{ENVVAR?VFX_A"};
                        in += r.pick(wrong);
                        bad = true;
                    }
            }
        }
        if (bad) VF_CHECK(refuses([&] { PathExpander::expand(in); }), "expand", repr(in) + " was accepted");
        else VF_EQ(PathExpander::expand(in), want, "expand", repr(in));
        c.eval();
        c.distinct(in);
    }
    c.count("expansions", 10);
}

// -- file spaces

VF_WORKLOAD(spaces, 80, 2000) {
    vf::Rng& r = c.rng;
    std::map<std::string, Fake> mine;
    size_t n = r.in(1, 6);
    std::vector<PathName> v;
    unsigned long long maxAvail = 0;
    std::vector<long> percent(n, -1), used(n, 1000);
    std::vector<unsigned long long> avail(n, 0);
    bool working = false;
    for (size_t i = 0; i < n; ++i) {
        Fake f;
        f.bsize  = 1ul << r.in(9, 16);
        f.blocks = r.chance(0.5) ? r.in(100, 1000) : r.in(1000, 1000000000);
        f.bfree  = r.chance(0.2) ? f.blocks / 200 : r.below(f.blocks + 1);
        f.bavail = r.chance(0.7) ? f.bfree : r.below(f.bfree + 1);
        f.fails  = r.chance(0.1);
        std::string p = c.scratch + "/fs" + std::to_string(i);
        fs::create_directories(p);
        mine[p] = f;
        v.push_back(PathName(p));
        if (!f.fails) {
            working  = true;
            avail[i] = (unsigned long long)(f.bavail) * f.bsize;
            unsigned long long total = (unsigned long long)(f.blocks - (f.bfree - f.bavail)) * f.bsize;
            if (total) {
                percent[i] = long(100. * (double(avail[i]) / double(total)));
                used[i]    = long(100. * (double(total - avail[i]) / double(total)));
            }
            maxAvail = std::max(maxAvail, avail[i]);
        }
    }
    fakes = &mine;
    struct Off { ~Off() { fakes = nullptr; } } off;
    for (size_t i = 0; i < n; ++i) {
        FileSystemSize s;
        if (mine[v[i].asString()].fails) {
            VF_CHECK(refuses([&] { v[i].fileSystemSize(s); }), "space", "failed");
            continue;
        }
        v[i].fileSystemSize(s);
        VF_EQ(s.available, avail[i], "space", "available");
    }
    auto index = [&](const PathName& p) { return size_t(std::find(v.begin(), v.end(), p) - v.begin()); };
    std::vector<char> cand(n);
    size_t nc = 0;
    double totalA = 0, totalP = 0;
    unsigned long long cmax = 0, cmin = ~0ull;
    for (size_t i = 0; i < n; ++i) {
        cand[i] = percent[i] >= 0 && used[i] <= 99;
        if (cand[i]) {
            ++nc;
            totalA += double(avail[i]);
            totalP += double(percent[i]);
            cmax = std::max(cmax, avail[i]);
            cmin = std::min(cmin, avail[i]);
        }
    }
    static const char* names[] = {"leastUsed", "unknown", "leastUsedPercent", "roundRobin", "weightedRandom", "weightedRandomPercent", "pureRandom", "binnedLeastUsed"};
    for (auto s : names) {
        std::string name = s;
        if (!working) {
            VF_CHECK(refuses([&] { FileSpaceStrategies::selectFileSystem(v, name); }), "space", name + " chose one that does not work");
            continue;
        }
        bool least = name == "leastUsed" || name == "unknown" || (nc == 0 && name != "leastUsedPercent");
        if (name == "leastUsedPercent" && *std::max_element(percent.begin(), percent.end()) < 0) continue;
        std::vector<size_t> times(n);
        const int draws = 60;
        std::vector<size_t> order;
        for (int k = 0; k < (least ? 2 : draws); ++k) {
            size_t i = index(FileSpaceStrategies::selectFileSystem(v, name));
            VF_CHECK(i < n, "space", "none of the file systems");
            times[i]++;
            order.push_back(i);
        }
        for (size_t i = 0; i < n; ++i) {
            if (!times[i]) continue;
            if (least) VF_EQ(avail[i], maxAvail, "space", name + " chose one with less room");
            else if (name == "leastUsedPercent") VF_EQ(percent[i], *std::max_element(percent.begin(), percent.end()), "space", name + " chose one with less room");
            else {
                VF_CHECK(cand[i], "space", name + " chose one that is full or does not work");
                if (name == "weightedRandom" && totalA > 0) VF_CHECK(avail[i] > 0, "space", name + " chose one without room");
                if (name == "weightedRandomPercent" && totalP > 0) VF_CHECK(percent[i] > 0, "space", name + " chose one without room");
                if (name == "binnedLeastUsed") VF_CHECK(avail[i] >= cmax - (cmax - cmin) / 20, "space", name + " chose one that is not in the best bin");
            }
        }
        if (!least && name == "roundRobin") {
            for (size_t k = nc; k < order.size(); ++k) VF_EQ(order[k], order[k - nc], "space", "roundRobin does not go round");
            for (size_t i = 0; i < n; ++i) VF_CHECK(!cand[i] || times[i] > 0, "space", "roundRobin misses one");
        }
        if (!least && name == "pureRandom") {
            for (size_t i = 0; i < n; ++i) {
                // P(never among 60) = (1-1/6)^60 = 2e-5 at most
                if (nc <= 2 && cand[i]) VF_CHECK(times[i] > 0, "space", "pureRandom never chose one");
            }
        }
        if (!least && (name == "weightedRandom" || name == "weightedRandomPercent")) {
            for (size_t i = 0; i < n; ++i) {
                if (!cand[i]) continue;
                double p = name == "weightedRandom" ? (totalA > 0 ? double(avail[i]) / totalA : 0) : (totalP > 0 ? double(percent[i]) / totalP : 0);
                if (p > 0.5) VF_CHECK(times[i] > 3, "space", name + " hardly ever chose the one with most room");  // P < 1e-12
                if (p > 0 && p < 0.02) VF_CHECK(times[i] < 30, "space", name + " often chose one with little room");
            }
        }
        c.count("selections", order.size());
    }
    // as configured in a file
    std::string name = "space" + std::to_string(c.index);
    std::string etc  = Main::instance().home() + "/etc/disks";
    fs::create_directories(etc);
    {
        std::ofstream o(etc + "/" + name);
        for (auto& p : v) o << p << "\n#" << p << "xx\n";
    }
    struct timeval t[2] = {{long(1000000 + c.index), 0}, {long(1000000 + c.index), 0}};
    ::utimes((etc + "/" + name).c_str(), t);
    VF_CHECK(FileSpace::exists(name), "space", "configured");
    VF_CHECK(!FileSpace::exists(name + "x"), "space", "not configured");
    const FileSpace& sp = FileSpace::lookUp(name);
    VF_CHECK(&sp == &FileSpace::lookUp(name), "space", "looked up twice");
    VF_EQ(sp.fileSystems().size(), v.size(), "space", "number of file systems");
    for (size_t i = 0; i < n; ++i) VF_EQ(sp.fileSystems()[i].asString(), v[i].asString(), "space", "file systems");
    if (working) VF_EQ(avail[index(sp.selectFileSystem())], maxAvail, "space", "by default the least used");
    // and configured again
    {
        std::ofstream o(etc + "/" + name);
        o << v[0] << "\n";
    }
    t[0].tv_sec = t[1].tv_sec = 2000000;
    ::utimes((etc + "/" + name).c_str(), t);
    if (!mine[v[0].asString()].fails) {
        VF_EQ(sp.selectFileSystem("pureRandom").asString(), v[0].asString(), "space", "after the file changed");
        VF_EQ(sp.fileSystems().size(), size_t(1), "space", "number of file systems after the file changed");
    }
    c.eval();
    uint64_t sig = 0;
    for (auto x : percent) sig = sig * 103 + uint64_t(x + 1);
    c.distinct(sig);
}
