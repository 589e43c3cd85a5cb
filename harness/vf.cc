#include "vf.h"

#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cxxabi.h>
#include <typeinfo>

#include "eckit/exception/Exceptions.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"

extern "C" const char* __asan_default_options() __attribute__((weak));

namespace vf {

std::vector<Workload>& workloads() {
    static std::vector<Workload> w;
    return w;
}

void Case::distinct(uint64_t h) {
    std::lock_guard<std::mutex> l(mutex_);
    hashes_.push_back(h);
}
void Case::count(const std::string& what, long n) {
    std::lock_guard<std::mutex> l(mutex_);
    counts_[what] += n;
}
void Case::report(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(mutex_);
    if (failures_.size() < 20) {
        failures_.push_back({key, msg});
    }
}

std::string repr(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '\\') o += "\\\\";
        else if (ch >= 32 && ch < 127) o += ch;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        }
    }
    return o;
}

static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else o += ch;
    }
    return o + "\"";
}

static void rmtree(const std::string& p) {
    DIR* d = ::opendir(p.c_str());
    if (d) {
        while (dirent* e = ::readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string f = p + "/" + n;
            struct stat st;
            if (::lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                ::chmod(f.c_str(), 0700);
                rmtree(f);
            }
            else ::unlink(f.c_str());
        }
        ::closedir(d);
    }
    ::rmdir(p.c_str());
}

// shared with the driver: which case is running
struct Status {
    volatile long index;
    volatile long done;
    char workload[64];
};

extern std::atomic<bool> delays;  // in delays.cc

int (*worker_main)(int, char**) = nullptr;

int main(int argc, char** argv) {
    if (worker_main && std::string(argv[0]).find("vf-worker") != std::string::npos) return worker_main(argc, argv);
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) {
        opt[argv[i]] = argv[i + 1];
    }
    if (argc > 1 && std::string(argv[1]) == "--list") {
        for (auto& w : workloads()) {
            printf("%s %ld %ld\n", w.name.c_str(), w.quick, w.thorough);
        }
        return 0;
    }
    uint64_t seed      = strtoull(opt["--seed"].c_str(), nullptr, 10);
    bool thorough      = opt["--tier"] == "thorough";
    std::string wname  = opt["--workload"];
    long from          = atol(opt["--from"].c_str());
    long to            = atol(opt["--to"].c_str());
    long step          = opt.count("--step") ? atol(opt["--step"].c_str()) : 1;
    std::string out    = opt["--out"];
    std::string scratch = opt["--scratch"];
    long samples       = opt.count("--samples") ? atol(opt["--samples"].c_str()) : 0;
    bool verbose       = opt.count("--verbose");

    delays = true;
    const Workload* w = nullptr;
    for (auto& x : workloads()) {
        if (x.name == wname) w = &x;
    }
    if (!w) {
        fprintf(stderr, "no workload %s\n", wname.c_str());
        return 4;
    }

    static char appname[] = "verif";
    static char* av[]     = {appname, nullptr};
    if (!getenv("VF_NO_MAIN")) {
        ::setenv("VF_HOME", scratch.c_str(), 1);  // what ~ stands for
        eckit::Main::initialise(1, av, "VF_HOME");
        if (!verbose) {
            eckit::Log::info().reset();
            eckit::Log::warning().reset();
            eckit::Log::error().reset();
            eckit::Log::debug().reset();
        }
    }

    Status* st = nullptr;
    {
        int fd = ::open((out + ".status").c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ::ftruncate(fd, sizeof(Status))) return 4;
        st = static_cast<Status*>(::mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (st == MAP_FAILED) return 4;
        strncpy(st->workload, wname.c_str(), sizeof(st->workload) - 1);
    }

    FILE* of = fopen(out.c_str(), "a");
    if (!of) return 4;
    FILE* hf = fopen((out + ".hashes").c_str(), "ab");
    std::map<std::string, long> totals;
    long evals = 0, cases = 0, reported = 0;
    std::set<uint64_t> seen;
    pid_t me = ::getpid();

    auto flush = [&](bool fin) {
        fprintf(of, "{\"type\":\"totals\",\"cases\":%ld,\"evals\":%ld,\"final\":%s,\"counts\":{", cases, evals, fin ? "true" : "false");
        bool first = true;
        for (auto& kv : totals) {
            fprintf(of, "%s%s:%ld", first ? "" : ",", js(kv.first).c_str(), kv.second);
            first = false;
        }
        fprintf(of, "}}\n");
        fflush(of);
        totals.clear();
        cases = evals = 0;
        fflush(hf);
    };

    for (long i = from; i < to; i += step) {
        st->index = i;
        Case c;
        c.workload = wname;
        c.index    = i;
        c.seed     = mix(mix(seed) ^ hashStr(wname)) ^ mix((uint64_t)i * 7919 + 13);
        c.rng      = Rng(c.seed);
        c.thorough = thorough;
        c.scratch  = scratch + "/" + wname + "." + std::to_string(i) + "." + std::to_string(::getpid());
        ::mkdir(c.scratch.c_str(), 0755);
        try {
            w->body(c);
        }
        catch (Failure& f) {
            c.failures_.push_back(f);
        }
        catch (std::exception& e) {
            int stt;
            char* d       = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &stt);
            std::string t = d ? d : typeid(e).name();
            free(d);
            c.failures_.push_back({"unexpected-exception:" + wname + ":" + t, e.what()});
        }
        catch (...) {
            c.failures_.push_back({"unexpected-exception:" + wname + ":unknown", "not a std::exception"});
        }
        if (::getpid() != me) {
            ::_exit(77);  // a child of the workload must never come back here
        }
        rmtree(c.scratch);
        for (auto& f : c.failures_) {
            if (reported++ < 50) {
                std::string tr = c.trace_.str();
                if (tr.size() > 20000) tr = tr.substr(0, 10000) + "\n...\n" + tr.substr(tr.size() - 10000);
                fprintf(of, "{\"type\":\"violation\",\"workload\":%s,\"index\":%ld,\"key\":%s,\"msg\":%s,\"trace\":%s}\n",
                        js(wname).c_str(), i, js(f.key).c_str(), js(f.msg.substr(0, 4000)).c_str(), js(tr).c_str());
            }
        }
        if (samples > 0 && !c.trace_.str().empty()) {
            --samples;
            fprintf(of, "{\"type\":\"sample\",\"workload\":%s,\"index\":%ld,\"text\":%s}\n", js(wname).c_str(), i,
                    js(c.trace_.str().substr(0, 600)).c_str());
        }
        for (auto& kv : c.counts_) totals[kv.first] += kv.second;
        evals += c.evals_;
        cases++;
        for (uint64_t h : c.hashes_) {
            if (seen.insert(h).second) fwrite(&h, 8, 1, hf);
        }
        st->done = i + 1;
        if (!c.failures_.empty() || cases >= 200) flush(false);
    }
    flush(true);
    fclose(of);
    fclose(hf);
    st->index = -1;
    fflush(nullptr);
    ::_exit(0);  // static destruction is not what is being checked
}

}  // namespace vf

int main(int argc, char** argv) {
    return vf::main(argc, argv);
}
