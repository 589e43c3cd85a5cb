// Child processes for workloads: each writes lines to a pipe, "FAIL <key> <text>" reports a violation.
#pragma once
#include "vf.h"

#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdarg>
#include <cstring>
#include <exception>
#include <functional>

namespace vf {

struct Child {
    int fd = -1;
    void line(const std::string& s) const {
        std::string t = s + "\n";
        if (::write(fd, t.data(), t.size()) != ssize_t(t.size())) ::_exit(98);  // one write, so that lines of dead children are whole
    }
    void fail(const std::string& key, const std::string& what) const { line("FAIL " + key + " " + what); }
};

struct Ended {
    std::vector<std::string> lines;
    int status = 0;
    bool killed() const { return WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL; }
};

/// runs the bodies in processes of their own, at the same time
inline std::vector<Ended> children(Case& c, const std::vector<std::function<void(Child&)>>& bodies, int seconds = 100) {
    std::vector<Ended> out(bodies.size());
    std::vector<pid_t> pids;
    std::vector<pollfd> fds;
    for (auto& b : bodies) {
        int p[2];
        if (::pipe(p)) c.fail("harness", "pipe");
        pid_t pid = ::fork();
        if (pid < 0) c.fail("harness", "fork");
        if (pid == 0) {
            ::close(p[0]);
            for (auto& f : fds) ::close(f.fd);
            Child ch;
            ch.fd    = p[1];
            int code = 0;
            try {
                b(ch);
            }
            catch (Failure& f) {
                ch.fail(f.key, f.msg);
            }
            catch (std::exception& e) {
                ch.fail("unexpected-exception", e.what());
            }
            ::_exit(code);
        }
        ::close(p[1]);
        pids.push_back(pid);
        fds.push_back({p[0], POLLIN, 0});
    }
    std::vector<std::string> text(bodies.size());
    size_t open  = bodies.size();
    time_t limit = ::time(nullptr) + seconds;
    bool late    = false;
    while (open) {
        if (::poll(fds.data(), fds.size(), 1000) < 0 && errno != EINTR) break;
        for (size_t i = 0; i < fds.size(); ++i) {
            if (fds[i].fd < 0 || !fds[i].revents) continue;
            char b[4096];
            ssize_t n = ::read(fds[i].fd, b, sizeof b);
            if (n > 0) {
                text[i].append(b, size_t(n));
            }
            else if (n == 0 || errno != EINTR) {
                ::close(fds[i].fd);
                fds[i].fd = -1;
                --open;
            }
        }
        if (!late && ::time(nullptr) > limit) {
            late = true;
            for (pid_t p : pids) ::kill(p, SIGKILL);
        }
    }
    std::string problem, key;
    for (size_t i = 0; i < pids.size(); ++i) {
        while (::waitpid(pids[i], &out[i].status, 0) < 0 && errno == EINTR) {}
        size_t b = 0, e;
        while ((e = text[i].find('\n', b)) != std::string::npos) {
            std::string l = text[i].substr(b, e - b);
            b             = e + 1;
            if (l.compare(0, 5, "FAIL ") == 0) {
                size_t sp = l.find(' ', 5);
                key       = l.substr(5, sp - 5);
                problem   = l.substr(sp == std::string::npos ? 5 : sp + 1);
            }
            else {
                out[i].lines.push_back(l);
            }
        }
        if (!out[i].killed() && !(WIFEXITED(out[i].status) && WEXITSTATUS(out[i].status) == 0) && key.empty()) {
            key     = "child-died";
            problem = "status " + std::to_string(out[i].status);
        }
    }
    if (late && key.empty()) {
        key     = "hang";
        problem = "the processes did not end in " + std::to_string(seconds) + " s";
    }
    if (!key.empty()) c.fail(key, problem);
    return out;
}

/// memory shared with the children
template <class T>
struct Shared {
    T* p;
    Shared() : p(static_cast<T*>(::mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))) {}
    ~Shared() { ::munmap(p, sizeof(T)); }
    T* operator->() { return p; }
};

}  // namespace vf
