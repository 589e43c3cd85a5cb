// System V semaphores are found by the low bits of an inode number: what other processes left behind, or use at the
// same time, would be mistaken for ours. So this process gets a table of its own, emptied before each case.
#pragma once
#include <fcntl.h>
#include <sched.h>
#include <sys/ipc.h>
#include <sys/sem.h>
#include <unistd.h>

#include <cstdio>
#include <string>

namespace vf {

inline bool privateTable() {
    uid_t uid = ::geteuid();
    gid_t gid = ::getegid();
    if (::unshare(CLONE_NEWUSER | CLONE_NEWIPC) != 0) return ::unshare(CLONE_NEWIPC) == 0;
    auto put = [](const char* f, const std::string& s) {
        int fd = ::open(f, O_WRONLY);
        if (fd >= 0) {
            if (::write(fd, s.data(), s.size()) < 0) ::perror(f);
            ::close(fd);
        }
    };
    put("/proc/self/setgroups", "deny");
    put("/proc/self/uid_map", std::to_string(uid) + " " + std::to_string(uid) + " 1");
    put("/proc/self/gid_map", std::to_string(gid) + " " + std::to_string(gid) + " 1");
    return true;
}

/// to be called from the (single-threaded) process of a case
inline void emptyTable() {
    static const bool own = privateTable();
    if (!own) return;
    struct seminfo info;
    int top = ::semctl(0, 0, SEM_INFO, &info);
    for (int i = 0; i <= top; ++i) {
        struct semid_ds ds;
        int id = ::semctl(i, 0, SEM_STAT, &ds);
        if (id >= 0) ::semctl(id, 0, IPC_RMID);
    }
}

}  // namespace vf
