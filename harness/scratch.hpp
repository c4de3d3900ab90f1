// Scratch directories for checks that touch files.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;

static std::string scratch_root() {
    static std::string dir;
    static pid_t owner = 0;
    if(owner != getpid()) {
        const char *base = getenv("PBT_SCRATCH");
        if(!base || !*base) {
            infra("PBT_SCRATCH is not set");
        }
        dir = std::string(base) + "/" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir;
}
static void remove_tree(int parent, const char *name) { // only below a directory of our own
    if(unlinkat(parent, name, 0) == 0)
        return;
    int fd = openat(parent, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if(fd < 0)
        return;
    if(DIR *d = fdopendir(fd)) {
        std::vector<std::string> names;
        while(dirent *e = readdir(d))
            if(strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(e->d_name);
        for(auto &n : names)
            remove_tree(dirfd(d), n.c_str());
        closedir(d);
    }
    unlinkat(parent, name, AT_REMOVEDIR);
}
struct Scratch { // a fresh directory for one case
    std::string path;
    Scratch() {
        path = scratch_root() + "/w";
        remove_tree(AT_FDCWD, path.c_str());
        mkdir(path.c_str(), 0700);
    }
    ~Scratch() { remove_tree(AT_FDCWD, path.c_str()); }
    std::string operator/(const std::string &o) const { return path + "/" + o; }
};
static void write_file(const std::string &p, const std::string &data) {
    FILE *f = fopen(p.c_str(), "wb");
    if(!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f) != 0) {
        infra(("can not write " + p + ": " + strerror(errno)).c_str());
    }
}struct Chdir {
    int fd;
    bool on;
    Chdir(const std::string &to, bool on_) : fd(open(".", O_RDONLY | O_DIRECTORY)), on(on_) {
        if(on && chdir(to.c_str()) != 0)
            infra("chdir");
    }
    ~Chdir() {
        if(on && fchdir(fd) != 0)
            infra("fchdir");
        close(fd);
    }
};
