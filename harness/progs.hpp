// Running the sample programs: child processes with limits, captured output, a scratch directory.
#ifndef VERIF_PROGS_HPP
#define VERIF_PROGS_HPP
#include "common.hpp"
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <poll.h>
#include <errno.h>
#include <dirent.h>

struct Out {
    int status;         // exit status, 1000 + signal, -1: cut at the limit
    bool cut;
    std::string out, err;
    std::string cmd;
};
typedef std::vector<std::string> Args;
static std::string gScratch;
static void removeScratch() {
    if (gScratch.empty()) return;
    if (DIR * d = opendir(gScratch.c_str())) {
        while (struct dirent * e = readdir(d)) if (e->d_name[0] != '.') unlink((gScratch + "/" + e->d_name).c_str());
        closedir(d);
    }
    rmdir(gScratch.c_str());
}
static const std::string& scratch() {
    if (gScratch.empty()) {
        char t[] = "/tmp/verif-prog-XXXXXX";
        if (!mkdtemp(t)) throw std::string("no scratch directory");
        gScratch = t;
    }
    return gScratch;
}
static std::string slurp(const std::string& p) {
    std::string r;
    if (FILE * f = fopen(p.c_str(), "r")) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        fclose(f);
    }
    return r;
}
// cpu: CPU seconds; the wall limit is five times that
static Out run(const std::string& prog, const Args& args, long cpu, const Args& before = Args()) {
    Out r;
    r.status = -1;
    r.cut = false;
    r.cmd = prog.substr(prog.rfind('/') + 1);
    for (size_t i = 0; i < args.size(); i++) r.cmd += " " + args[i];
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) throw std::string("pipe");
    const std::string& dir = scratch();
    pid_t pid = fork();
    if (pid < 0) throw std::string("fork");
    if (pid == 0) {
        setpgid(0, 0);
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        dup2(po[1], 1);
        dup2(pe[1], 2);
        for (int i = 3; i < 200; i++) close(i);
        if (chdir(dir.c_str())) _exit(126);
        struct rlimit l;
        l.rlim_cur = l.rlim_max = static_cast<rlim_t>(cpu);
        setrlimit(RLIMIT_CPU, &l);
        l.rlim_cur = l.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &l);
        l.rlim_cur = l.rlim_max = 64u << 20;
        setrlimit(RLIMIT_FSIZE, &l);
        signal(SIGPROF, SIG_DFL);
        std::vector<char *> av;
        for (size_t i = 0; i < before.size(); i++) av.push_back(const_cast<char *>(before[i].c_str()));
        av.push_back(const_cast<char *>(prog.c_str()));
        for (size_t i = 0; i < args.size(); i++) av.push_back(const_cast<char *>(args[i].c_str()));
        av.push_back(0);
        execvp(av[0], av.data());
        _exit(127);
    }
    close(po[1]);
    close(pe[1]);
    time_t t0 = time(0);
    struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    std::string * s[2] = {&r.out, &r.err};
    int open_ = 2;
    while (open_) {
        int q = poll(p, 2, 1000);
        if (q < 0 && errno != EINTR) break;
        for (int i = 0; i < 2; i++)
            if (p[i].fd >= 0 && p[i].revents) {
                char b[8192];
                ssize_t n = read(p[i].fd, b, sizeof b);
                if (n > 0) { if (s[i]->size() < (32u << 20)) s[i]->append(b, static_cast<size_t>(n)); }
                else { p[i].fd = -1; open_--; }
            }
        if (time(0) - t0 > 5 * cpu || r.out.size() >= (32u << 20)) { kill(-pid, SIGKILL); r.cut = true; break; }
    }
    close(po[0]);
    close(pe[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    if (WIFEXITED(st)) r.status = WEXITSTATUS(st);
    else if (WIFSIGNALED(st)) {
        r.status = 1000 + WTERMSIG(st);
        if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) r.cut = true;
    }
    if (r.status == 127 || r.status == 126) throw std::string("cannot run " + prog);
    return r;
}
static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r;
    std::istringstream i(s);
    std::string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}
static std::vector<std::string> fields(const std::string& s) {
    std::vector<std::string> r(1);
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == ',') r.push_back(""); else r.back() += s[i]; }
    return r;
}
static bool number(const std::string& s, int base, uint64_t& v) {
    char * e = 0;
    if (s.empty() || !isxdigit(static_cast<unsigned char>(s[0]))) return false;
    errno = 0;
    v = strtoull(s.c_str(), &e, base);
    return *e == 0 && errno == 0;
}
#endif
