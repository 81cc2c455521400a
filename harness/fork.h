// Runs f in a process of its own, so that nothing it does outlives it
#ifndef VERIF_FORK_H
#define VERIF_FORK_H
#include <unistd.h>
#include <sys/wait.h>
#include <functional>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <csignal>

namespace drv {

static inline std::string forked(std::function<std::string()> f)
{
    int fd[2];
    if (pipe(fd) != 0) { fprintf(stderr, "driver: no pipe\n"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "driver: cannot fork\n"); exit(3); }
    if (pid == 0)
    {
        close(fd[0]);
        alarm(30);
        std::string r = f();
        size_t k = 0;
        while (k < r.size())
        {
            ssize_t n = write(fd[1], r.data() + k, r.size() - k);
            if (n <= 0) _exit(98);
            k += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, n);
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (status != 0)
        return WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "{\"st\":\"timeout\"}" : "{\"st\":\"crash\"}";
    return r;
}

}
#endif
