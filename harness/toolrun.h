/* runs a command line tool's main() inside the harness (its main and exit are renamed when it is linked in) */
#pragma once
#include "vp.h"
#include <csetjmp>
#include <sys/syscall.h>

extern "C" int tool_main(int, char **);
static jmp_buf tool_jmp; static volatile int tool_status;
extern "C" void tool_exit(int s) { tool_status = s; longjmp(tool_jmp, 1); }

struct ToolRun { int status = 0; std::string out; };

static std::string slurp_fd(int fd)
{
    std::string s; off_t n = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET); s.resize(n > 0 ? n : 0);
    size_t k = 0; while (k < s.size()) { ssize_t r = read(fd, &s[k], s.size() - k); if (r <= 0) break; k += r; }
    s.resize(k); return s;
}
static int tool_fd(const char *n) { int fd = memfd_create(n, 0); if (fd < 0) { perror("memfd"); abort(); } return fd; }

static ToolRun run_tool(std::vector<std::string> args)
{
    ToolRun t; std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
    fflush(stdout); fflush(stderr);
    /* the tool's own messages go nowhere; file descriptor 2 stays with the sanitizer */
    static FILE *nul = fopen("/dev/null", "w"); FILE *se = stderr;
    int so = dup(1), o = tool_fd("out");
    dup2(o, 1); clearerr(stdout); stderr = nul;
    tool_status = 0;
    if (setjmp(tool_jmp) == 0) { int r = tool_main((int)args.size(), av.data()); tool_status = r; }
    fflush(stdout); stderr = se;
    dup2(so, 1); close(so);
    t.status = tool_status & 255; t.out = slurp_fd(o); close(o);
    return t;
}
static std::string scratch_dir() { const char *d = getenv("VP_SCRATCH"); return d ? d : "/tmp"; }
static std::string scratch_file(const char *n) { return scratch_dir() + "/" + n + "." + std::to_string(getpid()); }
static void put_file(const std::string &p, const void *d, size_t n)
{
    FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); }
    if (n) fwrite(d, 1, n, f); fclose(f);
}
