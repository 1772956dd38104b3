// Simulated files, standard streams and process exit for the command line tools.
#pragma once
#include "core.h"
namespace simio {
struct File {
    Bytes data;
    int open_errno = 0;          // open fails
    long long fail_at = -1;      // a read that would pass this offset fails ...
    int fail_errno = 5;
    long long fail_times = -1;   // ... this many times (-1: always)
    uint64_t split = 0;          // seed of the read sizes; 0: reads are never short
    uint64_t maxread = 0;
    uint64_t opens = 0, reads = 0, shorts = 0, fails = 0;
};
struct World {
    std::map<std::string, File> files;
    File in;                     // standard input
    std::string out, err;
    long long out_fail_at = -1;  // standard output is full after this many bytes
    bool exited = false; int status = -1;
    uint64_t out_fails = 0;
    int max_fds = -1;            // open files allowed at once besides the standard streams
    uint64_t fd_fails = 0, unclosed = 0;
    std::vector<std::string> forbidden; // destructive calls attempted
};
typedef int (*tool_main)(int, char **);
void run(tool_main m, const std::vector<std::string> &args, World &w);
}
extern "C" int sim_gostsum_main(int, char **);
extern "C" int sim_gost12sum_main(int, char **);
