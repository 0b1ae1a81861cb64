// Command line of the simulator.
//   sim batch PROP FIRST STRIDE COUNT WALL_MS [SCENARIO]   one child process per seed, one JSON line per run
//   sim one PROP SEED SCENARIO|- REPLAYFILE|-              one run; with full parameter log and trace
//   sim list
// REPLAYFILE: lines "o ORD VAL" (parameter override), "r" (trace driven), "t STEP KIND VAL".
#include "engine.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <errno.h>
#include <signal.h>

namespace sim { void engine_setup(); void list_scenarios(FILE *f); }
using namespace sim;

static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void output(FILE *f, const RunSpec &sp, const Result *r, bool full) {
    fprintf(f, "{\"seed\":%llu,\"scenario\":\"%s\",\"verdict\":%d,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"params\":\"%016llx\",\"state\":\"%016llx\"",
            (unsigned long long)sp.seed, r->scenario, r->verdict, (unsigned long long)r->hash, (unsigned long long)r->sched_hash,
            (unsigned long long)r->param_hash, (unsigned long long)r->state_hash);
    fprintf(f, ",\"steps\":%llu,\"switches\":%llu,\"syncops\":%llu,\"accesses\":%llu,\"allocs\":%llu,\"creates\":%llu,\"sim_ns\":%llu,\"checks\":%llu,\"threads\":%u,\"nontrivial\":%u",
            (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->syncops, (unsigned long long)r->accesses,
            (unsigned long long)r->allocs, (unsigned long long)r->creates, (unsigned long long)r->sim_ns, (unsigned long long)r->checks,
            r->max_threads, r->nontrivial);
    fprintf(f, ",\"faults\":{");
    bool c = false;
    for (int i = 0; i < F_NKIND; i++) if (r->faults[i]) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", fault_names[i], (unsigned long long)r->faults[i]); c = true; }
    fprintf(f, "},\"probes\":{"); c = false;
    for (int i = 0; i < NPROBE; i++) if (r->probe_name[i][0]) { fprintf(f, "%s", c ? "," : ""); jstr(f, r->probe_name[i]); fprintf(f, ":%llu", (unsigned long long)r->probe_n[i]); c = true; }
    fprintf(f, "},\"desc\":"); jstr(f, r->desc);
    if (r->verdict || full) {
        fprintf(f, ",\"cls\":"); jstr(f, r->cls);
        fprintf(f, ",\"site\":"); jstr(f, r->site);
        fprintf(f, ",\"msg\":"); jstr(f, r->msg);
        fprintf(f, ",\"pc\":[");
        for (int i = 0; i < 6; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)r->pc[i]);
        fprintf(f, "]");
    }
    if (full) {
        fprintf(f, ",\"plog\":[");
        for (u32 i = 0; i < r->nplog; i++) {
            const PLog &p = r->plog[i];
            fprintf(f, "%s[%u,\"%s\",%d,%d,%d]", i ? "," : "", p.ord, p.name, p.val, p.lo, p.hi);
        }
        fprintf(f, "],\"trace\":[");
        for (u32 i = 0; i < r->ntrace; i++) {
            const TraceEnt &t = r->trace[i];
            fprintf(f, "%s[%llu,\"%c\",%d]", i ? "," : "", (unsigned long long)t.step, (char)t.kind, t.val);
        }
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
    fflush(f);
}

static Result *res;

static void do_run(const char *prop, const RunSpec &sp) {
    // everything up to the trace array
    memset((void *)res, 0, offsetof(Result, trace));
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        alarm(flavour == INSTR ? 240 : 120);
        run_child(prop, sp, res);
        _exit(5);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if (res->verdict != V_VIOLATION) {
            res->verdict = V_HARNESS;
            snprintf(res->cls, sizeof res->cls, "harness");
            snprintf(res->msg, sizeof res->msg, "run process ended abnormally (status %x)", st);
        }
    }
}
static double nowms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec * 1e-6; }

int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: sim batch|one|list ...\n"); return 3; }
    if (!strcmp(argv[1], "list")) { list_scenarios(stdout); return 0; }
    engine_setup();
    res = (Result *)mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // all threads of a run share one processor: handing over between parked threads is cheapest there
    cpu_set_t all, mine;
    int w = getenv("SIM_WORKER") ? atoi(getenv("SIM_WORKER")) : -1;
    if (w >= 0 && !sched_getaffinity(0, sizeof all, &all)) {
        int n = CPU_COUNT(&all), k = w % (n > 0 ? n : 1);
        for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_ZERO(&mine); CPU_SET(i, &mine); sched_setaffinity(0, sizeof mine, &mine); break; }
    }
    if (!strcmp(argv[1], "batch") && argc >= 7) {
        u64 first = strtoull(argv[3], NULL, 10), stride = strtoull(argv[4], NULL, 10), count = strtoull(argv[5], NULL, 10);
        double wall = atof(argv[6]), t0 = nowms();
        for (u64 i = 0; i < count; i++) {
            RunSpec sp; sp.seed = first + i * stride; sp.scenario = argc > 7 ? argv[7] : NULL; sp.replay = false; sp.verbose = 0;
            do_run(argv[2], sp);
            output(stdout, sp, res, false);
            if (nowms() - t0 > wall) break;
        }
        return 0;
    }
    if (!strcmp(argv[1], "one") && argc >= 6) {
        RunSpec sp; sp.seed = strtoull(argv[3], NULL, 10); sp.scenario = strcmp(argv[4], "-") ? argv[4] : NULL; sp.replay = false; sp.verbose = 1;
        if (strcmp(argv[5], "-")) {
            FILE *f = fopen(argv[5], "r");
            if (!f) { perror(argv[5]); return 3; }
            char line[200];
            while (fgets(line, sizeof line, f)) {
                unsigned long long a; int b, v; char k;
                if (sscanf(line, "o %llu %d", &a, &b) == 2) sp.overrides.push_back({(u32)a, b});
                else if (line[0] == 'r') sp.replay = true;
                else if (sscanf(line, "t %llu %c %d", &a, &k, &v) == 3) sp.trace.push_back(TraceEnt{a, (u32)k, v});
            }
            fclose(f);
        }
        do_run(argv[2], sp);
        output(stdout, sp, res, true);
        return 0;
    }
    fprintf(stderr, "bad arguments\n");
    return 3;
}
