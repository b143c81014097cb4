// Natively built sequential enumerators (AddressSanitizer instead of the model-checking runtime): same MC_CHECK interface.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sanitizer/common_interface_defs.h>
#include <string>
#include <unistd.h>

namespace mc {
    struct Failure {
        char kind[32], msg[1500];
    };
    inline Failure &failure() {
        static Failure f;
        return f;
    }
    inline const char *(*describe)() = nullptr; // what is being explored
    inline uint64_t executions, states, transitions;
    inline char sample[512];
    inline const char *scenario = "";

    [[noreturn]] inline void fail(const char *kind, const char *fmt, ...) {
        Failure &f = failure();
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(f.msg, sizeof f.msg, fmt, ap);
        va_end(ap);
        snprintf(f.kind, sizeof f.kind, "%s", kind);
        throw f;
    }
    inline void report(const Failure *f) {
        static char b[6000];
        std::string m = f ? f->msg : "";
        for (char &c : m)
            if (c == '"' || c == '\\' || (unsigned char)c < 32) c = ' ';
        for (char *s = sample; *s; s++)
            if (*s == '"' || *s == '\\') *s = ' ';
        int n = snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"result\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"sample\":\"%s\"", scenario, f ? "violation" : "ok",
            (unsigned long long)executions, (unsigned long long)states, (unsigned long long)transitions, sample);
        if (f) n += snprintf(b + n, sizeof b - n, ",\"kind\":\"%s\",\"message\":\"%s\"", f->kind, m.c_str());
        n += snprintf(b + n, sizeof b - n, "}\n");
        ssize_t r = write(1, b, n);
        (void)r;
    }
    inline void died(const char *kind, const char *why) {
        static bool once;
        if (once) _exit(1);
        once = true;
        static Failure f;
        snprintf(f.kind, sizeof f.kind, "%s", kind);
        snprintf(f.msg, sizeof f.msg, "%s: %s", describe ? describe() : "", why);
        report(&f);
        _exit(1);
    }
    inline int run(void (*fn)()) {
#if defined(__has_feature)
    #if __has_feature(address_sanitizer)
        __sanitizer_set_death_callback([] { died("memory", "access outside of allocated memory (AddressSanitizer)"); });
    #endif
#endif
        signal(SIGABRT, [](int) { died("crash", "abort or failed library assertion"); });
        signal(SIGFPE, [](int) { died("crash", "arithmetic exception"); });
        signal(SIGALRM, [](int) { died("livelock", "does not terminate"); });
        try {
            fn();
        } catch (Failure &f) {
            report(&f);
            return 1;
        } catch (std::exception &e) {
            Failure f;
            snprintf(f.kind, sizeof f.kind, "exception");
            snprintf(f.msg, sizeof f.msg, "%s: unexpected exception: %s", describe ? describe() : "", e.what());
            report(&f);
            return 1;
        }
        report(nullptr);
        return 0;
    }
} // namespace mc
#define MC_CHECK(kind, cond, ...) do { if (!(cond)) ::mc::fail(kind, __VA_ARGS__); } while (0)
