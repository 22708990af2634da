// C25: time conversions are exact and formatting matches the C library.
// Non-trivial: the time is not a whole second, or the format has at least two conversions.
#include "../engine/vp.h"

#include <limits.h>
#include <time.h>

#include <algorithm>
#include <chrono>
#include <string>
#include <vector>

#include <amtl/am-time.h>

#include "common/fmt.h"

typedef __int128 i128;
using namespace std::chrono;

static timespec
Spec(vp::Src& s, i128& want) {
    timespec ts;
    const i128 lim = (i128(1) << 63) - 1;
    const int64_t max_sec = INT64_MAX / 1000000000;
    int64_t sec, nsec;
    switch (s.draw(6)) {
        case 0:
            sec = s.irange(-3, 3);
            break;
        case 1:
            sec = int64_t(s.uint(31)) - (1 << 30);
            break;
        case 2:
            sec = int64_t(s.uint(34)) - (int64_t(1) << 33);
            break;
        case 3:
            sec = max_sec - int64_t(s.draw(3));
            break;
        case 4:
            sec = -max_sec - 1 + int64_t(s.draw(3));
            break;
        default: {
            uint64_t m = s.uint(63);
            sec = int64_t(m % uint64_t(max_sec));
            if (s.coin())
                sec = -sec;
        }
    }
    switch (s.draw(4)) {
        case 0:
            nsec = int64_t(s.draw(3));
            break;
        case 1:
            nsec = 999999999 - int64_t(s.draw(3));
            break;
        case 2:
            nsec = int64_t(s.draw(1000)) * 1000000;
            break;
        default:
            nsec = int64_t(s.draw(1000000000));
    }
    want = i128(sec) * 1000000000 + nsec;
    // The seconds alone must fit as well: that is how the sum is formed.
    i128 whole = i128(sec) * 1000000000;
    if (want > lim || want < -lim - 1 || whole > lim || whole < -lim - 1) {
        sec = 0;
        want = nsec;
    }
    ts.tv_sec = sec;
    ts.tv_nsec = nsec;
    return ts;
}

// A clock that is none of the standard ones.
struct CoarseClock {
    typedef nanoseconds duration;
    typedef duration::rep rep;
    typedef duration::period period;
    typedef std::chrono::time_point<CoarseClock> time_point;
    static const bool is_steady = false;
};

VP_TARGET(Timespecs, 3000000, 60000000, 0) {
    i128 want;
    timespec ts = Spec(s, want);
    VP_LOG("%lld s %ld ns", (long long)ts.tv_sec, ts.tv_nsec);
    if (ts.tv_nsec)
        s.nontrivial();
    if (ts.tv_sec < 0)
        s.mark("before the epoch");
    auto d = ke::TimespecToDuration(ts);
    static_assert(std::is_same<decltype(d), nanoseconds>::value, "nanoseconds");
    VP_CHECK(i128(d.count()) == want, "duration of %lld s %ld ns is %lld ns", (long long)ts.tv_sec, ts.tv_nsec,
             (long long)d.count());
    auto p = ke::TimespecToTimePoint<system_clock>(ts);
    VP_CHECK(i128(p.time_since_epoch().count()) == want, "system time point of %lld s %ld ns is %lld ns",
             (long long)ts.tv_sec, ts.tv_nsec, (long long)p.time_since_epoch().count());
    auto q = ke::TimespecToTimePoint<steady_clock>(ts);
    VP_CHECK(i128(q.time_since_epoch().count()) == want, "steady time point of %lld s %ld ns is %lld ns",
             (long long)ts.tv_sec, ts.tv_nsec, (long long)q.time_since_epoch().count());
    auto r = ke::TimespecToTimePoint<CoarseClock>(ts);
    VP_CHECK(i128(r.time_since_epoch().count()) == want, "time point of a custom clock is wrong");
}

template <typename TP, typename T>
static void
Epoch(vp::Src& s, const char* name) {
    uint64_t raw = s.uint(sizeof(T) * 8);
    T v = T(raw);
    VP_LOG("%s from %lld", name, (long long)v);
    if (raw > 1000)
        s.nontrivial();
    TP p = ke::EpochValueToTimePoint<TP>(v);
    VP_CHECK(i128(p.time_since_epoch().count()) == i128(v), "%s: epoch value %lld became %lld", name, (long long)v,
             (long long)p.time_since_epoch().count());
}

VP_TARGET(EpochValues, 1500000, 30000000, 0) {
    switch (s.draw(7)) {
        case 0:
            return Epoch<system_clock::time_point, int64_t>(s, "system clock, 64 bits");
        case 1:
            return Epoch<system_clock::time_point, int32_t>(s, "system clock, 32 bits");
        case 2:
            return Epoch<steady_clock::time_point, int64_t>(s, "steady clock, 64 bits");
        case 3:
            return Epoch<time_point<system_clock, seconds>, int64_t>(s, "seconds, 64 bits");
        case 4:
            return Epoch<time_point<system_clock, milliseconds>, int64_t>(s, "milliseconds, 64 bits");
        case 5:
            return Epoch<time_point<system_clock, microseconds>, uint32_t>(s, "microseconds, 32 bits unsigned");
        default:
            return Epoch<time_point<system_clock, duration<int32_t>>, int32_t>(s, "32-bit seconds");
    }
}

VP_TARGET(Formatting, 250000, 6000000, vp::kLeakCheck) {
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    if (s.draw(3)) {
        // A real instant.
        time_t t = time_t(s.uint(33)) - time_t(1) * (s.coin() ? 0 : 4000000000LL);
        gmtime_r(&t, &tm);
    } else {
        // Every field on its own, in its range.
        tm.tm_sec = int(s.draw(61));
        tm.tm_min = int(s.draw(60));
        tm.tm_hour = int(s.draw(24));
        tm.tm_mday = 1 + int(s.draw(31));
        tm.tm_mon = int(s.draw(12));
        tm.tm_year = int(s.irange(-1900, 8099));
        tm.tm_wday = int(s.draw(7));
        tm.tm_yday = int(s.draw(366));
        tm.tm_isdst = int(s.draw(3)) - 1;
    }
    static const char* const zones[] = {"UTC", "CEST", "A", "+0530", ""};
    tm.tm_gmtoff = long(s.irange(-14, 14)) * 1800;
    tm.tm_zone = zones[s.draw(5)];
    // C conversions, with their E and O variants.
    static const char* const conv[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%y", "%C", "%G", "%g", "%U", "%V", "%W",
                                       "%j", "%e", "%a", "%A", "%b", "%B", "%h", "%c", "%x", "%X", "%D", "%F", "%r",
                                       "%R", "%T", "%I", "%p", "%u", "%w", "%n", "%t", "%%", "%z", "%Z", "%Ey", "%EY",
                                       "%EC", "%Ec", "%Ex", "%EX", "%Od", "%Oe", "%OH", "%OI", "%Om", "%OM", "%OS",
                                       "%Ou", "%OU", "%OV", "%Ow", "%OW", "%Oy"};
    std::string f;
    size_t n = 0;
    size_t steps = s.draw(200) == 199 ? 400 : s.draw(12);
    for (size_t i = 0; i < steps; i++) {
        if (s.draw(3) == 2) {
            size_t k = s.draw(8);
            for (size_t j = 0; j < k; j++) {
                char c = char(1 + s.draw(255));
                f += c == '%' ? '-' : c;
            }
        } else {
            f += conv[s.draw(sizeof(conv) / sizeof(*conv))];
            n++;
        }
    }
    if (s.draw(2000) == 1999) {
        std::string lit = fmt::LongText(s);
        std::replace(lit.begin(), lit.end(), '%', '-');
        f.insert(0, lit);
    }
    if (n >= 2)
        s.nontrivial();
    // The reference: one byte is always left for a sentinel, so that an empty result is not an error.
    std::string g = f + "!";
    std::vector<char> buf(f.size() * 80 + 256);
    size_t len = strftime(buf.data(), buf.size(), g.c_str(), &tm);
    VP_CHECK(len > 0, "harness: the reference buffer is too small");
    std::string want(buf.data(), len - 1);
    bool str = s.coin();
    std::string got = str ? ke::FormatTime(tm, f) : ke::FormatTime(tm, f.c_str());
    VP_LOG("%s -> %s", vp::Quote(f.data(), f.size()), vp::Quote(want.data(), want.size()));
    VP_CHECK(got == want, "formatting %s gives %s, strftime gives %s", vp::Quote(f.data(), f.size()),
             vp::Quote(got.data(), got.size()), vp::Quote(want.data(), want.size()));
}

// Many calls in a row: the next differs from the last in one field, or in one character of the format, or in nothing.
VP_TARGET(Series, 60000, 1500000, vp::kLeakCheck) {
    static const char* const zones[] = {"UTC", "CEST", "A", ""};
    static const char* const conv[] = {"%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%a", "%w", "%z", "%Z", "%U", "%V",
                                       "%c", "%p", "%F", "%T", "-"};
    struct tm tm;
    time_t t = time_t(s.uint(31));
    gmtime_r(&t, &tm);
    char f[64];
    size_t n = 1 + s.draw(8);
    f[0] = '\0';
    for (size_t i = 0; i < n; i++)
        strcat(f, conv[s.draw(sizeof(conv) / sizeof(*conv))]);
    size_t steps = 2 + s.size(12);
    for (size_t i = 0; i < steps; i++) {
        switch (s.draw(14)) {
            case 0:
                tm.tm_sec = int(s.draw(61));
                break;
            case 1:
                tm.tm_min = int(s.draw(60));
                break;
            case 2:
                tm.tm_hour = int(s.draw(24));
                break;
            case 3:
                tm.tm_mday = 1 + int(s.draw(31));
                break;
            case 4:
                tm.tm_mon = int(s.draw(12));
                break;
            case 5:
                tm.tm_year = int(s.irange(-1900, 8099));
                break;
            case 6:
                tm.tm_wday = int(s.draw(7));
                break;
            case 7:
                tm.tm_yday = int(s.draw(366));
                break;
            case 8:
                tm.tm_gmtoff = long(s.irange(-14, 14)) * 1800;
                break;
            case 9:
                tm.tm_zone = zones[s.draw(4)];
                break;
            case 10: {
                // The same buffer with another conversion of the same length in it.
                char* p = strchr(f, '%');
                if (p)
                    p[1] = "YmdHMSjawzZUVcpFT"[s.draw(17)];
                break;
            }
            case 11: {
                // Another day of the same clock time, with everything that follows from it.
                t += 86400 * time_t(s.draw(800));
                gmtime_r(&t, &tm);
                break;
            }
            default:;
        }
        char g[80], buf[2048];
        snprintf(g, sizeof(g), "%s!", f);
        size_t len = strftime(buf, sizeof(buf), g, &tm);
        VP_CHECK(len > 0, "harness: the reference buffer is too small");
        std::string want(buf, len - 1);
        std::string got = s.coin() ? ke::FormatTime(tm, std::string(f)) : ke::FormatTime(tm, f);
        VP_LOG("%s -> %s\n", f, want.c_str());
        VP_CHECK(got == want, "call %zu: formatting %s gives %s, strftime gives %s", i, f,
                 vp::Quote(got.data(), got.size()), vp::Quote(want.data(), want.size()));
    }
    s.nontrivial();
}
