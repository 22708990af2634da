// C31: the libstdc++ compatibility shims compute the plain math functions.
// Non-trivial: the result is not NaN and the arguments are not both the same.
#include "../engine/vp.h"

#include <dlfcn.h>
#include <math.h>
#include <string>

// As the libraries that need the shims declare them.
extern "C" {
double __pow_finite(double, double);
double __atan2_finite(double, double);
double __log_finite(double);
double __acos_finite(double);
double __asin_finite(double);
float __powf_finite(float, float);
float __atan2f_finite(float, float);
float __logf_finite(float);
float __acosf_finite(float);
float __asinf_finite(float);
}

static double
PickD(vp::Src& s) {
    static const double special[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e308, 5e-324, -5e-324, INFINITY,
                                     -INFINITY, NAN, 3.0, -3.0, 1.0000000000000002, 0.9999999999999999, 10.0};
    switch (s.draw(5)) {
        case 0:
            return special[s.draw(sizeof(special) / sizeof(*special))];
        case 1:
            return double(s.irange(-1000000, 1000000)) / 1000000.0;
        case 2:
            return double(s.irange(-1000, 1000)) / 8.0;
        default: {
            uint64_t b = s.uint(64);
            double d;
            memcpy(&d, &b, 8);
            return d;
        }
    }
}
static float
PickF(vp::Src& s) {
    static const float special[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 2.0f, 3e38f, 1e-45f, -1e-45f, INFINITY,
                                    -INFINITY, NAN, 3.0f, -3.0f, 1.0000001f, 0.99999994f, 10.0f};
    switch (s.draw(5)) {
        case 0:
            return special[s.draw(sizeof(special) / sizeof(*special))];
        case 1:
            return float(s.irange(-1000000, 1000000)) / 1000000.0f;
        case 2:
            return float(s.irange(-1000, 1000)) / 8.0f;
        default: {
            uint32_t b = uint32_t(s.uint(32));
            float d;
            memcpy(&d, &b, 4);
            return d;
        }
    }
}

template <typename T>
static void
Same(vp::Src& s, const char* name, T got, T want, T x, T y) {
    VP_LOG("%s(%a, %a) -> %a", name, double(x), double(y), double(got));
    s.mark(name);
    bool same = (got != got && want != want) || memcmp(&got, &want, sizeof(T)) == 0;
    VP_CHECK(same, "%s(%a, %a) is %a, the plain function gives %a", name, double(x), double(y), double(got),
             double(want));
    if (want == want && memcmp(&x, &y, sizeof(T)))
        s.nontrivial();
}

VP_TARGET(Doubles, 3000000, 60000000, 0) {
    unsigned k = unsigned(s.draw(5));
    volatile double x = PickD(s);
    volatile double y = PickD(s);
    switch (k) {
        case 0:
            return Same<double>(s, "__pow_finite", __pow_finite(x, y), pow(x, y), x, y);
        case 1:
            return Same<double>(s, "__atan2_finite", __atan2_finite(x, y), atan2(x, y), x, y);
        case 2:
            return Same<double>(s, "__log_finite", __log_finite(x), log(x), x, y);
        case 3:
            return Same<double>(s, "__acos_finite", __acos_finite(x), acos(x), x, y);
        default:
            return Same<double>(s, "__asin_finite", __asin_finite(x), asin(x), x, y);
    }
}

VP_TARGET(Floats, 3000000, 60000000, 0) {
    unsigned k = unsigned(s.draw(5));
    volatile float x = PickF(s);
    volatile float y = PickF(s);
    switch (k) {
        case 0:
            return Same<float>(s, "__powf_finite", __powf_finite(x, y), powf(x, y), x, y);
        case 1:
            return Same<float>(s, "__atan2f_finite", __atan2f_finite(x, y), atan2f(x, y), x, y);
        case 2:
            return Same<float>(s, "__logf_finite", __logf_finite(x), logf(x), x, y);
        case 3:
            return Same<float>(s, "__acosf_finite", __acosf_finite(x), acosf(x), x, y);
        default:
            return Same<float>(s, "__asinf_finite", __asinf_finite(x), asinf(x), x, y);
    }
}

// A library that has the shims and real definitions of the same names must use the real ones.
VP_TARGET(RealOnesWin, 20000, 100000, 0) {
    static void* lib = dlopen(VP_BUILD_DIR "/libc31real.so", RTLD_NOW | RTLD_LOCAL);
    VP_CHECK(lib, "a library with the shims and real definitions does not load: %s", dlerror());
    static const char* const names[] = {"pow", "atan2", "log", "acos", "asin", "powf", "atan2f", "logf", "acosf",
                                        "asinf"};
    unsigned k = unsigned(s.draw(10));
    std::string sym = std::string("__") + names[k] + "_finite";
    void* p = dlsym(lib, sym.c_str());
    VP_CHECK(p, "%s is not defined", sym.c_str());
    s.nontrivial();
    double got, want;
    if (k < 5) {
        double x = double(s.irange(-100, 100));
        double y = double(s.irange(-100, 100));
        bool two = k < 2;
        got = two ? ((double (*)(double, double))p)(x, y) : ((double (*)(double))p)(x);
        want = 1000 * (k + 1) + x * 2 + (two ? y * 3 : 0);
        VP_LOG("%s(%g, %g)", sym.c_str(), x, y);
    } else {
        float x = float(s.irange(-100, 100));
        float y = float(s.irange(-100, 100));
        bool two = k < 7;
        got = two ? ((float (*)(float, float))p)(x, y) : ((float (*)(float))p)(x);
        want = 1000 * (k + 1) + x * 2 + (two ? y * 3 : 0);
        VP_LOG("%s(%g, %g)", sym.c_str(), double(x), double(y));
    }
    VP_CHECK(got == want, "%s gives %g: the shim replaced the real function", sym.c_str(), got);
}
