// C22: floating-point classification and modulo follow their documented contract.
// Non-trivial: an operand is special (zero, subnormal, infinite, NaN) or the division is inexact.
#include "../engine/vp.h"

#include <amtl/am-float.h>

template <typename T>
struct Enc;
template <>
struct Enc<float> {
    typedef uint32_t Bits;
    static const int kMant = 23, kExp = 8;
};
template <>
struct Enc<double> {
    typedef uint64_t Bits;
    static const int kMant = 52, kExp = 11;
};

template <typename T>
struct Parts {
    typedef typename Enc<T>::Bits Bits;
    static const int M = Enc<T>::kMant, E = Enc<T>::kExp;
    Bits bits, sign, frac;
    int exp;
    explicit Parts(Bits b)
     : bits(b),
       sign(b >> (M + E)),
       frac(b & ((Bits(1) << M) - 1)),
       exp(int(b >> M & ((Bits(1) << E) - 1)))
    {}
    static const int kMaxExp = (1 << E) - 1;
    bool nan() const {
        return exp == kMaxExp && frac;
    }
    bool inf() const {
        return exp == kMaxExp && !frac;
    }
    bool zero() const {
        return !exp && !frac;
    }
    // value = mant() * 2^scale(), up to a constant factor
    Bits mant() const {
        return exp ? frac | Bits(1) << M : frac;
    }
    int scale() const {
        return exp ? exp : 1;
    }
};

template <typename T>
static T
FromBits(typename Enc<T>::Bits b) {
    T v;
    memcpy(&v, &b, sizeof(v));
    return v;
}
template <typename T>
static typename Enc<T>::Bits
ToBits(T v) {
    typename Enc<T>::Bits b;
    memcpy(&b, &v, sizeof(v));
    return b;
}

// The exact remainder, by long division of the encodings.
template <typename T>
static bool
Reference(Parts<T> x, Parts<T> y, typename Enc<T>::Bits& out) {
    typedef typename Enc<T>::Bits Bits;
    const int M = Enc<T>::kMant;
    if (x.nan() || y.nan() || x.inf() || y.zero())
        return false;
    Bits sign = x.sign << (M + Enc<T>::kExp);
    if (y.inf() || x.zero()) {
        out = x.bits;
        return true;
    }
    Bits mx = x.mant(), my = y.mant();
    int ex = x.scale(), ey = y.scale();
    if (ex < ey || (ex == ey && mx < my)) {
        out = x.bits;
        return true;
    }
    unsigned __int128 r = mx % my;
    for (int i = ex; i > ey; i--)
        r = (r << 1) % my;
    Bits m = Bits(r);
    if (!m) {
        out = sign;
        return true;
    }
    while (m < (Bits(1) << M) && ey > 1) {
        m <<= 1;
        ey--;
    }
    if (m < (Bits(1) << M))
        out = sign | m;
    else
        out = sign | Bits(ey) << M | (m & ((Bits(1) << M) - 1));
    return true;
}

template <typename T>
static typename Enc<T>::Bits
Pick(vp::Src& s) {
    typedef typename Enc<T>::Bits Bits;
    const int M = Enc<T>::kMant, E = Enc<T>::kExp, W = M + E + 1;
    const Bits sign = Bits(s.draw(2)) << (M + E);
    const Bits maxe = (Bits(1) << E) - 1;
    Bits frac_mask = (Bits(1) << M) - 1;
    switch (s.draw(8)) {
        case 0:
            return sign | Bits(s.draw(4));   // zero and the smallest subnormals
        case 1: {
            // infinity and NaNs, quiet and signalling, with low or high payload bits only
            Bits p = 0;
            unsigned k = unsigned(s.draw(4));
            if (k == 1)
                p = Bits(1) << s.draw(M);
            else if (k == 2)
                p = Bits(s.uint(M));
            else if (k == 3)
                p = frac_mask;
            return sign | maxe << M | p;
        }
        case 2:
            return sign | (Bits(s.uint(M)) & frac_mask);   // subnormal
        case 3:
            return sign | (maxe - 1) << M | Bits(s.uint(M));   // largest binade
        case 4: {
            // small integers and halves
            T v = T(s.draw(1000)) / T(1 << s.draw(4));
            return sign | ToBits<T>(v);
        }
        case 5: {
            Bits e = Bits(s.draw(maxe + 1));
            Bits f = Bits(s.uint(M));
            return sign | e << M | f;
        }
        default:
            return Bits(s.uint(W));
    }
}

template <typename T>
static void
Classify(vp::Src& s) {
    auto b = Pick<T>(s);
    Parts<T> x(b);
    T v = FromBits<T>(b);
    VP_LOG("bits %#" PRIx64, uint64_t(b));
    if (x.nan() || x.inf() || x.zero() || !x.exp)
        s.nontrivial();
    s.mark(x.nan() ? "NaN" : x.inf() ? "infinity" : x.zero() ? "zero" : x.exp ? "normal" : "subnormal");
    // A signalling NaN stays a NaN through the call whatever its payload becomes.
    VP_CHECK(ke::IsNaN(v) == x.nan(), "IsNaN(%#" PRIx64 ") is %d", uint64_t(b), !x.nan());
    VP_CHECK(ke::IsInfinite(v) == x.inf(), "IsInfinite(%#" PRIx64 ") is %d", uint64_t(b), !x.inf());
}

template <typename T>
static void
Modulo(vp::Src& s) {
    auto bx = Pick<T>(s);
    auto by = Pick<T>(s);
    if (s.draw(4) == 3) {
        // multiples and near multiples
        T v = FromBits<T>(by) * T(s.irange(-40, 40));
        bx = ToBits<T>(v);
        if (s.coin())
            bx += decltype(bx)(s.draw(3)) - 1;
    }
    Parts<T> x(bx), y(by);
    decltype(bx) want = 0;
    bool number = Reference<T>(x, y, want);
    VP_LOG("%#" PRIx64 " %% %#" PRIx64, uint64_t(bx), uint64_t(by));
    if (!number || want != bx)
        s.nontrivial();
    T got = ke::FloatModulo(FromBits<T>(bx), FromBits<T>(by));
    auto gb = ToBits<T>(got);
    if (!number) {
        s.mark("NaN result");
        VP_CHECK(Parts<T>(gb).nan(), "%#" PRIx64 " %% %#" PRIx64 " is %#" PRIx64 ", expected NaN", uint64_t(bx),
                 uint64_t(by), uint64_t(gb));
        return;
    }
    VP_CHECK(gb == want, "%#" PRIx64 " %% %#" PRIx64 " is %#" PRIx64 ", the exact remainder is %#" PRIx64,
             uint64_t(bx), uint64_t(by), uint64_t(gb), uint64_t(want));
}

VP_TARGET(ClassifyFloat, 3000000, 60000000, 0) { Classify<float>(s); }
VP_TARGET(ClassifyDouble, 3000000, 60000000, 0) { Classify<double>(s); }
VP_TARGET(ModuloFloat, 2000000, 40000000, 0) { Modulo<float>(s); }
VP_TARGET(ModuloDouble, 2000000, 40000000, 0) { Modulo<double>(s); }
