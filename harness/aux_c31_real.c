/* Stand-ins for the real fast-math entry points, recognisable by their results. */
double __pow_finite(double x, double y) { return 1000 + x * 2 + y * 3; }
double __atan2_finite(double x, double y) { return 2000 + x * 2 + y * 3; }
double __log_finite(double x) { return 3000 + x * 2; }
double __acos_finite(double x) { return 4000 + x * 2; }
double __asin_finite(double x) { return 5000 + x * 2; }
float __powf_finite(float x, float y) { return 6000 + x * 2 + y * 3; }
float __atan2f_finite(float x, float y) { return 7000 + x * 2 + y * 3; }
float __logf_finite(float x) { return 8000 + x * 2; }
float __acosf_finite(float x) { return 9000 + x * 2; }
float __asinf_finite(float x) { return 10000 + x * 2; }
