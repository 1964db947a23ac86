// Entry points for the least-squares and chart-correction checks.  Public interface only.
#include <colorsystem.hpp>
using namespace ColorSystem;
#define FN extern "C" void
static inline Spectrum sp(const float *p) { Spectrum::spectrum a; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
static const Observer &obs(int k) { return k == 0 ? CIE1931 : k == 1 ? CIE31JV : CIE2012; }

// in: A row by row, b.  out: status, x
static void lsq(const float *in, float *out, int m, int n, bool tol)
{
    SOLVER::Matrix A(m, n);
    SOLVER::Vector b(m), x(n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = in[i * n + j];
    for (int i = 0; i < m; i++) b[i] = in[m * n + i];
    for (int j = 0; j < n; j++) x[j] = -77.f;
    out[0] = (float)(tol ? SOLVER::solve(A, b, x, in[m * n + m]) : SOLVER::solve(A, b, x));
    for (int j = 0; j < n; j++) out[1 + j] = x[j];
    // the arguments belong to the caller
    for (int i = 0; i < m * n; i++) out[1 + n + i] = A[i / n][i % n];
    for (int i = 0; i < m; i++) out[1 + n + m * n + i] = b[i];
}
FN sv_solve(const float *in, float *out, int m, int n) { lsq(in, out, m, n, false); }
FN sv_solvet(const float *in, float *out, int m, int n) { lsq(in, out, m, n, true); }
FN sv_pythag(const float *in, float *out) { out[0] = SOLVER::PYTHAG(in[0], in[1]); }
FN sv_dsign(const float *in, float *out) { out[0] = SOLVER::DSIGN(in[0], in[1]); }

// in: patches, targets
FN co_solve(const float *in, float *out, int n)
{
    std::vector<Tristimulus> p, t;
    for (int i = 0; i < n; i++) p.push_back(Tristimulus(in[3 * i], in[3 * i + 1], in[3 * i + 2]));
    for (int i = n; i < 2 * n; i++) t.push_back(Tristimulus(in[3 * i], in[3 * i + 1], in[3 * i + 2]));
    const Matrix3 m = Corrector::solve(p, t);
    for (int i = 0; i < 9; i++) out[i] = m[i];
}
// in: 24 patches, light
FN co_light(const float *in, float *out, int k)
{
    std::vector<Tristimulus> p;
    for (int i = 0; i < 24; i++) p.push_back(Tristimulus(in[3 * i], in[3 * i + 1], in[3 * i + 2]));
    const Matrix3 m = k < 0 ? Corrector::solve(p) : k == 9 ? Corrector::solve(p, sp(in + 72)) : Corrector::solve(p, sp(in + 72), obs(k));
    for (int i = 0; i < 9; i++) out[i] = m[i];
}
FN co_gamut(const float *in, float *out, int k)
{
    std::vector<Tristimulus> p;
    for (int i = 0; i < 24; i++) p.push_back(Tristimulus(in[3 * i], in[3 * i + 1], in[3 * i + 2]));
    const Gamut g = k < 0 ? Corrector::makeGamut("camera", p) : k == 9 ? Corrector::makeGamut("camera", p, sp(in + 72)) : Corrector::makeGamut("camera", p, sp(in + 72), obs(k));
    for (int i = 0; i < 9; i++) out[i] = g.toXYZ()[i];
    for (int i = 0; i < 9; i++) out[9 + i] = g.fromXYZ()[i];
    out[18] = g.name()[0] == 'c' && g.name()[5] == 'a' && g.name()[6] == 0;
}
// the XYZ of the chart
FN co_chart(const float *in, float *out, int k)
{
    const std::vector<Tristimulus> r = k < 0 ? Macbeth::reference(CIE_D65) : k == 9 ? Macbeth::reference(sp(in)) : Macbeth::reference(sp(in), obs(k));
    for (int i = 0; i < 24; i++) for (int c = 0; c < 3; c++) out[3 * i + c] = r[i][c];
}
