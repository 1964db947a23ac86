// Entry points for the spectrum, observer and colour-temperature checks.  Public interface only.
#include <colorsystem.hpp>
using namespace ColorSystem;
#define FN extern "C" void
static inline void put(float *o, const Tristimulus &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
static inline void put(float *o, const Spectrum &s) { for (int i = 0; i < 400; i++) o[i] = s[i]; }
static inline Spectrum sp(const float *p) { Spectrum::spectrum a; for (int i = 0; i < 400; i++) a[i] = p[i]; return Spectrum(a); }
static const Observer &obs(int k) { return k == 0 ? CIE1931 : k == 1 ? CIE31JV : CIE2012; }

// in: lo, hi, t, samples...
FN s_fetch(const float *in, float *out, int n)
{
    std::vector<float> v(in + 3, in + 3 + n);
    out[0] = Spectrum::fetch(v.data(), n, in[0], in[1], in[2]);
}
// in: t, spectrum
FN s_at(const float *in, float *out) { out[0] = sp(in + 1).fetch(in[0]); }
// in: lo, hi, samples...
FN s_resample(const float *in, float *out, int n)
{
    std::vector<float> v(in + 2, in + 2 + n);
    put(out, Spectrum(v.data(), n, in[0], in[1]));
}
FN s_lerp(const float *in, float *out) { out[0] = Spectrum::lerp(in[0], in[1], in[2]); }
FN s_copy(const float *in, float *out, int k)
{
    Spectrum s = sp(in);
    if (k == 0) put(out, Spectrum(in));
    else if (k == 1) for (int i = 0; i < 400; i++) out[i] = s.s()[i];
    else put(out, Spectrum());
}
FN s_mul(const float *in, float *out, int k) { Spectrum a = sp(in), b = sp(in + 400); put(out, k ? a * b : Spectrum::mul(a, b)); }
FN s_add(const float *in, float *out, int k) { Spectrum a = sp(in), b = sp(in + 400); put(out, k ? a + b : Spectrum::add(a, b)); }
FN s_scale(const float *in, float *out, int k) { Spectrum a = sp(in); put(out, k ? a * in[400] : Spectrum::mul(a, in[400])); }
FN s_flat(const float *in, float *out, int k) { put(out, k ? Spectrum::E() : Spectrum::E(in[0])); }
FN s_sum(const float *in, float *out, int k) { Spectrum a = sp(in); out[0] = k ? a.sum() : Spectrum::sum(a); }
FN s_dot(const float *in, float *out, int k) { Spectrum a = sp(in), b = sp(in + 400); out[0] = k ? a.dot(b) : Spectrum::dot(a, b); }
FN s_dot3(const float *in, float *out) { out[0] = Spectrum::dot3(sp(in), sp(in + 400), sp(in + 800)); }
FN s_planck(const float *in, float *out) { out[0] = (float)Spectrum::planck((double)in[0], (double)in[1] * 1e-9); }
FN s_blackbody(const float *in, float *out) { put(out, Spectrum::blackbody(in[0])); }

FN o_table(const float *in, float *out, int k, int c)
{
    static const Spectrum *const t[3][3] = {{&CIE1931_X, &CIE1931_Y, &CIE1931_Z}, {&CIE1931_JuddVos_X, &CIE1931_JuddVos_Y, &CIE1931_JuddVos_Z}, {&CIE2012_X, &CIE2012_Y, &CIE2012_Z}};
    put(out, *t[k][c]);
}
FN o_spectrum(const float *in, float *out, int k) { put(out, obs(k).fromSpectrum(sp(in))); }
FN o_reflect(const float *in, float *out, int k) { put(out, obs(k).fromReflectanceAndLight(sp(in), sp(in + 400))); }
// a user-made observer: in: spectrum, X, Y, Z
FN o_custom(const float *in, float *out) { put(out, Observer(sp(in + 400), sp(in + 800), sp(in + 1200)).fromSpectrum(sp(in))); }
FN o_customr(const float *in, float *out) { put(out, Observer(sp(in + 800), sp(in + 1200), sp(in + 1600)).fromReflectanceAndLight(sp(in), sp(in + 400))); }
FN o_integrate(const float *in, float *out) { put(out, Observer::SpectrumIntegrate(sp(in), sp(in + 400), sp(in + 800), sp(in + 1200))); }
FN o_integrate3(const float *in, float *out) { put(out, Observer::SpectrumIntegrate3(sp(in), sp(in + 400), sp(in + 800), sp(in + 1200), sp(in + 1600))); }
FN o_lumens(const float *in, float *out, int k) { out[0] = obs(k).lumensFromMonochromaticFlux(in[0], in[1]); }
FN o_candelas(const float *in, float *out, int k) { put(out, obs(k).candellasFromMonochromaticRadiance(in[0], in[1])); }
FN o_xyz(const float *in, float *out, int k) { put(out, obs(k).xyz(in[0])); }
FN mc_patch(const float *in, float *out, int i) { put(out, Macbeth::Patch[i]); }
FN mc_reference(const float *in, float *out, int k)
{
    std::vector<Tristimulus> r = Macbeth::reference(sp(in), obs(k));
    out[0] = (float)r.size();
    for (size_t i = 0; i < r.size() && i < 24; i++) put(out + 1 + 3 * i, r[i]);
}
FN mc_reference0(const float *in, float *out)
{
    std::vector<Tristimulus> r = Macbeth::reference(sp(in));
    out[0] = (float)r.size();
    for (size_t i = 0; i < r.size() && i < 24; i++) put(out + 1 + 3 * i, r[i]);
}
FN d65_table(const float *in, float *out) { put(out, CIE_D65); }
