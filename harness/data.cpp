// Entry points for the built-in data: colour-matching functions, D65, chart and sample reflectances, illuminants.
#include <colorsystem.hpp>
using namespace ColorSystem;
#define FN extern "C" void
static inline void put(float *o, const Tristimulus &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
static const Spectrum &table(int k)
{
    switch (k)
    {
    case 0: return CIE1931_X; case 1: return CIE1931_Y; case 2: return CIE1931_Z;
    case 3: return CIE1931_JuddVos_X; case 4: return CIE1931_JuddVos_Y; case 5: return CIE1931_JuddVos_Z;
    case 6: return CIE2012_X; case 7: return CIE2012_Y; case 8: return CIE2012_Z;
    case 9: return CIE_D65;
    default: return k < 40 ? Macbeth::Patch[k - 10] : TM_30_15::sample[k - 40];
    }
}
FN t_at(const float *in, float *out, int k) { out[0] = table(k).fetch(in[0]); }
FN t_all(const float *in, float *out, int k) { for (int i = 0; i < 400; i++) out[i] = table(k)[i]; }
FN t_dot(const float *in, float *out, int k) { Spectrum::spectrum a; for (int i = 0; i < 400; i++) a[i] = in[i]; out[0] = table(k).dot(Spectrum(a)); }
FN t_ill(const float *in, float *out, int k)
{
    static const Tristimulus *const t[] = {&Illuminant_A, &Illuminant_B, &Illuminant_C, &Illuminant_D50, &Illuminant_D55, &Illuminant_D60, &Illuminant_D65, &Illuminant_D75, &Illuminant_E, &Illuminant_F2, &Illuminant_F7, &Illuminant_F11};
    put(out, *t[k] * in[0]);
}
static const Observer &obs(int k) { return k == 0 ? CIE1931 : k == 1 ? CIE31JV : CIE2012; }
FN t_d65(const float *in, float *out, int k) { put(out, obs(k).fromSpectrum(CIE_D65) * in[0]); }
FN t_bb(const float *in, float *out, int T) { put(out, CIE1931.fromSpectrum(Spectrum::blackbody((float)T)) * in[0]); }
FN t_chart(const float *in, float *out)
{
    const std::vector<Tristimulus> r = Macbeth::reference(CIE_D65);
    for (int i = 0; i < 24; i++) put(out + 3 * i, r[i] * in[0]);
}
