// Entry points for the colour-space, matrix, transfer-function and difference checks.  Public interface only.
#include <colorsystem.hpp>
using namespace ColorSystem;
#define E extern "C" void
#define T3(p) Tristimulus((p)[0], (p)[1], (p)[2])
#define V3(p) Vector3((p)[0], (p)[1], (p)[2])
#define M9(p) Matrix3((p)[0], (p)[1], (p)[2], (p)[3], (p)[4], (p)[5], (p)[6], (p)[7], (p)[8])
static inline void put(float *o, const Tristimulus &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
static inline void put(float *o, const Vector3 &t) { o[0] = t[0]; o[1] = t[1]; o[2] = t[2]; }
static inline void put(float *o, const Matrix3 &m) { for (int i = 0; i < 9; i++) o[i] = m[i]; }

// ---- matrices
E m_ctor(const float *in, float *out) { put(out, M9(in)); }
E m_from_array(const float *in, float *out) { put(out, Matrix3::fromArray(in)); }
E m_identity(const float *in, float *out) { put(out, Matrix3()); }
E m_diag(const float *in, float *out) { put(out, Matrix3::diag(V3(in))); }
E m_row(const float *in, float *out, int i) { put(out, M9(in).row(i)); }
E m_col(const float *in, float *out, int i) { put(out, M9(in).col(i)); }
E m_transpose(const float *in, float *out, int k) { put(out, k ? Matrix3::transpose(M9(in)) : M9(in).transpose()); }
E m_crosstalk(const float *in, float *out) { put(out, Matrix3::crosstalk(in[0])); }
E m_crosstalk_inv(const float *in, float *out) { put(out, Matrix3::crosstalkInvert(in[0])); }
E m_mul(const float *in, float *out, int k) { put(out, k ? Matrix3::mul(M9(in), M9(in + 9)) : M9(in).mul(M9(in + 9))); }
E m_apply(const float *in, float *out, int k) { put(out, k ? Matrix3::apply(M9(in), V3(in + 9)) : M9(in).apply(V3(in + 9))); }
E m_det(const float *in, float *out, int k) { out[0] = k ? Matrix3::det(M9(in)) : M9(in).det(); }
E m_scale(const float *in, float *out, int k) { put(out, k ? Matrix3::mul(M9(in), in[9]) : M9(in).mul(in[9])); }
E m_div(const float *in, float *out, int k) { put(out, k ? Matrix3::div(M9(in), in[9]) : M9(in).div(in[9])); }
E m_add(const float *in, float *out, int k) { put(out, k ? Matrix3::add(M9(in), M9(in + 9)) : M9(in).add(M9(in + 9))); }
E m_inv(const float *in, float *out, int k) { put(out, k ? Matrix3::invert(M9(in)) : M9(in).invert()); }
E m_iter(const float *in, float *out) { Matrix3 m = M9(in); int n = 0; for (auto x : m) out[n++] = x; out[9] = (float)m.size(); }

// ---- vectors, tristimulus
E v_dot(const float *in, float *out, int k) { out[0] = k ? Vector3::dot(V3(in), V3(in + 3)) : V3(in).dot(V3(in + 3)); }
E v_get(const float *in, float *out)
{
    Vector3 v = V3(in);
    out[0] = v.x(); out[1] = v.y(); out[2] = v.z();
    int n = 3;
    for (auto x : v) out[n++] = x;
    out[6] = v[0]; out[7] = v[1]; out[8] = v[2]; out[9] = (float)v.size();
}
E t_get(const float *in, float *out)
{
    Tristimulus t = T3(in);
    out[0] = t.a(); out[1] = t.b(); out[2] = t.c();
    int n = 3;
    for (auto x : t) out[n++] = x;
    put(out + 6, t.vec3()); out[9] = (float)t.size();
}
E t_ctor(const float *in, float *out)
{
    put(out, Tristimulus(in[0])); put(out + 3, Tristimulus(V3(in))); put(out + 6, Tristimulus());
}
E t_scale(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).scale(in[3]) : k == 1 ? Tristimulus::scale(T3(in), in[3]) : T3(in) * in[3]);
}
E t_div(const float *in, float *out) { put(out, T3(in) / in[3]); }
E t_add(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).add(T3(in + 3)) : k == 1 ? Tristimulus::add(T3(in), T3(in + 3)) : T3(in) + T3(in + 3));
}
E t_mul(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).mul(T3(in + 3)) : k == 1 ? Tristimulus::mul(T3(in), T3(in + 3)) : T3(in) * T3(in + 3));
}
E t_dot(const float *in, float *out, int k) { out[0] = k ? Tristimulus::dot(T3(in), T3(in + 3)) : T3(in).dot(T3(in + 3)); }
E t_apply(const float *in, float *out, int k) { put(out, k ? Tristimulus::apply(T3(in), M9(in + 3)) : T3(in).apply(M9(in + 3))); }
E t_min(const float *in, float *out, int k) { put(out, k ? Tristimulus::min(T3(in), T3(in + 3)) : T3(in).min(T3(in + 3))); }
E t_max(const float *in, float *out, int k) { put(out, k ? Tristimulus::max(T3(in), T3(in + 3)) : T3(in).max(T3(in + 3))); }
E t_min3(const float *in, float *out) { out[0] = T3(in).min3(); }
E t_max3(const float *in, float *out) { out[0] = T3(in).max3(); }
E t_clip(const float *in, float *out, int k) { put(out, k ? Tristimulus::clip(T3(in), in[3], in[4]) : T3(in).clip(in[3], in[4])); }
E t_positive(const float *in, float *out, int k) { put(out, k ? Tristimulus::positive(T3(in)) : T3(in).positive()); }
E t_hasneg(const float *in, float *out, int k) { out[0] = (k ? Tristimulus::hasNegative(T3(in)) : T3(in).hasNegative()) ? 1.f : 0.f; }

// ---- chromaticity
E yxy_to(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).toYxy() : k == 1 ? Tristimulus::toYxy(T3(in)) : Tristimulus::toYxy(in[0], in[1], in[2]));
}
E yxy_from(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).fromYxy() : k == 1 ? Tristimulus::fromYxy(T3(in)) : Tristimulus::fromYxy(in[0], in[1], in[2]));
}
E yuv_to(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).toYuv() : k == 1 ? Tristimulus::toYuv(T3(in)) : Tristimulus::toYuv(in[0], in[1], in[2]));
}
E yuv_from(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).fromYuv() : k == 1 ? Tristimulus::fromYuv(T3(in)) : Tristimulus::fromYuv(in[0], in[1], in[2]));
}
E yxy_yuv(const float *in, float *out) { put(out, Tristimulus::YxyToYuv(T3(in))); }
E yuv_yxy(const float *in, float *out) { put(out, Tristimulus::YuvToYxy(T3(in))); }

// ---- CIELAB, HSV, OKLAB, ICtCp
E lab_to(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).toCIELAB(T3(in + 3)) : k == 1 ? Tristimulus::toCIELAB(T3(in), T3(in + 3)) : T3(in).toCIELAB());
}
E lab_from(const float *in, float *out, int k)
{
    put(out, k == 0 ? T3(in).fromCIELAB(T3(in + 3)) : k == 1 ? Tristimulus::fromCIELAB(T3(in), T3(in + 3)) : T3(in).fromCIELAB());
}
E hsv_to(const float *in, float *out, int k) { put(out, k ? Tristimulus::toHSV(T3(in)) : T3(in).toHSV()); }
E hsv_to_atan(const float *in, float *out, int k) { put(out, k ? Tristimulus::toHSV_atan(T3(in)) : T3(in).toHSV_atan()); }
E hsv_from(const float *in, float *out, int k) { put(out, k ? Tristimulus::fromHSV(T3(in)) : T3(in).fromHSV()); }
E oklab_to(const float *in, float *out) { put(out, XYZ_to_OKLAB(T3(in))); }
E oklab_from(const float *in, float *out) { put(out, OKLAB_to_XYZ(T3(in))); }
E ictcp_to(const float *in, float *out) { put(out, XYZ_to_ICtCp(T3(in))); }
E ictcp_from(const float *in, float *out) { put(out, ICtCp_to_XYZ(T3(in))); }

// ---- gamuts
static const Gamut &gamut(int g)
{
    switch (g)
    {
    case 0: return AdobeRGB;
    case 1: return Rec709;
    case 2: return Rec2020;
    case 3: return DCI_P3;
    case 4: return S_Gamut;
    case 5: return S_Gamut3_Cine;
    case 6: return ACEScg;
    case 7: return ACES2065;
    case 8: return LMS;
    default: return XYZ;
    }
}
#define GP(p) Gamut("g", (p)[0], (p)[1], (p)[2], (p)[3], (p)[4], (p)[5], (p)[6], (p)[7])
E g_prim(const float *in, float *out) { Gamut g = GP(in); put(out, g.toXYZ()); put(out + 9, g.fromXYZ()); }
E g_prim_toxyz(const float *in, float *out) { Gamut g = GP(in); put(out, g.toXYZ(T3(in + 8))); }
E g_prim_fromxyz(const float *in, float *out) { Gamut g = GP(in); put(out, g.fromXYZ(T3(in + 8))); }
E g_prim_primaries(const float *in, float *out)
{
    Gamut g = GP(in);
    put(out, g.primaryRed()); put(out + 3, g.primaryGreen()); put(out + 6, g.primaryBlue()); put(out + 9, g.primaryWhite());
}
E g_mat(const float *in, float *out) { Gamut g("m", M9(in)); put(out, g.toXYZ()); put(out + 9, g.fromXYZ()); }
E g_mat_primaries(const float *in, float *out)
{
    Gamut g("m", M9(in));
    put(out, g.primaryRed()); put(out + 3, g.primaryGreen()); put(out + 6, g.primaryBlue()); put(out + 9, g.primaryWhite());
    put(out + 12, g.primaryVector()); put(out + 15, g.primaryMatrix());
}
E g_mats(const float *in, float *out, int g) { put(out, gamut(g).toXYZ()); put(out + 9, gamut(g).fromXYZ()); }
E g_toxyz(const float *in, float *out, int g) { put(out, gamut(g).toXYZ(T3(in))); }
E g_fromxyz(const float *in, float *out, int g) { put(out, gamut(g).fromXYZ(T3(in))); }
E g_primaries(const float *in, float *out, int k)
{
    const Gamut &g = gamut(k);
    put(out, g.primaryRed()); put(out + 3, g.primaryGreen()); put(out + 6, g.primaryBlue()); put(out + 9, g.primaryWhite());
}
E g_convert(const float *in, float *out, int a, int b) { put(out, GamutConvert(gamut(a), gamut(b))); }
E g_convert_apply(const float *in, float *out, int a, int b) { put(out, T3(in).apply(GamutConvert(gamut(a), gamut(b)))); }
E g_convert_any(const float *in, float *out) { Gamut a = GP(in), b = GP(in + 8); put(out, GamutConvert(a, b)); }
E bradford(const float *in, float *out) { put(out, Bradford(T3(in), T3(in + 3))); }
E illuminant(const float *in, float *out, int k)
{
    static const Tristimulus *t[] = {&Illuminant_A, &Illuminant_B, &Illuminant_C, &Illuminant_D50, &Illuminant_D55, &Illuminant_D60,
        &Illuminant_D65, &Illuminant_D75, &Illuminant_E, &Illuminant_F2, &Illuminant_F7, &Illuminant_F11};
    put(out, *t[k]);
}

// ---- transfer functions
E otf_screen(const float *in, float *out, int type) { put(out, OTF::toScreen((OTF::TYPE)type, T3(in), in[3])); }
E otf_scene(const float *in, float *out, int type) { put(out, OTF::toScene((OTF::TYPE)type, T3(in), in[3])); }
E otf_screen1(const float *in, float *out, int type) { out[0] = OTF::toScreen((OTF::TYPE)type, Tristimulus(in[0], 0.5f, 0.5f))[0]; }
E otf_scene1(const float *in, float *out, int type) { out[0] = OTF::toScene((OTF::TYPE)type, Tristimulus(in[0], 0.5f, 0.5f))[0]; }
E otf_fn(const float *in, float *out, int k)
{
    switch (k)
    {
    case 0: out[0] = OTF::Y_to_sRGB(in[0]); break;
    case 1: out[0] = OTF::sRGB_to_Y(in[0]); break;
    case 2: out[0] = OTF::Y_to_BT709(in[0]); break;
    case 3: out[0] = OTF::BT709_to_Y(in[0]); break;
    case 4: out[0] = OTF::Y_to_ST2084(in[0]); break;
    case 5: out[0] = OTF::ST2084_to_Y(in[0]); break;
    case 6: out[0] = OTF::Y_to_SLog(in[0]); break;
    case 7: out[0] = OTF::SLog_to_Y(in[0]); break;
    case 8: out[0] = OTF::Y_to_SLog2(in[0]); break;
    case 9: out[0] = OTF::SLog2_to_Y(in[0]); break;
    case 10: out[0] = OTF::Y_to_SLog3(in[0]); break;
    case 11: out[0] = OTF::SLog3_to_Y(in[0]); break;
    case 12: out[0] = OTF::Y_to_HLG(in[0]); break;
    case 13: out[0] = OTF::HLG_to_Y(in[0]); break;
    case 14: out[0] = OTF::gamma(in[0], in[1]); break;
    case 15: out[0] = OTF::degamma(in[0], in[1]); break;
    }
}

// ---- colour temperature, square root
E ct_planckian(const float *in, float *out) { put(out, Tristimulus::fromPlanckianLocus(in[0], in[1])); }
E ct_ct(const float *in, float *out) { put(out, Tristimulus::fromCT(in[0], in[1])); }
E ct_cct(const float *in, float *out) { put(out, Tristimulus::fromCCT(in[0], in[1], in[2])); }
E ct_planckian1(const float *in, float *out) { put(out, Tristimulus::fromPlanckianLocus(in[0])); }
E ct_ct1(const float *in, float *out) { put(out, Tristimulus::fromCT(in[0])); }
E ct_cct1(const float *in, float *out) { put(out, Tristimulus::fromCCT(in[0], in[1])); }
E u_sqrt(const float *in, float *out) { out[0] = util::sqrtf(in[0]); }
E u_sqrtnan(const float *in, float *out) { const float r = util::sqrtf(in[0]); out[0] = (r != r) ? 1.f : 0.f; }

// ---- differences
E d_uv(const float *in, float *out) { out[0] = Delta::UV(T3(in), T3(in + 3)); }
E d_e76(const float *in, float *out) { out[0] = Delta::E76(T3(in), T3(in + 3)); }
E d_e00(const float *in, float *out) { out[0] = Delta::E00(T3(in), T3(in + 3)); }
E d_e00k(const float *in, float *out) { out[0] = Delta::E00(T3(in), T3(in + 3), in[6], in[7], in[8]); }
E d_ictcp(const float *in, float *out) { out[0] = Delta::ICtCp(T3(in), T3(in + 3)); }
