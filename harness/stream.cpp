// Entry point for the MemoryStream checks: runs a short program of stream operations.  Public interface only.
#include <colorsystem.hpp>
using namespace ColorSystem;
typedef uint32_t u32;
static const int W = 12; // words per operation, in and out

static std::string text(const u32 *d, int n)
{
    std::string s;
    for (int i = 0; i < n; i++) s.push_back((char)d[i]);
    return s;
}
static void put64(u32 *o, uint64_t v) { o[0] = (u32)v; o[1] = (u32)(v >> 32); }
static void puts_(u32 *o, const std::string &s)
{
    o[0] = (u32)s.size();
    for (size_t i = 0; i < s.size() && i < 10; i++) o[1 + i] = (u32)(uint8_t)s[i];
}
static uint64_t wide(const u32 *d) { return (uint64_t)d[0] | (uint64_t)d[1] << 32; }

static void step(MemoryStream &s, u32 op, int a, const u32 *d, u32 *o)
{
    uint8_t t[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    switch (op)
    {
    case 0: s.putUint8((uint8_t)d[0]); break;
    case 1: s.putInt8((int8_t)d[0]); break;
    case 2: s.putUint16((uint16_t)d[0]); break;
    case 3: s.putInt16((int16_t)d[0]); break;
    case 4: s.putUint32(d[0]); break;
    case 5: s.putInt32((int32_t)d[0]); break;
    case 6: s.putUint64(wide(d)); break;
    case 7: s.putInt64((int64_t)wide(d)); break;
    case 8: { float f; memcpy(&f, d, 4); s.putFloat(f); } break;
    case 9: { double f; uint64_t v = wide(d); memcpy(&f, &v, 8); s.putDouble(f); } break;
    case 10: o[0] = s.getUint8(); break;
    case 11: o[0] = (u32)(int32_t)s.getInt8(); break;
    case 12: o[0] = s.getUint16(); break;
    case 13: o[0] = (u32)(int32_t)s.getInt16(); break;
    case 14: o[0] = s.getUint32(); break;
    case 15: o[0] = (u32)s.getInt32(); break;
    case 16: put64(o, s.getUint64()); break;
    case 17: put64(o, (uint64_t)s.getInt64()); break;
    case 18: { float f = s.getFloat(); memcpy(o, &f, 4); } break;
    case 19: { double f = s.getDouble(); uint64_t v; memcpy(&v, &f, 8); put64(o, v); } break;
    case 20: o[0] = (u32)s.fseek(a, MemoryStream::TOP); break;
    case 21: o[0] = (u32)s.fseek(a, MemoryStream::CURRENT); break;
    case 22: o[0] = (u32)s.fseek(a, MemoryStream::END); break;
    case 23: s.seekTo((MemoryStream::Pointer)a); break;
    case 24: o[0] = s.feof() ? 1 : 0; break;
    case 25: o[0] = s.get_at((size_t)a); break;
    case 26: s.put_at((size_t)a, (uint8_t)d[0]); break;
    case 27: o[0] = (u32)s.read(t, (size_t)a); for (int i = 0; i < 8; i++) o[1 + i] = t[i]; break;
    case 28: for (int i = 0; i < 8; i++) t[i] = (uint8_t)d[i]; o[0] = (u32)s.write(t, (size_t)a); break;
    case 29: o[0] = (u32)s.read_at(t, (size_t)a, (size_t)d[0]); for (int i = 0; i < 8; i++) o[1 + i] = t[i]; break;
    case 30: for (int i = 0; i < 8; i++) t[i] = (uint8_t)d[1 + i]; o[0] = (u32)s.write_at(t, (size_t)a, (size_t)d[0]); break;
    case 31: s.align(a); break;
    case 32: o[0] = (u32)s.putPointer32(); break;
    case 33: put64(o, s.getPointer32()); break;
    case 34: o[0] = (u32)s.putPointer64(); break;
    case 35: put64(o, s.getPointer64()); break;
    case 36: s.adjustPointer32((size_t)a); break;
    case 37: s.adjustPointer64((size_t)a); break;
    case 38: s.putString(text(d, a)); break;
    case 39: puts_(o, s.get_string()); break;
    case 40: s.setReadEndian(a ? MemoryStream::BIG : MemoryStream::LITTLE); break;
    case 41: s.setWriteEndian(a ? MemoryStream::BIG : MemoryStream::LITTLE); break;
    case 42: o[0] = (u32)s.ftell(); o[1] = (u32)s.mark(); break;
    case 43: s.putSubstr(text(d, 8), (size_t)a); break;
    case 44: puts_(o, s.getSubstr(a)); break;
    case 45: { const uint8_t *q = (const uint8_t *)s.ptr(); o[0] = q[0]; o[1] = *(const uint8_t *)s.ptr((size_t)a); } break;
    case 46: for (int i = 0; i < 8; i++) t[i] = (uint8_t)d[i]; if (a) s.init(t, (size_t)a); else s.init(); break;
    }
}
extern "C" void ms(const u32 *in, u32 *out, int n0, int at, int rd, int wr, int nops, int nbuf)
{
    uint8_t b[64];
    for (int i = 0; i < n0; i++) b[i] = (uint8_t)in[i];
    MemoryStream fromData(b, n0 ? n0 : 1), empty;
    MemoryStream &s = n0 ? fromData : empty;
    s.buffer().shrink_to_fit();
    if (rd >= 0) s.setReadEndian(rd ? MemoryStream::BIG : MemoryStream::LITTLE);
    if (wr >= 0) s.setWriteEndian(wr ? MemoryStream::BIG : MemoryStream::LITTLE);
    if (at) s.fseek(at, MemoryStream::TOP);
    const u32 *p = in + n0;
    u32 *       o = out;
    for (int k = 0; k < nops; k++, p += W, o += W)
    {
        for (int i = 0; i < W; i++) o[i] = 0;
        step(s, p[0], (int)p[1], p + 2, o);
    }
    o[0] = (u32)s.ftell();
    o[1] = (u32)s.buffer().size();
    for (int i = 0; i < nbuf; i++) o[2 + i] = i < (int)s.buffer().size() ? s.buffer()[i] : 0xeeee;
}
// the same on a large stream: size zeros with w0 given bytes at `from`; windows of the result around given positions
extern "C" void ms_big(const u32 *in, u32 *out, int size, int from, int w0, int at, int e, int nops, int nwin)
{
    MemoryStream s;
    s.buffer().resize((size_t)size);
    for (int i = 0; i < w0; i++) s.buffer()[from + i] = (uint8_t)in[i];
    s.setReadEndian(e ? MemoryStream::BIG : MemoryStream::LITTLE);
    s.setWriteEndian(e ? MemoryStream::BIG : MemoryStream::LITTLE);
    s.fseek(at, MemoryStream::TOP);
    const u32 *p = in + w0;
    u32 *       o = out;
    for (int k = 0; k < nops; k++, p += W, o += W)
    {
        for (int i = 0; i < W; i++) o[i] = 0;
        step(s, p[0], (int)p[1], p + 2, o);
    }
    o[0] = (u32)s.ftell();
    o[1] = (u32)s.buffer().size();
    o += 2;
    for (int k = 0; k < nwin; k++, o += 32)
        for (int i = 0; i < 32; i++) o[i] = p[k] + i < s.buffer().size() ? s.buffer()[p[k] + i] : 0xeeee;
}
// a string of n characters (in, repeated) written and read back: length, equal, cursor, size
extern "C" void ms_text(const u32 *in, u32 *out, int n, int e)
{
    MemoryStream s;
    s.setReadEndian(e ? MemoryStream::BIG : MemoryStream::LITTLE);
    s.setWriteEndian(e ? MemoryStream::BIG : MemoryStream::LITTLE);
    std::string t((size_t)n, 'x');
    for (int i = 0; i < n; i += 61) t[i] = (char)in[1 + (i / 61) % 7];
    s.putString(t);
    out[0] = (u32)s.ftell();
    out[1] = (u32)s.buffer().size();
    s.fseek(0, MemoryStream::TOP);
    std::string r = s.get_string();
    out[2] = (u32)r.size();
    out[3] = (u32)s.ftell();
    out[4] = 0;
    for (int i = 0; i < n && i < (int)r.size(); i++) out[4] |= (u32)(uint8_t)(r[i] ^ t[i]);
}
