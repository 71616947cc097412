// C07: every number written to G-code, as text, against exact arithmetic.
#include "utils/string.h"
#include "vh.h"
#include <cinttypes>
#include <limits>
#include <sstream>
#include <streambuf>
using namespace cura;
namespace
{
struct Buf : std::streambuf
{
    char b[1024];
    Buf()
    {
        clear();
    }
    void clear()
    {
        setp(b, b + sizeof b - 1);
    }
    const char* text()
    {
        *pptr() = 0;
        return b;
    }
};
/*! reads [-]digits[.digits] in canonical form with at most \p decimals, as a multiple of 10^-decimals */
const char* read(const char* s, int decimals, __int128& out)
{
    bool neg = *s == '-';
    s += neg;
    if ((*s < '0' || *s > '9') && *s != '.') // the zero in front of the dot may be left out
        return "not a number";
    if (*s == '0' && s[1] >= '0' && s[1] <= '9')
        return "superfluous leading zero";
    __int128 v = 0;
    for (; *s >= '0' && *s <= '9'; s++)
        v = v * 10 + (*s - '0');
    int n = 0;
    if (*s == '.')
    {
        s++;
        for (; *s >= '0' && *s <= '9'; s++, n++)
            v = v * 10 + (*s - '0');
        if (n == 0)
            return "nothing behind the dot";
        if (s[-1] == '0')
            return "superfluous zero";
        if (n > decimals)
            return "too many decimals";
    }
    if (*s)
        return "trailing characters";
    for (; n < decimals; n++)
        v *= 10;
    out = neg ? -v : v;
    return nullptr;
}
Buf buf;
std::ostream os(&buf);
bool microns(int32_t v)
{
    buf.clear();
    os << MMtoStream{ v };
    __int128 got = 0;
    if (const char* e = read(buf.text(), 3, got))
        return vh::fail("%d microns is written as <<%s>>: %s", v, buf.text(), e), false;
    if (got != v)
        return vh::fail("%d microns is written as <<%s>>", v, buf.text()), false;
    return true;
}
bool number(int p, double v)
{
    static const double P[] = { 1, 10, 100, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9 };
    buf.clear();
    const PrecisionedDouble d{ (uint8_t)p, v };
    os << d;
    vh::trans();
    __int128 got = 0;
    if (const char* e = read(buf.text(), p, got))
        return vh::fail("%.17g with %d decimals is written as <<%s>>: %s", v, p, buf.text(), e), false;
    const __float128 exact = (__float128)v * P[p], off = exact - (__float128)got;
    if (off > 0.5 || off < -0.5)
        return vh::fail("%.17g with %d decimals is written as <<%s>>", v, p, buf.text()), false;
    // half a digit may be judged either way by the fan's test for zero
    if (d.wouldWriteZero() != (got == 0) && ! ((double)exact < 0.50000001 && (double)exact > 0.49999999) && ! ((double)exact > -0.50000001 && (double)exact < -0.49999999))
        return vh::fail("%.17g with %d decimals is written as <<%s>> but %s zero", v, p, buf.text(), got == 0 ? "not taken for" : "taken for"), false;
    return true;
}
bool around(int p, double v)
{
    double up = v, down = v;
    for (int i = 0; i < 4; i++)
    {
        if (! number(p, up) || ! number(p, down) || ! number(p, -up) || ! number(p, -down))
            return false;
        up = std::nextafter(up, 1e300);
        down = std::nextafter(down, -1e300);
    }
    return true;
}
void explore()
{
    const bool T = vh::thorough();
    // all microns (thorough: all there are)
    const int64_t top = T ? (int64_t(1) << 31) : 6000000, step = T ? (1 << 20) : 100000;
    for (int64_t a = -top; a < top; a += step)
    {
        if (! vh::begin("microns %" PRId64 " to %" PRId64, a, a + step - 1))
            continue;
        bool ok = true;
        for (int64_t v = a; ok && v < a + step; v++)
            ok = microns((int32_t)v);
        vh::trans(step);
        vh::state(vh::hash(std::string(buf.text())));
    }
    if (! T)
        for (int64_t ten = 10000000; ten <= 10000000000; ten *= 10)
            for (int d = 1; d < 10; d++)
            {
                const int64_t c = std::min<int64_t>(ten / 10 * d, 2147463647);
                if (! vh::begin("microns around %" PRId64, c))
                    continue;
                bool ok = true;
                for (int64_t v = c - 20000; ok && v < c + 20000; v++)
                    ok = microns((int32_t)v) && microns((int32_t)-v);
                vh::trans(80000);
                vh::state(vh::hash(std::string(buf.text())));
            }
    if (vh::begin("microns at the ends"))
        for (int64_t i = 0; i < 100; i++)
            microns((int32_t)(INT32_MIN + i)), microns((int32_t)(INT32_MAX - i));
    // multiples of fractions of the last digit and their neighbours
    for (int p = 0; p <= 9; p++)
        for (int f : { 1, 2, 3, 4, 8, 10 })
            for (int64_t a = 0; a < (T ? 4000000 : 120000); a += 20000)
            {
                if (! vh::begin("precision %d fraction %d from %" PRId64, p, f, a))
                    continue;
                const long double q = std::pow(10.0L, p) * f;
                for (int64_t n = a; n < a + 20000; n++)
                    if (! around(p, double(n / q)))
                        break;
                vh::state(vh::hash(std::string(buf.text())));
            }
    // all magnitudes
    for (int p = 0; p <= 9; p++)
        for (int k = -14; k <= 12; k++)
        {
            if (! vh::begin("precision %d magnitude %d", p, k))
                continue;
            for (int d = 1; d < (T ? 10000 : 2000); d++)
                if (! around(p, double(d * std::pow(10.0L, k))))
                    break;
            vh::state(vh::hash(std::string(buf.text())));
        }
    // one number behind the other
    if (vh::begin("sequence"))
    {
        std::ostringstream s;
        s << " X" << MMtoStream{ -5 } << " Y" << MMtoStream{ 100 } << " Z" << MMtoStream{ 1000 } << " E" << PrecisionedDouble{ 5, 1.25 } << " F" << PrecisionedDouble{ 1, 1800 };
        if (s.str() != " X-0.005 Y0.1 Z1 E1.25 F1800")
            vh::fail("sequence written as <<%s>>", s.str().c_str());
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
