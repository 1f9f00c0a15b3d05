// P29, P30: conversions that several threads do at the same time.
#include "kmc.h"
#include "kanon/util/macro.h"
#include "kanon/string/lexical_cast.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/string_view_util.h"
#include "kanon/string/fmt_stream.h"
#include "kanon/util/time_stamp.h"
#include <memory>
using namespace kanon;

static std::string num(int who, int i) { return std::to_string(who ? 1000003 * (i + 1) : -77 - i); }
KMC_SCENARIO("P29", text_cast_to, (0, 3, 5))
{
  for (int who = 0; who < 2; ++who)
    kmc::spawn([who] {
      for (int i = 0; i < 3; ++i) {
        std::string want = num(who, i);
        int v = who ? 1000003 * (i + 1) : -77 - i;
        kmc::yield_point();
        StringView s = lexical_cast<StringView>(v);
        kmc::yield_point(); // the other thread may convert now
        kmc::check(s.ToString() == want, "a conversion of another thread changes the text of this one");
        kmc::yield_point();
        kmc::check(lexical_cast<std::string>(v) == want, "conversion to text is wrong beside another thread");
        kmc::check(lexical_cast<std::string>(2.5 + who) == (who ? "3.5" : "2.5"), "conversion of a double is wrong beside another thread");
      }
    });
  kmc::join_all();
}
KMC_SCENARIO("P29", text_cast_from, (0, 3, 5))
{
  for (int who = 0; who < 2; ++who)
    kmc::spawn([who] {
      for (int i = 0; i < 2; ++i) {
        std::string t = num(who, i), bad = t + "x";
        long v = who ? 1000003L * (i + 1) : -77L - i;
        kmc::yield_point();
        auto a = lexical_cast<int>(t);
        kmc::check(a.has_value() && *a == v, "lexical_cast<int> is wrong beside another thread");
        auto b = lexical_cast<long>(StringView(t));
        kmc::check(b.has_value() && *b == v, "lexical_cast<long> is wrong beside another thread");
        auto c = lexical_cast<unsigned>(StringView(t));
        kmc::check(c.has_value() == (v >= 0) && (v < 0 || (long)*c == v), "lexical_cast<unsigned> is wrong beside another thread");
        kmc::check(!lexical_cast<int>(bad).has_value(), "bad text is accepted beside another thread");
        kmc::yield_point();
        auto d = StringViewTo32(t); auto e = StringViewTo64(t); auto f = StringViewToU64(t); auto g = StringViewToU32(t);
        auto h = StringViewTo16(t); auto k = StringViewToU8(t);
        kmc::check(d.has_value() && *d == v && e.has_value() && *e == v, "StringViewTo32/64 is wrong beside another thread");
        kmc::check(f.has_value() == (v >= 0) && g.has_value() == (v >= 0), "StringViewToU32/U64 is wrong beside another thread");
        kmc::check(h.has_value() == (v < 0) && !k.has_value(), "StringViewTo16/U8 is wrong beside another thread");
      }
    });
  kmc::join_all();
}
KMC_SCENARIO("P30", text_format, (0, 3, 5))
{
  for (int who = 0; who < 2; ++who)
    kmc::spawn([who] {
      for (int i = 0; i < 2; ++i) {
        kmc::yield_point();
        std::unique_ptr<FmtStream<4096>> f(new FmtStream<4096>("<% and %%%>", who + i, who ? "one" : "zero"));
        kmc::yield_point();
        kmc::check(f->ToStringView().ToString() == "<" + std::to_string(who + i) + " and %" + (who ? "one" : "zero") + ">", "formatting is wrong beside another thread");
        std::unique_ptr<LexicalStream<64>> s(new LexicalStream<64>);
        *s << who << '-' << 1.5 << '-' << (void *)0;
        kmc::yield_point();
        kmc::check(std::string(s->data(), s->size()) == std::to_string(who) + "-1.5-(null)", "a stream is wrong beside another thread");
      }
    });
  kmc::join_all();
}
