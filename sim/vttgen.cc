#include "vttgen.h"

#include <string.h>

namespace sim {
std::string DrawText(size_t len, const char* extra) {
  uint64_t x = Draw(1 << 16, "v.tseed") * 0x9E3779B97F4A7C15ULL + 1;
  static const char kA[] = "abcXYZ 0123.,<>&;:-/_#\xC3\xA9\xE2\x82\xAC\t\xF0\x9F";
  std::string s;
  while (s.size() < len) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    char c = kA[(x >> 20) % (sizeof kA - 1)];
    if (strchr(extra, c)) continue;
    s.push_back(c);
  }
  return s;
}
namespace {
typedef long long ll;
std::string NoArrow(std::string s) { for (size_t p; (p = s.find("-->")) != std::string::npos;) s[p] = 'x'; return s; }

std::string TimeText(ll ms) {
  ll h = ms / 3600000, m = ms / 60000 % 60, s = ms / 1000 % 60, f = ms % 1000;
  std::string t;
  int form = (int)Draw(3, "v.form");
  if (form == 2) t = Fmt("%lld", ms / 1000);
  else if (h || form == 1) t = Fmt(Chance(1, 4, "v.h1") ? "%lld:%02lld:%02lld" : "%02lld:%02lld:%02lld", h, m, s);
  else t = Fmt("%02lld:%02lld", m, s);
  if (f == 0 && Chance(1, 2, "v.nof")) return t;
  if (f % 100 == 0 && Chance(1, 3, "v.f1")) return t + Fmt(".%lld", f / 100);
  if (f % 10 == 0 && Chance(1, 3, "v.f2")) return t + Fmt(".%02lld", f / 10);
  return t + Fmt(".%03lld", f);
}
ll DrawMs() {
  switch (Draw(4, "v.msk")) {
    case 0: return (ll)Draw(100000, "v.ms");
    case 1: return (ll)Draw(100, "v.s") * 1000 + (ll)Pick<int>({0, 1, 5, 10, 50, 99, 100, 500, 999}, "v.frac");
    case 2: return (ll)Draw(200, "v.min") * 60000 + (ll)Draw(60, "v.s2") * 1000;
    default: return (ll)Magnitude(400000000, "v.big");
  }
}
std::string Ws(bool some) { static const char* k[] = {" ", "\t", "  ", " \t "}; return some ? k[Draw(4, "v.ws")] : ""; }

}  // namespace
VttDoc DrawVtt(bool rising, int max_cues, long long max_gap) {
  VttDoc d;
  const int mode = (int)Draw(4, "v.eol");   // LF, CRLF, CR, mixed
  bool last_cr = false;
  auto line = [&](const std::string& s) {
    d.text += s;
    int m = mode == 3 ? (int)Draw(3, "v.eolm") : mode;
    if (m == 0 && s.empty() && last_cr) m = 1;
    d.text += m == 0 ? "\n" : m == 1 ? "\r\n" : "\r";
    last_cr = m == 2;
  };
  if (Chance(1, 4, "v.bom")) d.text = "\xEF\xBB\xBF";
  d.text += "WEBVTT";
  line(Chance(1, 3, "v.hdr") ? Ws(true) + DrawText(Draw(30, "v.hdrl"), "") : "");
  int n = (int)Draw(max_cues + 1, "v.n");
  if (n == 0 && Chance(1, 2, "v.nohdr")) return d;
  line("");
  ll t = 0;
  for (int i = 0; i < n; ++i) {
    VCue c;
    if (Chance(1, 6, "v.blank")) line("");
    if (Chance(1, 2, "v.id")) { c.id = NoArrow(DrawText(1 + Draw(20, "v.idl"), "")); line(c.id); }
    if (rising) { t += (ll)Magnitude((uint64_t)max_gap, "v.gap"); c.start = t; c.stop = t + 1 + (ll)Magnitude(20000, "v.dur"); }
    else { c.start = DrawMs(); c.stop = DrawMs(); }
    std::string tl = Chance(1, 6, "v.lead") ? Ws(true) : "";
    tl += TimeText(c.start) + Ws(true) + "-->" + Ws(true) + TimeText(c.stop);
    int ns = Chance(1, 3, "v.set") ? (int)Range(1, Chance(1, 6, "v.mset") ? 9 : 4, "v.nset") : 0;
    for (int k = 0; k < ns; ++k) {
      std::string a = DrawText(1 + Draw(8, "v.sn"), ": \t"), b = DrawText(1 + Draw(8, "v.sv"), ": \t");
      a = NoArrow(a); b = NoArrow(b);
      c.settings.push_back({a, b});
      tl += Ws(true) + a + ":" + b;
    }
    if (Chance(1, 8, "v.trail")) tl += Ws(true);
    line(tl);
    int np = (int)Range(1, 4, "v.np");
    for (int k = 0; k < np; ++k) {
      size_t l = Chance(1, 60, "v.long") ? 9990 + Draw(11, "v.longl") : 1 + Magnitude(80, "v.pl");
      c.payload.push_back(DrawText(l, ""));
      if (i + 1 == n && k + 1 == np && Chance(1, 3, "v.noeol")) d.text += c.payload.back();
      else line(c.payload.back());
    }
    if (i + 1 < n || Chance(1, 2, "v.endblank")) if (!(i + 1 == n && d.text.back() != '\n' && d.text.back() != '\r')) line("");
    d.cues.push_back(c);
  }
  return d;
}
}  // namespace sim
