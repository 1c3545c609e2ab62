// WebVTT: the text parser under delivery faults, and the way of cues through
// SampleMuxerMetadata, the muxer and the vttdemux program.
#include "mkvmuxer/mkvmuxer.h"
#include "mux.h"
#include "sample_muxer_metadata.h"
#include "simfs.h"
#include "vttgen.h"
#include "webvtt/vttreader.h"
#include "webvtt/webvttparser.h"

#define main vttdemux_main
#include "vttdemux.cc"
#undef main

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;
#define L(expr) ([&]() { LibScope ls_; return (expr); }())

std::string Show(const VCue& c) {
  std::string s = Fmt("[%s] %lld-->%lld", c.id.c_str(), c.start, c.stop);
  for (auto& p : c.settings) s += " " + p.first + ":" + p.second;
  for (auto& p : c.payload) s += " | " + (p.size() > 40 ? p.substr(0, 40) + Fmt("...(%zu)", p.size()) : p);
  return s;
}

// ---------------------------------------------------------- reference reader
struct VRef { int init = 0; std::vector<VCue> cues; int end = 1; };   // end: >0 end of file, <0 error

bool RefTime(const std::string& s, size_t* i, ll* ms) {
  while (*i < s.size() && (s[*i] == ' ' || s[*i] == '\t')) ++*i;
  ll v[3]; int n = 0;
  for (;;) {
    if (*i >= s.size() || s[*i] < '0' || s[*i] > '9') return false;
    ll x = 0;
    while (*i < s.size() && s[*i] >= '0' && s[*i] <= '9') { x = x * 10 + (s[*i] - '0'); if (x > 2147483647LL) return false; ++*i; }
    v[n++] = x;
    if (n < 3 && *i < s.size() && s[*i] == ':') { ++*i; continue; }
    break;
  }
  ll sec;
  if (n == 1) sec = v[0];
  else if (n == 2) { if (v[0] >= 60 || v[1] >= 60) return false; sec = v[0] * 60 + v[1]; }
  else { if (v[1] >= 60 || v[2] >= 60) return false; sec = v[0] * 3600 + v[1] * 60 + v[2]; }
  ll frac = 0;
  if (*i < s.size() && s[*i] == '.') {
    ++*i;
    int d = 0;
    while (*i < s.size() && s[*i] >= '0' && s[*i] <= '9') { if (d < 3) frac = frac * 10 + (s[*i] - '0'); ++d; ++*i; }
    if (d == 0 || d > 3) return false;
    while (d < 3) { frac *= 10; ++d; }
  }
  if (*i < s.size() && s[*i] != ' ' && s[*i] != '\t') return false;
  *ms = sec * 1000 + frac;
  return true;
}

VRef RefParse(const std::string& t) {
  VRef r;
  size_t p = 0;
  if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) p = 3;
  // lines
  struct Ln { std::string s; bool bad; };
  std::vector<Ln> ls;
  std::string cur; bool bad = false, any = false;
  if (t.compare(p, 6, "WEBVTT") != 0) { r.init = -1; return r; }
  p += 6;
  for (; p < t.size(); ++p) {
    char c = t[p];
    if (c == '\n' || c == '\r') {
      ls.push_back({cur, bad}); cur.clear(); any = false;
      if (bad) break;
      if (c == '\r' && p + 1 < t.size() && t[p + 1] == '\n') ++p;
      continue;
    }
    any = true;
    if (c == '\xFE' || c == '\xFF' || cur.size() >= 10000) { bad = true; ls.push_back({cur, true}); any = false; break; }
    cur.push_back(c);
  }
  if (any) ls.push_back({cur, false});
  size_t i = 0;
  if (i < ls.size()) {
    if (ls[i].bad) { r.init = -1; return r; }
    if (!ls[i].s.empty() && ls[i].s[0] != ' ' && ls[i].s[0] != '\t') { r.init = -1; return r; }
    ++i;
    if (i < ls.size()) { if (ls[i].bad || !ls[i].s.empty()) { r.init = -1; return r; } ++i; }
  }
  for (;;) {
    while (i < ls.size() && !ls[i].bad && ls[i].s.empty()) ++i;
    if (i >= ls.size()) { r.end = 1; return r; }
    r.end = -1;
    if (ls[i].bad) return r;
    VCue c;
    size_t a = ls[i].s.find("-->");
    if (a == std::string::npos) {
      c.id = ls[i].s;
      ++i;
      if (i >= ls.size() || ls[i].bad) return r;
      a = ls[i].s.find("-->");
      if (a == std::string::npos) return r;
    }
    const std::string& tl = ls[i].s;
    std::string l = tl.substr(0, a), q = tl.substr(a + 3);
    size_t k = 0;
    if (!RefTime(l, &k, &c.start)) return r;
    while (k < l.size()) { if (l[k] != ' ' && l[k] != '\t') return r; ++k; }
    k = 0;
    if (!RefTime(q, &k, &c.stop)) return r;
    while (k < q.size()) {
      if (q[k] == ' ' || q[k] == '\t') { ++k; continue; }
      std::string w;
      while (k < q.size() && q[k] != ' ' && q[k] != '\t') w += q[k++];
      size_t col = w.find(':');
      if (col == std::string::npos || col == 0 || col + 1 == w.size() || w.find(':', col + 1) != std::string::npos) return r;
      c.settings.push_back({w.substr(0, col), w.substr(col + 1)});
    }
    ++i;
    while (i < ls.size() && !ls[i].s.empty()) { if (ls[i].bad) return r; c.payload.push_back(ls[i].s); ++i; }
    if (i < ls.size() && ls[i].bad) return r;
    if (i < ls.size()) ++i;
    if (c.payload.empty()) return r;
    r.cues.push_back(c);
  }
}

VCue FromLib(const libwebvtt::Cue& c, const char* key) {
  VCue v;
  v.id = c.identifier;
  const libwebvtt::Time* ts[2] = {&c.start_time, &c.stop_time};
  for (auto* t : ts) {
    if (t->hours < 0 || t->minutes < 0 || t->minutes > 59 || t->seconds < 0 || t->seconds > 59 || t->milliseconds < 0 || t->milliseconds > 999)
      Fail(std::string(key) + ":time", "time %d:%d:%d.%d", t->hours, t->minutes, t->seconds, t->milliseconds);
  }
  v.start = c.start_time.presentation(); v.stop = c.stop_time.presentation();
  libwebvtt::Time a; a.presentation(v.start);
  if (!(a == c.start_time)) Fail(std::string(key) + ":time-roundtrip", "%lld ms becomes %d:%d:%d.%d", v.start, a.hours, a.minutes, a.seconds, a.milliseconds);
  if ((c.start_time < c.stop_time) != (v.start < v.stop) || c.stop_time - c.start_time != v.stop - v.start) Fail(std::string(key) + ":time-order", "time arithmetic");
  for (auto& s : c.settings) v.settings.push_back({s.name, s.value});
  for (auto& p : c.payload) v.payload.push_back(p);
  return v;
}

struct SimVttReader : libwebvtt::Reader {
  const std::string* t; size_t pos = 0; ll fail_at = -1; int code = -1; bool failed = false;
  int GetChar(char* c) override {
    if (fail_at >= 0 && (ll)pos >= fail_at) { failed = true; return code; }
    if (pos >= t->size()) return 1;
    *c = (*t)[pos++];
    return 0;
  }
  virtual ~SimVttReader() {}
};

void ParseRun() {
  VttDoc d = DrawVtt(Chance(1, 2, "v.rising"), 8, 30000);
  std::string text = d.text;
  int dmg = (int)Draw(4, "v.dmg");     // 0,1 whole; 2 cut; 3 mutated
  if (dmg == 2) { text.resize(Draw(text.size() + 1, "v.cut")); FaultCount("text_truncated"); }
  if (dmg == 3) {
    int n = (int)Range(1, 6, "v.muts");
    static const char kM[] = "0123456789:.-> \t\n\r\xFE\xFF\x80W\0";
    for (int i = 0; i < n && !text.empty(); ++i) {
      size_t at = Draw(text.size(), "v.at");
      char c = kM[Draw(sizeof kM - 1, "v.mc")];
      switch (Draw(3, "v.mk")) {
        case 0: text[at] = c; break;
        case 1: text.insert(at, 1 + Draw(3, "v.mn"), c); break;
        case 2: text.erase(at, 1 + Draw(12, "v.me")); break;
      }
    }
    FaultCount("text_damaged");
  }
  EvHash(text.data(), text.size());
  VRef ref = RefParse(text);
  if (dmg < 2) {     // the generator and the reference must agree
    if (ref.init || ref.end < 0 || ref.cues.size() != d.cues.size()) Fail("harness:ref", "reference: init %d end %d cues %zu/%zu", ref.init, ref.end, ref.cues.size(), d.cues.size());
    for (size_t i = 0; i < d.cues.size(); ++i) if (!(ref.cues[i] == d.cues[i])) Fail("harness:ref", "%s / %s", Show(ref.cues[i]).c_str(), Show(d.cues[i]).c_str());
  }
  const bool nul = text.find('\0') != std::string::npos;     // lines with NUL: only safety is judged
  const bool file = Chance(1, 2, "v.file");
  bool fault = false;
  SimVttReader sr; sr.t = &text;
  libwebvtt::VttReader* vr = nullptr;
  g_fs.Put("/sim/a.vtt", Bytes(text.begin(), text.end()));
  if (file) {
    FsPlan p;
    if (Chance(1, 3, "v.rf")) { p.fail_read = 1 + Draw(6, "v.rk"); p.sticky = Chance(1, 2, "v.rs"); }
    if (Chance(1, 2, "v.short")) p.p_short_read = (int)Range(1, 50, "v.ps");
    if (Chance(1, 20, "v.of")) p.fail_open = 1;
    g_fs.SetPlan(p);
    { LibScope ls; vr = new libwebvtt::VttReader; }
    int o = L(vr->Open("/sim/a.vtt"));
    if ((o == 0) != (g_fs.failed_opens == 0)) Fail("C19:open", "Open gives %d, the file was %sopened", o, g_fs.failed_opens ? "not " : "");
    if (o) { LibScope ls; delete vr; return; }
  } else if (Chance(1, 3, "v.cf")) { sr.fail_at = (ll)Draw(text.size() + 1, "v.fail"); sr.code = -1 - (int)Draw(5, "v.code"); FaultCount("reader_error"); }
  libwebvtt::Parser* p;
  { LibScope ls; p = new libwebvtt::Parser(file ? (libwebvtt::Reader*)vr : (libwebvtt::Reader*)&sr); }
  int e = L(p->Init());
  auto faulted = [&]() { return file ? g_fs.failed_reads > 0 : sr.failed; };
  Ev("Init %d", e);
  size_t n = 0;
  if (e > 0) Fail("C19:init", "Init returns %d", e);
  if (e != 0) { if (!nul && ref.init == 0 && !faulted()) Fail("C19:init", "Init refuses a good file"); }
  else {
    if (!nul && ref.init != 0) Fail("C19:init", "Init accepts a file that is not WebVTT");
    libwebvtt::Cue* cue; { LibScope ls; cue = new libwebvtt::Cue; }
    for (;;) {
      e = L(p->Parse(cue));
      if (e) break;
      VCue v = FromLib(*cue, "C19");
      if (n > text.size()) Fail("C19:endless", "more cues than bytes");
      if (v.payload.empty()) Fail("C19:empty", "a cue without payload");
      if (!nul) {
        if (n >= ref.cues.size()) Fail("C19:extra-cue", "cue %zu: %s", n, Show(v).c_str());
        if (!(v == ref.cues[n])) Fail("C19:cue", "cue %zu is %s, the file has %s", n, Show(v).c_str(), Show(ref.cues[n]).c_str());
      }
      ++n;
    }
    Ev("%zu cues, end %d", n, e);
    if (!nul && !faulted()) {
      if (n != ref.cues.size()) Fail("C19:lost-cue", "%zu of %zu cues, then %d", n, ref.cues.size(), e);
      if ((e > 0) != (ref.end > 0)) Fail("C19:verdict", "parsing ends with %d, %s expected", e, ref.end > 0 ? "end of file" : "an error");
    }
    if (faulted() && e > 0) Fail("C19:hidden-error", "a read error is reported as the end of the file");
    { LibScope ls; delete cue; }
  }
  if (n > 1) MarkNontrivial();
  Count("c19.cues", n);
  { LibScope ls; delete p; delete vr; }
}

void PipelineRun() {
  static const char* kKind[] = {"SUBTITLES", "CAPTIONS", "DESCRIPTIONS", "METADATA", "CHAPTERS"};
  struct F { int kind; VttDoc d; std::string path; uint64_t track; };
  std::vector<F> fs;
  int nf = (int)Range(1, 4, "w.nf"); bool chap = false;
  for (int i = 0; i < nf; ++i) {
    F f;
    f.kind = (int)Draw(5, "w.kind");
    if (f.kind == 4 && chap) f.kind = 0;
    chap |= f.kind == 4;
    f.d = DrawVtt(true, 6, Chance(1, 8, "w.gap") ? 200000000 : 12000);
    f.path = Fmt("/sim/in%d.vtt", i);
    g_fs.Put(f.path, Bytes(f.d.text.begin(), f.d.text.end()));
    fs.push_back(f);
  }
  FsPlan lp;
  if (Chance(1, 6, "w.rf")) { lp.fail_read = 1 + Draw(6, "w.rk"); lp.sticky = Chance(1, 2, "w.rs"); }
  if (Chance(1, 3, "w.short")) lp.p_short_read = (int)Range(1, 50, "w.ps");
  if (Chance(1, 16, "w.of")) lp.fail_open = 1 + Draw(nf, "w.ok");
  g_fs.SetPlan(lp);
  SimWriter w(true);
  mkvmuxer::Segment* seg; SampleMuxerMetadata* md;
  { LibScope ls; seg = new mkvmuxer::Segment; md = new SampleMuxerMetadata; }
  bool ok = true; std::string where;
  auto need = [&](bool r, const char* what) { if (!r && ok) { ok = false; where = what; } return r; };
  uint64_t video = 0; bool lang = false;
  do {
    if (!need(L(seg->Init(&w)), "Init")) break;
    bool cues = false;
    for (auto& f : fs) cues |= f.kind != 4 && !f.d.cues.empty();
    const bool av = Chance(2, 3, "w.video") || !cues;     // a recording needs at least one frame
    if (av) { video = L(seg->AddVideoTrack(16, 16, 0)); if (!need(video != 0, "AddVideoTrack")) break; }
    if (!need(L(md->Init(seg)), "metadata Init")) break;
    uint64_t next = video + 1;
    for (auto& f : fs) {
      if (!need(L(md->Load(f.path.c_str(), (SampleMuxerMetadata::Kind)f.kind)), "Load")) break;
      f.track = f.kind == 4 ? 0 : next++;
    }
    if (!ok) break;
    if (g_fs.failed_reads || g_fs.failed_opens) Fail("C19:hidden-error", "a WebVTT file is loaded although reading it failed");
    if (!need(L(md->AddChapters()), "AddChapters")) break;
    if (Chance(1, 12, "w.lang")) {        // a chapter in two languages, which vttdemux cannot express
      mkvmuxer::Chapter* c = L(seg->AddChapter());
      if (!need(c != nullptr, "AddChapter")) break;
      L(c->set_time(*seg, 1000000000, 2000000000));
      if (!need(L(c->add_string("Kapitel-eins", "ger", nullptr)) && L(c->add_string("chapter-one", "eng", nullptr)), "add_string")) break;
      lang = true;
    }
    ll t = 0;
    int n = av ? (int)Range(1, 12, "w.nv") : 0;
    const bool big = Chance(1, 4, "w.big");       // more than the reader's buffers hold
    for (int i = 0; i < n && ok; ++i) {
      Bytes b = MakePayload(Draw(1 << 16, "w.seed"), 1 + Draw(big ? 9000 : 40, "w.fl"));
      if (!need(L(md->Write(t)), "Write")) break;
      need(L(seg->AddFrame(b.data(), b.size(), video, (uint64_t)t, i == 0 || Chance(1, 4, "w.key"))), "AddFrame");
      t += (ll)Draw(9000, "w.step") * 1000000;
    }
    if (!ok) break;
    if (!need(L(md->Write(-1)), "Write(-1)")) break;
    need(L(seg->Finalize()), "Finalize");
  } while (0);
  { LibScope ls; delete md; delete seg; }
  Ev("mux ok %d %s", ok, where.c_str());
  if (!ok) {
    if (!g_fs.Failures()) Fail("C19:refused", "%s fails on good WebVTT files although nothing went wrong", where.c_str());
    return;
  }
  g_fs.Put("/sim/m.webm", w.data);
  size_t total = 0; bool any = false;
  for (auto& f : fs) { total += f.d.cues.size(); any |= f.kind != 4 || !f.d.cues.empty(); }
  FsPlan dp;
  switch (Draw(6, "w.dp")) {
    case 1: dp.capacity = Magnitude(3000, "w.cap"); break;
    case 2: dp.fail_write = 1 + Draw(5, "w.wk"); dp.sticky = Chance(1, 2, "w.ws"); dp.torn = Chance(1, 2, "w.torn"); break;
    case 3: {      // any of the reads of a run without faults
      g_fs.SetPlan(FsPlan());
      const char* argv[] = {"vttdemux", "/sim/m.webm", nullptr};
      L(vttdemux_main(2, argv));
      uint64_t n = g_fs.reads;
      for (auto& f : std::map<std::string, std::shared_ptr<SimFs::Inode>>(g_fs.files_)) if (f.first.compare(0, 7, "/sim/m_") == 0) g_fs.Remove(f.first);
      dp.fail_read = 1 + Draw(n, "w.rk2");
    } dp.sticky = Chance(1, 2, "w.rs2"); break;
    case 4: if (Chance(1, 2, "w.oc")) dp.fail_open = 1 + Draw(nf + 1, "w.ok2"); else { dp.fail_close = 1 + Draw(nf, "w.ck"); dp.lossy_close = true; } break;
    default: break;
  }
  g_fs.SetPlan(dp);
  const char* argv[] = {"vttdemux", "/sim/m.webm", nullptr};
  int rc = L(vttdemux_main(2, argv));
  Ev("vttdemux %d", rc);
  if (g_fs.open_handles) Fail("C19:handle", "%d file handles are still open", g_fs.open_handles);
  const bool hurt = g_fs.failed_writes || g_fs.failed_reads || g_fs.failed_seeks || g_fs.failed_opens || g_fs.failed_closes;
  if (rc != 0) { if (lang) { Count("c19.two_languages_refused"); return; } if (!hurt && any) Fail("C19:demux-refused", "vttdemux fails although nothing went wrong"); return; }
  if (lang) {
    const Bytes b = g_fs.Content("/sim/m_CHAPTERS.vtt");
    const std::string s(b.begin(), b.end());
    if (s.find("Kapitel-eins") == std::string::npos || s.find("chapter-one") == std::string::npos) Fail("C19:demux-lost", "vttdemux succeeds without the two titles of a chapter");
    Count("c19.two_languages_kept");
    return;
  }
  int count[5] = {0};
  for (auto& f : fs) if (f.kind != 4 || !f.d.cues.empty()) ++count[f.kind];
  for (auto& f : fs) {
    if (f.kind == 4 && f.d.cues.empty()) continue;
    std::string name = std::string("/sim/m_") + kKind[f.kind] + (count[f.kind] > 1 ? Fmt("%llu", (ull)f.track) : "") + ".vtt";
    if (!g_fs.Exists(name)) Fail("C19:lost-file", "vttdemux succeeds without writing %s", name.c_str());
    Bytes b = g_fs.Content(name);
    VRef r = RefParse(std::string(b.begin(), b.end()));
    if (r.init || r.end < 0) Fail("C19:demux-format", "%s is not WebVTT (after %zu cues)", name.c_str(), r.cues.size());
    for (size_t i = 0; i < r.cues.size() && i < f.d.cues.size(); ++i) {
      VCue want = f.d.cues[i];
      if (f.kind == 4) want.settings.clear();       // chapters have none
      if (!(r.cues[i] == want)) Fail("C19:demux-cue", "%s cue %zu is %s, the source has %s", name.c_str(), i, Show(r.cues[i]).c_str(), Show(want).c_str());
    }
    if (r.cues.size() != f.d.cues.size()) Fail("C19:demux-lost", "%s has %zu cues, the source %zu", name.c_str(), r.cues.size(), f.d.cues.size());
  }
  if (total > 1) MarkNontrivial();
  Count("c19.pipeline_cues", total);
}

// C19: WebVTT cues are read exactly and survive the way through a WebM file.
void C19() {
  g_fs.Reset();
  if (Chance(1, 2, "c19.pipe")) PipelineRun(); else ParseRun();
  if (g_fs.open_handles) Fail("C19:handle", "%d file handles are still open", g_fs.open_handles);
  if (LiveLibAllocs()) Fail("C19:leak", "%s", LiveLibAllocSummary().c_str());
}
SIM_SCENARIO("C19", C19);
}  // namespace
}  // namespace sim
