// The command-line programs, run as functions on the simulated disk with their
// standard output captured.
#include <algorithm>

#include "mux.h"
#include "pdoc.h"
#include "simfs.h"
#include "tools.h"
#include "vttgen.h"

#include <sys/mman.h>
#include <unistd.h>

int mkvmuxer_sample_main(int argc, char* argv[]);
int webm_info_main(int argc, char* argv[]);
int mkvparser_sample_main(int argc, char* argv[]);
int dumpvtt_main(int argc, const char* argv[]);
int vttdemux_main(int argc, const char* argv[]);
int webm2pes_main(int argc, const char* argv[]);
int webm2ts_main(int argc, const char* argv[]);

namespace sim {
namespace {
typedef unsigned long long ull;
typedef long long ll;

// --- a program run -------------------------------------------------------------
struct Sink { std::string text; size_t cap; };
ssize_t SinkWrite(void* c, const char* b, size_t n) {
  HarnessScope hs;
  Sink* s = static_cast<Sink*>(c);
  if (s->text.size() + n > s->cap) Fail("tool:endless", "the program has printed %zu bytes and goes on", s->text.size());
  s->text.append(b, n);
  return (ssize_t)n;
}
}  // namespace
ToolRun RunTool(const std::string& name, const std::vector<std::string>& args) {
  std::vector<std::string> a; a.push_back(name); a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> av;
  for (auto& s : a) av.push_back(&s[0]);
  av.push_back(nullptr);
  const char** cav = const_cast<const char**>(av.data());
  const int n = (int)a.size();
  Sink sink{std::string(), 4 << 20};
  cookie_io_functions_t io = {nullptr, SinkWrite, nullptr, nullptr};
  struct Swap {                       // also undone when the run fails in the middle
    FILE* saved; FILE* f;
    Swap(FILE* g) : saved(stdout), f(g) { stdout = g; }
    void Done() { if (f) { stdout = saved; fclose(f); f = nullptr; } }
    ~Swap() { if (f) stdout = saved; }
  } sw(fopencookie(&sink, "w", io));
  ToolRun r;
  {
    LibScope ls;
    if (name == "mkvmuxer_sample") r.rc = mkvmuxer_sample_main(n, av.data());
    else if (name == "webm_info") r.rc = webm_info_main(n, av.data());
    else if (name == "mkvparser_sample") r.rc = mkvparser_sample_main(n, av.data());
    else if (name == "dumpvtt") r.rc = dumpvtt_main(n, cav);
    else if (name == "vttdemux") r.rc = vttdemux_main(n, cav);
    else if (name == "webm2pes") r.rc = webm2pes_main(n, cav);
    else r.rc = webm2ts_main(n, cav);
  }
  sw.Done();
  r.out = sink.text;
  std::string l; for (auto& s : args) l += " " + s;
  Ev("%s%s -> %d, %zu bytes", name.c_str(), l.c_str(), r.rc, r.out.size());
  EvHash(r.out.data(), r.out.size());
  return r;
}
namespace {

// --- what a file holds ------------------------------------------------------------
struct SrcFrame { int type; ll tc; bool key; Bytes data; ll discard; };
struct Src { Bytes b; std::vector<SrcFrame> frames; std::vector<int> types; uint64_t scale = 1000000; bool have_tree = false; FileView v; bool strict = false; };

Src FromPlan() {
  Src s;
  for (int t = 0; t < 2; ++t) {
    MuxOpts o;
    o.max_ops = 30; o.allow_bad = false; o.allow_nonseek = false;
    MuxPlan p = DrawMuxPlan(o);
    SimWriter w(true);
    MuxRun r(&p, &w);
    if (!r.RunAll(true, "C22:source")) { r.Destroy(); continue; }
    bool good = r.all_ok && !r.accepted.empty();
    r.Destroy();
    if (!good) continue;
    s.b = w.data;
    s.scale = p.scale;
    s.strict = !p.wide && !p.disorder;
    for (auto& tp : p.tracks) { s.types.push_back(tp.kind == 0 ? 1 : tp.kind == 1 ? 2 : 17); if (tp.codec == "V_AV1" && tp.priv.empty()) s.strict = false; }
    break;
  }
  if (s.b.empty()) return s;
  std::string err;
  if (!ViewFile(s.b, false, &s.v, &err)) Fail("C22:source", "unreadable source: %s", err.c_str());
  s.have_tree = true;
  std::map<uint64_t, int> type;
  if (auto tr = s.v.segment->Find(0x1654AE6B)) for (auto& e : tr->kids) if (e.id == 0xAE) type[ElUInt(s.b, *e.Find(0xD7))] = (int)ElUInt(s.b, *e.Find(0x83));
  for (auto& k : s.v.blocks) s.frames.push_back({type[k.track], k.tc, k.key, k.data, k.has_discard ? k.discard : 0});
  return s;
}
Src FromDoc() {
  Src s;
  PDocOpts o;
  o.max_clusters = 4; o.max_blocks = 6; o.tidy_times = true;
  PDoc d = DrawPDoc(o);
  s.b = d.b; s.scale = d.scale; s.strict = true;
  for (auto& m : d.meta) if (m.find(" colour(") != std::string::npos) s.strict = false;      // values the muxer may refuse
  std::map<int, int> type;
  for (auto& t : d.tracks) { type[t.number] = t.type; s.types.push_back(t.type); }
  for (auto& k : d.blocks) for (auto& f : k.frames)
    s.frames.push_back({type.count(k.track) ? type[k.track] : 0, (ll)d.clusters[(size_t)k.cluster].tc + k.rel, k.key, Bytes(d.b.begin() + (long)f.pos, d.b.begin() + (long)(f.pos + f.len)), k.discard});
  return s;
}

// A file outside the simulated disk (std::ifstream does not go through stdio's
// hooks), under a name that does not depend on the process.
const char* RealFile(const Bytes& b) {
  enum { kFd = 200 };
  int fd = memfd_create("sim", 0);
  if (fd < 0 || dup2(fd, kFd) != kFd) return nullptr;
  close(fd);
  if (!b.empty() && write(kFd, b.data(), b.size()) != (ssize_t)b.size()) return nullptr;
  return "/proc/self/fd/200";
}

// Leaves of an element as (path, body).
void Leaves(const Bytes& b, const El& e, const std::string& path, std::vector<std::string>* out) {
  std::string p = path + Fmt("/%X", e.id);
  if (e.kids.empty()) { out->push_back(p + "=" + Hex(b.data() + e.body(), e.size, 4096)); return; }
  for (auto& k : e.kids) Leaves(b, k, p, out);
}
// What the options ask for.
struct Asked {
  uint64_t dw = 0, dh = 0, pw = 0, ph = 0, stereo = 0;
  int ptype = -1; bool has_pfile = false; Bytes pfile; bool has_pose[3] = {false, false, false}; float pose[3] = {0, 0, 0};
  int profile = -1, level = -1;
  bool Projection() const { return ptype >= 0 || has_pose[0] || has_pose[1] || has_pose[2]; }
};
std::string HexUInt(uint64_t v) { Bytes b; int n = 1; while (n < 8 && (v >> (8 * n))) ++n; for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); return Hex(b.data(), b.size(), 4096); }
std::string HexFloat(float v) { uint32_t u; memcpy(&u, &v, 4); uint8_t b[4] = {(uint8_t)(u >> 24), (uint8_t)(u >> 16), (uint8_t)(u >> 8), (uint8_t)u}; return Hex(b, 4, 4096); }
// The facts of a video track of the source after the options.
void Apply(const Asked& a, bool had_proj, std::vector<std::string>* f) {
  auto get = [&](const std::string& k) -> std::string* { for (auto& x : *f) if (x.compare(0, k.size() + 1, k + "=") == 0) return &x; return nullptr; };
  auto put = [&](const std::string& k, const std::string& v) { if (auto x = get(k)) *x = k + "=" + v; else f->push_back(k + "=" + v); };
  if (a.pw) put("/B0", HexUInt(a.pw));
  if (a.ph) put("/BA", HexUInt(a.ph));
  if (a.dw) put("/54B0", HexUInt(a.dw));
  if (a.dh) put("/54BA", HexUInt(a.dh));
  if (a.stereo) put("/53B8", HexUInt(a.stereo));
  if (a.ptype >= 0 || had_proj) {
    if (a.ptype >= 0) {
      put("/7670/7671", HexUInt((uint64_t)a.ptype));
      if (a.has_pfile) put("/7670/7672", Hex(a.pfile.data(), a.pfile.size(), 4096));
    }
    for (int i = 0; i < 3; ++i) {
      std::string k = Fmt("/7670/%X", 0x7673 + i);
      if (a.has_pose[i]) put(k, HexFloat(a.pose[i])); else if (!get(k)) put(k, HexFloat(0));
    }
  }
  std::string* codec = get("/86");
  static const char kVp9[] = "565f565039";   // "V_VP9"
  if ((a.profile >= 0 || a.level >= 0) && codec && codec->size() == 4 + 10 && strcasecmp(codec->c_str() + 4, kVp9) == 0) {
    Bytes p;
    if (a.profile >= 0) { p.push_back(1); p.push_back(1); p.push_back((uint8_t)a.profile); }
    if (a.level >= 0) { p.push_back(2); p.push_back(1); p.push_back((uint8_t)a.level); }
    put("/63A2", Hex(p.data(), p.size(), 4096));
  }
  std::sort(f->begin(), f->end());
}
std::vector<std::string> TrackFacts(const Bytes& b, const El& e, const Asked* asked = nullptr) {
  std::vector<std::string> f;
  const uint64_t type = ElUInt(b, *e.Find(0x83));
  std::vector<uint32_t> top = {0x83, 0x86, 0x63A2, 0x536E};
  if (type == 2) { top.push_back(0x56AA); top.push_back(0x56BB); }
  for (uint32_t id : top) if (auto k = e.Find(id)) {
    if ((id == 0x56AA || id == 0x56BB)) { if (uint64_t x = ElUInt(b, *k)) f.push_back(Fmt("%X=%llu", id, (ull)x)); }
    else Leaves(b, *k, "", &f);
  }
  if (auto v = e.Find(0xE0)) for (uint32_t id : {0xB0u, 0xBAu, 0x55B0u, 0x7670u}) if (auto k = v->Find(id)) Leaves(b, *k, "", &f);
  if (auto v = e.Find(0xE0)) if (asked) {   // not taken over from the source, only set on request
    if (asked->dw) if (auto k = v->Find(0x54B0)) Leaves(b, *k, "", &f);
    if (asked->dh) if (auto k = v->Find(0x54BA)) Leaves(b, *k, "", &f);
    if (asked->stereo) if (auto k = v->Find(0x53B8)) Leaves(b, *k, "", &f);
  }
  if (auto v = e.Find(0xE0)) if (auto k = v->Find(0x2383E3)) f.push_back(Fmt("rate=%g", ElFloat(b, *k)));
  if (auto a = e.Find(0xE1)) {
    if (auto k = a->Find(0xB5)) f.push_back(Fmt("freq=%d", (int)ElFloat(b, *k)));
    if (auto k = a->Find(0x9F)) f.push_back(Fmt("ch=%llu", (ull)ElUInt(b, *k)));
    if (auto k = a->Find(0x6264)) if (ElUInt(b, *k)) f.push_back(Fmt("depth=%llu", (ull)ElUInt(b, *k)));
  }
  std::sort(f.begin(), f.end());
  return f;
}

Bytes Chunks(const std::string& base) {
  Bytes out = g_fs.Content(base + ".hdr");
  for (int i = 0;; ++i) {
    std::string n = base + Fmt("_%06d.chk", i);
    if (!g_fs.Exists(n)) break;
    Bytes c = g_fs.Content(n);
    out.insert(out.end(), c.begin(), c.end());
  }
  return out;
}

}  // namespace
FsPlan DrawFaults(uint64_t bytes) {
  FsPlan p;
  switch (Draw(12, "tl.fault")) {
    case 1: p.capacity = Magnitude(bytes + 64, "tl.cap"); break;
    case 2: p.fail_write = 1 + Magnitude(40, "tl.fw"); break;
    case 3: p.fail_read = 1 + Magnitude(400, "tl.fr"); break;
    case 4: p.fail_seek = 1 + Magnitude(400, "tl.fs"); break;
    case 5: p.fail_close = 1 + Draw(5, "tl.fc"); p.lossy_close = true; break;
    case 6: p.fail_open = 1 + Draw(5, "tl.fo"); break;
    default: break;
  }
  if (Chance(1, 2, "tl.sticky")) p.sticky = true;
  if (Chance(1, 2, "tl.torn")) p.torn = true;
  if (Chance(1, 4, "tl.short")) p.p_short_read = (int)Range(1, 40, "tl.ps");
  return p;
}

namespace {
// C22: a remuxed file holds the frames and settings of its source, or the
// program fails.
void C22() {
  g_fs.Reset();
  Src s = Chance(1, 4, "r.doc") ? FromDoc() : FromPlan();
  if (s.b.empty()) return;
  g_fs.Put("/sim/in.webm", s.b); if (getenv("DUMPIN")) { FILE* f = fopen(getenv("DUMPIN"), "wb"); fwrite(s.b.data(), 1, s.b.size(), f); fclose(f); }
  std::vector<std::string> a = {"-i", "/sim/in.webm", "-o", "/sim/out.webm"};
  auto flag = [&](const char* name, int num, int den) { if (!Chance((uint32_t)num, (uint32_t)den, name)) return false; a.push_back(name); a.push_back("1"); return true; };
  bool video = true, audio = true;
  if (Chance(1, 8, "r.novideo")) { video = false; a.push_back("-video"); a.push_back("0"); }
  if (Chance(1, 8, "r.noaudio")) { audio = false; a.push_back("-audio"); a.push_back("0"); }
  const bool live = flag("-live", 1, 6);
  bool cues = true;
  if (Chance(1, 6, "r.nocues")) { cues = false; a.push_back("-output_cues"); a.push_back("0"); }
  const bool before = !live && flag("-cues_before_clusters", 1, 3);
  const bool cues_audio = flag("-cues_on_audio_track", 1, 6);
  const bool accurate = flag("-accurate_cluster_duration", 1, 5);
  const bool fixed_tc = flag("-fixed_size_cluster_timecode", 1, 5);
  const bool copy_dur = flag("-copy_input_duration", 1, 5);
  const bool tags = flag("-copy_tags", 1, 2);
  const bool rot = flag("-switch_tracks", 1, 5);
  bool blocknum = true; uint64_t max_dur = 0, max_size = 0;
  if (Chance(1, 5, "r.nobn")) { blocknum = false; a.push_back("-output_cues_block_number"); a.push_back("0"); }
  if (Chance(1, 4, "r.mcd")) { const double sec = 0.0625 * (double)Range(1, 48, "r.mcdv"); max_dur = (uint64_t)(sec * 1e9); a.push_back("-max_cluster_duration"); a.push_back(Fmt("%.17g", sec)); }
  if (Chance(1, 4, "r.mcs")) { max_size = Range(1, 4000, "r.mcsv"); a.push_back("-max_cluster_size"); a.push_back(Fmt("%llu", (ull)max_size)); }
  // settings of the picture
  Asked ask;
  auto opt = [&](const char* name, const std::string& v) { a.push_back(name); a.push_back(v); };
  if (Chance(1, 8, "r.dw")) { ask.dw = 1 + Magnitude(100000, "r.dwv"); opt("-display_width", Fmt("%llu", (ull)ask.dw)); }
  if (Chance(1, 8, "r.dh")) { ask.dh = 1 + Magnitude(100000, "r.dhv"); opt("-display_height", Fmt("%llu", (ull)ask.dh)); }
  if (Chance(1, 8, "r.pw")) { ask.pw = 1 + Magnitude(100000, "r.pwv"); opt("-pixel_width", Fmt("%llu", (ull)ask.pw)); }
  if (Chance(1, 8, "r.ph")) { ask.ph = 1 + Magnitude(100000, "r.phv"); opt("-pixel_height", Fmt("%llu", (ull)ask.ph)); }
  if (Chance(1, 8, "r.st")) { ask.stereo = Pick<uint64_t>({1, 2, 3, 11}, "r.stv"); opt("-stereo_mode", Fmt("%llu", (ull)ask.stereo)); }
  bool must_fail_video = false, must_fail_vp9 = false;      // given a video track (of that codec)
  if (Chance(1, 6, "r.pt")) {
    ask.ptype = (int)Draw(4, "r.ptv");
    opt("-projection_type", Fmt("%d", ask.ptype));
    bool file = ask.ptype >= 2 || (ask.ptype == 1 && Chance(1, 2, "r.pf1"));
    const bool wrong = Chance(1, 12, "r.pfw");
    if (wrong) { file = !file || ask.ptype == 1; must_fail_video = ask.ptype != 1; }
    if (file) {
      ask.has_pfile = true;
      const bool none = wrong && ask.ptype == 1;     // an empty or missing file
      ask.pfile = MakePayload(Draw(1 << 16, "r.pfs"), none ? 0 : 1 + Draw(300, "r.pfl"));
      const char* path = RealFile(ask.pfile);
      if (!path) Fail("harness:memfd", "no memory file");
      if (none) { must_fail_video = true; if (Chance(1, 2, "r.pfm")) path = "/proc/self/fd/199"; }
      opt("-projection_file", path);
    }
  }
  for (int i = 0; i < 3; ++i) {
    static const char* n[] = {"-projection_pose_yaw", "-projection_pose_pitch", "-projection_pose_roll"};
    if (!Chance(1, 10, "r.pose")) continue;
    ask.has_pose[i] = true; ask.pose[i] = (float)((int)Draw(721, "r.posev") - 360) / 2;
    opt(n[i], Fmt("%g", (double)ask.pose[i]));
  }
  if (Chance(1, 8, "r.prof")) { ask.profile = (int)Draw(Chance(1, 8, "r.profbad") ? 6 : 4, "r.profv"); opt("-profile", Fmt("%d", ask.profile)); must_fail_vp9 |= ask.profile > 3; }
  if (Chance(1, 8, "r.lvl")) {
    ask.level = Chance(1, 8, "r.lvlbad") ? (int)Draw(80, "r.lvlx") : Pick<int>({10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}, "r.lvlv");
    opt("-level", Fmt("%d", ask.level));
    bool ok = false; for (int l : {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}) ok |= l == ask.level;
    must_fail_vp9 |= !ok;
  }
  // WebVTT tracks and chapters
  struct Text { int kind; VttDoc d; uint64_t number = 0; };
  std::vector<Text> texts; bool has_chapters = false, bad_text = false;
  if (!s.types.empty() && Chance(1, 3, "r.vtt")) {
    static const char* kOpt[] = {"-webvtt-subtitles", "-webvtt-captions", "-webvtt-descriptions", "-webvtt-metadata", "-webvtt-chapters"};
    const int n = (int)Range(1, 3, "r.nvtt");
    for (int i = 0; i < n; ++i) {
      Text t; t.kind = (int)Draw(5, "r.vk");
      if (t.kind == 4 && has_chapters) t.kind = 1;
      has_chapters |= t.kind == 4;
      const bool loose = Chance(1, 12, "r.vloose");      // order and stop times not as the program asks for
      t.d = DrawVtt(!loose, 5, Chance(1, 8, "r.vgap") ? 200000000 : 3000);
      if (loose) for (size_t j = 0; j < t.d.cues.size(); ++j) bad_text |= t.d.cues[j].stop < t.d.cues[j].start || (j && t.d.cues[j].start < t.d.cues[j - 1].start);
      std::string path = Fmt("/sim/in%d.vtt", i);
      g_fs.Put(path, Bytes(t.d.text.begin(), t.d.text.end()));
      opt(kOpt[t.kind], path);
      texts.push_back(t);
    }
  }
  int nv = 0, na = 0;
  for (int t : s.types) { nv += t == 1; na += t == 2; }
  int vnum = 0, anum = 0;
  if (nv == 1 && Chance(1, 4, "r.vn")) { vnum = (int)Range(20, 60, "r.vnv"); a.push_back("-video_track_number"); a.push_back(Fmt("%d", vnum)); }
  if (na == 1 && Chance(1, 4, "r.an")) { anum = (int)Range(61, 126, "r.anv"); a.push_back("-audio_track_number"); a.push_back(Fmt("%d", anum)); }
  const bool chunk = live && !before && Chance(1, 3, "r.chunk");
  if (chunk) { a.push_back("-chunking"); a.push_back("/sim/chunk"); }
  // what the output must hold
  std::vector<const SrcFrame*> want[3]; ll last = -1; bool monotone = true, empty = false;
  size_t total = 0;
  for (auto& f : s.frames) {
    if (!(f.type == 1 && video) && !(f.type == 2 && audio)) continue;
    want[f.type].push_back(&f); ++total;
    if (f.tc < last) monotone = false;
    last = f.tc; empty |= f.data.empty();
  }
  bool vp9 = false;
  if (s.have_tree) if (auto tr = s.v.segment->Find(0x1654AE6B)) for (auto& e : tr->kids) if (e.id == 0xAE && ElUInt(s.b, *e.Find(0x83)) == 1 && e.Find(0x86) && ElStr(s.b, *e.Find(0x86)) == "V_VP9") vp9 = true;
  const bool bad_request = bad_text || (video && ((must_fail_video && nv > 0) || (must_fail_vp9 && vp9)));
  const bool strict = s.strict && monotone && !empty && total > 0 && nv <= 1 && na <= 1 && !(before && (live || !cues)) && !bad_request && (s.have_tree || !must_fail_vp9);
  g_fs.SetPlan(DrawFaults(s.b.size()));
  ToolRun r = RunTool("mkvmuxer_sample", a);
  if (g_fs.open_handles) Fail("C22:handle", "%d file handles are still open", g_fs.open_handles);
  const bool hurt = g_fs.Failures() != 0;
  if (r.rc != 0) {
    if (strict && !hurt) Fail("C22:refused", "a good file is not remuxed although nothing went wrong: %s", r.out.c_str());
    Count(hurt ? "c22.refused" : bad_request ? "c22.refused_request" : "c22.refused_unhurt");
    return;
  }
  if (bad_request && s.have_tree) Fail("C22:bad-request", "the program succeeds with options it cannot honour");
  if (total == 0) { Count("c22.nothing_to_copy"); return; }
  if (LiveLibAllocs()) Fail("C22:leak", "%s", LiveLibAllocSummary().c_str());
  if (before && g_fs.Exists("/sim/temp.webm")) Fail("C22:temp-left", "the temporary file is still there");
  const Bytes out = chunk ? Chunks("/sim/chunk") : g_fs.Content("/sim/out.webm");
  FileView v; std::string err;
  if (!ViewFile(out, false, &v, &err)) Fail("C22:malformed", "the program succeeds but the output is no WebM file: %s", err.c_str());
  const El* tr = v.segment->Find(0x1654AE6B);
  if (!tr) Fail("C22:tracks", "the output has no tracks");
  std::vector<const El*> outt;
  for (auto& e : tr->kids) if (e.id == 0xAE) outt.push_back(&e);
  uint64_t num[3] = {0, 0, 0};
  for (auto e : outt) { uint64_t ty = ElUInt(out, *e->Find(0x83)); if (ty < 3) num[ty] = ElUInt(out, *e->Find(0xD7)); }
  // WebVTT tracks follow the others in the order of the options
  size_t ntext = 0;
  for (auto& t : texts) ntext += t.kind != 4;
  if (outt.size() < ntext) Fail("C22:text-track", "the output has %zu tracks, %zu WebVTT files were given", outt.size(), ntext);
  {
    size_t i = outt.size() - ntext;
    static const char* kCodec[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA"};
    for (auto& t : texts) if (t.kind != 4) {
      const El* e = outt[i++];
      const El* c = e->Find(0x86);
      if (ElUInt(out, *e->Find(0x83)) != (t.kind < 2 ? 0x11u : 0x21u) || !c || ElStr(out, *c) != kCodec[t.kind]) Fail("C22:text-track", "track of type %llu with codec %s instead of %s", (ull)ElUInt(out, *e->Find(0x83)), c ? ElStr(out, *c).c_str() : "none", kCodec[t.kind]);
      t.number = ElUInt(out, *e->Find(0xD7));
    }
    outt.resize(outt.size() - ntext);
  }
  if (vnum && video && num[1] != (uint64_t)vnum) Fail("C22:track-number", "the video track has number %llu, asked for was %d", (ull)num[1], vnum);
  if (anum && audio && num[2] != (uint64_t)anum) Fail("C22:track-number", "the audio track has number %llu, asked for was %d", (ull)num[2], anum);
  size_t seen = 0;
  for (int t = 1; t <= 2; ++t) {
    size_t i = 0;
    for (auto& k : v.blocks) {
      if (k.track != num[t] || !num[t]) continue;
      ++seen;
      if (i >= want[t].size()) Fail("C22:extra-frame", "the output has a frame (type %d) the source has not", t);
      const SrcFrame& f = *want[t][i];
      if (k.data != f.data) Fail("C22:data", "frame %zu of type %d has other bytes", i, t);
      if (k.tc != f.tc) Fail("C22:time", "frame %zu of type %d is at tick %lld, in the source at %lld", i, t, (ll)k.tc, f.tc);
      if (k.key != f.key) Fail("C22:key", "frame %zu of type %d has key flag %d", i, t, (int)k.key);
      if ((k.has_discard ? k.discard : 0) != f.discard) Fail("C22:discard", "frame %zu of type %d has padding %lld, in the source %lld", i, t, (ll)(k.has_discard ? k.discard : 0), f.discard);
      ++i;
    }
    if (i != want[t].size()) Fail("C22:lost-frame", "the output has %zu of %zu frames of type %d", i, want[t].size(), t);
  }
  for (auto& t : texts) if (t.kind != 4) {
    size_t i = 0;
    for (auto& k : v.blocks) if (k.track == t.number) {
      ++seen;
      if (i >= t.d.cues.size()) Fail("C22:text-extra", "track %llu has more frames than the WebVTT file cues", (ull)t.number);
      const VCue& c = t.d.cues[i];
      std::string f = c.id + "\n";
      for (size_t j = 0; j < c.settings.size(); ++j) f += (j ? " " : "") + c.settings[j].first + ":" + c.settings[j].second;
      f += "\n";
      for (auto& l : c.payload) f += l + "\n";
      if (Bytes(f.begin(), f.end()) != k.data) Fail("C22:text-data", "cue %zu of track %llu has other text", i, (ull)t.number);
      const ll tick = c.start * 1000000 / (ll)s.scale, dur = (c.stop - c.start) * 1000000 / (ll)s.scale;
      if (k.tc != tick || !k.key || (k.has_dur ? (ll)k.dur : 0) != dur) Fail("C22:text-time", "cue %zu of track %llu is at tick %lld for %lld, expected %lld for %lld", i, (ull)t.number, (ll)k.tc, (ll)k.dur, tick, dur);
      ++i;
    }
    if (i != t.d.cues.size()) Fail("C22:text-lost", "track %llu has %zu of %zu cues", (ull)t.number, i, t.d.cues.size());
    Count("c22.text_cues", i);
  }
  if (seen != v.blocks.size()) Fail("C22:extra-frame", "the output has frames on other tracks");
  const El* info = v.segment->Find(0x1549A966);
  if (!info || !info->Find(0x2AD7B1) || ElUInt(out, *info->Find(0x2AD7B1)) != s.scale) Fail("C22:scale", "the time scale is not the source's");
  if (before && cues && !live) {
    const El* c = v.segment->Find(0x1C53BB6B);
    if (c && !v.clusters.empty() && c->pos > v.clusters[0].pos) Fail("C22:cues-behind", "the cues are behind the clusters");
  }
  if (s.have_tree) {
    const El* itr = s.v.segment->Find(0x1654AE6B);
    std::vector<const El*> in;
    for (auto& e : itr->kids) if (e.id == 0xAE) in.push_back(&e);
    std::vector<const El*> exp;
    for (size_t i = 0; i < in.size(); ++i) {
      const El* e = in[rot ? (i + 1) % in.size() : i];
      uint64_t ty = ElUInt(s.b, *e->Find(0x83));
      if ((ty == 1 && video) || (ty == 2 && audio)) exp.push_back(e);
    }
    if (exp.size() != outt.size()) Fail("C22:tracks", "the output has %zu tracks instead of %zu", outt.size(), exp.size());
    for (size_t i = 0; i < exp.size(); ++i) {
      const bool vt = ElUInt(s.b, *exp[i]->Find(0x83)) == 1;
      auto x = TrackFacts(s.b, *exp[i]), y = TrackFacts(out, *outt[i], vt ? &ask : nullptr);
      if (vt) Apply(ask, exp[i]->Find(0xE0) && exp[i]->Find(0xE0)->Find(0x7670), &x);
      for (size_t k = 0; k < x.size() || k < y.size(); ++k)
        if (k >= x.size() || k >= y.size() || x[k] != y[k]) Fail("C22:track-setting", "track %zu: %s became %s", i, k < x.size() ? x[k].c_str() : "nothing", k < y.size() ? y[k].c_str() : "nothing");
    }
    if (tags) {
      std::vector<std::string> x, y;
      auto collect = [](const Bytes& b, const FileView& f, std::vector<std::string>* o) {
        for (auto& e : f.segment->kids) if (e.id == 0x1254C367) for (auto& t : e.kids) if (t.id == 0x7373 && t.Find(0x67C8)) for (auto& st : t.kids) if (st.id == 0x67C8) {
          std::string n = st.Find(0x45A3) ? ElStr(b, *st.Find(0x45A3)) : "", val = st.Find(0x4487) ? ElStr(b, *st.Find(0x4487)) : "";
          o->push_back(Fmt("%llu:", (ull)(&t - &e.kids[0])) + n + "=" + val);
        }
      };
      collect(s.b, s.v, &x); collect(out, v, &y);
      if (x != y) Fail("C22:tags", "%zu tags became %zu", x.size(), y.size());
    }
    const El* iinfo = s.v.segment->Find(0x1549A966);
    if (copy_dur && !live && !chunk && iinfo && iinfo->Find(0x4489) && ElFloat(s.b, *iinfo->Find(0x4489)) > 0) {
      double d0 = ElFloat(s.b, *iinfo->Find(0x4489)), d1 = info->Find(0x4489) ? ElFloat(out, *info->Find(0x4489)) : -1;
      if (d1 < d0 - 1 - d0 * 1e-6 || d1 > d0 + 1 + d0 * 1e-6) Fail("C22:duration", "the duration is %g, in the source %g", d1, d0);
    }
  }
  // chapters
  for (auto& t : texts) if (t.kind == 4) {
    std::vector<const El*> at;
    if (auto c = v.segment->Find(0x1043A770)) for (auto& ed : c->kids) if (ed.id == 0x45B9) for (auto& x : ed.kids) if (x.id == 0xB6) at.push_back(&x);
    if (at.size() != t.d.cues.size()) Fail("C22:chapters", "%zu chapters, the file has %zu", at.size(), t.d.cues.size());
    for (size_t i = 0; i < at.size(); ++i) {
      const VCue& c = t.d.cues[i];
      std::string title;
      for (auto& l : c.payload) title += (title.empty() && &l == &c.payload[0] ? "" : "\n") + l;
      auto str = [&](const El* e) { return e ? ElStr(out, *e) : std::string(); };
      const El* d = at[i]->Find(0x80);
      if (str(at[i]->Find(0x5654)) != c.id || !d || str(d->Find(0x85)) != title) Fail("C22:chapter-text", "chapter %zu is %s: %s", i, str(at[i]->Find(0x5654)).c_str(), d ? str(d->Find(0x85)).c_str() : "");
      auto num = [&](uint32_t id) { const El* e = at[i]->Find(id); return e ? (ll)ElUInt(out, *e) : 0; };
      if (num(0x91) != c.start * 1000000 / (ll)s.scale || num(0x92) != c.stop * 1000000 / (ll)s.scale) Fail("C22:chapter-time", "chapter %zu lasts from %lld to %lld", i, num(0x91), num(0x92));
    }
    Count("c22.chapters", at.size());
  }
  // the layout the options ask for: clusters, cues, seek head, duration
  {
    MuxPlan p;
    p.live = live; p.chunking = chunk; p.seekable = true; p.scale = s.scale;
    p.output_cues = cues; p.cue_blocknum = blocknum; p.accurate = accurate; p.fixed_tc = fixed_tc;
    p.set_max_dur = max_dur > 0; p.max_dur = max_dur; p.max_size = max_size;
    bool clash = nv > 1 || na > 1;
    SimWriter none(true);
    MuxRun r(&p, &none);
    std::map<uint64_t, const Text*> text; std::map<uint64_t, size_t> nth;
    for (auto e : outt) {
      TrackPlan t; t.kind = (int)ElUInt(out, *e->Find(0x83)) - 1;
      p.has_video |= t.kind == 0;
      p.tracks.push_back(t); r.numbers.push_back(ElUInt(out, *e->Find(0xD7)));
      if (t.kind == (cues_audio ? 1 : 0)) p.cues_track = (int)p.tracks.size() - 1;
    }
    for (auto& t : texts) if (t.kind != 4) { TrackPlan tp; tp.kind = 2; p.tracks.push_back(tp); r.numbers.push_back(t.number); text[t.number] = &t; }
    std::vector<OpPlan> ops;
    for (auto& k : v.blocks) {
      OpPlan o; o.ts = (uint64_t)k.tc * s.scale;
      if (text.count(k.track)) { const VCue& c = text[k.track]->d.cues[nth[k.track]++]; o.ts = (uint64_t)c.start * 1000000; o.dur = (uint64_t)(c.stop - c.start) * 1000000; }
      ops.push_back(o); r.accepted_track.push_back(k.track);
    }
    for (size_t i = 1; i < ops.size(); ++i) if (ops[i].ts < ops[i - 1].ts) p.disorder = true;
    if (!copy_dur && !accurate) for (auto& o : ops) r.accepted.push_back(&o);
    if (!clash && monotone && !empty && !(before && !cues)) { JudgeStructure(r, out, v, "C22:layout", before); Count("c22.layout"); }
  }
  Count("c22.frames", total);
  if (total > 2) MarkNontrivial();
  if (hurt) Count("c22.ok_despite_fault");
}
SIM_SCENARIO("C22", C22);
}  // namespace
}  // namespace sim
