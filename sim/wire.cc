#include "wire.h"
#include "internal.h"
string be32(u32 v) { char b[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; return string(b, 4); }
u32 rd32(const string &s, size_t o) { return (u32)(u8)s[o] << 24 | (u32)(u8)s[o + 1] << 16 | (u32)(u8)s[o + 2] << 8 | (u8)s[o + 3]; }
string w_data(const string &p) { return be32(p.size()) + p; }
string w_control(u32 type, const vector<string> &cts) {
  string b = be32(type); for (auto &c : cts) b += be32(1) + be32(c.size()) + c;
  return be32(0) + be32(b.size()) + b;
}
void w_pad(vector<string> &cts, size_t total) {
  size_t used = 4; for (auto &c : cts) used += 8 + c.size();
  while (used + 8 <= total) { size_t k = std::min<size_t>(256, total - used - 8), rest = total - used - 8 - k; if (rest && rest < 8) k -= 8 - rest; cts.push_back(string(k, 'f')); used += 8 + k; }
}
const char *ct_name(u32 t) { static const char *n[] = {"?", "ACCEPT", "START", "STOP", "READY", "FINISH"}; return t <= 5 ? n[t] : "?"; }
string w_brief(const string &p) {
  string s = strf("%zu bytes \"", p.size());
  for (size_t i = 0; i < p.size() && i < 24; i++) s += p[i] >= 32 && p[i] < 127 ? string(1, p[i]) : strf("\\x%02x", (u8)p[i]);
  return s + (p.size() > 24 ? "...\"" : "\"");
}
int w_one(const string &s, size_t o, WItem &it, string *why) {
  it = WItem(); it.off = o;
  auto bad = [&](const char *w) { if (why) *why = w; return -1; };
  if (s.size() - o < 4) return 0;
  u32 len = rd32(s, o);
  if (len) { if (s.size() - o - 4 < len) return 0; it.data = s.substr(o + 4, len); it.end = o + 4 + (size_t)len; return 1; }
  if (s.size() - o < 8) return 0;
  u32 cl = rd32(s, o + 4);
  if (cl < 4 || cl > 512) return bad("control frame length out of range");
  if (s.size() - o - 8 < cl) return 0;
  it.ctl = true; it.type = rd32(s, o + 8); size_t p = o + 12, e = o + 8 + cl;
  if (it.type < 1 || it.type > 5) return bad("unknown control frame type");
  while (p < e) {
    if (e - p < 8) return bad("truncated control field");
    u32 ft = rd32(s, p), fl = rd32(s, p + 4); p += 8;
    if (ft != 1) return bad("unknown control field type");
    if (fl > 256) return bad("content type too long");
    if (fl > e - p) return bad("control field overruns its frame");
    it.cts.push_back(s.substr(p, fl)); p += fl;
  }
  if ((it.type == CT_STOP || it.type == CT_FINISH) && !it.cts.empty()) return bad("content type in STOP or FINISH");
  if (it.type == CT_START && it.cts.size() > 1) return bad("more than one content type in START");
  it.end = e; return 1;
}
WParse w_parse(const string &s) {
  WParse r; size_t o = 0; WItem it;
  for (;;) { int k = w_one(s, o, it, &r.why); if (k <= 0) { r.bad = k < 0; r.good = o; r.tail = s.substr(o); return r; } o = it.end; r.items.push_back(it); }
}
string w_describe(const WParse &p) {
  string s; int n = 0; for (auto &i : p.items) { if (n++ > 12) { s += " ..."; break; } if (i.ctl) { s += string(" ") + ct_name(i.type); for (auto &c : i.cts) s += "(" + w_brief(c) + ")"; } else s += " data(" + w_brief(i.data) + ")"; }
  if (p.bad) s += " MALFORMED: " + p.why; else if (!p.tail.empty()) s += strf(" +%zu partial bytes", p.tail.size());
  return s;
}
WStream w_writer_stream(const string &s, bool bidir) {
  WStream r; WParse p = w_parse(s);
  for (auto &it : p.items) {
    if (r.stop) { r.err = "bytes after STOP"; return r; }
    if (it.ctl) {
      if (it.type == CT_READY && bidir && !r.ready && !r.start) { r.ready = true; r.ready_cts = it.cts; }
      else if (it.type == CT_START && !r.start && (r.ready || !bidir)) { r.start = true; r.start_cts = it.cts; }
      else if (it.type == CT_STOP && r.start) r.stop = true;
      else { r.err = strf("%s frame out of place", ct_name(it.type)); return r; }
    } else {
      if (!r.start) { r.err = "data frame before START"; return r; }
      r.frames.push_back(it.data); r.frame_end.push_back(it.end);
    }
  }
  if (p.bad) { r.err = "malformed: " + p.why; return r; }
  r.partial = !p.tail.empty();
  if (r.partial && r.stop) r.err = "bytes after STOP";
  if (r.partial && !r.start && p.tail.size() >= 4 && rd32(p.tail, 0) != 0) r.err = "data before START";
  return r;
}
