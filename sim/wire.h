// Independent encoder and strict parser of the Frame Streams byte format, written from
// the format description in fstrm/control.h and not from the library's code.
#pragma once
#include "sim.h"
enum { CT_ACCEPT = 1, CT_START = 2, CT_STOP = 3, CT_READY = 4, CT_FINISH = 5 };
string be32(u32 v);
u32 rd32(const string &s, size_t o);
string w_data(const string &payload);
string w_control(u32 type, const vector<string> &ctypes);          // with escape and length
void w_pad(vector<string> &cts, size_t total);                       // more content types, for a control frame of exactly `total` bytes
struct WItem { bool ctl = false; u32 type = 0; vector<string> cts; string data; size_t off = 0, end = 0; };
// parse the item at offset o: 1 complete, 0 incomplete, -1 malformed
int w_one(const string &s, size_t o, WItem &it, string *why = nullptr);
struct WParse {
  vector<WItem> items; size_t good = 0;      // bytes consumed by complete items
  bool bad = false; string why;              // malformed at 'good'
  string tail;                               // incomplete last item
};
WParse w_parse(const string &s);
const char *ct_name(u32 t);
string w_brief(const string &payload);       // short description of a payload
string w_describe(const WParse &p);
// Does `s` form a prefix of a well-formed uni/bidirectional writer stream? (READY?) START data* STOP
// returns an error text or "" ; outputs data frames; complete: ends with STOP exactly.
struct WStream { vector<string> frames; bool ready = false, start = false, stop = false, partial = false; vector<string> ready_cts, start_cts; string err; vector<size_t> frame_end; };
WStream w_writer_stream(const string &s, bool bidir);
