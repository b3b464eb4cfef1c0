// Things several scenarios share: application processes, scripted peers, a custom transport.
#pragma once
#include "sim.h"
#include "wire.h"
#include <errno.h>
#include <sys/uio.h>
extern "C" {
#include <fstrm.h>
}
string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// run fn as the main thread of a simulated process and wait for it
void run_app(const char *name, std::function<void(Proc *)> fn);
int app_thread(const char *name, std::function<void()> fn); // thread of the calling process
// a buffer in the simulated heap holding s
void *simbuf(const string &s);
string draw_tcp(int st, string *addr, string *port); // a TCP address; returns the listener's key
string draw_unix(int st, const string &base);         // a socket path, sometimes of the maximal length
string pattern(u32 id, size_t len);       // payload carrying an id; len >= 5
u32 pattern_id(const string &payload);
size_t draw_len(u32 maxlen, int stream);  // skewed payload length in [5, maxlen]
u32 draw_count(int st, u32 usual, u32 one_in, bool *many);

// ---- scripted peer of a writer
enum { REPLY_OK = 0, REPLY_WRONG_TYPE, REPLY_GARBAGE, REPLY_NO_COMMON, REPLY_CLOSE, REPLY_SILENT, REPLY_PARTIAL, REPLY_DATA, REPLY_NKINDS };
struct PeerB {
  int reply = REPLY_OK; bool accept_list = true; vector<string> cts; bool full_accept = false, extra_cts = false;
  bool finish = true; int finish_kind = 0; u64 finish_delay = 0, reply_delay = 0;
  size_t cut_at = SIZE_MAX; bool cut_rst = false;   // close after this many bytes
  size_t stall_at = SIZE_MAX; u64 stall_ns = 0;     // stop reading for a while
  size_t chunk = 65536; u64 chunk_delay = 0; bool linger = false; u64 linger_ns = 0; size_t reply_split = 0;
  bool healthy() const { return reply == REPLY_OK && finish && cut_at == SIZE_MAX; }
};
struct PeerLog { ConnRec *c = nullptr; PeerB b; string got; bool got_stop = false, sent_accept = false, sent_finish = false, eof = false; bool cut = false; u64 accept_seq = 0, start_seq = 0, start_time = 0, stop_seq = 0; vector<string> accept_cts; string bad; };
PeerB draw_peer(bool healthy, const vector<string> &cts, u64 slow_max);
string peer_reply(const PeerB &b, const vector<string> &ready_cts, vector<string> *accepted);
void serve_conn(ConnRec *c, PeerLog *log);
// a server: accepts connections for ever; behaviours[i] for the i-th, then `rest`
struct Server { Listener *lis = nullptr; vector<PeerB> plan; PeerB rest; vector<PeerLog *> logs; vector<int> fibers; bool stopped = false; u64 accept_delay = 0; };
Server *start_server(const string &key, bool tcp, const vector<PeerB> &plan, const PeerB &rest);

// ---- custom transport (fstrm_rdwr implemented by the application), fails stickily until reopened
struct MemSess { string out, in; size_t inpos = 0; bool closed = false, broken = false; vector<std::pair<u64, size_t>> at; u64 open_seq = 0, start_seq = 0, close_seq = 0, t_open = 0, t_close = 0; size_t scanned = 0; bool sent_accept = false, sent_finish = false, close_failed = false, got_stop = false; PeerB b; vector<string> accept_cts; u64 err_seq = 0; };
struct MemT {
  bool bidir = true; vector<MemSess *> s; vector<PeerB> plan; PeerB rest; vector<bool> open_fails; vector<std::pair<u64, bool>> opens; vector<u64> open_done;
  bool is_open = false; int destroyed = 0; int n_close = 0; u64 delay_max = 0; u32 p_delay = 0; u32 p_write_fail = 0, p_read_fail = 0, p_close_fail = 0; bool any_fail = false; bool has_destroy = true; bool sigpipe = false; // failing writes raise SIGPIPE, as write(2) does

  size_t n_ok_open = 0, batch_frames = 0, batch_bytes = 0; // largest write: data frames in it, bytes of all of them but the last
};
fstrm_res mem_op_open(void *), mem_op_close(void *), mem_op_write(void *, const struct iovec *, int), mem_op_read(void *, void *, size_t), mem_op_destroy(void *);
struct fstrm_rdwr *mem_rdwr(MemT *m);
