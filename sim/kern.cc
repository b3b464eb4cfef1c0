// Simulated kernel: descriptors, stream sockets, files, pipes, poll, signals, clocks.
#include "internal.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>

Kernel K;
static int next_pid;
void kernel_reset() { K = Kernel(); next_pid = 1000; g_sig_pending = false; }

// ------------------------------------------------------------------ processes
static FileP mkfd(FKind k) { FileP f = std::make_shared<FileDesc>(); f->kind = k; return f; }
Proc *proc_new(const char *name) {
  Proc *p = new Proc; p->name = name; p->pid = next_pid++;
  FileP in = mkfd(FK_NULLIN), out = mkfd(FK_SINK), err = mkfd(FK_SINK); out->sink = &p->out; err->sink = &p->err;
  p->fds[0] = in; p->fds[1] = out; p->fds[2] = err; return p;
}
static Proc *P() { Proc *p = cur_proc(); if (!p) harness_bug("system call outside a process"); return p; }
static int fd_alloc(FileP f) { Proc *p = P(); int fd = 3; while (p->fds.count(fd)) fd++; p->fds[fd] = f; p->n_open++; return fd; }
static FileDesc *fd_get(int fd) { Proc *p = P(); auto it = p->fds.find(fd); if (it == p->fds.end()) return nullptr; if (it->second->host && fiber_self() != K.host_fiber) violation("C29", "host-descriptor", "a call on descriptor %d, which the application opened for itself", fd); return it->second.get(); }
void proc_set_stdin(Proc *p, Inode *n) { FileP f = mkfd(FK_REG); f->ino = n; f->oflags = O_RDONLY; n->open_count++; p->fds[0] = f; }
int proc_open_fds(Proc *p) { int n = 0; for (auto &x : p->fds) if (x.first > 2 && !x.second->host) n++; return n; }
int fd_alloc_host(FileP *out, string *sink) { FileP f = mkfd(FK_SINK); f->sink = sink; f->host = true; int fd = fd_alloc(f); P()->n_open--; *out = f; EV(45, fd, 0, "the application opens descriptor %d", fd); return fd; }
void proc_exec_check(Proc *p) { // the application forks and executes another program: what does that inherit?
  for (auto &x : p->fds) { FileDesc *f = x.second.get(); if (f->host || f->cloexec) continue;
    if (f->kind == FK_SOCK || (f->kind == FK_SOCK_NEW && !K.no_sock_cloexec)) violation("C29", "inherited-socket", "a program started by the application inherits descriptor %d, a %s socket of the library", x.first, f->kind == FK_SOCK ? "connected" : "new"); }
}
static void sys_enter(const char *name) {
  K.n_syscalls++; (void)name;
  yield_point();
  if (K.kill_at_syscall) { Proc *p = cur_proc(); if (p == K.kill_proc && !p->in_handler && K.kill_at_syscall-- == 1) { fault_fired("process killed at a system call"); proc_kill9(p); } }
  if (K.sig_at_syscall) { Proc *p = cur_proc(); if (p == K.kill_proc && !p->in_handler && p->n_polls && K.sig_at_syscall-- == 1) { if (K.on_sig) K.on_sig(); probe("signal at a chosen system call"); sim_kill(p, K.sig_no); } }
  if (g_sig_pending) sig_deliver_check();
}
#define RET(v, name, fmt, ...) do { ssize_t rv__ = (v); int e__ = errno; hash_event(20, (u64)rv__, rv__ < 0 ? e__ : 0); if (g_trace) ev(name "(" fmt ") = %zd%s%s", ##__VA_ARGS__, rv__, rv__ < 0 ? " " : "", rv__ < 0 ? strerrorname_np(e__) : ""); errno = e__; return rv__; } while (0)
static ssize_t err(int e) { errno = e; return -1; }

// ------------------------------------------------------------------ sockets
static string addr_key(const struct sockaddr *sa, socklen_t len) {
  if (sa->sa_family == AF_UNIX) { const sockaddr_un *u = (const sockaddr_un *)sa; size_t m = len > offsetof(sockaddr_un, sun_path) ? len - offsetof(sockaddr_un, sun_path) : 0; return "unix:" + string(u->sun_path, strnlen(u->sun_path, m)); }
  char b[64];
  if (sa->sa_family == AF_INET) { const sockaddr_in *i = (const sockaddr_in *)sa; inet_ntop(AF_INET, &i->sin_addr, b, sizeof b); return strf("tcp:%s:%u", b, ntohs(i->sin_port)); }
  const sockaddr_in6 *i = (const sockaddr_in6 *)sa; inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b); return strf("tcp:%s:%u", b, ntohs(i->sin6_port));
}
static socklen_t addr_min(const struct sockaddr *sa) { return sa->sa_family == AF_INET6 ? 24 : sa->sa_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sa_family_t); }
static int addr_bad(FileDesc *f, const struct sockaddr *sa, socklen_t len) { return len < addr_min(sa) ? EINVAL : sa->sa_family != f->family ? (f->family == AF_UNIX ? EINVAL : EAFNOSUPPORT) : 0; }
Listener *listen_on(const string &key, bool tcp) {
  Listener *l = new Listener; l->key = key; l->tcp = tcp; K.listeners[key] = l;
  EV(30, 0, 0, "listening on %s", key.c_str()); return l;
}
static void end_reset(End *e) { if (!e->rst && !e->closed) { e->rst = true; wake_all(e->rd); wake_all(e->wr); wake_all(K.pollq); } }
static void end_eof(End *e) { if (!e->eof_rx && !e->closed) { e->eof_rx = true; wake_all(e->rd); wake_all(e->wr); wake_all(K.pollq); } }
static void end_do_close(End *e, bool rst) {
  if (e->closed) return;
  e->closed = true; e->closed_at = now_ns(); e->close_seq = gseq();
  EV(31, e->id, rst, "connection %d: %s side closes%s", e->rec->id, e->is_a ? "client" : "server", rst ? " with reset" : "");
  End *p = e->peer; if (e->tcp && !e->is_a && !rst && !e->rst && e->rx.empty() && !p->closed) K.tw[e->rec->key] = now_ns() + 60 * NS;
  if (rst || !e->rx.empty()) { // unread data: the peer sees a reset
    if (rst && e->tcp) { p->inflight = 0; }
    u64 t = p->last_delivery; if (!rst && (t > now_ns() || p->inflight)) at_time(t, [p] { end_reset(p); }); else end_reset(p);
  } else {
    u64 t = p->last_delivery; if (t > now_ns() || p->inflight) at_time(t, [p] { end_eof(p); }); else end_eof(p);
  }
  wake_all(p->wr); wake_all(K.pollq); wake_all(e->rd); wake_all(e->wr);
}
static void cut_conn(End *e) { e->injected = e->peer->injected = true; e->rst = true; if (K.real_peers) end_reset(e->peer); else end_do_close(e->peer, true); e->rst = true; }
void unlisten(Listener *l) {
  if (!l->open) return;
  l->open = false; auto it = K.listeners.find(l->key); if (it != K.listeners.end() && it->second == l) K.listeners.erase(it);
  EV(32, 0, 0, "listener %s closed", l->key.c_str());
  for (auto c : l->backlog) end_do_close(&c->b, true);
  l->backlog.clear(); wake_all(l->acc); wake_all(K.pollq);
}
static ConnRec *conn_make(Listener *l) {
  ConnRec *c = new ConnRec; c->id = K.conns.size(); c->lis = l; c->key = l->key; c->connect_time = now_ns(); c->connect_seq = gseq();
  c->a.peer = &c->b; c->b.peer = &c->a; c->a.is_a = true; c->a.id = 2 * c->id; c->b.id = 2 * c->id + 1; c->a.rec = c->b.rec = c; c->a.tcp = c->b.tcp = l->tcp;
  c->a.cap = c->b.cap = C.sockbuf; c->a.opened_at = c->b.opened_at = now_ns();
  K.conns.push_back(c); l->backlog.push_back(c); wake_all(l->acc); wake_all(K.pollq);
  if (K.on_connect) K.on_connect(c);
  return c;
}
ConnRec *peer_accept(Listener *l, u64 deadline) {
  for (;;) {
    if (!l->backlog.empty()) { ConnRec *c = l->backlog.front(); l->backlog.pop_front(); c->accepted = true; c->accept_time = now_ns(); EV(33, c->id, 0, "connection %d accepted", c->id); wake_all(l->acc); return c; }
    if (!l->open || now_ns() >= deadline) return nullptr;
    fiber_block(l->acc, deadline, false, "accept");
  }
}
ConnRec *peer_connect(const string &key, u64 deadline) {
  yield_point();
  for (;;) {
    auto it = K.listeners.find(key);
    if (it == K.listeners.end() || it->second->refusing) return nullptr;
    Listener *l = it->second;
    if (l->backlog.size() < l->maxbacklog) { ConnRec *c = conn_make(l); EV(34, c->id, 0, "client connects: connection %d", c->id); return c; }
    if (now_ns() >= deadline) return nullptr;
    fiber_block(l->acc, deadline, false, "connect backlog");
  }
}
static void deliver(End *to, const u8 *d, size_t n) {
  if (to->closed) return;
  to->rx.insert(to->rx.end(), d, d + n); wake_all(to->rd); wake_all(K.pollq);
}
static void transmit(End *from, const u8 *d, size_t n) {
  from->sent.append((const char *)d, n);
  if (from->sent_at.empty() || from->sent_at.back().first != now_ns()) from->sent_at.push_back({now_ns(), from->sent.size()}); else from->sent_at.back().second = from->sent.size();
  hash_event(35, from->id, n);
  for (size_t i = 0; i < n; i += 64) hash_event(36, d[i]);
  if (K.on_sent) K.on_sent(from, n);
  End *to = from->peer;
  u64 t = now_ns();
  if (C.net_delay_max_ns && C.faults_on) { u32 k = choose(ST_NET, 8); if (k) { t += (u64)choose(ST_NET, 1000) * C.net_delay_max_ns / 1000; if (t > now_ns()) fault_fired("network delay"); } }
  if (t < to->last_delivery) t = to->last_delivery;
  if (t <= now_ns() && !to->inflight) { deliver(to, d, n); return; }
  to->last_delivery = t; to->inflight += n;
  string *s = new string((const char *)d, n);
  at_time(t, [to, s] { if (to->inflight >= s->size()) { to->inflight -= s->size(); deliver(to, (const u8 *)s->data(), s->size()); } delete s; });
}
static size_t space(End *e) { End *p = e->peer; size_t used = p->rx.size() + p->inflight; return used >= p->cap ? 0 : p->cap - used; }

size_t peer_read(End *e, void *buf, size_t n, u64 deadline, bool *timedout) {
  if (timedout) *timedout = false;
  yield_point();
  for (;;) {
    if (e->closed) return 0;
    if (!e->rx.empty()) {
      size_t k = std::min(n, e->rx.size()); std::copy(e->rx.begin(), e->rx.begin() + k, (u8 *)buf); e->rx.erase(e->rx.begin(), e->rx.begin() + k); e->received += k;
      wake_all(e->peer->wr); wake_all(K.pollq); hash_event(37, e->id, k); return k;
    }
    if (e->eof_rx || e->rst) return 0;
    if (now_ns() >= deadline) { if (timedout) *timedout = true; return 0; }
    fiber_block(e->rd, deadline, false, "peer read");
  }
}
size_t peer_write_partial(End *e, const string &d, u64 deadline) {
  size_t off = 0; bool blocked = false; // as in Linux, a writer that found the buffer full goes on when a good part of it is free
  yield_point();
  while (off < d.size()) {
    if (e->closed || e->rst || e->peer->closed) return off;
    size_t s = space(e);
    if (s && (!blocked || s >= std::min(d.size() - off, e->peer->cap / 4))) { blocked = false; size_t k = std::min(s, d.size() - off); transmit(e, (const u8 *)d.data() + off, k); off += k; continue; }
    if (now_ns() >= deadline) return off;
    blocked = true;
    fiber_block(e->wr, deadline, false, "peer write");
  }
  return off;
}
bool peer_write(End *e, const void *p, size_t n, u64 deadline) { string d((const char *)p, n); return peer_write_partial(e, d, deadline) == n; }
void peer_close(End *e, bool rst) { yield_point(); end_do_close(e, rst); }
void end_shut_wr(End *e) { if (e->shut_wr) return; e->shut_wr = true; End *p = e->peer; u64 t = p->last_delivery; if (t > now_ns() || p->inflight) at_time(t, [p] { end_eof(p); }); else end_eof(p); }

static void mark_err(End *e) { if (!e->err_reported) { e->err_reported = true; e->first_err_seq = gseq(); } }
void raise_sigpipe(const char *tags) {
  u64 m = fiber_sigmask(fiber_self()); Proc *p = P();
  if (!(m >> SIGPIPE & 1) && p->sig[SIGPIPE].h == nullptr) fatal_violation(tags, "sigpipe", "process killed by SIGPIPE");
  if (p->embed && p->sig[SIGPIPE].h != SIG_IGN && (!(m >> SIGPIPE & 1) || strcmp(fiber_name(fiber_self()), "iothr"))) violation("C29", "sigpipe-delivered", "SIGPIPE sent to the application");
}
static ssize_t do_send(FileDesc *f, const struct iovec *iov, int cnt, int flags) {
  if (f->kind == FK_SOCK_NEW) return err(ENOTCONN);
  if (f->kind != FK_SOCK) return err(ENOTSOCK);
  End *e = f->end; TransportScope ts;
  if (cnt < 0 || cnt > 1024) return err(EMSGSIZE);
  heap_check(iov, sizeof(iovec) * cnt, false, "sendmsg");
  size_t total = 0;
  for (int i = 0; i < cnt; i++) { heap_check(iov[i].iov_base, iov[i].iov_len, false, "sendmsg"); total += iov[i].iov_len; }
  bool nb = f->nonblock || (flags & MSG_DONTWAIT);
  stall_point();
  if (e->err_reported) e->io_after_err = true;
  auto broken = [&]() -> int { return e->rst ? (e->err_reported || !e->tcp ? EPIPE : ECONNRESET) : (e->peer->closed || e->shut_wr) ? EPIPE : 0; };
  auto fail = [&](int er) -> ssize_t {
    mark_err(e);
    if (er == EPIPE && !(flags & MSG_NOSIGNAL)) raise_sigpipe("*");
    return err(er);
  };
  if (int b = broken()) return fail(b);
  if (!nb && fault(C.p_eintr, "EINTR on send")) return err(EINTR);
  if (C.p_send_err && fault(C.p_send_err, "send error (transient, ENOBUFS)")) { e->injected = true; return fail(ENOBUFS); } // the connection itself survives
  if (fault(C.p_send_err, "send error (connection reset)")) { cut_conn(e); return fail(ECONNRESET); }
  if (!total) return 0;
  size_t limit = total;
  if (fault(C.p_short_send, "short send")) limit = total > 1 ? 1 + choose(ST_FAULT, (u32)std::min<size_t>(total - 1, 0x7fffffff)) : 1;
  size_t done = 0; int i = 0; size_t o = 0; bool full = false;
  while (done < limit) {
    size_t s = space(e);
    if (!s || (full && s < std::min<size_t>(e->peer->cap / 4, limit - done))) { // a blocked sender goes on when there is room worth it
      full = K.real_peers;
      if (int b = broken()) { if (done) return done; return fail(b); }
      if (nb) { if (done) return done; return err(EAGAIN); }
      if (done && fault(C.p_short_send, "send interrupted after part")) return done;
      probe("send blocked on a full socket buffer");
      WakeReason r = fiber_block(e->wr, NEVER, true, "send");
      if (r == WK_INTR) { if (done) return done; sig_deliver_check(); return err(EINTR); }
      if (int b = broken()) { if (done) return done; return fail(b); }
      continue;
    }
    while (i < cnt && o >= iov[i].iov_len) { i++; o = 0; }
    size_t k = std::min({s, limit - done, iov[i].iov_len - o});
    heap_check((u8 *)iov[i].iov_base + o, k, false, "sendmsg");   // still valid after a blocking wait?
    transmit(e, (const u8 *)iov[i].iov_base + o, k); done += k; o += k;
    if (done < limit && !(s - k)) { mem_point(); full = false; }
  }
  return done;
}
static ssize_t do_recv(FileDesc *f, void *buf, size_t n, bool peek = false) {
  End *e = f->end; TransportScope ts;
  heap_check(buf, n, true, "read");
  stall_point();
  if (e->err_reported) e->io_after_err = true;
  if (!n) return 0;
  if (!f->nonblock && fault(C.p_eintr, "EINTR on read")) return err(EINTR);
  if (C.p_recv_err && fault(C.p_recv_err, "read error (transient, ENOMEM)")) { e->injected = true; mark_err(e); return err(ENOMEM); }
  if (fault(C.p_recv_err, "read error (connection reset)")) { cut_conn(e); mark_err(e); return err(ECONNRESET); }
  for (;;) {
    if (!e->rx.empty()) {
      size_t k = std::min(n, e->rx.size());
      if (k > 1 && fault(C.p_short_read, "short read")) k = 1 + choose(ST_FAULT, (u32)(k - 1));
      std::copy(e->rx.begin(), e->rx.begin() + k, (u8 *)buf);
      if (!peek) { e->rx.erase(e->rx.begin(), e->rx.begin() + k); e->received += k; wake_all(e->peer->wr); wake_all(K.pollq); if (K.on_recv) K.on_recv(e, k); }
      return k;
    }
    if (e->rst) { mark_err(e); return err(ECONNRESET); }
    if (e->eof_rx) { mark_err(e); return 0; }
    if (f->nonblock) return err(EAGAIN);
    WakeReason r = fiber_block(e->rd, NEVER, true, "read");
    if (r == WK_INTR) { sig_deliver_check(); return err(EINTR); }
  }
}

// ------------------------------------------------------------------ files
Inode *inode_get(const string &path, bool create) {
  auto it = K.fs.find(path); if (it != K.fs.end()) return it->second;
  if (!create) return nullptr;
  Inode *n = new Inode; n->name = path; n->id = K.inodes.size(); n->created_ns = now_ns(); n->created_real = real_ns(); K.inodes.push_back(n); K.fs[path] = n; return n;
}
void inode_put(const string &path, const string &d) { inode_get(path, true)->data = d; }
static ssize_t file_write(FileDesc *f, const void *buf, size_t n) {
  Inode *ino = f->ino; Proc *p = P();
  if ((f->oflags & O_ACCMODE) == O_RDONLY) return err(EBADF);
  heap_check(buf, n, false, "write");
  stall_point();
  if (!n) return 0;
  if (fault(C.p_fwrite_err, "file write error")) { p->fault_errs++; K.disk_errors++; return err(chance(ST_FAULT, 1, 2) ? EIO : ENOSPC); }
  size_t k = n;
  bool torn = K.kill_at_write && p == K.kill_proc && K.kill_at_write-- == 1; if (torn) { fault_fired("process killed inside a file write"); k = choose(ST_FAULT, (u32)n + 1); }
  if (!torn && k > 1 && fault(C.p_fshort, "short file write")) k = 1 + choose(ST_FAULT, (u32)(k - 1));
  if (C.disk_quota >= 0) {
    i64 left = C.disk_quota - K.disk_used;
    if (left <= 0) { fault_fired("disk full (ENOSPC)"); p->fault_errs++; K.disk_errors++; return err(ENOSPC); }
    if ((i64)k > left) { k = left; fault_fired("disk full: short write"); }
  }
  if (f->oflags & O_APPEND) f->off = ino->data.size();
  if (ino->data.size() < f->off + k) ino->data.resize(f->off + k);
  memcpy(&ino->data[f->off], buf, k); f->off += k; K.disk_used += k; ino->last_write_seq = gseq();
  for (size_t i = 0; i < k; i += 64) hash_event(38, ((const u8 *)buf)[i]);
  if (K.on_file_write) K.on_file_write(ino, (const char *)buf, k);
  if (torn) proc_kill9(p);
  return k;
}
static ssize_t file_read(FileDesc *f, void *buf, size_t n) {
  Proc *p = P();
  heap_check(buf, n, true, "read");
  stall_point();
  if (fault(C.p_fread_err, "file read error")) { p->fault_errs++; if (K.on_read_err) K.on_read_err(f->ino, f->off); return err(EIO); }
  Inode *ino = f->ino; if (f->off >= ino->data.size()) return 0;
  size_t k = std::min(n, ino->data.size() - f->off);
  if (k > 1 && fault(C.p_short_read, "short read")) k = 1 + choose(ST_FAULT, (u32)(k - 1));
  memcpy(buf, ino->data.data() + f->off, k); f->off += k; return k;
}
static bool no_dir(const char *path) { return !*path || (!K.nodir.empty() && !strncmp(path, K.nodir.c_str(), K.nodir.size())); }
static int do_open(const char *path, int flags) {
  heap_check(path, 1, false, "open");
  stall_point();
  Proc *p = P();
  if (fault(C.p_fopen_err, "open error")) { p->fault_errs++; if (K.on_open_err) K.on_open_err(path); static const int es[] = {EACCES, EMFILE, EIO}; return (int)err(es[choose(ST_FAULT, 3)]); }
  Inode *n = inode_get(path, false);
  if (no_dir(path)) return (int)err(ENOENT);
  if (!n) { if (!(flags & O_CREAT)) return (int)err(ENOENT); n = inode_get(path, true); n->creations++; }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return (int)err(EEXIST);
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  if (w && (flags & O_TRUNC)) { if (!n->data.empty() || n->open_count || n->n_opened_w) n->generations.push_back(n->data); K.disk_used -= n->data.size(); if (K.disk_used < 0) K.disk_used = 0; n->data.clear(); }
  FileP f = mkfd(FK_REG); f->ino = n; f->oflags = flags; n->open_count++; if (w) { n->n_opened_w++; n->write_fds++; n->created_real = real_ns(); if (K.on_file_open_w) K.on_file_open_w(n); }
  return fd_alloc(f);
}

// ------------------------------------------------------------------ generic descriptor operations
static int do_close(int fd) {
  Proc *p = P(); auto it = p->fds.find(fd);
  if (it == p->fds.end()) { p->n_ebadf_close++; probe("close of an unopened descriptor"); return (int)err(EBADF); }
  FileP f = it->second; p->fds.erase(it); p->n_close++;
  int rv = 0;
  if (--f->refs > 0) return 0;
  switch (f->kind) {
    case FK_SOCK: end_do_close(f->end, false); break;
    case FK_LISTEN: unlisten(f->lis); break;
    case FK_REG: {
      f->ino->open_count--;
      if ((f->oflags & O_ACCMODE) != O_RDONLY) { f->ino->write_fds--; if (K.on_file_close_w) K.on_file_close_w(f->ino); if (fault(C.p_fclose_err, "file close error")) { p->fault_errs++; K.disk_errors++; rv = (int)err(EIO); } }
      break; }
    case FK_PIPE_R: f->pipe->rclosed = true; wake_all(f->pipe->wr); wake_all(K.pollq); break;
    case FK_PIPE_W: f->pipe->wclosed = true; wake_all(f->pipe->rd); wake_all(K.pollq); break;
    default: break;
  }
  return rv;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
  FileDesc *f = fd_get(fd); if (!f) return err(EBADF);
  switch (f->kind) {
    case FK_SOCK: case FK_SOCK_NEW: { iovec v{(void *)buf, n}; return do_send(f, &v, 1, 0); }
    case FK_REG: return file_write(f, buf, n);
    case FK_SINK: {
      Proc *p = P();
      if (f->sink == &p->out && (C.p_stdout_err || C.stdout_quota >= 0 || C.p_fshort)) {
        heap_check(buf, n, false, "write"); if (n && fault(C.p_stdout_err, "standard output write error")) { p->fault_errs++; if (!K.stdout_errors++) K.stdout_err_at = f->sink->size(); return err(EIO); }
        if (n > 1 && fault(C.p_fshort, "short write to standard output")) n = 1 + choose(ST_FAULT, (u32)(n - 1));
        if (C.stdout_quota >= 0) { i64 left = C.stdout_quota - (i64)f->sink->size(); if (n && left <= 0) { fault_fired("standard output full (ENOSPC)"); p->fault_errs++; if (!K.stdout_errors++) K.stdout_err_at = f->sink->size(); return err(ENOSPC); } if ((i64)n > left) n = left; }
      }
      if (f->sink->size() < (8u << 20)) f->sink->append((const char *)buf, n); return n; }
    case FK_PIPE_W: {
      PipeBuf *pb = f->pipe; if (pb->rclosed) return err(EPIPE);
      if (pb->q.size() + n > pb->cap) return err(EAGAIN);
      pb->q.insert(pb->q.end(), (const u8 *)buf, (const u8 *)buf + n); wake_all(pb->rd); wake_all(K.pollq); return n; }
    default: return err(EBADF);
  }
}
static ssize_t do_read(int fd, void *buf, size_t n) {
  FileDesc *f = fd_get(fd); if (!f) return err(EBADF);
  switch (f->kind) {
    case FK_SOCK_NEW: return err(ENOTCONN);
    case FK_SOCK: return do_recv(f, buf, n);
    case FK_REG: return file_read(f, buf, n);
    case FK_NULLIN: return 0;
    case FK_PIPE_R: {
      PipeBuf *pb = f->pipe;
      for (;;) {
        if (!pb->q.empty()) { size_t k = std::min(n, pb->q.size()); std::copy(pb->q.begin(), pb->q.begin() + k, (u8 *)buf); pb->q.erase(pb->q.begin(), pb->q.begin() + k); return k; }
        if (pb->wclosed) return 0; if (f->nonblock) return err(EAGAIN);
        if (fiber_block(pb->rd, NEVER, true, "pipe read") == WK_INTR) { sig_deliver_check(); return err(EINTR); }
      } }
    default: return err(EBADF);
  }
}
static short readiness(FileDesc *f, short want) {
  short r = 0;
  switch (f->kind) {
    case FK_SOCK: { End *e = f->end;
      if (!e->rx.empty() || e->eof_rx || e->rst) r |= POLLIN | POLLRDNORM;
      if (e->rst) r |= POLLERR | POLLHUP; else if (e->eof_rx && (e->peer->closed || e->shut_wr)) r |= POLLHUP;
      if (space(e) || e->rst || e->peer->closed) r |= POLLOUT | POLLWRNORM; break; }
    case FK_LISTEN: if (!f->lis->backlog.empty()) r |= POLLIN | POLLRDNORM; break;
    case FK_PIPE_R: if (!f->pipe->q.empty()) r |= POLLIN | POLLRDNORM; if (f->pipe->wclosed) r |= POLLHUP; break;
    case FK_PIPE_W: r |= POLLOUT | POLLWRNORM; break;
    case FK_SOCK_NEW: r |= POLLOUT | POLLHUP; break;
    default: r |= POLLIN | POLLOUT;
  }
  return r & (want | POLLERR | POLLHUP);
}

// ------------------------------------------------------------------ signals
static void proc_release_fds(Proc *p) {
  for (auto &x : p->fds) { FileP f = x.second; if (--f->refs > 0) continue; if (f->kind == FK_SOCK) end_do_close(f->end, false); else if (f->kind == FK_LISTEN) unlisten(f->lis); else if (f->kind == FK_PIPE_R) f->pipe->rclosed = true; else if (f->kind == FK_PIPE_W) f->pipe->wclosed = true; else if (f->kind == FK_REG) { f->ino->open_count--; if ((f->oflags & O_ACCMODE) != O_RDONLY) { f->ino->write_fds--; } } }
  p->fds.clear();
}
static void proc_end(Proc *p, int code, bool killed) {
  if (p->exited) return;
  stdio_proc_exit(p, !killed);
  p->exited = true; p->exit_time = now_ns(); p->exit_code = code; p->killed = killed; p->pending = 0;
  EV(40, code, killed, "process %s %s %d", p->name.c_str(), killed ? "killed, status" : "exits with status", code);
  proc_release_fds(p); wake_all(p->exit_q);
  fiber_kill_proc(p);
}
static void run_atexit(Proc *p) { while (p->atexit_fns.size()) { auto f = p->atexit_fns.back(); p->atexit_fns.pop_back(); f(); } }
void proc_kill9(Proc *p) { proc_end(p, 128 + SIGKILL, true); }
void sim_kill(Proc *p, int s) {
  if (p->exited) return;
  EV(41, s, 0, "signal %d sent to %s", s, p->name.c_str());
  if (s == SIGKILL) { proc_kill9(p); return; }
  if (p->sig[s].h == SIG_IGN) return;
  if (p->sig[s].h == nullptr) { probe("signal with default action ends the process"); proc_end(p, 128 + s, true); return; }
  p->pending |= 1ull << s; g_sig_pending = true;
  if (p->main_fiber >= 0) fiber_interrupt(p->main_fiber);
}
void sig_deliver_check() {
  Proc *p = cur_proc(); if (!p || p->in_handler || !p->pending || p->main_fiber != fiber_self()) return;
  int se = errno;
  while (u64 m = p->pending & ~fiber_sigmask(fiber_self())) {
    int s = __builtin_ctzll(m); p->pending &= ~(1ull << s);
    EV(42, s, 0, "signal handler for %d runs", s); fault_fired("signal delivered");
    p->in_handler = true; p->sig[s].h(s); p->in_handler = false;
  }
  errno = se;
}
int proc_run(Proc *p, main_fn fn, const vector<string> &args, size_t) {
  vector<string> *a = new vector<string>(args);
  return p->main_fiber = fiber_spawn(p->name.c_str(), [p, fn, a] {
    stdio_init(p);
    char **av = (char **)sim_malloc((a->size() + 1) * sizeof(char *));
    for (size_t i = 0; i < a->size(); i++) { av[i] = (char *)sim_malloc((*a)[i].size() + 1); memcpy(av[i], (*a)[i].c_str(), (*a)[i].size() + 1); }
    av[a->size()] = nullptr;
    int rc = fn(a->size(), av); run_atexit(p);
    proc_end(p, rc & 0xff, false);
  }, p);
}
void proc_wait(Proc *p, u64 deadline) { while (!p->exited && now_ns() < deadline) fiber_block(p->exit_q, deadline, false, "waiting for process exit"); }

extern "C" {
void sim_exit(int code) { if (P()->is_app) fatal_violation("*", "exit", "the library ends the process: exit(%d)", code); run_atexit(P()); proc_end(P(), code & 0xff, false); __builtin_unreachable(); }
int sim_atexit(void (*f)()) { P()->atexit_fns.push_back(f); return 0; }
void sim__exit(int code) { Proc *p = P(); if (p->is_app) fatal_violation("*", "exit", "the library ends the process: _exit(%d)", code); stdio_proc_exit(p, false); proc_end(p, code & 0xff, false); __builtin_unreachable(); }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
  Proc *p = P(); if (s < 1 || s > 64) return (int)err(EINVAL);
  if (n && p->embed && n->sa_handler != p->sig[s].h) violation("C29", "signal-disposition", "the library changes what signal %d does", s);
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = p->sig[s].h; o->sa_flags = p->sig[s].flags; }
  if (n) { p->sig[s].h = n->sa_handler; p->sig[s].flags = n->sa_flags; EV(43, s, 0, "sigaction(%d)", s); }
  yield_point(); return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int) { Proc *p = P(); auto o = p->sig[s].h; if (p->embed && o != h) violation("C29", "signal-disposition", "the library changes what signal %d does", s); p->sig[s].h = h; return o; }
int sim_kill_call(pid_t, int s) { if (P()->is_app) violation("C29", "sends-signal", "the library sends signal %d to the application", s); sim_kill(P(), s); if (g_sig_pending) sig_deliver_check(); return 0; }
int sim_raise(int s) { return sim_kill_call(0, s); }
pid_t sim_getpid() { return P()->pid; }

int sim_socket(int dom, int type, int) {
  sys_enter("socket"); if (dom != AF_UNIX && dom != AF_INET && dom != AF_INET6) RET(err(EAFNOSUPPORT), "socket", "%d", dom);
  if (K.no_sock_cloexec && (type & SOCK_CLOEXEC)) { fault_fired("no SOCK_CLOEXEC"); RET(err(EINVAL), "socket", "%d", dom); }
  if (fault(C.p_socket_err, "socket() error")) { P()->fault_errs++; K.attempts.push_back({now_ns(), gseq(), -EMFILE, "", nullptr, fiber_self(), now_ns(), fiber_blocked_ns(fiber_self())}); RET(err(EMFILE), "socket", "%d", dom); }
  FileP f = mkfd(FK_SOCK_NEW); f->family = dom; f->nonblock = type & SOCK_NONBLOCK; f->cloexec = type & SOCK_CLOEXEC; int fd = fd_alloc(f); if (!K.newsock.w.empty()) { wake_all(K.newsock); yield_point(); } RET(fd, "socket", "%d", dom);
}
int sim_connect(int fd, const struct sockaddr *sa, socklen_t len) {
  sys_enter("connect"); heap_check(sa, len, false, "connect");
  FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "connect", "%d", fd);
  if (f->kind == FK_SOCK) RET(err(EISCONN), "connect", "%d", fd);
  if (f->kind != FK_SOCK_NEW) RET(err(ENOTSOCK), "connect", "%d", fd);
  string key = addr_key(sa, len); TransportScope ts; if (int e = addr_bad(f, sa, len)) RET(err(e), "connect", "%d, %s", fd, key.c_str()); if (!K.want_addr.empty() && key != K.want_addr) violation("C02,C07,C09,C10,C16,C22", "wrong-address", "connects to %s instead of the configured %s", key.c_str(), K.want_addr.c_str()); size_t ai = K.attempts.size();
  K.attempts.push_back({now_ns(), gseq(), 0, key, nullptr, fiber_self(), 0, fiber_blocked_ns(fiber_self())});
  auto fin = [&](int e) { K.attempts[ai].result = e; K.attempts[ai].t_done = now_ns(); };
  stall_point();
  if (C.p_connect_err && fault(C.p_eintr, "EINTR on connect")) { fin(EINTR); RET(err(EINTR), "connect", "%d, %s", fd, key.c_str()); }
  if (fault(C.p_connect_err, "connect error")) { if (sa->sa_family != AF_UNIX && chance(ST_FAULT, 1, 4)) sim_sleep((1 + choose(ST_FAULT, 20)) * NS); fin(ECONNREFUSED); RET(err(ECONNREFUSED), "connect", "%d, %s", fd, key.c_str()); }
  for (;;) {
    auto it = K.listeners.find(key);
    if (it == K.listeners.end() || it->second->refusing) { bool un = sa->sa_family == AF_UNIX && it == K.listeners.end(); fin(un ? ENOENT : ECONNREFUSED); fault_fired("connection refused (no listener)"); RET(err(un ? ENOENT : ECONNREFUSED), "connect", "%d, %s", fd, key.c_str()); }
    Listener *l = it->second;
    if (l->backlog.size() < l->maxbacklog) {
      ConnRec *c = conn_make(l); f->kind = FK_SOCK; f->end = &c->a; K.attempts[ai].rec = c; fin(0);
      if (l->tcp && C.net_delay_max_ns) sim_sleep((u64)choose(ST_NET, 1000) * C.net_delay_max_ns / 1000);
      RET(0, "connect", "%d, %s: connection %d", fd, key.c_str(), c->id);
    }
    if (fiber_block(l->acc, NEVER, true, "connect") == WK_INTR) { sig_deliver_check(); fin(EINTR); RET(err(EINTR), "connect", "%d", fd); }
  }
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t len) {
  sys_enter("bind"); FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "bind", "%d", fd);
  string key = addr_key(sa, len);
  if (fault(C.p_bind_err, "bind() error")) { P()->fault_errs++; RET(err(sa->sa_family == AF_UNIX ? EACCES : EADDRNOTAVAIL), "bind", "%d, %s", fd, key.c_str()); }
  if (int e = addr_bad(f, sa, len)) RET(err(e), "bind", "%d, %s", fd, key.c_str());
  if (sa->sa_family == AF_UNIX && no_dir(key.c_str() + 5)) RET(err(ENOENT), "bind", "%d, %s", fd, key.c_str());
  if (K.listeners.count(key) || (sa->sa_family == AF_UNIX && inode_get(key.substr(5), false))) RET(err(EADDRINUSE), "bind", "%d, %s", fd, key.c_str());
  if (!f->reuse && sa->sa_family != AF_UNIX) { auto t = K.tw.find(key); if (t != K.tw.end() && t->second > now_ns()) { fault_fired("address held by TIME_WAIT"); RET(err(EADDRINUSE), "bind", "%d, %s", fd, key.c_str()); } }
  f->bindkey = key; if (sa->sa_family == AF_UNIX) { inode_get(key.substr(5), true)->is_socket = true; }
  RET(0, "bind", "%d, %s", fd, key.c_str());
}
int sim_listen(int fd, int backlog) {
  sys_enter("listen"); FileDesc *f = fd_get(fd); if (!f || f->bindkey.empty()) RET(err(EINVAL), "listen", "%d", fd);
  if (fault(C.p_listen_err, "listen() error")) { P()->fault_errs++; RET(err(EADDRINUSE), "listen", "%d", fd); }
  Listener *l = listen_on(f->bindkey, f->family != AF_UNIX); l->maxbacklog = backlog < 1 || backlog > 128 ? 128 : backlog; f->kind = FK_LISTEN; f->lis = l; RET(0, "listen", "%d", fd);
}
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags) {
  sys_enter("accept"); FileDesc *f = fd_get(fd); if (!f || f->kind != FK_LISTEN) RET(err(EBADF), "accept", "%d", fd);
  Listener *l = f->lis;
  if (!l->backlog.empty() && fault(C.p_accept_err, "accept error")) { static const int es[] = {EMFILE, ECONNABORTED, EINTR}; int e = es[choose(ST_FAULT, 3)]; if (e == ECONNABORTED) { ConnRec *c = l->backlog.front(); l->backlog.pop_front(); end_do_close(&c->b, true); } RET(err(e), "accept", "%d", fd); }
  while (l->backlog.empty()) { if (f->nonblock) RET(err(EAGAIN), "accept", "%d", fd); if (fiber_block(l->acc, NEVER, true, "accept") == WK_INTR) { sig_deliver_check(); RET(err(EINTR), "accept", "%d", fd); } }
  ConnRec *c = l->backlog.front(); l->backlog.pop_front(); c->accepted = true; c->accept_time = now_ns(); wake_all(l->acc); if (K.on_accept) K.on_accept(c);
  FileP n = mkfd(FK_SOCK); n->end = &c->b; n->nonblock = flags & SOCK_NONBLOCK;
  if (sa && len) { socklen_t m = *len < sizeof(sa_family_t) ? *len : sizeof(sa_family_t); bool v6 = l->tcp && l->key.compare(0, 4, "tcp:") == 0 && std::count(l->key.begin(), l->key.end(), ':') > 2; sa_family_t fam = v6 ? AF_INET6 : l->tcp ? AF_INET : AF_UNIX; memcpy(sa, &fam, m); *len = v6 ? sizeof(sockaddr_in6) : l->tcp ? sizeof(sockaddr_in) : sizeof(sa_family_t); }
  int nf = fd_alloc(n); RET(nf, "accept", "%d: connection %d", fd, c->id);
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *len) { return sim_accept4(fd, sa, len, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags) {
  sys_enter("sendmsg"); FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "sendmsg", "%d", fd);
  heap_check(m, sizeof *m, false, "sendmsg");
  ssize_t r = do_send(f, m->msg_iov, (int)m->msg_iovlen, flags); yield_point(); RET(r, "sendmsg", "%d, %zu iovecs", fd, (size_t)m->msg_iovlen);
}
ssize_t sim_send(int fd, const void *b, size_t n, int flags) {
  sys_enter("send"); FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "send", "%d", fd);
  if (f->kind == FK_PIPE_W) RET(do_write(fd, b, n), "send", "%d", fd);
  iovec v{(void *)b, n}; ssize_t r = do_send(f, &v, 1, flags); yield_point(); RET(r, "send", "%d, %zu", fd, n);
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, flags); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
  sys_enter("writev"); FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "writev", "%d", fd);
  if (f->kind == FK_SOCK || f->kind == FK_SOCK_NEW) { ssize_t r = do_send(f, v, c, 0); yield_point(); RET(r, "writev", "%d, %d iovecs", fd, c); }
  ssize_t tot = 0; for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) { if (tot) break; RET(r, "writev", "%d", fd); } tot += r; if ((size_t)r < v[i].iov_len) break; }
  RET(tot, "writev", "%d, %d iovecs", fd, c);
}
ssize_t sim_write(int fd, const void *b, size_t n) { sys_enter("write"); ssize_t r; FileDesc *f = fd_get(fd); if (f && f->kind == FK_SOCK) { iovec v{(void *)b, n}; r = do_send(f, &v, 1, 0); } else r = do_write(fd, b, n); yield_point(); RET(r, "write", "%d, %zu", fd, n); }
ssize_t sim_read(int fd, void *b, size_t n) { sys_enter("read"); ssize_t r = do_read(fd, b, n); yield_point(); RET(r, "read", "%d, %zu", fd, n); }
ssize_t sim_recv(int fd, void *b, size_t n, int flags) {
  sys_enter("recv"); FileDesc *f = fd_get(fd); ssize_t r;
  if (f && f->kind == FK_SOCK) { bool nb = f->nonblock; if (flags & MSG_DONTWAIT) f->nonblock = true; r = do_recv(f, b, n, flags & MSG_PEEK); 
    if (flags & MSG_WAITALL) while (r > 0 && (size_t)r < n) { ssize_t k = do_recv(f, (u8 *)b + r, n - r); if (k <= 0) break; r += k; }
    f->nonblock = nb; }
  else r = do_read(fd, b, n);
  yield_point(); RET(r, "recv", "%d, %zu", fd, n);
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, flags); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
  sys_enter("readv"); FileDesc *f = fd_get(fd); if (!f) RET(err(EBADF), "readv", "%d", fd);
  size_t tot = 0; for (int i = 0; i < c; i++) { heap_check(v[i].iov_base, v[i].iov_len, true, "readv"); tot += v[i].iov_len; }
  string tmp(tot, 0); ssize_t r = do_read(fd, &tmp[0], tot);
  if (r > 0) { size_t o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, &tmp[o], k); o += k; } }
  yield_point(); RET(r, "readv", "%d, %zu", fd, tot);
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int) { return sim_readv(fd, m->msg_iov, m->msg_iovlen); }
int sim_close(int fd) {
  sys_enter("close"); FileDesc *f = fd_get(fd); bool sock = f && f->kind == FK_SOCK;
  stall_point();
  int r = do_close(fd);
  if (r == 0 && sock && fault(C.p_close_err, "close error")) { P()->fault_errs++; r = (int)err(choose(ST_FAULT, 2) ? EINTR : EIO); }
  RET(r, "close", "%d", fd);
}
int sim_shutdown(int fd, int how) { sys_enter("shutdown"); FileDesc *f = fd_get(fd); if (!f || f->kind != FK_SOCK) RET(err(ENOTCONN), "shutdown", "%d", fd); if (how != SHUT_RD) end_shut_wr(f->end); RET(0, "shutdown", "%d", fd); }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  FileDesc *f = fd_get(fd); if (!f) return (int)err(EBADF);
  mem_point();
  switch (cmd) { case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0; case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0; case F_GETFL: return f->nonblock ? O_NONBLOCK : 0; case F_SETFL: f->nonblock = arg & O_NONBLOCK; return 0; default: return 0; }
}
int sim_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); int *a = va_arg(ap, int *); va_end(ap); FileDesc *f = fd_get(fd); if (!f) return (int)err(EBADF);
  if (req == FIONREAD) { *a = f->kind == FK_SOCK ? (int)f->end->rx.size() : f->kind == FK_PIPE_R ? (int)f->pipe->q.size() : 0; return 0; }
  if (req == FIONBIO) { f->nonblock = *a; return 0; }
  return (int)err(EINVAL);
}
int sim_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { FileDesc *f = fd_get(fd); if (!f) return (int)err(EBADF); if (lv == SOL_SOCKET && (o == SO_REUSEADDR || o == SO_REUSEPORT) && n >= sizeof(int)) f->reuse = *(const int *)v; return 0; }
int sim_getsockopt(int fd, int, int opt, void *v, socklen_t *l) { FileDesc *f = fd_get(fd); if (!f) return (int)err(EBADF); if (v && l && *l >= sizeof(int)) { *(int *)v = opt == SO_ERROR && f->kind == FK_SOCK && f->end->rst ? ECONNRESET : 0; *l = sizeof(int); } return 0; }
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *l) { if (!fd_get(fd)) return (int)err(EBADF); memset(sa, 0, *l); sa->sa_family = AF_UNIX; *l = sizeof(sa_family_t); return 0; }
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *l) { return sim_getsockname(fd, sa, l); }
int sim_pipe2(int *fds, int flags) {
  PipeBuf *pb = new PipeBuf; FileP r = mkfd(FK_PIPE_R), w = mkfd(FK_PIPE_W); r->pipe = w->pipe = pb; r->nonblock = w->nonblock = flags & O_NONBLOCK; fds[0] = fd_alloc(r); fds[1] = fd_alloc(w); return 0;
}
int sim_pipe(int *fds) { return sim_pipe2(fds, 0); }
int sim_socketpair(int, int type, int, int *fds) { // used by libevent for its signal pipe only
  PipeBuf *pb = new PipeBuf; FileP r = mkfd(FK_PIPE_R), w = mkfd(FK_PIPE_W); r->pipe = w->pipe = pb; r->nonblock = w->nonblock = type & SOCK_NONBLOCK; fds[1] = fd_alloc(r); fds[0] = fd_alloc(w); return 0;
}
int sim_eventfd(unsigned, int) { return (int)err(ENOSYS); }
int sim_epoll_create1(int) { return (int)err(ENOSYS); }
int sim_epoll_create(int) { return (int)err(ENOSYS); }
int sim_epoll_ctl(int, int, int, void *) { return (int)err(ENOSYS); }
int sim_epoll_wait(int, void *, int, int) { return (int)err(ENOSYS); }
int sim_timerfd_create(int, int) { return (int)err(ENOSYS); }
int sim_timerfd_settime(int, int, const void *, void *) { return (int)err(ENOSYS); }
int sim_poll(struct pollfd *p, nfds_t n, int ms) {
  P()->n_polls++; if (K.on_poll && ms) K.on_poll(); sys_enter("poll"); stall_point();
  u64 dl = ms < 0 ? NEVER : now_ns() + (u64)ms * MS;
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; FileDesc *f = fd_get(p[i].fd); if (!f) p[i].revents = POLLNVAL; else p[i].revents = readiness(f, p[i].events); if (p[i].revents) c++; }
    if (c || ms == 0) RET(c, "poll", "%zu fds, %d", (size_t)n, ms);
    if (P()->pending & ~fiber_sigmask(fiber_self())) { sig_deliver_check(); RET(err(EINTR), "poll", "%zu fds, %d", (size_t)n, ms); }
    WakeReason r = fiber_block(K.pollq, dl, true, "poll");
    if (r == WK_INTR) { sig_deliver_check(); RET(err(EINTR), "poll", "%zu fds, %d", (size_t)n, ms); }
    if (r == WK_TIMEOUT && now_ns() >= dl) RET(0, "poll", "%zu fds, %d", (size_t)n, ms);
  }
}
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return sim_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
int sim_select(int nfds, fd_set *rs, fd_set *ws, fd_set *es, struct timeval *tv) {
  vector<pollfd> v; for (int i = 0; i < nfds; i++) { short e = 0; if (rs && FD_ISSET(i, rs)) e |= POLLIN; if (ws && FD_ISSET(i, ws)) e |= POLLOUT; if (e) v.push_back({i, e, 0}); }
  int r = sim_poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1); if (r < 0) return r;
  if (rs) FD_ZERO(rs); if (ws) FD_ZERO(ws); if (es) FD_ZERO(es); int c = 0;
  for (auto &x : v) { if (rs && (x.revents & (POLLIN | POLLHUP | POLLERR)) && (x.events & POLLIN)) { FD_SET(x.fd, rs); c++; } if (ws && (x.revents & POLLOUT)) { FD_SET(x.fd, ws); c++; } }
  return c;
}
int sim_open(const char *path, int flags, ...) { sys_enter("open"); int r = do_open(path, flags); RET(r, "open", "%s, %#x", path, flags); }
int sim_openat(int, const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_creat(const char *path, mode_t) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC); }
off_t sim_lseek(int fd, off_t o, int wh) { FileDesc *f = fd_get(fd); if (!f || f->kind != FK_REG) return (off_t)err(ESPIPE); i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->off : (i64)f->ino->data.size(); if (b + o < 0) return (off_t)err(EINVAL); f->off = b + o; return f->off; }
int sim_fstat(int fd, struct stat *st) { FileDesc *f = fd_get(fd); if (!f) return (int)err(EBADF); memset(st, 0, sizeof *st); st->st_mode = f->kind == FK_REG ? S_IFREG | 0644 : S_IFSOCK | 0600; st->st_blksize = 4096; if (f->ino) st->st_size = f->ino->data.size(); return 0; }
int sim_stat(const char *path, struct stat *st) { Inode *n = inode_get(path, false); if (!n) return (int)err(ENOENT); memset(st, 0, sizeof *st); st->st_mode = n->is_socket ? S_IFSOCK | 0777 : S_IFREG | 0644; st->st_size = n->data.size(); return 0; }
int sim_access(const char *path, int) { return inode_get(path, false) ? 0 : (int)err(ENOENT); }
int sim_fsync(int fd) { sys_enter("fsync"); return fd_get(fd) ? 0 : (int)err(EBADF); }
int sim_ftruncate(int fd, off_t n) { FileDesc *f = fd_get(fd); if (!f || f->kind != FK_REG) return (int)err(EINVAL); f->ino->data.resize(n); return 0; }
int sim_unlink(const char *path) {
  sys_enter("unlink"); if (fault(C.p_remove_err, "unlink error")) { P()->fault_errs++; RET(err(EACCES), "unlink", "%s", path); }
  auto it = K.fs.find(path); if (it == K.fs.end()) RET(err(ENOENT), "unlink", "%s", path);
  if (K.on_unlink) K.on_unlink(path);
  it->second->unlinked = true; if (it->second->is_socket) { auto l = K.listeners.find(string("unix:") + path); if (l != K.listeners.end()) l->second->refusing = false; }
  K.fs.erase(it); RET(0, "unlink", "%s", path);
}
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_rename(const char *a, const char *b) { sys_enter("rename"); auto it = K.fs.find(a); if (it == K.fs.end()) RET(err(ENOENT), "rename", "%s", a); Inode *n = it->second; K.fs.erase(it); K.fs[b] = n; n->name = b; RET(0, "rename", "%s, %s", a, b); }
int sim_isatty(int fd) { if (K.tty && fd == 1) return 1; errno = ENOTTY; return 0; }
int sim_dup2(int a, int b) {
  sys_enter("dup2"); Proc *p = P(); auto it = p->fds.find(a); if (it == p->fds.end()) RET(err(EBADF), "dup2", "%d, %d", a, b); if (a == b) return b;
  FileP f = it->second; if (p->fds.count(b)) sim_close(b); f->refs++; p->fds[b] = f; p->n_open++; RET(b, "dup2", "%d, %d", a, b);
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { FileDesc *f = fd_get(fd); if (!f || f->kind != FK_REG) return err(f ? ESPIPE : EBADF); auto k = f->off; f->off = o; ssize_t r = sim_read(fd, b, n); f = fd_get(fd); if (f) f->off = k; return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { FileDesc *f = fd_get(fd); if (!f || f->kind != FK_REG) return err(f ? ESPIPE : EBADF); auto k = f->off; f->off = o; ssize_t r = sim_write(fd, b, n); f = fd_get(fd); if (f) f->off = k; return r; }
int sim_dup(int fd) { Proc *p = P(); auto it = p->fds.find(fd); if (it == p->fds.end()) return (int)err(EBADF); it->second->refs++; return fd_alloc(it->second); }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
  heap_check(ts, sizeof *ts, true, "clock_gettime"); yield_point();
  i64 v; if (C.no_clocks & (c == CLOCK_MONOTONIC_COARSE ? 1 : c == CLOCK_MONOTONIC_RAW ? 2 : c == CLOCK_MONOTONIC ? 4 : 0)) { fault_fired("clock not available"); return (int)err(EINVAL); }
  switch (c) {
    case CLOCK_REALTIME: v = real_ns(); break;
    case CLOCK_REALTIME_COARSE: v = real_ns() / 4000000 * 4000000; break;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: v = now_ns(); break;
    case CLOCK_MONOTONIC_COARSE: v = now_ns() / 4000000 * 4000000; break;
    default: return (int)err(EINVAL);
  }
  ts->tv_sec = v / (i64)NS; ts->tv_nsec = v % (i64)NS; if (ts->tv_nsec < 0) { ts->tv_nsec += NS; ts->tv_sec--; }
  return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) { timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t sim_time(time_t *t) { yield_point(); time_t v = real_ns() / (i64)NS; if (t) *t = v; return v; }
int sim_clock_getres(clockid_t, struct timespec *ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *m) {
  yield_point(); u64 dl = now_ns() + r->tv_sec * NS + r->tv_nsec; WaitQ q;
  if (fiber_block(q, dl, true, "nanosleep") == WK_INTR) { if (m) { u64 left = dl > now_ns() ? dl - now_ns() : 0; m->tv_sec = left / NS; m->tv_nsec = left % NS; } sig_deliver_check(); return (int)err(EINTR); }
  return 0;
}
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *m) {
  timespec t = *r; if (flags & 1) { i64 now = c == CLOCK_REALTIME ? real_ns() : (i64)now_ns(), d = (i64)r->tv_sec * (i64)NS + r->tv_nsec - now; if (d < 0) d = 0; t = {(time_t)(d / (i64)NS), (long)(d % (i64)NS)}; }
  return sim_nanosleep(&t, flags & 1 ? nullptr : m) ? errno : 0;
}
int sim_usleep(unsigned us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return sim_nanosleep(&t, nullptr); }
unsigned sim_sleep_c(unsigned s) { timespec t{(time_t)s, 0}; sim_nanosleep(&t, nullptr); return 0; }
char *sim_getenv(const char *n) {
  static char one[] = "1";
  if (!strcmp(n, "EVENT_NOEPOLL") || !strcmp(n, "EVENT_NOSELECT")) return one;
  return nullptr;
}
void sim_tzset() {}
// the simulated time zone: UTC-07:30, no daylight saving
struct tm *sim_gmtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
struct tm *sim_localtime_r(const time_t *t, struct tm *r) { time_t v = *t - 27000; gmtime_r(&v, r); r->tm_gmtoff = -27000; r->tm_zone = "SIM"; return r; }
struct tm *sim_localtime(const time_t *t) { static struct tm r; return sim_localtime_r(t, &r); }
struct tm *sim_gmtime(const time_t *t) { static struct tm r; return gmtime_r(t, &r); }
size_t sim_strftime(char *b, size_t n, const char *f, const struct tm *tm) { heap_check(b, n, true, "strftime"); return strftime(b, n, f, tm); }
unsigned sim_arc4random() { return choose(ST_ENV, 0x7fffffff); }
void sim_arc4random_buf(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = choose(ST_ENV, 256); }
int sim_rand() { return choose(ST_ENV, 0x7fffffff); }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_IOV_MAX ? 1024 : 1; }
}
